"""C34: machines whose emulated kernel is of the user's own."""
import json
from cpugen import *
from cpu import Tables

TRAPS = [0, 5, 8, 10, 14, 15, 16, 17, 18, 19, 31]
STACK, DATA = 0x6000, 0x4000

def tables(r, root):
    """the first pages mapped to themselves, the data page, the stack; some bad entries"""
    l2, m = root + 0x100, {}
    def entry(at, addr, fl):
        m[at] = [fl, addr & 255, addr >> 8 & 255, addr >> 16 & 255]
    ok = r.choice([0x2f, 0x3f, 0x0f])
    for i, v1 in enumerate((0, 4, 6)):
        if r.random() < .9:
            entry(root + 4 * v1, l2 + 0x80 * i, ok)
    for p in range(32):
        entry(l2 + 4 * p, p * 128, ok if r.random() < .95 else r.choice([0, 0x21, 0x23, 0x29]))
    for i, base in ((1, DATA), (2, STACK - 128)):
        entry(l2 + 0x80 * i + 4 * (base >> 7 & 31), base, ok if r.random() < .8 else r.choice([0, 0x21, 0x23]))
    # the page under the stack's is one region lower
    entry(l2 + 0x80, DATA, ok)
    return m

def program(r, base, size, loops):
    """straight code with traps; ends come of themselves. Places of one-byte faults"""
    code, weak = [], []
    W = lambda: r.randrange(1, 11)
    B = lambda: r.randrange(1, 16)
    while len(code) < size:
        k = r.random()
        if k < .35:
            weak.append(base + len(code))
            code += [r.choice([12, 12, 12, 12, 0, 10, 0xee, 13, 16, 17, 18])]
        elif k < .42:
            code += r.choice([ins(82, W(), W(), W(), 0), ins(81, B(), B(), B(), 0), ins(65, 1, 2, 3)[:2] + [0x31], ins(64, 1, 5, w=word(r)),
                              ins(19, 1, 2, 3) if loops else [12]])
        elif k < .52:
            code += ins(r.choice([39, 40]), 0, W(), w=DATA + r.randrange(130)) if r.random() < .5 else ins(r.choice([43, 44]), W(), 0, w=DATA + r.randrange(130))
        elif k < .6:
            code += ins(34, W()) if r.random() < .6 else ins(36, W())
        elif k < .68:
            code += ins(r.choice(JUMPS), w=min(base + len(code) + 3 + r.choice([0, 1, 2, 5]), base + size + 2))
        elif k < .8:
            code += ins(64, W(), 0, w=word(r))
        elif k < .84 and loops:
            code += r.choice([[13], [38, 0], ins(37, w=base + r.randrange(size)), ins(64, W(), 1, w=0), ins(64, r.choice([11, 14, 15]), 0, w=word(r)), [16]])
        else:
            op = r.choice(BYTE_ALU + WIDE_ALU)
            code += ins(op, B(), B(), B()) if op in BYTE_ALU else ins(op, W(), W(), W())
    return code, weak

def act(r, places, weak, free, going):
    """an act: as the harness's text and as a value"""
    a = {"r": [], "pc": [], "fl": [], "w": [], "v": -1 if r.random() < going else r.choice(TRAPS)}
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        n = r.randrange(1, 16) if free else r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13])
        a["r"].append([n, word(r)])
    if r.random() < .25:
        a["pc"] = [r.choice(places) if r.random() < .9 else word(r)]
    if r.random() < .25:
        a["fl"] = [r.randrange(256)]
    for _ in range(r.choice([0, 0, 0, 1, 3])):
        a["w"].append([r.choice(weak), 32] if weak and r.random() < .5 else [r.choice([DATA + r.randrange(128), 0x10000 + r.randrange(65536), 0xffffff]), r.randrange(256)])
    text = ["r%d:%x" % tuple(x) for x in a["r"]] + ["p:%x" % x for x in a["pc"]] + ["f:%x" % x for x in a["fl"]] + ["m%x:%x" % tuple(x) for x in a["w"]]
    text.append("g:0" if a["v"] == -1 else "t:%x" % a["v"])
    return ";".join(text), a

def c34(c):
    for b in range(6 if c.thorough else 1):
        batch(c, "machines%d" % b if b else "machines", "hook%d" % b if b else "hook", 4000 if c.thorough else 700)

def batch(c, label, rng, n_cases):
    r = c.rng(rng)
    cases, more = [], {}
    for i in range(n_cases):
        # free: anything may happen, so only single steps
        free = r.random() < .4
        base = r.choice([0x80, 0x100, 0x7fe, 0xf00])
        code, weak = program(r, base, r.choice([3, 10, 40, 100]), free)
        regs, fl = state(r, rh=r.choice([0, base, base + 8, word(r)]) if free else 0, um=r.random() < .5, vm=False, rv=r.random() < .2, tr=r.random() < .2)
        regs[10] = STACK - 40 if not free or r.random() < .7 else word(r)
        chunks = [(base, code), (DATA, [r.randrange(256) for _ in range(130)])]
        if r.random() < .35:
            root = r.choice([0x2000, 0x3000])
            chunks += sorted(tables(r, root).items())
            regs[13] = root
            fl |= 8
        places = [base, base + len(code)] + [base + 3 * k for k in range(len(code) // 3)] if free else weak + [base + len(code)]
        n = r.choice([0, 1, 1, 2, 3])
        kernels = []
        for _ in range(n):
            going = r.choice([0, .5, .9, 1])
            kernels.append([act(r, places, weak, free, going) for _ in range(r.choice([0, 1, 3, 12, 40]))])
        ops = []
        for _ in range(r.choice([3, 12, 40]) if free else r.choice([2, 6, 12])):
            k = r.random()
            if n and k < (.5 if not ops else .12):
                ops.append(["install", r.randrange(1, n + 1)])
            elif not free and k < .6:
                ops.append(["run"])
            else:
                ops += [["step"]] * r.choice([1, 1, 4])
        cs = {"id": "h%d" % i, "r": "".join("%04x" % x for x in regs), "pc": "%x" % base, "fl": "%x" % fl,
              "m": ",".join("%x:%s" % (a, bytes(b).hex()) for a, b in chunks),
              "ops": ",".join(o[0][0] + (str(o[1]) if len(o) > 1 else "") for o in ops)}
        for j, k in enumerate(kernels):
            cs["k%d" % (j + 1)] = "|".join(t for t, _ in k)
        cases.append(cs)
        more[cs["id"]] = {"ops": ops, "acts": [[a for _, a in k] for k in kernels]}
    lines = []
    for l in c.harness("hook", cases):
        j = json.loads(l)
        j.update(more[j["id"]])
        lines.append(json.dumps(j))
    c.validate("TraceMachine", lines, cases, invariants=("Conforms", "Kept"), label=label)
    c.parts[label]["asked"] = sum(len(s["asks"]) for l in lines for s in json.loads(l)["st"])
    c.parts[label]["unended"] = sum(s["o"] == -3 for l in lines for s in json.loads(l)["st"])

def context_case(r, id):
    """operations through the processor's context in a state with or without page tables"""
    vm, um = r.random() < .75, r.random() < .5
    regs, fl = state(r, rh=word(r), um=um, vm=vm)
    rp = r.choice([0x2000, 0x9000, 0xfec0, word(r) & 0xfffc])
    t = Tables(r, rp)
    good = r.choice([0x2f, 0x2f, 0x3f, 0x27, 0x0f])
    flags = lambda: good if r.random() < .7 else r.choice([r.randrange(64), 0x2f & ~(1 << r.randrange(6)), r.randrange(256)])
    base = r.choice([0, 0x1000, 0x3f80, 0x7fe0, 0xf000, 0xff00, word(r)])
    vps = sorted({(base + 128 * d >> 7) & 511 for d in range(r.choice([2, 4, 8]))} | ({0, 511} if r.random() < .4 else set()))
    frames = []
    for v in vps:
        if frames and r.random() < .15:
            t.page(v, flags(), frame=r.choice(frames))
        elif r.random() < .1 and v >> 5 in t.l2:
            # the table of the second level, or the root's page, seen through itself
            t.page(v, flags(), frame=r.choice([t.l2[v >> 5], rp & ~127]))
        else:
            frames.append(t.page(v, flags()))
    for v1 in list(t.l2):
        t.top(v1, flags())
    t.mem.update({f + i: r.randrange(256) for f in frames for i in range(0, 128) if r.random() < .4})
    regs[13] = rp
    regs[10] = r.choice([(v << 7) + r.choice([0, 1, 2, 3, 0x3e, 0x7e, 0x7f, 0x80]) & 65535 for v in vps])
    if r.random() < .15:
        # a saved context at the stack
        words = [word(r) for _ in range(15)] + [r.randrange(256) if r.random() < .9 else word(r), word(r)]
        words[14 - 12] = regs[10] if r.random() < .5 else words[2]
        for i, w in enumerate(words):
            for j in (0, 1):
                a = regs[10] + 2 * i + j & 65535
                if vm and a >> 7 in t.pages:
                    t.mem[t.pages[a >> 7] + (a & 127)] = w >> 8 * j & 255
                elif not vm:
                    t.mem[a] = w >> 8 * j & 255
    pc = r.choice(vps) * 128 + r.choice([0, 0x40, 0x7e, 0x7f])
    def va():
        return (r.choice(vps) * 128 + r.choice([0, 1, 0x7e, 0x7f, 0x7f, 0x80, r.randrange(128)]) - r.choice([0, 0, 1])) & 65535 if r.random() < .95 else word(r)
    def pa():
        k = r.random()
        return r.choice(sorted(t.mem)) if k < .6 else r.choice([0, 0x80, 0xffff, 0x10000, 0xffffff]) if k < .8 else r.randrange(1 << 24)
    B, W, N = lambda: r.randrange(256), lambda: word(r), lambda: r.randrange(16)
    make = {"read": lambda: [va()], "write": lambda: [va(), B()], "readw": lambda: [va()], "writew": lambda: [va(), W()], "fetch": lambda: [],
            "pread": lambda: [pa()], "pwrite": lambda: [pa(), B()], "pushw": lambda: [W()], "pushb": lambda: [B()], "popw": lambda: [], "popb": lambda: [],
            "save": lambda: [B() if r.random() < .8 else W()], "restore": lambda: [], "getw": lambda: [N()],
            "setw": lambda: r.choice([[N(), W()], [11, va()], [11, va()]]), "getb": lambda: [N()], "setb": lambda: [N(), B()]}
    names = [n for n in make for _ in range({"save": 1, "restore": 1, "setw": 2, "setb": 1, "getb": 1, "getw": 1}.get(n, 3))]
    ops = []
    for _ in range(r.choice([2, 8, 25, 60])):
        n = r.choice(names)
        ops.append([n] + make[n]())
    if r.random() < .3:
        i = r.randrange(len(ops) + 1)
        ops[i:i] = [["save", B()]] + ([ops[0]] if r.random() < .3 and ops[0][0] in ("read", "write", "pread", "getb") else []) + [["restore"]]
    cs = case(id, regs, pc, fl, t.mem if vm or r.random() < .5 else {a & 0xffff: b for a, b in t.mem.items()})
    cs.pop("n", None)
    cs["ops"] = ",".join(":".join([o[0]] + ["%x" % a for a in o[1:]]) for o in ops)
    return cs, ops

def c35(c):
    for n, wide in ([(4, "TRUE"), (5, "FALSE")] if c.thorough else [(3, "TRUE")]):
        c.model("MCContext", ["Never", "Holds", "Top", "Restorable", "Undisturbed"], properties=["Moves", "Restored"],
                constants="CONSTANT MaxOps = %d\nCONSTANT Wide1 = %s\n" % (n, wide), label="MCContext (%d operations)" % n)
    for b in range(6 if c.thorough else 1):
        r = c.rng("ctx%d" % b)
        cases, ops = [], {}
        for i in range(4000 if c.thorough else 1200):
            cs, o = context_case(r, "x%d" % i)
            cases.append(cs)
            ops[cs["id"]] = o
        lines = []
        for l in c.harness("ctx", cases):
            j = json.loads(l)
            j["ops"] = ops[j["id"]]
            lines.append(json.dumps(j))
        label = "contexts%d" % b
        c.validate("TraceContext", lines, cases, invariants=("Conforms", "Kept"), label=label)
        done = [(o[0], s["o"]) for l in map(json.loads, lines) for o, s in zip(l["ops"], l["st"])]
        c.parts[label]["operations"] = {n: [sum(x == (n, -1) for x in done), sum(x[0] == n and x[1] != -1 for x in done)] for n in sorted({d[0] for d in done})}
