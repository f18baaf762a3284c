"""Checks of the disassembler, the object dump and the debugger (C24, C26, C27)."""
import json, re
from cpugen import *
from cpu import Tables, F_ALL

LINE = re.compile(r"\s*([0-9a-f]{4}):((?:\s+[0-9a-f]{2}(?=\s))*)\s+(\S.*?)\s*$")

def operand(s):
    s = s.strip()
    if re.fullmatch(r"0x[0-9a-fA-F]+", s):
        return ["num", int(s, 16)]
    if re.fullmatch(r"[0-9]+", s):
        return ["num", int(s)]
    return ["name", s]

def parse_line(text):
    """a line of disassembly: address, bytes, mnemonic, operands"""
    m = LINE.match(text)
    if not m:
        return None
    words = m.group(3).split(None, 1)
    ops = [operand(o) for o in words[1].split(",")] if len(words) > 1 else []
    return {"addr": int(m.group(1), 16), "b": [int(x, 16) for x in m.group(2).split()], "mn": words[0], "ops": ops}

def parsed(o):
    p = parse_line(o["text"]) or {"addr": -1, "b": [], "mn": o["text"], "ops": []}
    return dict(o, **p)

NAMES = ["main", "loop", "_x", "a.b", "xyz", "á", "r1", "add", "0ff", "x+1", "very_long_label_name_indeed"]

def labels(r, values, p=.3):
    l = {}
    for v in values:
        if r.random() < p:
            l[v] = r.choice(NAMES) + ("" if r.random() < .3 else str(v))
    return l

def dis_case(cid, regs, pcs, fl, mem, lab):
    c = case(cid, regs, 0, fl, mem)
    del c["n"], c["pc"]
    c["pc"] = "0"
    c["at"] = ",".join("%x" % p for p in pcs)
    if lab:
        c["labels"] = "|".join("%x:%s" % (a, n.encode().hex()) for a, n in lab.items())
    return c

def c24(c):
    r = c.rng("dis")
    cases = []
    # every opcode with every first operand byte, directly
    for op in range(256):
        mem, pcs, vals = {}, [], []
        at = r.randrange(0x200, 0xf000)
        for a in range(256):
            code = [op, a, r.choice([0, 0x10, 0xff, r.randrange(256), r.randrange(16) << 4]), r.randrange(256)]
            place(mem, at, code)
            pcs.append(at)
            vals += [a | code[2] << 8, code[2] | code[3] << 8]
            at += 4
        regs, fl = state(r, um=r.random() < .5, tr=r.random() < .3)
        cases.append(dis_case("op%d" % op, regs, pcs, fl, mem, labels(r, vals)))
    # programs: instructions one after the other, to the end of the address space
    for i in range(300 if c.thorough else 60):
        at = r.choice([0x80, 0x1000, 0x10000 - 200])
        mem, pcs, vals = {}, [], []
        while at < 0x10000 - 4 and len(pcs) < 50:
            code = random_ins(r, r.choice(list(OPS)))
            place(mem, at, code)
            pcs.append(at)
            if len(code) > 2:
                vals.append(code[-2] | code[-1] << 8)
            at += len(code)
        regs, fl = state(r, um=r.random() < .5)
        cases.append(dis_case("prog%d" % i, regs, pcs, fl, mem, labels(r, vals)))
    # at every place around the edges of bytes, pages and halves
    # (without virtual memory the first page holds no code: it is the I/O page)
    for edge in (128, 256, 384, 4096, 0x7f80, 0x8000, 0xff00, 0xff80):
        for k in range(3):
            mem = {}
            place(mem, edge - 8 & 65535, [r.choice(list(OPS)) if r.random() < .6 else r.choice([0, 16, 33, r.randrange(256)]) for _ in range(24)])
            regs, fl = state(r)
            pcs = [p for p in range(edge - 6, edge + 8) if 128 <= p < 0x10000]
            cases.append(dis_case("edge%d-%d" % (edge, k), regs, pcs, fl, {a: b for a, b in mem.items() if 128 <= a < 0x10000}, labels(r, pcs)))
    # the last bytes of memory, instructions that just fit
    for op in list(OPS) + [1, 0xff]:
        code = (random_ins(r, op) if op in OPS else [op])
        mem = {}
        place(mem, 0x10000 - len(code), code)
        regs, fl = state(r)
        cases.append(dis_case("end%d" % op, regs, [0x10000 - len(code)], fl, mem, {}))
    # virtual memory: page borders, missing and forbidden pages, wrap-around
    for i in range(1500 if c.thorough else 250):
        um = r.random() < .6
        regs, fl = state(r, um=um, vm=True, tr=r.random() < .3)
        regs[13] = r.choice([0x1000, 0x80, 0xffc0, 0x8000])
        t = Tables(r, regs[13])
        va = r.choice([0x1000, 0x2080, 0, 0xf000, r.randrange(512) << 7]) & 0xff80
        for vp in {va >> 7, (va >> 7) - 1 & 511}:
            k = r.random()
            if k < .1:
                continue
            f2 = F_ALL if k < .7 else r.choice([0x3f & ~(1 << b) for b in range(6)] + [r.randrange(64)])
            f1 = F_ALL if r.random() < .8 else r.choice([0x3f & ~(1 << b) for b in range(6)])
            t.page(vp, f2, f1)
        pcs, vals = [], []
        at = va - r.randrange(1, 5) & 65535
        for vp in t.pages:
            for off in list(range(0, 8)) + list(range(120, 128)):
                t.put(vp << 7 | off, [r.randrange(256)])
        for _ in range(6):
            code = random_ins(r, r.choice(list(OPS)))
            for j, b in enumerate(code):
                if (at + j & 65535) >> 7 in t.pages:
                    t.put(at + j, [b])
            pcs.append(at)
            if len(code) > 2:
                vals.append(code[-2] | code[-1] << 8)
            at = at + len(code) & 65535
        pcs += [(va + o) & 65535 for o in range(-6, 6)]
        cases.append(dis_case("vm%d" % i, regs, pcs, fl, t.mem, labels(r, vals)))
    lines = []
    for l in c.harness("dis", cases):
        j = json.loads(l)
        j["shown"] = [parsed(o) for o in j["shown"]]
        lines.append(json.dumps(j))
    if lines:
        c.validate("TraceDis", lines, cases, label="disassemblies")
    c.parts["disassemblies"]["instructions"] = sum(len(json.loads(l)["shown"]) for l in lines)
    c.model("MCDis", ["AsExecuted", "Unknown", "Reassembles"], constants="CONSTANT Seconds = %s\nCONSTANT Thirds = %s\n" %
            (("{0, 1, 16, 32, 255, 128}", "{0, 18}") if c.thorough else ("{0, 33}", "{18}")), label="specification against processor and assembler")

# ---- C27: object dumps ------------------------------------------------------
import os
import asm, files, link
from files import run_tool

SYM = re.compile(r"  (GLOBAL|local) *(?: |$)(.*?) *= (?:UNDEFINED \(0x([0-9a-f]{4})\)|0x([0-9a-f]{4}) in (\w+))$")

def sections(text):
    """what the dump wrote, by object"""
    out, cur, part = [], None, None
    pend = []
    for l in text.split("\n")[:-1]:
        it = None
        if part == "dis" and l == "":
            it = {"k": "gap"}
        elif part == "syms" and l == "":
            part = None
            continue
        elif l == "":
            continue
        elif part == "syms":
            m = SYM.match(l)
            cur["syms"].append([int(m.group(1) == "GLOBAL"), m.group(2), int(m.group(3) or m.group(4), 16), m.group(5) or "UNDEFINED"] if m else [l])
            continue
        elif part == "dis" and l[0] == "<" and l.endswith(">:"):
            it = {"k": "label", "name": l[1:-2]}
        elif part == "dis" and l[0] == "<" and l.endswith("> ..."):
            it = {"k": "join", "name": l[1:-5]}
        elif part == "dis" and l == "  data":
            it = {"k": "data"}
        elif part == "dis" and l == "  unmapped data":
            it = {"k": "unmapped"}
        elif part == "dis" and l.startswith("    RELOC: "):
            m = re.fullmatch(r"    RELOC: (.*) @ 0x([0-9a-f]+)", l)
            pend.append([int(m.group(2), 16), m.group(1)])
            continue
        elif part == "dis" and l.startswith("  "):
            p = parse_line(l)
            it = {"k": "ins", "at": p["addr"], "b": p["b"], "mn": p["mn"], "ops": p["ops"]} if p else {"k": "other", "text": l}
        elif cur is not None and l == "_syms:":
            part = "syms"
            continue
        elif cur is not None and l == "disassembly:":
            part = "dis"
            continue
        else:
            cur = {"file": l[:-1], "syms": [], "items": []}
            out.append(cur)
            part, pend = None, []
            continue
        it.setdefault("rel", [])
        it["rel"], pend = pend, []
        it.setdefault("name", "")
        cur["items"].append(it)
    return out

UNIQUE = ["main", "loop", "_x", "a.b", "xyz", "ábc", "r1x", "addx", "x+1", "very_long_label_name_indeed", "fo", "q2", "k9"]

def code_object(r):
    """an object with code whose labels refer to each other"""
    o = link.Obj()
    at = r.choice([0x80, 0x80, 0x100, 0x2345])
    where = {}
    segs = [(0x20, r.random() < .9), (0x18, r.random() < .5), (0x10, r.random() < .5), (0x70, r.random() < .2), (0, r.random() < .15), (0xff, r.random() < .05)]
    r.shuffle(segs)
    plan = []
    for s, on in segs:
        if on:
            plan.append((s, at, r.choice([1, 5, 60, 200])))
            at += -(-(plan[-1][2] + 8) // 128) * 128 + r.choice([0, 0, 128, 0x1000])
    if r.random() < .1 and plan:
        s, a, n = plan[-1]
        plan[-1] = (s, 0x10000 - 0x200 - n, n)
    spots = []
    for s, a, n in plan:
        spots += [(s, a + r.choice([0, n, r.randrange(n)])) for _ in range(r.randrange(1, 7))]
    spots += [(0x20, r.randrange(65536)), (0x20, 0xffff), (0x10, 0)]
    r.shuffle(spots)
    names = UNIQUE[:]
    r.shuffle(names)
    for s, a in spots[:r.randrange(1, 13)]:
        o.sym("" if r.random() < .2 else names.pop(), int(r.random() < .4), s, a)
    if r.random() < .3:
        o.sym(names.pop(), 1, 0xff, r.choice([0xfaff, 0xfaff, 0, 0xffff]))
    ends = [10, 0, 38, 13, 64]
    for s, a, n in plan:
        bs = []
        while len(bs) < n:
            k = r.random()
            if k < .1:
                code = random_ins(r, r.choice(ends))
            elif k < .13:
                code = [r.randrange(256) for _ in range(4)]
            elif k < .45 and o.syms:
                y = r.choice(o.syms)
                op = r.choice(JUMPS + [37, 37, 64, 64, 39, 40, 43, 44])
                code = ins(op, *([r.randrange(16), r.randrange(16)] if op in (39, 40, 43, 44) else [r.choice([0, 0, 3, 7]), r.choice([0, 1, 1])] if op == 64 else []), w=y[3])
                if r.random() < .6:
                    o.rel.append((s, a + len(bs) + len(code) - 2, o.syms.index(y)))
            else:
                code = random_ins(r, r.choice(list(OPS)))
            bs += code
            if r.random() < .04:
                bs += [r.choice([0, 0xaa])] * r.randrange(1, 4)
        bs = bs[:n + 3]
        o.put(s, bs, a)
        o.rel = [x for x in o.rel if x[0] != s or x[1] + 2 <= a + len(bs)]
    if r.random() < .1 and o.syms and plan:
        s, a, n = r.choice(plan)
        o.rel.append((s, a + r.randrange(n), r.randrange(len(o.syms))))
    if r.random() < .3 and o.rel:
        # several in one instruction
        for s, a, _ in r.sample(o.rel, min(len(o.rel), 8)):
            o.rel.append((s, a + r.choice([-2, -1, 1]), r.randrange(len(o.syms))))
        o.rel = [x for x in o.rel if any(x[0] == s and a <= x[1] and x[1] + 2 <= a + len(bs) for s, (a, bs) in o.segs.items())]
    seen = set()
    o.rel = [x for x in o.rel if not (x[1] in seen or seen.add(x[1]))]
    if r.random() < .7:
        o.entry = r.choice(spots) if r.random() < .5 else (plan[0][0], plan[0][1]) if plan else (0x20, 0x80)
    return o

def many_object(r, n, far):
    """n labels reached from each other, a relocation for each"""
    o = link.Obj()
    at, code, order = 0x80, [], list(range(n))
    r.shuffle(order)
    long = n in (127, 256)
    body = {i: r.choice([[32], [32, 32], [10], [38, 0], []]) for i in range(n)}
    where, a = {}, at
    for i in order:
        where[i] = a
        a += 6 + len(body[i])
    for i in order:
        to = [(i + 1) % n if far else r.randrange(n), r.randrange(n)]
        for op, t in zip((37, 48), to):
            o.rel.append((0x20, at + len(code) + 1, t))
            code += ins(op, w=where[t])
        code += body[i]
    o.put(0x20, code, at)
    for i in range(n):
        o.sym("" if i % 7 == 3 else ("n" * (n - 3) + "%03d" % i if long and i % 50 == 0 else "f%d" % i), int(i == 0 if far else i % 2), 0x20, where[i])
    o.entry = (0x20, where[0])
    return o

def c27(c):
    r = c.rng("dump")
    n = 5000 if c.thorough else 500
    named, extra = {}, {}
    for i in range(n):
        named["o%d.to" % i] = code_object(r)
    for i in (127, 128, 255, 256, 257, 300):
        named["m%d.to" % i] = many_object(r, i, 1)
        named["w%d.to" % i] = many_object(r, i, 0)
    tok = []
    for path, o in named.items():
        t = o.tokens()
        t.update(id=path, path=path)
        if r.random() < .3:
            t["fl"] = "%d" % r.randrange(2)
        if r.random() < .2:
            t["ss"] = "%x" % r.choice([0, 0x180, 0x1000])
        if r.random() < .2:
            t["pre"] = b"#!/usr/bin/env t\n".hex()
        tok.append(t)
    objs = {}
    for l in c.harness("put", tok):
        j = json.loads(l)
        objs[j["id"]] = j["obj"]
    # objects the tools make
    progs = [asm.program(r, "p%d" % i) for i in range(400 if c.thorough else 30)]
    d = c.scratch
    made = assembled(c, progs, d)
    for l in c.harness("show", [{"id": p, "path": p} for p in made]):
        j = json.loads(l)
        if "segs" in j["read"]:
            objs[j["id"]] = j["read"]
    distinct = lambda o: len({bytes(s[0]) for s in o["syms"] if s[0]}) == len([s for s in o["syms"] if s[0]])
    pool = sorted(p for p in objs if distinct(objs[p]) and clean(objs[p]))
    lines, cases = [], []
    tool = os.path.join(c.bins, "tobjdump")
    arch = {}
    runs = []
    for i, p in enumerate(pool):
        runs.append([p])
    for i in range(n // 3):
        runs.append([r.choice(pool) for _ in range(r.randrange(2, 4))] + (["BAD"] if r.random() < .5 else []) + [r.choice(pool)] * r.randrange(2))
    runs += [[r.choice(pool) for _ in range(k)] for k in (12, 40)]
    for i, group in enumerate(runs):
        r.shuffle(group)
        files_, want, bad = [], [], 0
        for k, p in enumerate(group):
            f = "d%d-%d" % (i, k)
            if p == "BAD":
                bad = 1
                data = link.content(os.path.join(d, r.choice(pool)))
                what = r.choice(["missing", "cut", "junk", "empty", "archive", "dir"])
                if what == "dir":
                    os.mkdir(os.path.join(d, f))
                elif what != "missing":
                    with open(os.path.join(d, f), "wb") as h:
                        h.write({"cut": data[:r.randrange(len(data))], "junk": b"not an object\n", "empty": b"",
                                 "archive": link.AMAGIC + data + data[:-1]}[what])
                files_.append(f)
            elif len(group) > 1 and r.random() < .3:
                ms = [p] + [r.choice(pool) for _ in range(r.randrange(6))]
                link.archive(c, f, ms)
                files_.append(f)
                want += [("%s.%d" % (f, j + 1), m) for j, m in enumerate(ms)]
            else:
                files_.append(p)
                want.append((p, p))
        dis, syms, rel = r.choice([(1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 0)])
        args = (["-d"] if dis else []) + (["-t"] if syms else []) + (["-R"] if rel else [])
        frm = []
        if dis and len(want) == 1 and r.random() < .15:
            ns = [s[0] for s in objs[want[0][1]]["syms"] if s[0]]
            if ns:
                frm = [bytes(x).decode() for x in r.sample(ns, r.randrange(1, min(3, len(ns)) + 1))]
                args += ["-D", r.choice([",", " , "]).join(frm)]
        st, so, se = run_tool([tool] + args + files_, d)
        if st is None or st < 0:
            c.violation("the dump did not end in an orderly way (status %s)" % st, {"args": args, "inputs": [m for _, m in want]})
            continue
        cid = "d%d" % i
        ob = [{"file": f, "obj": objs[m], "names": [bytes(s[0]).decode() for s in objs[m]["syms"]]} for f, m in want]
        try:
            sec = sections(so.decode("utf-8", "replace"))
        except Exception as e:
            c.violation("the dump cannot be parsed: %r" % e, {"args": args, "output": so.decode("utf-8", "replace")})
            continue
        # nothing is required of what is shown of unreadable inputs
        known = {f for f, _ in want}
        lines.append(json.dumps({"id": cid, "syms": syms, "dis": dis, "relocs": rel, "from": frm, "status": st, "unreadable": bad, "err": se.decode("utf-8", "replace")[:300],
                                 "sections": [s for s in sec if s["file"] in known], "objs": ob}))
        cases.append({"id": cid, "args": args, "inputs": [m for _, m in want], "output": so.decode("utf-8", "replace")})
    c.validate("TraceDump", lines, cases, label="dumps")
    c.parts["dumps"]["instructions"] = sum(1 for l in lines for s in json.loads(l)["sections"] for x in s["items"] if x["k"] == "ins")

def clean(o):
    """no segment without bytes, none on another one's bytes"""
    at = sorted((s[1], s[1] + len(s[2])) for s in o["segs"])
    return all(a < b <= 0x10000 for a, b in at) and all(x[1] <= y[0] for x, y in zip(at, at[1:]))

def assembled(c, progs, d):
    """objects of source programs; their paths"""
    asm.write(c, progs)
    out = []
    for p in progs:
        main = "%s/%s" % (p.id, p.main)
        st, _, _ = run_tool([os.path.join(c.bins, "tc"), main], d)
        t = asm.to_path(main)
        if st == 0 and os.path.exists(os.path.join(d, t)):
            out.append(t)
    return out

# ---- C26: the debugger ------------------------------------------------------
WREG = ["r%d" % i for i in range(11)] + ["rs", "rl", "rf", "rp", "rh"]
BREG = "r0b r1l r1h r2l r2h r3l r3h r4l r4h r5l r5h r6b r7b r8b r9b r10b".split()
SAFE_OPS = [65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80]

class Code:
    """machine code with places to fill in later"""
    def __init__(self, base):
        self.base, self.b, self.fix, self.marks = base, [], [], {}
    def here(self):
        return self.base + len(self.b)
    def mark(self, name):
        self.marks[name] = self.here()
    def put(self, bs):
        self.b += bs
    def jump(self, op, name, *regs):
        self.b += ins(op, *regs, w=0)
        self.fix.append((len(self.b) - 2, name))
    def done(self):
        for at, name in self.fix:
            self.b[at:at + 2] = w16(self.marks[name])
        return self.b

def write_char(b):
    return ins(63, 3, b=b) + ins(64, 1, 0, w=4) + [12]

def statement(r, k, me, funcs, depth, loop=False, calls=True):
    """code that keeps the stack and the control flow in order"""
    t = r.random()
    reg = lambda: r.randrange(3, 9)
    breg = lambda: r.choice([5, 6, 7, 8, 9, 10, 11, 12, 13])
    if t < .25:
        op = r.choice(SAFE_OPS)
        k.put(ins(op, breg(), breg(), breg()) if op % 2 else ins(op, reg(), reg(), reg()))
    elif t < .33:
        k.put(ins(64, reg(), 0, w=word(r)) if r.random() < .6 else ins(63, breg(), b=r.randrange(256)))
    elif t < .37:
        k.put(r.choice([ins(83, breg(), breg(), breg(), breg()), ins(84, reg(), reg(), reg(), reg())]))
    elif t < .47:
        k.put(write_char(r.choice([10, 10, 65, 66, 32, 0, 0xff, 0xc3, 9, 13, r.randrange(256)])))
    elif t < .55:
        for _ in range(r.choice([1, 1, 2, 5, 9])):
            k.put(ins(64, 1, 0, w=3) + [12])
            k.put(ins(65, 3, 1, 0) + ins(64, 1, 0, w=4) + [12] if r.random() < .6 else ins(65, breg(), 1, 0))
    elif t < .62:
        a = 0x4000 + r.randrange(120)
        k.put(r.choice([ins(39, 0, breg(), w=a), ins(40, 0, reg(), w=a), ins(43, breg(), 0, w=a), ins(44, reg(), 0, w=a)]))
    elif t < .68:
        x = reg()
        k.put(ins(34, x))
        statement(r, k, me, funcs, depth + 1, loop, calls)
        k.put(ins(36, x))
    elif t < .82 and calls and me + 1 < len(funcs):
        if loop:
            k.put(ins(34, 10))
        k.jump(37, r.choice(funcs[me + 1:]))
        if loop:
            k.put(ins(36, 10))
    elif t < .9:
        name = object()
        k.jump(r.choice(JUMPS), name)
        for _ in range(r.randrange(3)):
            statement(r, k, me, funcs, depth + 1, loop, calls)
        k.mark(name)
    elif t < .96 and r.random() < .6 and (calls or me == 0) and "turn" in k.marks:
        # a return to a place of one's own
        name = object()
        k.jump(64, name, 12, 0)
        k.put([38, 0] + [0xee] * r.randrange(2))
        k.mark(name)
    elif t < .96 and depth < 2 and not loop:
        name = object()
        k.put(ins(64, 10, 0, w=r.randrange(1, 4)))
        k.mark(name)
        for _ in range(r.randrange(1, 4)):
            statement(r, k, me, funcs, depth + 1, True, calls)
        k.put(ins(64, 9, 0, w=1) + ins(68, 10, 10, 9))
        k.jump(52, name)
    else:
        k.put([32])

def dbg_program(r, turns=False):
    """code, places of its functions, where it starts"""
    k = Code(r.choice([0x80, 0x80, 0x2000, 0xf80]))
    if turns:
        k.mark("turn")
    funcs = ["f%d" % i for i in range(r.randrange(1, 6))]
    order = funcs[:]
    r.shuffle(order)
    faulty = r.random() < .3
    places = []
    for f in order:
        me = funcs.index(f)
        k.mark(f)
        leaf = me == len(funcs) - 1 or r.random() < .2
        if me == 0 and faulty and r.random() < .5:
            k.put(ins(64, 1, 0, w=15))
            k.jump(64, "handler", 2, 0)
            k.put([12])
        if me and not leaf:
            k.put(ins(34, 12))
        for _ in range(r.randrange(1, 7)):
            if r.random() < .05:
                places.append(k.here())
            statement(r, k, me, funcs, 0, calls=not leaf)
            if faulty and r.random() < .07:
                k.put(r.choice([[0], [0xee], [13], [16], ins(19, 1, 2, 3), ins(82, 3, 4, 5, 0), ins(64, 14, 0, w=5), ins(44, 3, 0, w=0x9000),
                                ins(40, 0, 3, w=0x80), ins(64, 0, 1, w=0x4000), ins(37, w=0x7000), ins(64, 1, 0, w=77) + [12]]))
        if me == 0:
            k.put([10] if r.random() < .9 else [0])
        elif leaf:
            k.put([38, 0])
        else:
            n = r.choice([0, 0, 2]) if r.random() < .5 else 0
            k.put(ins(36, 12))
            if n:
                k.put(ins(34, 3))
            k.put([38, n])
    k.mark("handler")
    k.put(write_char(33) + write_char(10) + r.choice([[10], ins(64, 1, 0, w=99) + [12]]))
    code = k.done()
    names = [(f, k.marks[f]) for f in order] + [("handler", k.marks["handler"])] + [("x%d" % i, a) for i, a in enumerate(places)]
    return k.base, code, names, k.marks["f0"]

def long_program(r, i):
    """a function that calls itself, and one that goes round, many times"""
    k = Code(0x80)
    n = (130, 260, 300, 40)[i % 4]
    loop, end, again = object(), object(), object()
    k.mark("f0")
    k.put(ins(64, 3, 0, w=n))
    k.jump(37, "f1")
    k.put(ins(64, 10, 0, w=n))
    k.jump(37, "f2")
    k.put(write_char(65 + i) + [10])
    k.mark("f1")
    k.put(ins(34, 12) + ins(64, 4, 0, w=1) + ins(68, 3, 3, 4))
    k.jump(48, end)
    k.jump(37, "f1")
    k.mark(end)
    k.put(ins(36, 12) + [38, 0])
    k.mark("f2")
    k.put(ins(64, 9, 0, w=1))
    k.mark(again)
    k.put(write_char(r.choice([10, 46, 97])))
    k.put(ins(68, 10, 10, 9))
    k.jump(52, again)
    k.put([38, 0])
    code = k.done()
    f1 = k.marks["f1"]
    cmd = lambda w, n: [{"b": list(w.encode()), "k": {"si": "in", "n": "next", "so": "out"}[w], "name": "", "addr": 0}] * n
    lines = []
    if i < 4:
        # down to the bottom, a step at a time, and up again
        d = r.choice([5 * n, 5 * n + 1, 5 * n - 3, 3 * n])
        lines += cmd("si", d + 2) + cmd("so", r.choice([1, n - 2, n, n + 3])) + cmd("n", 30)
    elif i < 8:
        lines += cmd("si", 2) + cmd("n", 4) + cmd("so", 1) + cmd("n", 20)
    else:
        # into the round, many steps
        lines += cmd("n", 2) + cmd("si", 1) + cmd("n", 7 * n) + cmd("so", 1) + cmd("n", 20)
    for _ in range(12):
        lines.insert(r.randrange(len(lines)), dbg_line(r, [("f0", k.marks["f0"])], code, 0x80, False))
    return (0x80, code, [("f0", k.marks["f0"]), ("f1", f1), ("f2", k.marks["f2"])], k.marks["f0"]), lines

def spelled(r, v):
    return r.choice(["0x%x", "0x%04X", "0o%o", "%d", "0%d"]) % v if r.random() < .9 else "0b" + bin(v)[2:]

def dbg_line(r, names, code, base, go):
    """a line, and what it is as a command"""
    t = r.random()
    L = {"k": "bad", "name": "", "addr": 0}
    if t < .3:
        s, L["k"] = r.choice(["si", "in", "stepin"]), "in"
    elif t < .58:
        s, L["k"] = r.choice(["n", "next"]), "next"
    elif t < .63:
        s, L["k"] = r.choice(["so", "out", "stepout"]), "out"
    elif t < .73:
        s = r.choice(WREG)
        L.update(k="wide", name=s)
    elif t < .8:
        s = r.choice(BREG)
        L.update(k="byte", name=s)
    elif t < .83:
        s, L["k"] = r.choice([("rpc", "pc"), ("flags", "flags")])
    elif t < .92:
        a = r.choice([base + r.randrange(len(code)), 0x4000 + r.randrange(128), 0x407f, 0x3000 + r.randrange(30), 0xffff, 0xfffe, 0xfe80, 0xfe7f, 0, 0x3fff, word(r)])
        s = "r " + spelled(r, a)
        L.update(k="mem", addr=a)
    elif t < .95 and go:
        a = r.choice([a for _, a in names] + [base + r.randrange(len(code)), word(r)])
        s = "g " + spelled(r, a)
        L.update(k="go", addr=a)
    else:
        s = r.choice(["", "?", "r11", "step", "r 65536", "r 0xg", "r xyz", "g -1", "g 0b2", "R1", "quit now", "nn", "hælp", "r", "n n", "0x10", "rpc2"])
    if r.random() < .2:
        s = r.choice(["  " + s, s + "  ", "\t" + s + "\t", s + "\r"])
    L["b"] = list(s.encode())
    return L

def dbg_items(out):
    """what was shown"""
    items = []
    text = out.split(b"\n")
    last = text.pop()
    for l in text + [None]:
        if l is None:
            l, end = last, True
        else:
            end = False
        while True:
            if l.startswith(b"+tdgb> "):
                items.append(["prompt"])
                l = l[7:]
            elif l.startswith(b"STDIN requested: "):
                items.append(["stdin"])
                l = l[17:]
            else:
                break
        if end:
            if l:
                items.append(["other", l.decode("utf-8", "replace")])
            break
        if l.startswith(b"STDOUT line: "):
            items.append(["stdout", list(l[13:])])
            continue
        s = l.decode("utf-8", "replace")
        m = re.fullmatch(r"(r\w+|pc) = (\d+) 0x([0-9a-f]+)(?: (\".*\"))?", s, re.S)
        if s == "":
            items.append(["blank"])
        elif m and int(m.group(2)) == int(m.group(3), 16):
            if m.group(1) in BREG:
                items.append(["byte", m.group(1), int(m.group(2)), [ord(x) for x in (m.group(4) or '""')[1:-1]]])
            else:
                items.append(["wide", m.group(1), int(m.group(2))])
        elif re.fullmatch(r"flags = .*", s):
            items.append(["flags", [f for f in s[8:].split(" | ") if f != "0"]])
        elif re.fullmatch(r" = 0x[0-9a-f]{2} 0x[0-9a-f]{2} \.\.\.", s):
            items.append(["mem", int(s[5:7], 16), int(s[10:12], 16)])
        elif re.fullmatch(r"ended with \w+", s):
            items.append(["ended", s[11:]])
        elif re.fullmatch(r"<.*>:", s):
            items.append(["label", s[1:-2]])
        elif s.startswith("  ") and parse_line(s):
            p = parse_line(s)
            items.append(["ins", p["addr"], p["b"], p["mn"], p["ops"]])
        else:
            items.append(["other", s])
    return items

FIRST = WREG[1:11] + ["rl", "flags"]

def look(x):
    return {"b": list(x.encode()), "k": {"flags": "flags", "rpc": "pc"}.get(x, "wide"), "name": x, "addr": 0}

def c26(c):
    r = c.rng("debugger")
    named, plan = {}, []
    n = 5000 if c.thorough else 600
    for i in range(n + 12):
        (base, code, names, start), many = long_program(r, i - n) if i >= n else (dbg_program(r, i % 12 == 4), None)
        o = link.Obj()
        o.put(0x20, code, base)
        o.put(0x10, [r.randrange(256) for _ in range(128)], 0x4000)
        if r.random() < .5:
            o.put(0x18, [r.randrange(256) for _ in range(20)], 0x3000)
        syms = []
        for f, a in names:
            k = r.random()
            if k < .1:
                continue
            syms.append(("" if k < .2 else f, int(r.random() < .4), 0x20, a))
            if r.random() < .15:
                syms.append((f + r.choice([".b", "", ".a"]), int(r.random() < .3), 0x20, a))
            if r.random() < .1:
                # the same name elsewhere
                syms.append((f, int(r.random() < .2), r.choice([0x20, 0x10]), r.choice(names)[1]))
        syms.append(("data", 0, 0x10, 0x4000))
        if i % 10 == 3:
            # the first page of all
            o.put(0, [r.randrange(256) for _ in range(r.choice([1, 20, 128]))], 0)
        if i % 20 == 5:
            syms += [("m%d" % k, int(r.random() < .5), 0x10, 0x4000 + k) for k in range(r.choice([60, 130, 300]))]
        r.shuffle(syms)
        for y in syms:
            o.sym(*y)
        o.entry = (0x20, start)
        go = r.random() < .15 and not many
        lines = [look(x) for x in FIRST]
        lines += many or []
        for _ in range(0 if many else r.choice([3, 15, 40, 80])):
            lines.append(dbg_line(r, names, code, base, False))
        if i % 150 == 7 and not many:
            # looking long at the same place
            looks = [l for l in (dbg_line(r, names, code, base, False) for _ in range(1800)) if l["k"] not in ("in", "next", "out")]
            at = len(FIRST) + r.randrange(max(1, (len(lines) - len(FIRST)) // 2))
            lines[at:at] = looks
        if go:
            for _ in range(8):
                l = dbg_line(r, names, code, base, True)
                lines.append(l if l["k"] not in ("next", "out") else {"b": list(b"si"), "k": "in", "name": "", "addr": 0})
                if l["k"] == "go" and r.random() < .5:
                    # it changes nothing else
                    lines += [look(x) for x in WREG + ["rpc", "flags"]]
            lines.append({"b": list(b"q"), "k": "quit", "name": "", "addr": 0})
        elif r.random() < .5:
            lines.append({"b": list(r.choice([b"q", b"quit", b" q "])), "k": "quit", "name": "", "addr": 0})
        args, pc = [], None
        o.more = {"ss": "1000"} if many else {}
        if r.random() < .3 and not many:
            k = r.random()
            if k < .4:
                pc = r.choice(names)[1]
                args = ["-E", "0x%x" % pc]
            else:
                y = r.choice([y for y in syms if y[0]])
                same = [z for z in syms if z[0] == y[0]]
                pc = next((z[3] for z in same if z[1]), same[0][3])
                args = [r.choice(["-E", "--entry"]), y[0]]
            # which function returns then is unknown, so do not run far
            lines = [l if l["k"] not in ("next", "out") else {"b": list(b"si"), "k": "in", "name": "", "addr": 0} for l in lines] \
                + [{"b": list(b"q"), "k": "quit", "name": "", "addr": 0}]
        path = "g%d.to" % i
        named[path] = o
        plan.append((path, lines, args, pc, syms, int(not go and not args and (bool(many) or i % 12 != 4))))
    tok = []
    for path, o in named.items():
        t = o.tokens()
        t.update(id=path, path=path, **o.more)
        tok.append(t)
    put = c.harness("put", tok)
    loaded = {}
    for l in c.harness("load", [dict(o.tokens(), id=p, n=0, **o.more) for p, o in named.items()]):
        j = json.loads(l)
        loaded[j["id"]] = j
    del put
    tool = os.path.join(c.bins, "tdbg")
    out, cases = [], []
    for path, lines, args, pc, syms, nested in plan:
        typed = b"".join(bytes(l["b"]) + b"\n" for l in lines)
        case = {"id": path, "args": args, "lines": [bytes(l["b"]).decode() for l in lines], "object": named[path].tokens()}
        st, so, se = run_tool([tool] + args + [path], c.scratch, stdin=typed)
        case["output"] = so.decode("utf-8", "replace")[-6000:]
        if st is None:
            c.violation("the debugger did not come to an end", case)
            continue
        items = dbg_items(so)
        j = loaded[path]
        regs = j["c"][:]
        shown = [x for x in items if x[0] in ("wide", "flags")][:len(FIRST)]
        if [x[1] for x in shown[:-1]] != FIRST[:-1] or len(shown) != len(FIRST):
            c.violation("the debugger does not answer to register names", case)
            continue
        # general registers start at random
        for x in shown[:10]:
            regs[int(x[1][1:]) - 1] = x[2]
        regs[11] = shown[10][2]
        if pc is not None:
            regs[15] = pc
        out.append(json.dumps({"id": path, "c": regs, "mem": j["mem"], "nested": nested, "status": st, "items": items, "lines": lines,
                               "errs": sum(1 for l in se.split(b"\n") if l), "syms": [{"name": y[0], "g": y[1], "at": y[3]} for y in syms]}))
        cases.append(case)
    c.validate("TraceDbg", out, cases, invariants=("Conforms", "StopsWhereMeant"), label="debugger sessions")
