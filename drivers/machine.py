"""Checks of the machine around the processor: memory (C10), loader (C11), kernel (C12)."""
from cpugen import *
import cpu

ROMS = 32768 - 128

def c10(c):
    r = c.rng("mem")
    cases = []
    hot = [0, 1, 0x7e, 0x7f, 0x80, 0x81, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff,
           0x20000, 0x7fffff, 0x800000, 0x80ffff, 0xfeffff, 0xff0000, 0xff007f, 0xff0080, 0xff7fff, 0xff8000, 0xfffff0, 0xffffff]
    def addr():
        k = r.random()
        if k < .35:
            return r.choice(hot)
        if k < .45:
            return r.randrange(128)
        if k < .55:
            return 128 + r.randrange(ROMS)
        if k < .65:
            return 0x8000 + r.randrange(0x8000)
        if k < .8:
            return r.choice([1, 2, 3, 127, 128, 254, 255]) << 16 | r.choice(hot) & 0xffff
        return r.randrange(1 << 24)
    # no image and images of every interesting length, edges of the image read back
    lens = [None, 0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 1000, 4096, ROMS - 129, ROMS - 128, ROMS - 2, ROMS - 1, ROMS]
    lens += [r.randrange(ROMS) for _ in range(60 if c.thorough else 12)]
    for i, n in enumerate(lens):
        ops = []
        for a in sorted(set([0x80, 0x81, 0x7fff, 0x7ffe, 0x7f80] + [x for d in (-2, -1, 0, 1, 2, 128)
                            for x in [0x80 + (n or 0) + d] if 0x80 <= x < 0x8000])):
            ops += ["r%x" % a, "w%x:%x" % (a, r.randrange(256)), "r%x" % a]
        for _ in range(40):
            a = addr()
            ops += ["r%x" % a, "w%x:%x" % (a, r.randrange(256)), "r%x" % a]
        cs = {"id": "rom%d-%s" % (i, n), "ops": ",".join(ops), "in": bytes(r.randrange(256) for _ in range(r.randrange(20))).hex()}
        if n is not None:
            cs["rom"] = "%d,%d,%d" % (n, r.randrange(1, 256, 2), r.randrange(256))
        cases.append(cs)
    # cells: the same low 16 bits in many blocks must stay apart
    for i in range(12 if c.thorough else 4):
        low = r.choice([0, 1, 0x80, 0x7fff, 0x8000, 0xffff, r.randrange(65536)])
        blocks = list(range(256))
        r.shuffle(blocks)
        ops = []
        for b in blocks:
            ops.append("w%x:%x" % (b << 16 | low, r.randrange(256)))
        r.shuffle(blocks)
        for b in blocks:
            ops.append("r%x" % (b << 16 | low))
        cases.append({"id": "cells%d" % i, "ops": ",".join(ops)})
    # random histories
    for i in range(400 if c.thorough else 80):
        ops, known = [], []
        for _ in range(120):
            a = r.choice(known) if known and r.random() < .5 else addr()
            if r.random() < .1:
                a ^= 1 << r.randrange(24)
            known.append(a)
            ops.append("w%x:%x" % (a, r.randrange(256)) if r.random() < .5 else "r%x" % a)
        cs = {"id": "h%d" % i, "ops": ",".join(ops), "in": bytes(r.randrange(256) for _ in range(r.randrange(40))).hex()}
        if r.random() < .5:
            cs["rom"] = "%d,%d,%d" % (r.randrange(ROMS + 1), r.randrange(1, 256, 2), r.randrange(256))
        cases.append(cs)
    # all ports
    for d in "rw":
        cases.append({"id": "ports" + d, "ops": ",".join(("r%x" % a if d == "r" else "w%x:%x" % (a, 255 - a)) for a in range(128)),
                      "in": bytes((7 * i + 3) % 256 for i in range(128)).hex()})
    lines = c.harness("mem", cases)
    if lines:
        c.validate("TraceMem", lines, cases, label="memory operations")
    # accesses made by executed instructions: bytes and wides at every border, physical accesses, stacks in RAM
    pc_cases = []
    borders = [0, 1, 0x7e, 0x7f, 0x80, 0x7ffe, 0x7fff, 0x8000, 0xfffe, 0xffff]
    ops = [39, 40, 41, 42, 43, 44, 45, 46, 33, 34, 35, 36]
    k = 0
    for op in ops + [19, 20]:
        for a in borders + [r.randrange(65536) for _ in range(4)]:
            for _ in range(3 if c.thorough else 1):
                regs = [word(r) for _ in range(15)]
                regs[14] = 0
                if op in (19, 20):
                    code = ins(op, 1, 5, 2) if op == 19 else ins(op, 1, 5, 3)
                    code = random_ins(r, op)
                    hi, lo = r.choice([(0, a), (1, a), (0xff, a), (r.randrange(256), a)])
                    # byte register holds bits 16-23, wide register the rest, whichever the encoding picks
                    regs = [hi << 8 | hi if j < 5 else regs[j] for j in range(15)]
                    regs[14] = 0
                elif op in (39, 40):
                    regs[5] = r.randrange(65536)
                    code = ins(op, 6, r.randrange(1, 6), w=(a - regs[5]) & 65535)
                elif op in (43, 44):
                    regs[5] = r.randrange(65536)
                    code = ins(op, r.randrange(1, 6), 6, w=(a - regs[5]) & 65535)
                elif op in (41, 42):
                    regs[5] = r.randrange(65536)
                    regs[6] = (a - regs[5]) & 65535
                    code = ins(op, 6, 7, r.randrange(1, 6))
                elif op in (45, 46):
                    regs[5] = r.randrange(65536)
                    regs[6] = (a - regs[5]) & 65535
                    code = ins(op, r.randrange(1, 6), 6, 7)
                else:
                    regs[10] = (a + (op - 32 if op in (33, 34) else 0)) & 65535
                    code = ins(op, r.randrange(1, 6))
                n = r.randrange(4)
                rom = bytes([32] * n + code + [32, 10]) if r.random() < .5 else b""
                mem = {}
                pc = 0x80 if rom else 0x9000
                if not rom:
                    place(mem, pc, [32] * n + code + [32, 10])
                for b in (0x8000, 0x8001, 0xfffe, 0xffff):
                    mem.setdefault(b, r.randrange(256))
                cs = case("x%d-%x-%d" % (op, a, k), regs, pc, r.randrange(16) << 4, mem, n + 2, goon=False)
                cs["lazy"] = 1
                if rom:
                    cs["rom"] = rom.hex()
                cs["in"] = bytes(r.randrange(256) for _ in range(4)).hex()
                pc_cases.append(cs)
                k += 1
    # a raw image as `t -r` runs it: started at 0x80, program reads and writes ports
    for i in range(60 if c.thorough else 15):
        code = []
        for _ in range(12):
            a = r.choice([0, 1, 2, 0x7f, r.randrange(128)])
            kk = r.randrange(5)
            if kk == 0:
                code += ins(43, r.randrange(1, 11), 0, w=a)
            elif kk == 1:
                code += ins(39, 0, r.randrange(1, 11), w=a)
            elif kk == 2:
                code += ins(44, r.randrange(1, 11), 0, w=a)
            elif kk == 3:
                code += ins(40, 0, r.randrange(1, 11), w=a)
            else:
                code += random_ins(r, r.choice([65, 66, 71, 64, 63]))
        code += [10]
        cs = case("raw%d" % i, [word(r) for _ in range(14)] + [0], 0x80, 0, {}, 20)
        cs.update(lazy=1, rom=bytes(code).hex())
        cs["in"] = bytes(r.randrange(256) for _ in range(r.randrange(12))).hex()
        pc_cases.append(cs)
    cpu.validate_cpu(c, pc_cases, "accesses by instructions")


def hexb(bs):
    return bytes(bs).hex()

SEGS = {0x20: "text", 0x18: "rodata", 0x10: "data", 0x70: "heap", 0: "zero", 0xff: "unknown"}

def c11(c):
    r = c.rng("load")
    cases = []
    def size():
        k = r.random()
        if k < .3:
            return r.choice([0, 1, 2, 127, 128, 129, 255, 256, 257])
        if k < .9:
            return r.randrange(1, 500)
        return r.randrange(500, 6000)
    def seg(t, start, n):
        return "%x:%x:~%d,%d,%d" % (t, start, n, r.randrange(1, 256, 2), r.randrange(256))
    def emit(name, segs, **kw):
        cs = {"id": "%s%d" % (name, len(cases)), "segs": "|".join(seg(*s) for s in segs)}
        for k, v in kw.items():
            if v is not None:
                cs[k] = v
        cases.append(cs)
    opt = lambda p, v: "%x" % v if r.random() < p else None
    flags = lambda: r.choice([None, "0", "1"])
    # one segment of each type at every alignment class and size class
    starts = [0, 1, 0x7f, 0x80, 0x81, 0xfff, 0x1000, 0x1001, 0x7fff, 0x8000, 0xfe80, 0xff00, 0xff7f, 0xff80]
    sizes = [0, 1, 2, 127, 128, 129, 256, 1000]
    for t in SEGS:
        for s in starts:
            for n in (sizes if c.thorough else r.sample(sizes, 3)):
                if s + n > 0x10000:
                    n = 0x10000 - s
                emit("one%x-%x-%d-" % (t, s, n), [(t, s, n)], fl=flags(), ss=opt(.5, r.choice([0, 1, 128, 129, 384, 1000])),
                     hs=opt(.5, r.choice([0, 1, 128, 129, 1000])), e="%x:%x" % (t, s))
    # stack and heap sizes
    for ss in [0, 1, 2, 127, 128, 129, 255, 256, 257, 0x17f, 0x180, 0x181, 4095, 4096, 4097, 0x8000, 0xff7f, 0xff80, 0xfffe, 0xffff]:
        emit("stack%x-" % ss, [(0x20, 0x80, 20)], ss="%x" % ss, e="20:80")
    for hs in [0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 0x400, 0x401, 0x1000, 0x7000, 0x8000, 0xffff]:
        for n in (0, 1, 2, 100, 127, 128, 129, 300):
            for s in (r.sample([0x100, 0x101, 0x17f, 0x180, 0x2000, 0x8001, 0xf000], 2)):
                emit("heap%x-%d-" % (hs, n), [(0x70, s, n)], hs="%x" % hs, ss=opt(.3, r.randrange(600)), e="70:%x" % s)
    # whole programs, segments packed at any alignment so that some share pages
    for i in range(400 if c.thorough else 90):
        at = r.choice([0x80, 0x80, 1, r.randrange(0x4000)])
        al = r.choice([1, 1, 2, 16, 128, 128, 4096])
        segs = []
        types = [t for t in SEGS if r.random() < .6]
        r.shuffle(types)
        for t in types:
            at = (at + al - 1) // al * al
            n = size()
            if at + n > 0xff00:
                break
            segs.append((t, at, n))
            at += n
            if r.random() < .3:
                at += r.randrange(300)
        e = None
        if r.random() < .9:
            e = "%x:%x" % (r.choice(segs)[0] if segs else 32, r.randrange(65536))
        emit("all", segs, fl=flags(), ss=opt(.5, r.randrange(3000)), hs=opt(.5, r.randrange(3000)), e=e)
    lines = c.harness("load", cases)
    if lines:
        c.validate("TraceLoad", lines, cases, label="loads")


# --------------------------------------------------------------------- C12
def sysc(n, r2=None):
    out = ins(64, 1, 0, w=n)
    if r2 is not None:
        out += ins(64, 2, 0, w=r2)
    return out + [12]

def fault_code(r):
    """something that traps in a loaded program"""
    return r.choice([[0], [0xee], [13], [16], [17], [18], ins(19, 1, 2, 3), ins(20, 1, 2, 3), ins(81, 1, 2, 3, 0),
                     ins(82, 1, 2, 3, 0), ins(65, 1, 2, 3)[:2] + [0x31], ins(64, 14, w=5), ins(36, 15), ins(34, 14),
                     ins(44, 1, 0, w=0x7000), ins(40, 0, 1, w=0x7000), ins(43, 1, 0, w=0xa000), ins(39, 0, 1, w=0xa000),
                     ins(40, 0, 1, w=0x80), ins(44, 1, 0, w=0x80), ins(47, w=0x9000) + ins(52, w=0x9000), ins(64, 0, 1, w=0x4000),
                     ins(39, 0, 1, w=0x3000), ins(64, 0, 1, w=0x3000), ins(64, 11, 0, w=0x8000) + ins(34, 3),
                     ins(64, 11, 0, w=0xffff) + ins(36, 3), ins(37, w=0xfffe)])

def user_program(r, base, size):
    """code with system calls, faults, jumps within itself"""
    code = []
    while len(code) < size:
        k = r.random()
        if k < .25:
            code += sysc(r.choice([0, 3, 3, 4, 4, 4, 15]), r.choice([None, word(r)]) if r.random() < .5 else None)
        elif k < .35:
            code += sysc(15, r.choice([base, base + r.randrange(size), base + size, 0, 0x4000, word(r)]))
        elif k < .45:
            code += fault_code(r)
        elif k < .48:
            code += sysc(r.choice([1, 2, 5, 14, 16, 0x103, 0xff04, word(r)]))
        elif k < .485:
            code += [10]
        elif k < .52:
            code += ins(r.choice(list(range(47, 59))), w=base + r.randrange(size))
        elif k < .55:
            code += [12]
        elif k < .6:
            code += ins(34, r.randrange(14)) if r.random() < .6 else ins(36, r.randrange(1, 14))
        elif k < .66:
            a = 0x4000 + r.randrange(0x70)
            o = r.choice([39, 40, 43, 44])
            code += ins(o, 0, r.randrange(14), w=a) if o < 43 else ins(o, r.randrange(14), 0, w=a)
        else:
            code += random_ins(r, r.choice([65, 66, 67, 68, 69, 71, 73, 63, 63, 64, 11, 32]))
    return code

def c12(c):
    r = c.rng("kernel")
    cases = []
    def emit(name, segs, n, **kw):
        cs = {"id": "%s%d" % (name, len(cases)), "n": n,
              "segs": "|".join("%x:%x:%s" % (t, a, hexb(b)) for t, a, b in segs),
              "in": hexb(r.randrange(256) for _ in range(r.choice([0, 1, 3, 20])))}
        cs.update(kw)
        cases.append(cs)
    # every system call number up to 300 and more, with and without handler, from varied register contents
    for n in list(range(0, 40)) + [0x100, 0x103, 0x104, 0x10f, 0x300, 0x400, 0xf00, 0x8003, 0xffff] + [word(r) for _ in range(20)]:
        for h in (False, True):
            code = []
            for i in range(1, 14):
                if i not in (11,):
                    code += ins(64, i, 0, w=word(r))
            if h:
                code += ins(64, 3, 2) if False else sysc(15, 0x180)
            code += ins(64, 1, 0, w=n) + r.choice([[], ins(64, 2, 0, w=word(r)), ins(63, 4, b=r.randrange(256))]) + [12, 32]
            code += sysc(4) + [10]
            emit("sys%x-%d-" % (n, h), [(0x20, 0x80, code + [32] * (0x100 - len(code)) + sysc(4) + ins(68, 5, 6, 5) + [10])], 40, e="20:80")
    # every kind of fault with and without a handler; handler continues, faults, re-registers or halts
    for i in range(12):
        for k in range(27):
            rr = c.rng("fault%d-%d" % (i, k))
            code = []
            for j in range(2, 11):
                code += ins(64, j, 0, w=word(rr))
            if i % 3:
                code += sysc(15, 0x180)
            class Pick:
                def choice(self, l):
                    return l[k % len(l)]
            code += fault_code(Pick()) + [32] + sysc(4) + [10]
            h = rr.choice([sysc(4) + [10], [10], [13], [0], sysc(3) + sysc(15, 0) + [0], ins(34, 1) + ins(64, 0, 1, w=0x80),
                           sysc(15, 0x190) + [0xee] + [32] * 20 + [10]])
            emit("fault%d-%d-" % (k, i), [(0x20, 0x80, code + [32] * (0x100 - len(code)) + h), (0x10, 0x4000, [rr.randrange(256) for _ in range(128)]),
                                          (0x18, 0x3000, [10] * 8)], 40, e="20:80")
    # random programs
    for i in range(4000 if c.thorough else 500):
        t = r.choice([0x20, 0x20, 0, 0xff, 0x10])
        base = r.choice([0x80, 0x80, 0x400, 0xfa0])
        code = user_program(r, base, r.choice([40, 120, 300]))
        segs = [(t, base, code)]
        if t != 0x10:
            segs.append((0x10, 0x4000, [r.choice([12, 10, 32, r.randrange(256)]) for _ in range(0x70)]))
        if r.random() < .5:
            segs.append((0x18, 0x3000, [r.randrange(256) for _ in range(20)]))
        emit("run", segs, 60, e="%x:%x" % (t, base), fl=r.randrange(2), ss="%x" % r.choice([0x180, 4, 0, 0x80]))
    # handlers at places that are mostly zeros
    for h in [1 << k for k in range(16)] + [0xff, 0xff00, 0x7fff, 0xfffe, 0xffff]:
        code = sysc(15, h) + [0]
        emit("at%x-" % h, [(0xff, 0x80, code + [32] * 40), (0x20, h & 0xfffe if 0x180 < h < 0xff00 else 0x4000, sysc(4) + [10])], 12, e="ff:80")
    # long histories: many calls, faults, handlers one after the other, and what is still so after them
    for i, (count, what) in enumerate([(k, w) for k in ((130, 260, 520) if c.thorough else (260,)) for w in ("write", "read", "show", "handler", "fault", "mixed")]):
        # r5 counts down; the handler goes on after the fault, or ends when the count is over
        call = {"write": sysc(4), "read": sysc(3), "show": sysc(0), "handler": sysc(15, 0x100),
                "fault": [0], "mixed": sysc(15, 0x100) + sysc(4) + [0]}[what]
        code = ins(64, 5, 0, w=count) + ins(64, 6, 0, w=1) + sysc(15, 0x100)
        loop, after = 0x80 + len(code), 0x80 + len(code + call)
        code += call + ins(68, 5, 5, 6) + ins(52, w=loop) + [32, 0, 10]
        code += [32] * (0x80 - len(code))
        hand = ins(68, 0, 5, 0) + ins(47, w=0x118) + ins(64, 0, 1, w=after)
        hand += [32] * (0x18 - len(hand)) + sysc(4) + [10]
        emit("long-" + what, [(0x20, 0x80, code + hand)], 12 * count + 60, e="20:80")
    # random bytes
    for i in range(600 if c.thorough else 80):
        base = 0x80
        emit("wild", [(0, base, [r.choice([r.randrange(256), 12, 63, 64, 32]) for _ in range(300)])], 60, e="0:%x" % (base + r.randrange(300)))
    lines = c.harness("load", cases)
    if lines:
        c.validate("TraceKernel", lines, cases, invariants=("Conforms", "StaysInUserMode"), label="runs under the kernel")
    cpu.model_user(c, True, ["PrivilegedKept", "UserConfined", "NoPhysicalPorts", "ContinuesInUserMode", "HaltStops",
                             "HandlerGetsTrap", "CallsKeepRegisters"])
