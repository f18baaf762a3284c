"""Checks of the processor properties (C01-C09)."""
from cpugen import *


def validate_cpu(c, cases, label=None):
    lines = c.harness("cpu", cases)
    if lines:
        c.validate("TraceCpu", lines, cases, invariants=("Conforms", "TypeOK"), label=label or "TraceCpu")


def model_user(c, kernel, invariants, deep=True):
    """the specification itself, over arbitrary user programs on a grid of instructions"""
    inv = ["TypeOK"] + invariants
    const = "CONSTANT WithKernel = %s\nCONSTANT MaxSteps = %d\nCONSTANT Grid = \"%s\"\n"
    kn = "kernel" if kernel else "handler"
    c.model("MCUser", inv, constants=const % (str(kernel).upper(), 1, "full"), label="MCUser (%s, one step, wide grid)" % kn)
    if c.thorough and deep:
        c.model("MCUser", inv, constants=const % (str(kernel).upper(), 2, "small"), label="MCUser (%s, two steps)" % kn)


# --------------------------------------------------------------------- C01
def c01(c):
    r = c.rng("tables")
    rows = []
    for op in BYTE_ALU + [81, 83]:
        four = op in (81, 83)
        for a in range(256):
            # distinct destination and operand registers, chosen afresh for every row
            d, e, x, y = r.sample(range(1, 16), 4)
            row = {"id": "b%d-%d" % (op, a), "op": "%x" % op, "a": "%x" % a, "d": "%x" % d,
                   "e": "%x" % e, "x": "%x" % x, "y": "%x" % y, "f": "%x" % r.choice([0, 0xf0, 0x54, 0xa0, 0x10])}
            if four:
                row["four"] = 1
            rows.append(row)
    lines = c.harness("alub", rows)
    if lines:
        c.validate("TraceAlu", lines, rows, label="byte tables (all operand pairs)")

    wrows = []
    edge = sorted(set([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7ffe, 0x7fff,
                       0x8000, 0x8001, 0xfffe, 0xffff, 0xff00, 0xfff0, 0x5555, 0xaaaa] + [1 << i for i in range(16)]))
    for op in WIDE_ALU + [82, 84]:
        four = op in (82, 84)
        as_ = edge + [r.randrange(65536) for _ in range(400 if c.thorough else 40)]
        for i, a in enumerate(as_):
            bs = edge + [r.randrange(65536) for _ in range(1500 if c.thorough else 150)]
            d, e, x, y = r.sample(range(1, 13), 4)
            row = {"id": "w%d-%d-%d" % (op, i, a), "op": "%x" % op, "a": "%x" % a, "d": "%x" % d, "e": "%x" % e,
                   "x": "%x" % x, "y": "%x" % y, "f": "%x" % r.choice([0, 0xf0, 0x54, 0xa0, 0x10]),
                   "b": "".join("%04x" % b for b in bs)}
            if four:
                row["four"] = 1
            wrows.append(row)
    lines = c.harness("aluw", wrows)
    if lines:
        c.validate("TraceAlu", lines, wrows, label="wide tables (boundary and random pairs)")

    # every register choice, aliasing included, and nothing else changed
    cases = []
    n = 6000 if c.thorough else 900
    ops = BYTE_ALU + WIDE_ALU + [81, 82, 83, 84]
    for op in ops:
        for i in range(n // len(ops) + 1):
            regs, fl = state(r)
            if r.random() < .3:
                regs = [0 if r.random() < .4 else x for x in regs]
                regs[14] = 0
            mem = {}
            k = 1
            place(mem, 0x2000, random_ins(r, op))
            cases.append(case("i%d-%d" % (op, i), regs, 0x2000, fl, mem, k))
    # long dependent sequences
    for i in range(400 if c.thorough else 60):
        regs, fl = state(r)
        mem = {}
        a = 0x2000
        for _ in range(24):
            code = random_ins(r, r.choice(ops))
            place(mem, a, code)
            a += len(code)
        cases.append(case("s%d" % i, regs, 0x2000, fl, mem, 24, goon=True))
    validate_cpu(c, cases)


# --------------------------------------------------------------------- C02
def c02(c):
    r = c.rng("views")
    cases = []
    # every ordered pair of writes to views, every view observed after each
    writes = [(63, n) for n in range(16)] + [(64, n) for n in range(16)]
    for i, (o1, n1) in enumerate(writes):
        for j, (o2, n2) in enumerate(writes):
            regs, fl = state(r)
            mem = {}
            code = []
            for o, n in ((o1, n1), (o2, n2)):
                code += ins(63, n, b=r.randrange(1, 256)) if o == 63 else [64, n << 4] + w16(r.randrange(1, 65536))
            place(mem, 0x3000, code)
            cases.append(case("p%d-%d" % (i, j), regs, 0x3000, fl, mem, 2, views=True))
    # every view read through an executed instruction (as the operand of or with r0)
    for n in range(16):
        for d in range(16):
            regs, fl = state(r)
            regs = [r.randrange(65536) for _ in regs]
            regs[14] = 0
            mem = {}
            place(mem, 0x3000, ins(71, d, n, 0) + ins(72, d, n, 0))
            cases.append(case("m%d-%d" % (n, d), regs, 0x3000, fl, mem, 2, views=True))
    for i in range(1500 if c.thorough else 150):
        regs, fl = state(r)
        mem = {}
        code = []
        for _ in range(30):
            k = r.random()
            if k < .3:
                code += ins(63, r.randrange(16), b=r.randrange(256))
            elif k < .6:
                code += [64, r.randrange(14) << 4] + w16(word(r))
            elif k < .8:
                code += ins(71, r.randrange(16), r.randrange(16), 0)
            else:
                code += ins(72, r.randrange(14), r.randrange(16), 0)
        place(mem, 0x3000, code)
        cases.append(case("q%d" % i, regs, 0x3000, fl, mem, 30, views=True))
    validate_cpu(c, cases)


# --------------------------------------------------------------------- C03
def c03(c):
    r = c.rng("jumps")
    cases = []
    spots = [0x100, 0x7ffe, 0x8000, 0xfffc, 0xfffd, 0xfffe, 0xffff]
    for op in JUMPS:
        for f in range(16):
            for t in (0, 0x1234, 0xffff, word(r)):
                for pc in (r.choice(spots), word(r)) if not c.thorough else spots + [word(r)]:
                    regs, fl = state(r)
                    fl = (fl & 15) | f << 4
                    mem = {}
                    place(mem, pc, ins(op, w=t))
                    cases.append(case("j%d-%x-%x-%x" % (op, f, t, pc), regs, pc, fl, mem))
    for i in range(4000 if c.thorough else 600):
        regs, fl = state(r)
        pc = r.choice(spots) if r.random() < .5 else word(r)
        k = i % 4
        if k == 0:
            code = ins(37, w=word(r))
        elif k == 1:
            code = ins(38, b=r.choice([0, 1, 2, 127, 128, 255, r.randrange(256)]))
        elif k == 2:
            code = [64, 1] + w16(word(r))
        else:
            code = [64, r.randrange(1, 16) << 4 | 1] + w16(word(r))
        mem = {}
        place(mem, pc, code)
        cases.append(case("c%d" % i, regs, pc, fl, mem))
    # every register as jump target
    for n in range(16):
        regs = [0x1111 * (i + 1) for i in range(15)]
        regs[14] = 0x77 if n == 15 else 0
        mem = {}
        place(mem, 0x400, [64, n << 4 | 1] + w16(0xabcd))
        cases.append(case("r%d" % n, regs, 0x400, 0, mem))
    # sequences of calls, jumps and returns
    for i in range(300 if c.thorough else 40):
        regs, fl = state(r)
        mem = {}
        starts = [0x100 * k + 0x80 for k in range(1, 9)]
        for s in starts:
            a = s
            for _ in range(3):
                k = r.random()
                if k < .4:
                    code = ins(r.choice(JUMPS), w=r.choice(starts))
                elif k < .6:
                    code = ins(37, w=r.choice(starts))
                elif k < .7:
                    code = ins(38, b=r.randrange(256))
                else:
                    code = ins(r.choice([65, 67]), r.randrange(16), r.randrange(16), r.randrange(16))
                place(mem, a, code)
                a += len(code)
            place(mem, a, [64, 1] + w16(r.choice(starts)))
        cases.append(case("s%d" % i, regs, starts[0], fl, mem, 40))
    validate_cpu(c, cases)


# --------------------------------------------------------------------- C04
MEMOPS = [33, 34, 35, 36, 39, 40, 41, 42, 43, 44, 45, 46]

def c04(c):
    r = c.rng("mem")
    cases = []
    # each instruction with effective addresses around both ends and page limits
    for op in MEMOPS:
        for i in range(700 if c.thorough else 90):
            regs, fl = state(r)
            ea = r.choice(EDGE) if r.random() < .7 else word(r)
            code = random_ins(r, op)
            mem = {}
            if op in (33, 34, 35, 36):
                regs[10] = ea
            else:
                # aim base + offset at ea; base register and offset register may coincide
                regs2 = {39: 1, 40: 1, 41: 1, 42: 1, 43: 2, 44: 2, 45: 2, 46: 2}[op]
                base = code[1] >> 4 if regs2 == 1 else code[1] & 15
                bv = 0 if base == 0 else regs[base - 1]
                if op in (39, 40, 43, 44):
                    code[2:4] = w16(ea - bv)
                else:
                    o = code[1] & 15 if regs2 == 1 else code[2] >> 4
                    if o not in (0, 15) and o != base:
                        regs[o - 1] = (ea - bv) % 65536
            for d in range(-3, 5):
                mem[(ea + d) % 65536] = r.randrange(1, 256)
            pc = 0x4000 if not 0x3ff8 < ea < 0x4010 else 0x5000
            place(mem, pc, code)
            cases.append(case("e%d-%d" % (op, i), regs, pc, fl, mem))
    # sequences on a few clustered addresses
    for i in range(1500 if c.thorough else 150):
        regs, fl = state(r)
        centre = r.choice([0, 0x80, 0x2000, 0x8000, 0xffff, word(r)])
        if 0x5e00 < centre < 0x6200:
            centre = 0x2000
        for n in range(1, 11):
            regs[n - 1] = (centre + r.randrange(-6, 7)) % 65536 if n < 6 else r.choice([0, 1, 2, 0xffff, 0xfffe])
        regs[10] = (centre + r.randrange(-4, 5)) % 65536
        mem = {}
        for d in range(-12, 13):
            mem[(centre + d) % 65536] = r.randrange(256)
        code = []
        n = 0
        while n < 25:
            op = r.choice(MEMOPS)
            b, o = r.randrange(1, 6), r.randrange(6, 11)
            src = r.randrange(16)
            if op in (33, 34):
                code += ins(op, src)
            elif op in (35, 36):
                code += ins(op, r.choice([11, 12, 13, 14, 15]) if op == 35 else r.choice([6, 7, 8, 9, 10, 12, 13]))
            elif op in (39, 40):
                code += ins(op, b, src, w=r.choice([0, 1, 2, 0xffff]))
            elif op in (41, 42):
                code += ins(op, b, o, src)
            elif op in (43, 44):
                code += ins(op, r.choice([6, 7, 12, 13]) if op == 44 else r.choice([11, 12]), b, w=r.choice([0, 1, 2, 0xffff]))
            else:
                code += ins(op, r.choice([6, 12, 13]) if op == 46 else r.choice([11]), b, o)
            n += 1
        place(mem, 0x6000, code)
        cases.append(case("s%d" % i, regs, 0x6000, fl, mem, 25))
    # what is stored where instructions are is what is executed
    for i in range(1000 if c.thorough else 120):
        regs, fl = state(r)
        start = r.choice([0x6000, 0x7ffa, 0xffc0 + r.randrange(64), word(r)])
        mem, code = {}, []
        while len(code) < 90:
            k = r.randrange(4)
            how = r.choice(["byte", "wide", "pushb", "pushw"])
            pre = 7 + (4 if how in ("byte", "wide") else 2) + k + (1 if how in ("pushw", "wide") else 0)
            target = r.choice([0, 1, 2, 3])
            at = start + len(code) + pre + target
            if how in ("byte", "wide"):
                do = ins(64, 1, 0, w=at) + ([63, 0x60, r.randrange(256)] + ins(39, 1, 6, w=0) if how == "byte" else ins(64, 3, 0, w=word(r)) + ins(40, 1, 3, w=0))
            elif how == "pushb":
                do = ins(64, 11, 0, w=at + 1) + [63, 0x60, r.randrange(256)] + ins(33, 6)
            else:
                do = ins(64, 11, 0, w=at + 2) + ins(64, 3, 0, w=word(r)) + ins(34, 3)
            if target < 2:
                # the opcode or the registers of what follows: choose so that it stays an instruction
                v = r.choice([64, 66, 68, 70]) if target == 0 else r.choice([0x40, 0x50])
                if how in ("byte", "pushb"):
                    do[do.index(63, 4) + 2] = v
                else:
                    do[do.index(64, 4) + 2:do.index(64, 4) + 4] = [v, 0x40 if target == 0 else r.randrange(256)]
            code += do + [32] * k + ins(64, 4, 0, w=word(r) & 0xf0ff)
        place(mem, start, code)
        cases.append(case("p%d" % i, regs, start, fl, mem, 40, goon=True))
    validate_cpu(c, cases)


# --------------------------------------------------------------------- C05
def table_mem(r, rp, pages, d=True):
    """a page table at rp mapping each virtual page in pages to (frame, flags1, flags2)"""
    mem = {}
    l2 = {}
    for vp, (frame, f1, f2) in pages.items():
        v1, v2 = vp >> 5, vp & 31
        if v1 not in l2:
            l2[v1] = 0x40000 + 0x80 * r.randrange(0, 0x1800)
            e = (l2[v1] << 8) | f1
            for i in range(4):
                mem[rp + 4 * v1 + i] = e >> 8 * i & 255
        e = (frame << 8) | f2
        for i in range(4):
            mem[l2[v1] + 4 * v2 + i] = e >> 8 * i & 255
    return mem

def straddle_case(r, id, op, rh, n=1, **kw):
    """an instruction whose first bytes are on one page and the others on one that may not be executed or is not there"""
    code = random_ins(r, op)
    k = r.randrange(1, len(code)) if len(code) > 1 else 1
    regs, fl = state(r, um=r.random() < .5, vm=True, tr=False, rh=rh)
    regs[13] = r.choice([0x1000, 0x1234])
    t = Tables(r, regs[13])
    end = r.choice([0x2080, 0x3000, 0, 0x9000])
    pc = end - k & 65535
    t.page(pc >> 7, F_ALL)
    if r.random() < .6:
        t.page(end >> 7, r.choice([0x37, 0x36, 0x1f, 0x3e, 0x33]), f1=None if r.random() < .6 or end >> 12 == pc >> 12 else r.choice([0x37, 0x1f, 0x3e]))
    for vp in {regs[10] >> 7, (regs[10] - 1 & 65535) >> 7, (regs[10] - 34 & 65535) >> 7, 0x6000 >> 7}:
        if vp not in t.pages and vp != end >> 7 and r.random() < .9:
            t.page(vp, F_ALL)
    t.put(pc, code[:k])
    if end >> 7 in t.pages:
        t.put(end, code[k:])
    if 0x6000 >> 7 in t.pages:
        t.put(0x6000, [13])
    return case(id, regs, pc, fl, t.mem, n, **kw)

def c05(c):
    r = c.rng("any")
    cases = []
    per = 250 if c.thorough else 24
    for op in range(256):
        for i in range(per):
            vm = r.random() < .35
            um = r.random() < .4
            rh = 0 if r.random() < .7 else word(r)
            regs, fl = state(r, rh=rh, um=um, vm=vm, tr=r.random() < .4)
            pc = r.choice([0, 0x200, 0xfffc, 0xfffd, 0xfffe, 0xffff, word(r)])
            code = [op] + [r.choice([0, 0, 0x10, 0xf0, 0xff, r.randrange(256), r.randrange(16) << 4])
                           for _ in range(3)]
            if op in (63, 64) and r.random() < .5:
                code[1] = r.randrange(16) << 4 | r.choice([0, 0, 1, 2, 15])
            mem = {}
            if vm:
                rp = regs[13] = r.choice([0x1000, 0, 0xffc0, 0xffff, word(r)])
                pages = {}
                for vp in {pc >> 7, ((pc + 3) & 65535) >> 7, regs[10] >> 7, (regs[10] - 2 & 65535) >> 7, word(r) >> 7}:
                    f2 = 0x3f if r.random() < .7 else r.randrange(64)
                    pages[vp] = (0x20000 + 0x80 * r.randrange(0x200), 0x3f if r.random() < .8 else r.randrange(64), f2)
                mem = table_mem(r, rp, pages)
                for j, b in enumerate(code):
                    va = (pc + j) & 65535
                    if va >> 7 in pages:
                        mem.setdefault(pages[va >> 7][0] + (va & 127), b)
            else:
                for d in range(-2, 4):
                    mem[(regs[10] + d) % 65536] = r.randrange(256)
                place(mem, pc, code)
            cases.append(case("o%d-%d" % (op, i), regs, pc, fl, mem))
    for op in sorted(OPS):
        for i in range(20 if c.thorough else 4):
            cases.append(straddle_case(r, "w%d-%d" % (op, i), op, 0 if i % 2 else 0x6000))
    # runs through random bytes
    for i in range(1200 if c.thorough else 120):
        vm = False
        regs, fl = state(r, rh=0 if r.random() < .5 else r.randrange(0x200, 0x600), um=r.random() < .3, vm=vm,
                         tr=r.random() < .3)
        pc = r.choice([0x200, 0xfff0])
        mem = {}
        ops = list(OPS)
        for a in range(0x1f0, 0x640):
            mem[a] = r.choice(ops) if r.random() < .6 else r.randrange(256)
        for a in range(0xff80, 0x10000):
            mem[a] = r.choice(ops) if r.random() < .6 else r.randrange(256)
        cases.append(case("z%d" % i, regs, pc, fl, mem, 30, goon=True))
    validate_cpu(c, cases)


# --------------------------------------------------------------------- C06
F_ALL = 0x3f      # present, readable, writable, executable, dirty, user

def entry_bytes(frame, flags):
    e = (frame << 8) | flags
    return [e >> 8 * i & 255 for i in range(4)]

class Tables:
    """page tables under construction"""
    def __init__(self, r, rp, dirty=True):
        self.r, self.rp, self.mem, self.l2, self.dirty = r, rp, {}, {}, dirty
        self.used = set()
        self.pages = {}

    def frame(self):
        while True:
            f = 0x20000 + 0x80 * self.r.randrange(0x1bc00)
            if f not in self.used:
                self.used.add(f)
                return f

    def top(self, v1, flags, at=None):
        if v1 not in self.l2:
            self.l2[v1] = self.frame() if at is None else at
        for i, b in enumerate(entry_bytes(self.l2[v1], flags)):
            self.mem[self.rp + 4 * v1 + i] = b

    def page(self, vp, f2, f1=None, frame=None):
        v1, v2 = vp >> 5, vp & 31
        if v1 not in self.l2 or f1 is not None:
            self.top(v1, F_ALL if f1 is None else f1)
        fr = self.frame() if frame is None else frame
        for i, b in enumerate(entry_bytes(fr, f2)):
            self.mem[self.l2[v1] + 4 * v2 + i] = b
        self.pages[vp] = fr
        return fr

    def put(self, va, data):
        """bytes at virtual addresses; pages must be mapped"""
        for i, b in enumerate(data):
            a = (va + i) & 65535
            self.mem[self.pages[a >> 7] + (a & 127)] = b & 255

# byte and wide accesses of each kind; the address comes from r1 (base) or rs
def access(kind):
    return {"storeb": ins(39, 1, 3, w=0), "storew": ins(40, 1, 2, w=0), "loadb": ins(43, 5, 1, w=0),
            "loadw": ins(44, 3, 1, w=0), "pushb": ins(33, 3), "pushw": ins(34, 2), "popb": ins(35, 5),
            "popw": ins(36, 3), "storebr": ins(41, 1, 0, 3), "loadwr": ins(46, 3, 1, 0)}[kind]

def aim(regs, kind, va):
    regs[0] = va
    regs[10] = va if kind.startswith("pop") else (va + (2 if kind.endswith("w") else 1)) & 65535

def fault_case(r, id, kind, f1, f2, um, rp, va, rh=0, n=1, **kw):
    """one access at va whose tables carry f1 and f2; the code page is fully accessible"""
    regs, fl = state(r, um=um, vm=True, tr=False, rh=rh)
    regs[13] = rp
    t = Tables(r, rp)
    t.page(va >> 7, f2, f1=f1)
    if kind == "fetch":
        t.put(va, [r.choice([32, 11, 10, 12])])
        return case(id, regs, va, fl, t.mem, n, **kw)
    cv1 = ((va >> 12) + 3) % 16
    code = cv1 << 12 | r.randrange(0x00, 0xf00)
    t.page(code >> 7, F_ALL, f1=F_ALL)
    if (code & 127) > 120:
        code -= 16
    t.put(code, access(kind))
    aim(regs, kind, va)
    t.mem.setdefault(t.pages[va >> 7] + (va & 127), r.randrange(1, 256))
    return case(id, regs, code, fl, t.mem, n, **kw)

def spread_case(r, id, kind, um, dirty_choice, n=1):
    """a wide access crossing a page boundary, possibly the end of the address space"""
    rp = r.choice([0x1000, 0, 0xffc0, 0x8000, word(r)])
    regs, fl = state(r, um=um, vm=True, tr=False)
    regs[13] = rp
    t = Tables(r, rp)
    va = r.choice([0x107f, 0x1fff, 0xffff, 0x7fff, (r.randrange(512) << 7) | 127])
    for a in (va, (va + 1) & 65535):
        if r.random() < .85:
            t.page(a >> 7, r.choice(dirty_choice), f1=r.choice(dirty_choice))
    vps = {va >> 7, ((va + 1) & 65535) >> 7}
    code = None
    while code is None or code >> 7 in vps or code >> 12 in {v >> 5 for v in vps}:
        code = r.randrange(512) << 7
    t.page(code >> 7, F_ALL, f1=F_ALL)
    t.put(code, access(kind))
    aim(regs, kind, va)
    for a in (va, (va + 1) & 65535):
        if a >> 7 in t.pages:
            t.put(a, [r.randrange(1, 256)])
    return case(id, regs, code, fl, t.mem, n)

def random_tables_case(r, id, n, um, dirty, kinds, rh=0, garbage=.15):
    """a straight run of accesses over many pages with random permissions"""
    rp = r.choice([0x1000, 0, 0xffc0, 0x8000, word(r)])
    regs, fl = state(r, um=um, vm=True, tr=False, rh=rh)
    regs[13] = rp
    t = Tables(r, rp)
    vps = [r.randrange(512) for _ in range(5)]
    vps += [v ^ 1 for v in vps[:2]]
    flag = lambda: (F_ALL if r.random() < .6 else r.randrange(64)) & (0x3f if dirty else 0x2f) | \
        (0x10 if dirty == "set" else 0)
    for vp in vps:
        if vp >> 5 not in t.l2:
            t.top(vp >> 5, flag())
        t.page(vp, flag() | (r.choice([0, 0x40, 0x80]) if r.random() < garbage else 0))
    code = None
    while code is None or code >> 12 in {v >> 5 for v in vps}:
        code = r.randrange(512) << 7
    t.page(code >> 7, F_ALL, f1=F_ALL)
    if (code >> 7) + 1 < 512:
        t.page((code >> 7) + 1, F_ALL)
    bs = []
    for _ in range(n):
        k = r.choice(kinds)
        if r.random() < .5:
            va = (r.choice(vps) << 7) + r.choice([0, 1, 63, 126, 127])
        else:
            va = word(r)
        bs.append((k, va))
    prog = []
    for k, va in bs[:12]:
        # put the address in r1 or rs first, then access
        if k.startswith("p"):
            prog += [64, 11 << 4] + w16(va)
        else:
            prog += [64, 1 << 4] + w16(va)
        prog += access(k)
    room = 256 if (code >> 7) + 1 < 512 else 128
    prog = prog[:room]
    t.put(code, prog)
    for vp in vps:
        for off in (0, 1, 63, 126, 127):
            t.mem.setdefault(t.pages[vp] + off, r.randrange(1, 256))
    return case(id, regs, code, fl, t.mem, 2 * len(bs[:12]), goon=False)

KINDS = ["storeb", "storew", "loadb", "loadw", "pushb", "pushw", "popb", "popw", "storebr", "loadwr"]

def history_case(r, id, um, n=90):
    """accesses to a few pages while the tables that map them change in between: entries written through
    their own mapping, physically or in direct mode, another root, other privileges"""
    ROOTS, L2 = (0x1000, 0x1080), {0: (0x1100, 0x1100), 1: (0x1180, 0x1180), 3: (0x1200, 0x1280), 7: (0x1300, 0x1380),
                                   10: (0x1400, 0x1400), 15: (0x1480, 0x1480)}
    VAS = [0x3000, 0x3080, 0x7000, 0xa000]
    FRAMES = [0x4000 + 128 * i for i in range(8)]
    mem = {}
    flags = lambda: r.choice([0x3f, 0x2f, 0x2f, 0x3f, 0x1f, 0x0f, 0x3d, 0x3b, 0x37, 0x27, 0x3e] if r.random() < .6 else [0x3f, 0x2f])
    def entry(at, frame, fl):
        for i, b in enumerate(entry_bytes(frame, fl)):
            mem[at + i] = b
    for k, root in enumerate(ROOTS):
        for v1, tabs in L2.items():
            entry(root + 4 * v1, tabs[k], 0x2f if v1 not in (3, 7, 10) else flags())
        for va in VAS:
            entry(L2[va >> 12][k] + 4 * (va >> 7 & 31), r.choice(FRAMES), flags())
    for vp in range(4, 20):
        entry(0x1100 + 4 * vp, vp << 7, 0x3f)
    for vp in range(32, 64):
        entry(0x1180 + 4 * (vp & 31), vp << 7, (0x17 if vp < 48 else 0x1f) if um else 0x3f)
    for vp in range(480, 512):
        entry(0x1480 + 4 * (vp & 31), 0x8000 + 128 * (vp & 31), 0x2f)
    for f in FRAMES:
        for i, b in enumerate(ins(63, 9, b=r.randrange(256)) + [38, 0]):
            mem[f + i] = b
        for o in (10, 11, 126, 127):
            mem[f + o] = r.randrange(1, 256)
    def byte(at, val, sup):
        put = ins(64, 2, 0, w=at) + ins(63, 12, b=val)
        how = r.choice(["pstore", "mapped", "direct"]) if sup else "mapped"
        if how == "pstore":
            return ins(63, 11, b=0) + put + ins(19, 11, 2, 12)
        return put + ins(39, 2, 12, w=0) if how == "mapped" else [18] + put + ins(39, 2, 12, w=0) + [17]
    focus = r.choice(VAS)
    def change():
        va, k = (focus if r.random() < .7 else r.choice(VAS)), r.randrange(2)
        if um and r.random() < .15:
            # the page the user's code is in
            return byte(0x1110, r.choice([0x1f, 0x1f, 0x37, 0x3f]), True)
        if r.random() < .35:
            at = ROOTS[k] + 4 * (va >> 12)
            if va >> 12 != 10 and r.random() < .4:
                return byte(at + 1, r.choice([0, 0x80]), True)
            return byte(at, flags(), True)
        at = L2[va >> 12][k] + 4 * (va >> 7 & 31)
        return byte(at, flags(), True) if r.random() < .4 else byte(at + 1, r.choice([0, 0x80]), True) if r.random() < .5 else \
            byte(at + 2, r.choice([0x40, 0x41, 0x42, 0x43]), True)
    def use(stack):
        va = (focus if r.random() < .7 else r.choice(VAS)) + r.choice([10, 11, 126, 127])
        k = r.choice(KINDS if stack else [x for x in KINDS if x[0] != "p"])
        if k[0] == "p":
            return ins(64, 11, 0, w=va) + access(k) + ins(64, 11, 0, w=0xffc0)
        if r.random() < (.1 if um else .04):
            return [37] + w16(va & ~127)
        return ins(64, 1, 0, w=va) + access(k)
    def act():
        """what a supervisor does"""
        x = r.random()
        return use(not um) if x < (.25 if um else .5) else change() if x < .8 else ins(64, 14, 0, w=r.choice(ROOTS)) if x < .9 else [18] + use(False) + [17]
    def patch(at):
        k = r.randrange(3)
        at += 4 + 3 + 4 + k
        return ins(64, 2, 0, w=at + 3) + ins(63, 12, b=r.randrange(256)) + ins(39, 2, 12, w=0) + [32] * k + ins(64, 4, 0, w=word(r))
    regs, fl = state(r, um=um, vm=True, tr=False, rh=0x1800 if um else 0)
    regs[10], regs[13] = 0xffc0, ROOTS[0]
    code = []
    if um:
        for _ in range(14):
            code += use(False) if r.random() < .6 else [12]
        h, at = [], 0x1806
        for _ in range(8):
            piece = sum((act() if r.random() < .85 else ins(64, 3, 0, w=r.choice(ROOTS)) + ins(40, 11, 3, w=2) for _ in range(r.randrange(1, 4))), [])
            nxt = at + 17 + len(piece)
            h += ins(64, 2, 0, w=0x1801) + ins(64, 3, 0, w=nxt) + ins(40, 2, 3, w=0) + ins(40, 2, 3, w=3) + piece + [13]
            at = 0x1806 + len(h)
        h = [53] + w16(0x1806) + [54] + w16(0x1806) + h + [13]
        place(mem, 0x1800, h)
    else:
        for _ in range(25):
            # code that writes the operand of the instruction after
            code += act() if r.random() < .9 else patch(0x200 + len(code))
        if r.random() < .2:
            code += [16] + use(True) + use(True)
        elif r.random() < .7:
            # the page that is being executed goes away
            def own(size):
                vp = 0x200 + len(code) + size >> 7
                k = r.random()
                return byte(0x1100 + 4 * vp, flags(), True) if k < .3 else byte(ROOTS[0], flags(), True) + byte(ROOTS[1], flags(), True) if k < .5 else \
                    byte(0x1100 + 4 * vp + 2, 0x60 + (vp >> 1), True)
            st = r.getstate()
            size = len(own(0))
            r.setstate(st)
            code += own(size)
            for a in range(0x6200, 0x6a00, 4):
                place(mem, a, r.choice([ins(63, 9, b=r.randrange(256)) + [32], [32] * 4, ins(64, 3, 0, w=word(r))]))
            code += ins(63, 9, b=1) * 3
    place(mem, 0x200, code + [10])
    assert len(code) < 0x780
    return case(id, regs, 0x200, fl, mem, n, goon=True)

def tables_seen_case(r, id, n):
    """tables mapped into the address space they describe: the table of the second level in itself, the one of the
    first level through it, or the first level as a second one; accesses at the bytes of the entries that
    translate them"""
    rp = r.choice([0x1000, 0x8000, 0xff80, 0x1080])
    regs, fl = state(r, um=r.random() < .4, vm=True, tr=False)
    regs[13] = rp
    t = Tables(r, rp)
    code = 0x300
    t.page(code >> 7, F_ALL, f1=F_ALL)
    v = r.randrange(1, 16)
    top = F_ALL & ~(0x10 if r.random() < .6 else 0)
    if r.random() < .6:
        l2 = r.choice([0x1100, 0x24680, rp ^ 0x80])
        t.top(v, top, at=l2)
        k = r.randrange(31)
        t.page(v << 5 | k, 0x2f, frame=l2)
        t.page(v << 5 | k + 1, 0x2f, frame=rp)
        pages = [(v << 12 | k << 7, [4 * k + j for j in range(-1, 4)]), (v << 12 | k << 7, [4 * k + 4 + j for j in range(4)]),
                 (v << 12 | k + 1 << 7, [4 * v + j for j in range(-1, 4)])]
    else:
        t.top(v, top, at=rp)
        pages = [(v << 12 | v << 7, [4 * v + j for j in range(-1, 4)])]
        if r.random() < .5:
            w = r.randrange(1, 16)
            if w != v:
                t.top(w, F_ALL)
                pages.append((v << 12 | w << 7, list(range(0, 127, 9))))
    t.put(code, [b for _ in range(n) for b in access(r.choice(["storeb", "storew", "storew", "pushw", "loadw"]))])
    base, offs = r.choice(pages)
    va = base + r.choice(offs + [r.randrange(126)]) & 65535
    regs[0] = va
    regs[10] = va + r.choice([1, 2, 2]) & 65535
    near = [b for b in t.mem.values()]
    if r.random() < .8:
        # what is written is an entry that makes sense, or nearly so
        regs[1] = r.choice(near + [0x2f, 0x3f, 0x2b, 0x0f, 0]) | r.choice(near + [0, 1, 0x80]) << 8
    return case(id, regs, code, fl, t.mem, n, goon=False)

def c06(c):
    r = c.rng("xlate")
    cases = []
    # all permission combinations at both levels (dirty bits set beforehand), all access kinds, both modes
    for kind in (["fetch", "loadb", "storeb"] if not c.thorough else ["fetch"] + KINDS):
        for um in (False, True):
            for p1 in range(32):
                for p2 in range(32):
                    f1 = (p1 & 15) | 16 | (p1 >> 4) << 5
                    f2 = (p2 & 15) | 16 | (p2 >> 4) << 5
                    cases.append(fault_case(r, "f%s-%d-%d-%d" % (kind, um, p1, p2), kind, f1, f2, um,
                                            r.choice([0x1000, 0, 0xffc0, 0x1234, word(r)]), word(r)))
    # every virtual page number, both levels, with offsets
    for vp in range(512):
        kind = r.choice(["fetch"] + KINDS)
        cases.append(fault_case(r, "v%d" % vp, kind, F_ALL, F_ALL, r.random() < .5, word(r), vp << 7 | r.randrange(127)))
    # page crossing wide accesses
    full = [F_ALL, F_ALL, F_ALL, 0x3e, 0x3d, 0x3b, 0x37, 0x1f]
    for i in range(4000 if c.thorough else 500):
        cases.append(spread_case(r, "x%d" % i, r.choice(["storew", "loadw", "pushw", "popw", "loadwr"]),
                                 r.random() < .5, full))
    for i in range(3000 if c.thorough else 300):
        cases.append(random_tables_case(r, "t%d" % i, 12, r.random() < .5, "set", KINDS))
    for i in range(2000 if c.thorough else 200):
        cases.append(history_case(r, "h%d" % i, r.random() < .4))
    for i in range(2000 if c.thorough else 250):
        cases.append(tables_seen_case(r, "y%d" % i, 2))
    for op in sorted(OPS):
        for i in range(20 if c.thorough else 3):
            cases.append(straddle_case(r, "q%d-%d" % (op, i), op, 0))
    # translation off: addresses are physical, tables ignored
    for i in range(300):
        regs, fl = state(r, vm=False)
        kind = r.choice(KINDS)
        va = word(r)
        mem = {}
        for d in range(-2, 4):
            mem[(va + d) & 65535] = r.randrange(1, 256)
        pc = 0x4000 if not 0x3f00 < va < 0x4100 else 0x5000
        place(mem, pc, access(kind))
        aim(regs, kind, va)
        cases.append(case("d%d" % i, regs, pc, fl, mem))
    validate_cpu(c, cases, "translation traces")


# --------------------------------------------------------------------- C07
def c07(c):
    r = c.rng("dirty")
    cases = []
    # all flag bytes at both levels for a store; a sample of them for the other accesses
    for f1 in range(64):
        for f2 in range(64):
            for um in (False, True):
                if um and not (f1 & 0x20 and f2 & 0x20) and r.random() < .8:
                    continue
                kind = "storeb" if r.random() < .7 else r.choice(["pushb", "storebr"])
                va = r.randrange(512) << 7 | r.randrange(126)
                cases.append(fault_case(r, "w%d-%d-%d" % (um, f1, f2), kind, f1, f2, um,
                                        r.choice([0x1000, 0, 0x1234]), va))
    for i in range(3000 if c.thorough else 700):
        kind = r.choice(["fetch", "loadb", "loadw", "popb", "popw", "loadwr"])
        cases.append(fault_case(r, "r%d" % i, kind, r.randrange(64) | 1, r.randrange(64) | 1, r.random() < .5,
                                0x1000, r.randrange(512) << 7 | r.randrange(126)))
    clean = [0x2f, 0x3f, 0x2f, 0x3f, 0x2f, 0x2b, 0x2d, 0x3e, 0x0f, 0x1f]
    for i in range(4000 if c.thorough else 600):
        cases.append(spread_case(r, "x%d" % i, r.choice(["storew", "pushw"]), r.random() < .4, clean))
    for i in range(3000 if c.thorough else 300):
        cases.append(random_tables_case(r, "t%d" % i, 12, r.random() < .4, True, KINDS))
    for i in range(2000 if c.thorough else 150):
        cases.append(history_case(r, "h%d" % i, r.random() < .3))
    for i in range(1500 if c.thorough else 200):
        cases.append(tables_seen_case(r, "a%d" % i, 2))
    validate_cpu(c, cases, "dirty bit traces")
    model_user(c, True, ["EntriesKept"])


# --------------------------------------------------------------------- C08
# operand positions of wide registers by opcode: which of the operand nibbles are wide
WIDEPOS = {34: [0], 36: [0], 39: [0], 40: [0, 1], 41: [0, 1], 42: [0, 1, 2], 43: [1], 44: [0, 1], 45: [1, 2],
           46: [0, 1, 2], 64: [0], 82: [0, 1, 2, 3], 84: [0, 1, 2, 3]}
for _o in WIDE_ALU:
    WIDEPOS[_o] = [0, 1, 2]

def user_world(r, rh, code, um=True, stackflags=F_ALL):
    """user pages (code, data, stack), a supervisor handler page and supervisor data"""
    regs, fl = state(r, um=um, vm=True, tr=r.random() < .3, rh=rh)
    rp = regs[13] = r.choice([0x1000, 0x1234])
    t = Tables(r, rp)
    cpage = 0x2000
    t.page(cpage >> 7, F_ALL)
    t.page((cpage >> 7) + 1, F_ALL)
    t.page(0x3000 >> 7, F_ALL)              # user data
    t.page(0x4000 >> 7, 0x1f)               # supervisor only, second level
    t.page(0x5000 >> 7, 0x3f, f1=0x1f)      # supervisor only, first level
    t.page(0xf000 >> 7, stackflags)         # stack
    t.page(0xf080 >> 7, stackflags)
    t.page(0x6000 >> 7, 0x1f)               # handler
    t.put(cpage, code)
    regs[10] = 0xf080 + r.randrange(0, 16)
    for n in range(5):
        regs[n] = r.choice([0x3000, 0x4000, 0x5000, 0x2000, rp, word(r)]) + r.randrange(8) & 65535
    for pg in (0x3000, 0x4000, 0x5000, 0xf080):
        for i in range(12):
            t.put(pg + i, [r.randrange(256)])
    return regs, fl, t, cpage

def c08(c):
    r = c.rng("user")
    cases = []
    # every instruction with rp and rh in every wide operand position
    for op, poss in sorted(WIDEPOS.items()):
        for p in poss:
            for reg in (14, 15):
                for rh in (0, 0x6000):
                    for um in (True, False):
                        code = random_ins(r, op)
                        if op == 64:
                            code[1] = code[1] & 0xf0 | r.randrange(2)
                        i = 1 + p // 2
                        code[i] = code[i] & 0x0f | reg << 4 if p % 2 == 0 else code[i] & 0xf0 | reg
                        regs, fl, t, pc = user_world(r, rh, code, um)
                        cases.append(case("p%d-%d-%d-%x-%d" % (op, p, reg, rh, um), regs, pc, fl, t.mem))
    # privileged instructions, and everything that ends or changes mode
    for op in (16, 17, 18, 19, 20, 10, 11, 12, 13, 0):
        for um in (True, False):
            for rh in (0, 0x6000):
                for k in range(6):
                    code = random_ins(r, op)
                    regs, fl, t, pc = user_world(r, rh, code, um)
                    cases.append(case("v%d-%d-%x-%d" % (op, um, rh, k), regs, pc, fl, t.mem))
    # user flag at both levels for each kind of access (all other bits set)
    for kind in ["fetch"] + KINDS:
        for um in (False, True):
            for f1 in (F_ALL, 0x1f):
                for f2 in (F_ALL, 0x1f):
                    for rh in (0,):
                        cases.append(fault_case(r, "u%s-%d-%x-%x" % (kind, um, f1, f2), kind, f1, f2, um, 0x1000,
                                                r.randrange(512) << 7 | r.randrange(126)))
    # runs of user code, with a handler that returns
    allops = list(OPS)
    for i in range(3000 if c.thorough else 400):
        code = []
        while len(code) < 100:
            op = r.choice(allops) if r.random() < .6 else r.choice(MEMOPS)
            if op in (10, 0) and r.random() < .7:
                continue
            if 47 <= op <= 58 or op == 37:
                code += ins(op, w=0x2000 + r.randrange(100))
            else:
                code += random_ins(r, op)
        rh = 0x6000 if r.random() < .8 else 0
        regs, fl, t, pc = user_world(r, rh, code)
        h = []
        for _ in range(r.randrange(3)):
            h += random_ins(r, r.choice([65, 66, 71, 64, 63, 11, 16, 18, 17]))
        t.put(0x6000, h + [13] + [13])
        cases.append(case("s%d" % i, regs, pc, fl, t.mem, 40, goon=True))
    # supervisor and user use the same pages one after the other
    for i in range(2000 if c.thorough else 200):
        def use(at=None):
            va = (at or r.choice([0x3000, 0x4000, 0x5000, 0x5000, 0x4000])) + r.choice([0, 1, 5, 126])
            k = r.choice([x for x in KINDS if x[0] != "p"])
            return ins(64, 1, 0, w=va) + (access(k) if r.random() < .8 or at else ins(64, 12, 0, w=0x2000 + 200) + [37] + w16(va & 0xff80))
        code = sum((use() for _ in range(r.randrange(3))), [])
        at = r.choice([0x4000, 0x5000, 0x3000])
        kind = r.choice([x for x in KINDS if x[0] != "p"])
        code += ins(64, 1, 0, w=at) + access(kind) + r.choice([[], [], [18, 17], [17]]) + [16] + r.choice([[], ins(64, 1, 0, w=at + r.randrange(12))]) + \
            access(kind if r.random() < .7 else r.choice([x for x in KINDS if x[0] != "p"]))
        code += sum((use() for _ in range(r.randrange(4))), [])
        regs, fl, t, pc = user_world(r, 0x6000 if r.random() < .5 else 0, code, um=False)
        t.put(0x6000, [13])
        cases.append(case("q%d" % i, regs, pc, fl, t.mem, 24, goon=True))
    # user code and a handler that both use pages whose tables the handler changes
    for i in range(2000 if c.thorough else 120):
        cases.append(history_case(r, "y%d" % i, True))
    # returning from a handler never raises privilege: traps in user mode, handler plays with everything but the frame
    for i in range(600 if c.thorough else 120):
        code = r.choice([[12], [10], [0], [81, 0x12, 0x30], [18], [200], [64, 0xe0, 1, 2]]) + [32] * 4 + [18]
        regs, fl, t, pc = user_world(r, 0x6000, code, um=r.random() < .8)
        h = []
        for _ in range(r.randrange(4)):
            h += random_ins(r, r.choice([65, 66, 71]))
        t.put(0x6000, h + [13])
        cases.append(case("h%d" % i, regs, pc, fl, t.mem, 12, goon=True))
    validate_cpu(c, cases, "user mode traces")
    model_user(c, False, ["PrivilegedKept", "UserConfined", "ReturnRestores"])


# --------------------------------------------------------------------- C09
def c09(c):
    r = c.rng("trap")
    cases = []
    causes = {"inv": [0], "inv2": [65, 0x12, 0x31], "halt": [10], "sys": [12], "div": [81, 0x12, 0x30],
              "divw": [82, 0x12, 0x30], "reth": [13], "unk": [0xee], "ldi": [64, 0x1f, 1, 2]}
    for name, code in causes.items():
        for um in (False, True):
            for vm in (False, True):
                for k in range(20 if c.thorough else 6):
                    regs, fl = state(r, um=um, vm=vm, tr=False, rh=0x6000)
                    regs[10] = r.choice([0x8000, 0xa7f3])
                    mem = {}
                    h = []
                    for _ in range(r.choice([0, 0, 1, 3])):
                        h += random_ins(r, r.choice([65, 66, 71, 67, 63]))
                    h += [13]
                    prog = code + [32, 32]
                    if vm:
                        t = Tables(r, 0x1000)
                        regs[13] = 0x1000
                        for vp in (0x6000 >> 7, 0x2000 >> 7, (regs[10] - 1) >> 7, (regs[10] - 35) >> 7):
                            t.page(vp, F_ALL)
                        t.put(0x6000, h)
                        t.put(0x2000, prog)
                        mem = t.mem
                    else:
                        place(mem, 0x6000, h)
                        place(mem, 0x2000, prog)
                    cases.append(case("c%s-%d-%d-%d" % (name, um, vm, k), regs, 0x2000, fl, mem, 8, goon=True))
    # memory faults taken and returned from, at every micro-step of the faulting instruction
    for i in range(1500 if c.thorough else 250):
        kind = r.choice(["fetch"] + KINDS)
        um = r.random() < .5
        regs, fl = state(r, um=um, vm=True, tr=False, rh=0x6000)
        regs[13] = 0x1000
        t = Tables(r, 0x1000)
        t.page(0x6000 >> 7, F_ALL)
        t.page(0xf000 >> 7, F_ALL)
        t.page(0xf080 >> 7, F_ALL)
        t.put(0x6000, [13])
        va = r.choice([0x3000, 0x307f, 0x3fff])
        for a in (va, va + 1):
            if r.random() < .7:
                t.page(a >> 7, r.choice([F_ALL, 0x3b, 0x3d, 0x37, 0x1f, 0x3e]))
        pc = 0x2000
        if kind == "fetch":
            pc = va
        else:
            end = r.random() < .3
            pc = 0x207e if end else 0x2000
            t.page(0x2000 >> 7, F_ALL)
            if r.random() < .5:
                t.page(0x2080 >> 7, F_ALL)
            code = access(kind)
            for j, b in enumerate(code):
                if (pc + j) >> 7 in t.pages:
                    t.put(pc + j, [b])
        aim(regs, kind, va)
        if not kind.startswith("p"):
            regs[10] = 0xf090
        cases.append(case("m%d" % i, regs, pc, fl, t.mem, 4, goon=True))
    for op in sorted(OPS):
        for i in range(20 if c.thorough else 4):
            cases.append(straddle_case(r, "w%d-%d" % (op, i), op, 0x6000, 3, goon=True))
    # saving registers itself faults, or wraps around the stack
    for i in range(600 if c.thorough else 120):
        vm = r.random() < .6
        regs, fl = state(r, um=r.random() < .5, vm=vm, tr=False, rh=0x6000)
        mem = {}
        code = r.choice([[12], [10], [0], [81, 0x12, 0x30]])
        regs[10] = r.choice([0, 1, 2, 10, 33, 34, 0x3010, 0x3081, 0x3090, 0xffff])
        if vm:
            t = Tables(r, 0x1000)
            regs[13] = 0x1000
            t.page(0x6000 >> 7, F_ALL)
            t.page(0x2000 >> 7, F_ALL)
            for a in (regs[10], (regs[10] - 34) & 65535):
                if r.random() < .7 and a >> 7 not in t.pages:
                    t.page(a >> 7, F_ALL if r.random() < .7 else 0x3b)
            t.put(0x6000, [13])
            t.put(0x2000, code)
            mem = t.mem
        else:
            place(mem, 0x6000, [13])
            place(mem, 0x2000, code)
        cases.append(case("k%d" % i, regs, 0x2000, fl, mem, 5, goon=True))
    # handlers that change the saved frame, traps inside handlers, ctf and plain reth
    for i in range(800 if c.thorough else 150):
        regs, fl = state(r, um=r.random() < .5, vm=False, tr=r.random() < .4, rh=0x6000)
        regs[10] = 0x8000
        mem = {}
        h = []
        for _ in range(r.randrange(1, 5)):
            k = r.random()
            if k < .3:
                h += ins(40, 11, r.randrange(1, 14), w=2 * r.randrange(17))
            elif k < .5:
                h += ins(44, r.randrange(1, 11), 11, w=2 * r.randrange(17))
            elif k < .6:
                h += [12]
            elif k < .7:
                h += [11]
            else:
                h += random_ins(r, r.choice([65, 66, 71]))
        h += [13]
        place(mem, 0x6000, h)
        place(mem, 0x2000, [12, 32, 12, 13, 32])
        cases.append(case("n%d" % i, regs, 0x2000, fl, mem, 16, goon=True))
    # no handler: reported to the host, flags set
    for i in range(150):
        regs, fl = state(r, um=r.random() < .5, vm=False, tr=r.random() < .4, rh=0)
        mem = {}
        place(mem, 0x2000, r.choice(list(causes.values())))
        cases.append(case("o%d" % i, regs, 0x2000, fl, mem, 3, goon=True))
    validate_cpu(c, cases, "trap traces")
    model_user(c, False, ["EntryState", "ReturnRestores", "ReturnWorks"])
