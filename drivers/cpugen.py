"""Instruction encodings and random machine states for the processor checks."""
OPS = {}   # opcode -> (mnemonic, shape)
_T = """0 null n|10 halt n|11 ctf n|12 syscall n|13 reth n|16 usr n|17 vmon n|18 vmoff n|19 pstore P3|20 pload P3
32 nop n|33 push B|34 push W|35 pop B|36 pop W|37 call i16|38 ret i8|39 store RRi|40 store RRi|41 store R3|42 store R3
43 load RRi|44 load RRi|45 load R3|46 load R3|47 jez i16|48 jlt i16|49 jle i16|50 jgt i16|51 jge i16|52 jnz i16
53 jo i16|54 jno i16|55 ja i16|56 jae i16|57 jb i16|58 jbe i16|63 ldi Bi8|64 ldi ldiw"""
for part in _T.replace("\n", "|").split("|"):
    n, mn, sh = part.split()
    OPS[int(n)] = (mn, sh)
for i, mn in enumerate("add sub and or xor shl asr lsr".split()):
    OPS[65 + 2 * i] = (mn, "R3")
    OPS[66 + 2 * i] = (mn, "R3")
OPS.update({81: ("div", "R4"), 82: ("div", "R4"), 83: ("mul", "R4"), 84: ("mul", "R4")})

BYTE_ALU = [65, 67, 69, 71, 73, 75, 77, 79]
WIDE_ALU = [o + 1 for o in BYTE_ALU]
JUMPS = list(range(47, 59))

def w16(v):
    return [v & 255, v >> 8 & 255]

def ins(op, *regs, imm=None, w=None, b=None):
    """encode: registers packed, then immediate"""
    out = [op]
    regs = list(regs)
    if len(regs) % 2:
        regs.append(0)
    for i in range(0, len(regs), 2):
        out.append(regs[i] << 4 | regs[i + 1])
    if b is not None:
        out.append(b & 255)
    if w is not None:
        out += w16(w)
    return out

EDGE = [0, 1, 2, 3, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x17f, 0x180, 0xfff, 0x1000, 0x7ffe, 0x7fff,
        0x8000, 0x8001, 0xfffc, 0xfffd, 0xfffe, 0xffff]

def word(r):
    k = r.random()
    if k < 0.35:
        return r.choice(EDGE)
    if k < 0.5:
        return r.randrange(256)
    return r.randrange(65536)

def state(r, rh=0, um=False, vm=False, tr=False, rv=None):
    regs = [word(r) for _ in range(15)]
    regs[14] = rh
    fl = (r.randrange(16) << 4) | (8 if vm else 0) | (4 if (r.random() < .3 if rv is None else rv) else 0) \
        | (2 if tr else 0) | (1 if um else 0)
    return regs, fl

def random_ins(r, op):
    mn, sh = OPS[op]
    R = lambda: r.randrange(16)
    if sh == "n":
        return [op]
    if sh in "BW":
        return ins(op, R())
    if sh == "i8":
        return ins(op, b=r.randrange(256))
    if sh == "i16":
        return ins(op, w=word(r))
    if sh == "RRi":
        return ins(op, R(), R(), w=word(r))
    if sh in ("R3", "P3"):
        return ins(op, R(), R(), R())
    if sh == "R4":
        return ins(op, R(), R(), R(), R())
    if sh == "Bi8":
        return ins(op, R(), b=r.randrange(256))
    if sh == "ldiw":
        return [op, R() << 4 | (1 if r.random() < .3 else 0)] + w16(word(r))

def place(mem, addr, data, size=None):
    """put bytes at addr, wrapping the 16 bit address space"""
    for i, b in enumerate(data):
        mem[(addr + i) % 65536] = b

def chunks(mem):
    """dict address -> byte to the harness's memory token"""
    out, cur, last = [], None, None
    for a in sorted(mem):
        if last is None or a != last + 1:
            cur = [a, []]
            out.append(cur)
        cur[1].append(mem[a])
        last = a
    return ",".join("%x:%s" % (a, bytes(b).hex()) for a, b in out)

def case(id, regs, pc, fl, mem, n=1, **kw):
    c = {"id": id, "n": n, "r": "".join("%04x" % x for x in regs), "pc": "%x" % pc, "fl": "%x" % fl,
         "m": chunks(mem)}
    for k, v in kw.items():
        if v:
            c[k] = 1
    return c
