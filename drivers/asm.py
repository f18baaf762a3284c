"""Checks of the assembler properties (C18-C20)."""
import itertools, json, os, re, resource, zlib
import files

def blist(s):
    return list(s if isinstance(s, bytes) else s.encode())

class Prog:
    """a source program: main path and files {path: [lines as bytes]}"""
    def __init__(self, pid, files, main=None, real=None, mass=None):
        lines = lambda fs: {k: [l if isinstance(l, bytes) else l.encode() for l in v] for k, v in fs.items()}
        self.id, self.files = pid, lines(files)
        self.main = main or next(iter(files))
        # what is really assembled, if that is more of the same: files that only include the next, and mass lines
        # like the last one of the main file
        self.real, self.mass = lines(real) if real else self.files, mass

def write(c, progs, ends=None):
    for p in progs:
        for path, lines in p.real.items():
            full = os.path.join(c.scratch, p.id, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(b"\n".join(lines) + (b"\n" if (len(lines) + len(p.id)) % 3 or not lines else b""))
        # perhaps there is an older output, longer or shorter
        k = zlib.crc32(p.id.encode())
        p.old = None
        if k % 7 == 0:
            p.old = bytes(q * k & 255 for q in range(k // 7 % 3 * 1500))
            full = os.path.join(c.scratch, p.id, to_path(p.main))
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(p.old)

def parse_errors(pid, text):
    out = []
    for l in text.split(b"\n"):
        m = re.match(rb"%s/([^:]*)(?::(\d+))?: (.*)$" % re.escape(pid.encode()), l, re.S)
        if m:
            out.append([blist(m.group(1)), int(m.group(2) or 0), blist(m.group(3))[:200]])
    return out

def parse_warnings(text):
    out = []
    for l in text.decode("utf-8", "replace").split("\n"):
        if "warning" in l.lower():
            m = re.search(r"(byte|wide)\b.*(overflow|underflow)", l)
            out.append(list(m.groups()) if m else ["other", l[:80]])
    return out

def observe(c, progs, batch=40):
    """runs the assembler over the programs; JSON lines for TraceAsm.
    A batch of 1 also tells whose the warnings are."""
    write(c, progs)
    tc = os.path.join(c.bins, "tc")
    errs, status, warns = {}, {}, {}
    alone = 12
    groups = [[p] for p in progs[:alone]] + [progs[i:i + batch] for i in range(alone, len(progs), batch)]
    for g in groups:
        st, _, err = files.run_tool([tc] + ["%s/%s" % (p.id, p.main) for p in g], c.scratch)
        crashed = st not in (0, 1) or b"panicked" in err
        if crashed and len(g) > 1:
            # find out whose fault it is
            groups += [[p] for p in g]
            continue
        if crashed:
            c.violation("the assembler did not end in an orderly way (status %s)" % st,
                        {"program": {k: [l.decode("utf-8", "replace") for l in v] for k, v in g[0].files.items()},
                         "stderr": err.decode("utf-8", "replace")[-1500:]})
            continue
        for p in g:
            errs[p.id] = condensed(p, parse_errors(p.id, err))
            warns[p.id] = parse_warnings(err) if len(g) == 1 else []
            # in a group the status says only something about all of them together
            status[p.id] = st if len(g) == 1 else (0 if st == 0 else -1)
    live = [p for p in progs if p.id in errs]
    shown = c.harness("show", [{"id": p.id, "path": "%s/%s" % (p.id, to_path(p.main))} for p in live])
    lines = []
    for p, s in zip(live, shown):
        made = made_new(os.path.join(c.scratch, p.id, to_path(p.main)), p.old)
        lines.append(json.dumps({
            "id": p.id, "main": blist(p.main), "status": status[p.id],
            "files": [{"path": blist(k), "lines": [list(l) for l in v]} for k, v in p.files.items()],
            "made": int(made), "errs": errs[p.id], "warns": warns[p.id], "out": json.loads(s)["read"]}))
    return lines

def condensed(p, errs):
    """mass faulty lines one like the other leave everything else as it was, so they are a fault each or none is"""
    if not p.mass:
        return errs
    first = len(p.files[p.main])
    block = range(first, first + p.mass)
    seen = {e[1] for e in errs if e[0] == blist(p.main)}
    return [e for e in errs if e[0] != blist(p.main) or e[1] not in block or e[1] == first and seen.issuperset(block)]

def made_new(path, old):
    try:
        with open(path, "rb") as f:
            return f.read() != old
    except OSError:
        return False

def to_path(main):
    return os.path.splitext(main)[0] + ".to"

def check(c, progs, invariants, label, batch=40):
    lines = observe(c, progs, batch)
    if lines:
        cases = [{"id": p.id, "source": {k: [l.decode("utf-8", "backslashreplace") for l in v][:80] for k, v in p.files.items()}} for p in progs]
        c.validate("TraceAsm", lines, cases, invariants=invariants, label=label)

# ---- generators -----------------------------------------------------------
BREGS = "r0b r1l r1h r2l r2h r3l r3h r4l r4h r5l r5h r6b r7b r8b r9b r10b".split()
WREGS = "r0 r1 r2 r3 r4 r5 r6 r7 r8 r9 r10 rs rl rf rp rh".split()
NONE = "null halt ctf syscall reth nop ret".split()
IMM16 = "call jez jlt jle jgt jge jnz jne jo jno jb jc jae jnc ja jbe jmp jump".split()
BIN = "add sub and or xor shl asr lsr".split()

def number(r, bits=16):
    """a number spelled one way or another; mostly within range"""
    v = r.choice([0, 1, 2, 7, 8, 9, 10, 127, 128, 129, 254, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff,
                  65536, 0x7fffffff, r.randrange(1 << r.randrange(1, 32))])
    if bits == 8 and r.random() < .7:
        v &= 0xff
    elif r.random() < .7:
        v &= 0xffff
    sign = r.choice(["", "", "", "-", "+"])
    if r.random() < .05:
        v, sign = 0x80000000, "-"
    base = r.choice([10, 10, 16, 16, 2, 8])
    d = {10: "%d", 16: r.choice(["%x", "%X"]), 8: "%o"}.get(base)
    s = d % v if d else bin(v)[2:]
    if r.random() < .2:
        s = "0" * r.randrange(1, 5) + s
    return {10: "", 16: "0x", 2: "0b", 8: "0o"}[base] + sign + s

CHARS = list("abzAZ09 !#$%&()*+-./:;<=>?@[]^_`{|}~\"w") + ["\\n", "\\r", "\\t", "\\0", "\\\\", "\\'", "\\\"", "\\x00", "\\xff", "\\x7F", "\\xaB", "\\x20"]
def char(r):
    return "'%s'" % r.choice(CHARS)

def sized(r, bits):
    """a literal with a size suffix that holds it"""
    while True:
        n = number(r, bits)
        v = int(n[2:], {"x": 16, "b": 2, "o": 8}[n[1]]) if n[:2] in ("0x", "0b", "0o") else int(n)
        if -(1 << bits - 1) <= v < 1 << bits and (v >= 0 or "-" in n) and n[-1] not in "-+":
            return n + ("b" if bits == 8 else "w")

def imm8(r):
    return r.choice([lambda: number(r, 8), lambda: char(r).replace(",", "x"), lambda: sized(r, 8), lambda: str(r.randrange(256))])()
def imm16(r, labels=()):
    if labels and r.random() < .4:
        return r.choice(labels)
    return r.choice([lambda: number(r), lambda: sized(r, 16), lambda: "0x%04x" % r.randrange(65536)])()

def ins(r, labels=()):
    """a valid instruction line"""
    b, w = (lambda: r.choice(BREGS)), (lambda: r.choice(WREGS))
    i16 = lambda: imm16(r, labels)
    k = r.randrange(13)
    if k == 0:
        s = r.choice(NONE)
        return s
    if k == 1:
        m, ops = r.choice(["push", "pop"]), [r.choice([b, w])()]
    elif k == 2:
        m, ops = r.choice(IMM16), [i16()]
    elif k == 3:
        m, ops = "ret", [imm8(r)]
    elif k == 4:
        m, ops = r.choice(["store", "str"]), r.choice([lambda: [w(), i16(), b()], lambda: [w(), i16(), w()], lambda: [w(), w(), b()], lambda: [w(), w(), w()]])()
    elif k == 5:
        m, ops = "load", r.choice([lambda: [b(), w(), i16()], lambda: [w(), w(), i16()], lambda: [b(), w(), w()], lambda: [w(), w(), w()]])()
    elif k == 6:
        m, ops = "ldi", r.choice([lambda: [b(), imm8(r)], lambda: [w(), i16()]])()
    elif k == 7:
        m, ops = r.choice(["jmp", "jump"]), [r.choice(WREGS[1:])]
    elif k in (8, 9, 10):
        x = r.choice([b, w])
        m, ops = r.choice(BIN), [x(), x(), x()]
    else:
        x = r.choice([b, w])
        m, ops = r.choice(["mul", "div"]), [x(), x(), x(), x()]
    return spaced(r, m, ops)

def spaced(r, m, ops):
    j = r.choice([", ", ", ", ",", " , ", ",\t", "  ,  "])
    return r.choice(["", "", "    ", "\t", " \t "]) + m + r.choice([" ", " ", "  "]) + j.join(ops) + r.choice(["", "", "", " ", "\r", "\t "])

def text(r):
    return "".join(r.choice(CHARS + ["'", ",", "á", "日", "  "]) for _ in range(r.randrange(0, 14)))

def data(r, labels=()):
    k = r.randrange(4)
    if k == 0:
        return ".string " + text(r)
    if k == 1:
        return ".byte " + imm8(r)
    return r.choice([".wide ", ".word "]) + imm16(r, labels)

ODD = ["256b", "-129b", "65536w", "-32769w", "2147483648", "-2147483649", "0x", "0b", "0o", "b", "w", "0x80000000", "0xg", "0o8",
       "0b2", "0b12", "-", "+", "--1", "0x-", "r11", "r0l", "R1", "rz", "a b", "x'", "'", "1x", "0X10", "0b1b1", "1e5", "_", ".l", "$",
       "á", "beb", "0xw", "0bw", "12a", "r1b", "99999999999999999999", "0x100b", "0x10000w", "0o400b", "0b100000000b", "-b", "+w", "-0x5"]
EDGE = ["255b", "-128b", "+255b", "-0b", "0b", "65535w", "-32768w", "+65535w", "2147483647", "-2147483648", "+2147483647", "0xffb",
        "0x-80b", "0x+ffb", "0x1b", "0x0b", "0xb0b", "0b11111111b", "0o377b", "0o177777w", "0b1111111111111111w", "0x-8000w", "0x7fffffff", "0x-80000000",
        "0o17777777777", "0o-20000000000", "0b0", "0b1", "0b10", "-1", "-0", "+0", "000", "00000000000000000000001", "0x00000000000000001", "-1b", "-1w", "127b", "128b",
        "32767w", "32768w", "256", "-129", "65536", "-32769", "0b111b", "0b-10000000b"]

def odd_programs(r, n):
    """every odd word used where a number may stand, and defined as a label"""
    out = []
    words = ODD + EDGE
    for i in range(0, len(words), 6):
        ls = [".seg text"]
        ws = words[i:i + 6]
        for w in ws:
            ls += ["call " + w, "ldi r1, " + w, "load r2, r3, " + w, "store r4, %s, r2h" % w, ".wide " + w]
        for w in ws:
            ls.append(w + ":")
        out.append(Prog("odd%d" % i, {"p.telda": ls}))
        ls = [".seg data"] + [".byte " + w for w in ws] + [".seg text"] + ["ldi r1l, " + w for w in ws] + ["ret " + w for w in ws]
        out.append(Prog("oddb%d" % i, {"p.telda": ls}))
    return out

def encoding_programs(c, r):
    out = []
    # every register in every place of every form
    forms = {"add": 3, "sub": 3, "and": 3, "or": 3, "xor": 3, "shl": 3, "asr": 3, "lsr": 3, "mul": 4, "div": 4, "push": 1, "pop": 1}
    for regs, tag in ((BREGS, "b"), (WREGS, "w")):
        for m, n in forms.items():
            ls = [".seg text"]
            for i in range(16):
                ls.append("%s %s" % (m, ", ".join(regs[(i * (2 * k + 1) + k) % 16] for k in range(n))))
            out.append(Prog("all-%s-%s" % (m, tag), {"p.telda": ls}))
    for m in ("store", "str", "load"):
        ls = [".seg text"]
        for i in range(16):
            w, w2, w3, b = WREGS[i], WREGS[(3 * i + 1) % 16], WREGS[(5 * i + 2) % 16], BREGS[(7 * i + 3) % 16]
            ls += (["%s %s, %d, %s" % (m, w, 300 * i, x) for x in (b, w2)] + ["%s %s, %s, %s" % (m, w, w2, x) for x in (b, w3)] if m != "load" else
                   ["load %s, %s, %s" % (x, w2, y) for x in (b, w) for y in (w3, str(257 * i))])
        out.append(Prog("all-" + m, {"p.telda": ls}))
    ls = [".seg text"] + ["%s %d" % (m, 0x1234 + i) for i, m in enumerate(IMM16)] + NONE + ["ret %d" % i for i in (0, 1, 255)]
    ls += ["%s %s" % (m, x) for m in ("jmp", "jump") for x in WREGS[1:]]
    ls += ["ldi %s, %d" % (x, 77 * i) for i, x in enumerate(BREGS)] + ["ldi %s, %d" % (x, 4099 * i) for i, x in enumerate(WREGS)]
    out.append(Prog("all-imm", {"p.telda": ls}))
    out.append(Prog("all-char", {"p.telda": [".seg data"] + [".byte '%s'" % x for x in CHARS] + [".string " + x for x in CHARS] + [".string " + "".join(CHARS)]}))
    out.append(Prog("all-esc", {"p.telda": [".seg rodata"] + [".string " + "".join("\\x%02x" % (16 * i + j) for j in range(16)) for i in range(16)] +
                                [".byte '\\x%02X'" % i for i in range(0, 256, 5)]}))
    out += odd_programs(r, 0)
    # the code made by the assembler as a function of what the text says, everywhere else at random
    for i in range(700 if c.thorough else 130):
        ls = [".seg text"]
        for _ in range(r.randrange(10, 40)):
            ls.append(ins(r) if r.random() < .7 else data(r))
            if r.random() < .1:
                ls.append(r.choice(["", "; comment", "// x", "# y", "  ; push r1", ".seg text", "   "]))
        out.append(Prog("enc%d" % i, {"p.telda": ls}))
    return out

LABELS = ["main", "Main", "LOOP", "A", "loop", "a", "b", "_start", "x1", "data", "text", "L.2", "á", "very_long_label_name_with_many_characters", "r11", "push"]

MAINS = ["p.telda"] * 6 + ["prog", "a.b.telda", "x.s", "d.d/p.telda", "d.d/p", "sub/p.telda", ".p.telda", ".p", "p.", "p.asm.txt"]
SHARED = [".wide main", ".byte 7", "call main", "nop", ".string twice", "ldi r1, a", "a b"[:1] + "dd r1, r2, r3", ".seg data", ".seg text"]
def program(r, pid, faults=0, big=False):
    """a program over several segments and perhaps several files"""
    main = r.choice(MAINS)
    # a file included over and over has no labels
    shared = [".seg " + r.choice(["text", "data"])] + [l for l in r.sample(SHARED, r.randrange(1, 5))] if r.random() < .3 else None
    labels = r.sample(LABELS, r.randrange(2, 8))
    ext = r.sample(["ext1", "ext2", "puts"], r.randrange(0, 3))
    files = {}
    state = {"entry": r.random() < .6, "defs": []}
    def body(n, depth, path):
        ls = [".seg " + r.choice(["text", "data", "rodata", "heap"])] if r.random() < .95 or depth else []
        for _ in range(n):
            k = r.random()
            if k < .12:
                ls.append(".seg " + r.choice(["text", "text", "data", "rodata", "heap"]))
            elif k < .5:
                ls.append(ins(r, labels + ext))
            elif k < .72:
                ls.append(data(r, labels + ext))
            elif k < .75 and big:
                ls.append(".string " + "z" * r.choice([50, 127, 128, 129, 300]))
            elif k < .79 and depth < 2:
                d = r.choice(["", "", "sub/"])
                name = "%sf%d.telda" % (d, len(files))
                files[join(path, name)] = None
                files[join(path, name)] = body(r.randrange(0, 8), depth + 1, join(path, name))
                ls.append(".include " + name)
            elif k < .81 and shared:
                files[join(path, "shared.telda")] = [l for l in shared if "main" not in l or "main" in labels]
                files[join(path, "shared.telda")] = [l for l in files[join(path, "shared.telda")] if not l.endswith(", a") or "a" in labels]
                ls.append(".include shared.telda")
            elif k < .84:
                ls.append(r.choice([".global ", ".globl "]) + r.choice(labels))
            elif k < .87 and ext:
                ls.append(r.choice([".ref ", ".reference ", ".global "]) + r.choice(ext))
            elif k < .9 and state["entry"]:
                state["entry"] = False
                ls.append(".entry")
            elif k < .93:
                ls.append(r.choice(["", "; c", "# c", "// c"]))
            elif len(state["defs"]) < len(labels):
                rest = [l for l in labels if l not in state["defs"]]
                l = r.choice(rest)
                state["defs"].append(l)
                ls.append(r.choice(["", " ", "\t"]) + l + ":" + r.choice(["", " "]))
        return ls
    files[main] = None
    files[main] = body(r.randrange(3, 40 if big else 25), 0, main)
    p = files[main]
    if not any(l.startswith(".seg") for l in p[:1]):
        p.insert(0, ".seg text")
    # everything is defined or declared unless a fault is wanted
    for l in labels:
        if l not in state["defs"]:
            p.append(r.choice([l + ":", l + ":", ".global " + l, ".ref " + l]))
    for x in ext:
        p.append(r.choice([".ref ", ".global "]) + x)
    if r.random() < .3:
        p.append(r.choice([".seg text", ".seg data", ".byte 1", ".string ", "nop"]))
    for _ in range(faults):
        path = r.choice(list(files))
        ls = files[path]
        ls.insert(r.randrange(len(ls) + 1), fault(r, labels, ext))
    return Prog(pid, dict([(main, files.pop(main))] + list(files.items())))

def join(path, name):
    return os.path.join(os.path.dirname(path), name)

def fault(r, labels, ext):
    """a line that is, most of the time, a fault"""
    l = r.choice(labels)
    b, w = r.choice(BREGS), r.choice(WREGS)
    return r.choice([
        lambda: r.choice(["foo", "foo r1", "usr", "vmon", "vmoff", "pload r1l, r2, r3", "Push r1", "push\tr1", "mov r1, r2", "je 5", "jnez 1", "r1", "hlt", "syscal",
                          "addb r1l, r1l, r1l", "PUSH r1", "pusha", "pop r1;", "halt;", "byte 5", "seg text", ":a", "a :b"]),
        lambda: "." + r.choice(["foo", "bytes 1", "String a", "", " byte 1", "segment text", "section .text", "entry1", "wide1", "globals x", "inc x", "word\t5", "SEG text", "ascii x"]),
        lambda: ".seg " + r.choice(["zero", "bss", "", "Text", "unknown", "text x", "data,", " text", "stack", "rodata;"]),
        lambda: r.choice(["nop %s", "halt %s", "null %s, %s", "syscall %s", "reth 5", "ctf ,"]).replace("%s", w),
        lambda: r.choice(["push", "pop", "push 5", "pop %s, %s" % (w, w), "push %s, %s" % (b, b), "push %s" % l, "pop ,", "push r1,"]),
        lambda: r.choice(IMM16[:-2]) + r.choice(["", " " + w, " " + b, " 5b", " 1, 2", " %s, %s" % (l, l), " 'a'"]),
        lambda: "ret " + r.choice(["5w", w, b, l, "1, 2", "1,", ","]),
        lambda: r.choice(["store", "str"]) + " " + r.choice(["%s, 5, 6" % w, "%s, %s, 5" % (w, w), "%s, %s, %s" % (b, w, w), "5, %s, %s" % (w, w), "%s, %s" % (w, w), "%s, 5b, %s" % (w, b),
                                                             "%s, %s, %s" % (w, b, w), "%s, %s, %s" % (w, l, l), "%s, %s, %s, 5" % (w, w, w), "%s, 5, %s, %s" % (w, b, b), ""]),
        lambda: "load " + r.choice(["%s, 5, 6" % w, "5, %s, %s" % (w, w), "%s, %s, %s" % (b, b, w), "%s, %s, %s" % (w, w, b), "%s, %s" % (w, w), "%s, %s, 5b" % (w, w), "%s, %s, 'a'" % (b, w),
                                    "%s, %s, %s, 1" % (w, w, l), "%s, %s, %s, %s" % (b, w, w, w), "%s, %s, 5" % (l, w), ""]),
        lambda: "ldi " + r.choice(["%s, %s" % (w, w), "%s, 5w" % b, "%s, %s" % (b, l), "%s, 5b" % w, "%s, 'a'" % w, "5, 5", w, b, "%s, 5, 5" % w, "%s, 5, 5" % b, "%s, %s" % (b, b), "", "%s," % b]),
        lambda: r.choice(["jmp", "jump"]) + r.choice([" r0", " " + b, " 5b", "", " r1, r2", " 'x'", " 1, 2", " ,", " r0, r1"]),
        lambda: r.choice(BIN) + " " + r.choice(["%s, %s, %s" % (b, b, w), "%s, %s, %s" % (w, b, w), "%s, %s, %s" % (w, w, b), "%s, %s" % (w, w), "%s, %s, 5" % (w, w), "%s, %s, %s, %s" % (w, w, w, w),
                                                   "%s, %s, %s, %s" % (b, b, b, b), "", "%s, %s, %s" % (w, w, l), "%s, 1, %s" % (b, b)]),
        lambda: r.choice(["mul", "div"]) + " " + r.choice(["%s, %s, %s" % (b, b, b), "%s, %s, %s" % (w, w, w), "%s, %s, %s, %s" % (w, w, w, b), "%s, %s, %s, %s" % (b, w, b, b), "%s, %s, %s, %s, %s" % (w, w, w, w, w),
                                                              "%s, %s, %s, %s, 1" % (b, b, b, b), "", "%s, %s, %s, 5" % (w, w, w)]),
        lambda: ".byte " + r.choice(["x", "5w", "", "''", "'ab'", "'\\q'", "'\\'", "256b", " 5", "5,", "0xg", "r1", "'", "\"a\"", "1 2", "'\\x1'", "'\\xzz'", "'á'", "'\\x123'", "2147483648"]),
        lambda: ".wide " + r.choice(["5b", "'a'", "''", "'ab'", "undefd", "-129b", "0xffb", "5 5", "65536w", "2147483648", "", "' '"]),
        lambda: ".string " + r.choice(["\\q", "abc\\", "\\x", "\\x1", "\\xzz", "\\x1g", "a\\xa", "\\é", "\\ ", "ok\\a", "\\xé", "\\X41", "\\N"]),
        lambda: r.choice(["call ", "jmp ", "ldi r1, ", ".wide ", "jez "]) + r.choice(["nowhere", "Main", "mian", "r1x", "r11l", "0xzz", "5x", "loop ", "lo op", "''", "'ab'"]),
        lambda: l + ":",
        lambda: r.choice([".ref ", ".reference "]) + l,
        lambda: ".entry",
        lambda: ".include " + r.choice(["p.telda", "nothere.telda", "sub/none.telda", "./p.telda", "../p.telda", "sub/../p.telda", " p.telda", "nodir/x"]),
        lambda: b"\xff\xfe".decode("latin1"),
    ])()

SOUP = [".", ".byte ", ".wide ", ".string ", ".seg ", "text", ".global ", " ", " ", ", ", ",", "'", "\\", "\\x", "x", "0x", "0b", "0o", "1", "7", "9", "f", "b", "w", "-", "+", ":", ";", "//", "#",
        "r1", "r1l", "r0", "rs", "call ", "ldi ", "add ", "push ", "jmp ", "a", "main", "\t", "\"", "255", "256", "65536", "\u00e9", "\u65e5", "n", "0", "entry", "halt", "\x00", "\x7f"]
def soup(r, pid):
    """lines that are mostly nonsense"""
    def line():
        while True:
            l = "".join(r.choice(SOUP) for _ in range(r.randrange(1, 9)))
            # "\x+f" is read as 15, which is neither promised nor forbidden
            if "\\x+" not in l and "\n" not in l:
                return l
    return Prog(pid, {"p.telda": [".seg text", "a:"] + [line() for _ in range(r.randrange(1, 12))] + ["main:"]})

def raw(p):
    """turns the stand-in for bytes that are not UTF-8 into them"""
    for k, ls in p.files.items():
        p.files[k] = [b"nop \xff\xfe" if l == "\xff\xfe".encode() else l for l in ls]
    return p

def c18(c):
    r = c.rng("enc")
    check(c, encoding_programs(c, r), ("Encoded", "Sound"), "encoding")

def c19(c):
    r = c.rng("labels")
    progs = [program(r, "lab%d" % i, big=i % 3 == 0) for i in range(1500 if c.thorough else 260)]
    progs += layouts(c) + many(r)
    check(c, progs, ("ObjectRight", "SpecFaithful", "Sound"), "labels and relocations")
    enumerated(c, ("ObjectRight", "SpecFaithful", "Sound"), SCOPE_LINES, 4 if c.thorough else 3, "scopes")

def c31(c):
    """data of every size, sign and spelling; one program a run"""
    r = c.rng("warnings")
    bounds = [0, 1, 127, 128, 129, 130, 254, 255, 256, 257, 383, 384, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 98303, 98304,
              0x7fffffff, 0x7ffffffe] + [1 << k for k in range(31)] + [(1 << k) - 1 for k in range(31)] + [(1 << k) + 1 for k in range(30)]
    def spell(v, neg):
        pre, d = r.choice([("", "%d"), ("", "%d"), ("0x", "%x"), ("0x", "%X"), ("0o", "%o"), ("0b", None)])
        s = ("0" * r.choice([0, 0, 0, 0, 1, 3, 9])) + (d % v if d else bin(v)[2:])
        return pre + ("-" if neg else r.choice(["", "", "", "+"])) + s
    def line(s):
        return r.choice(["", "", "  ", "\t"]) + s + r.choice(["", "", " ", "\r"])
    rows = [(d, v, neg) for d in (".byte ", ".wide ", ".word ") for v in sorted(set(bounds)) for neg in (0, 1)]
    rows += [(d, 1 << 31, 1) for d in (".byte ", ".wide ", ".word ")]
    r.shuffle(rows)
    progs = []
    for i in range(0, len(rows), 6):
        ls = [".seg " + r.choice(["text", "data", "rodata"])]
        for d, v, neg in rows[i:i + 6]:
            ls.append(line(d + spell(v, neg)))
        progs.append(Prog("w%d" % i, {"p.telda": ls}))
    # one datum by itself: the warning is not lost, nor repeated
    for k, (d, v, neg) in enumerate(rows[::5]):
        progs.append(Prog("one%d" % k, {"p.telda": [".seg data", d + spell(v, neg)]}))
    # among instructions, labels, text and comments, which are never warned of, over several files
    for i in range(400 if c.thorough else 80):
        fs = {}
        n = r.choice([1, 1, 2, 4])
        for k in range(n):
            ls = [".seg " + r.choice(["text", "data"])] + ["l%d:" % k]
            for _ in range(r.randrange(1, 14)):
                ls.append(r.choice([lambda: ins(r), lambda: data(r), lambda: data(r), lambda: "; .byte 300",
                                    lambda: ".byte " + imm8(r), lambda: ".word " + imm16(r), lambda: ".wide l%d" % r.randrange(n), lambda: ".string 300", lambda: "ldi r1, 99999",
                                    lambda: "ldi r1l, -129", lambda: "// .wide 99999", lambda: ".byte '%s'" % r.choice(CHARS)])())
            if k + 1 < n:
                ls.insert(r.randrange(1, len(ls) + 1), ".include f%d.telda" % (k + 1))
                ls += [".seg data", ".byte %d" % r.choice([3, 300, -300])]
            fs["p.telda" if k == 0 else "f%d.telda" % k] = ls
        progs.append(Prog("mix%d" % i, fs))
    check(c, progs, ("Warned", "Encoded", "Sound"), "warnings", batch=1)

def many(r):
    """many labels, uses, files, levels of inclusion; long names"""
    out = []
    for n in (127, 128, 255, 256, 257, 300):
        ls = [".seg text"]
        for k in range(n):
            ls += ["l%d:" % k] + ["nop"] * (r.random() < .5) + [r.choice(["call l%d", ".wide l%d", "ldi r1, l%d", "jez l%d", "store rs, l%d, r1"]) % r.randrange(n)]
            if r.random() < .1:
                ls.append(".seg " + r.choice(["text", "data", "rodata", "heap"]))
            if r.random() < .1:
                ls.append(".global l%d" % r.randrange(k + 1))
        out.append(Prog("many%d" % n, {"p.telda": ls}))
        name = ("n" * n, "N" + "n" * (n - 1), "n" * (n - 1) + "m", "n" * (n + 1))
        ls = [".seg data"]
        for k, x in enumerate(name):
            ls += ["%s:" % x, ".global %s" % x if k % 2 else ".wide %s" % name[k - 1], ".byte %d" % k]
        out.append(Prog("long%d" % n, {"p.telda": ls}))
        # one label used over and over, also across a file
        out.append(Prog("use%d" % n, {"p.telda": [".seg text"] + [".wide a"] * (n // 2) + [".include q.telda"] + ["call a"] * (n - n // 2)
                                      + [".ref u"] + [".wide u"] * n, "q.telda": [".seg data", "a:", ".byte 1", ".seg text", ".wide a"]}))
    # files included more than once, from several places
    inc = [".seg data", ".wide x", ".byte 3", ".seg text", "call x"]
    for i, (p, q) in enumerate(itertools.product([".include s.telda", ".include ./s.telda", ".include d/../s.telda", ".include d/t.telda", "nop"], repeat=2)):
        out.append(Prog("again%d" % i, {"p.telda": [".seg text", p, "x:", q, ".seg rodata", ".wide x", p, ".global x"], "s.telda": inc,
                                        "d/t.telda": [".include ../s.telda", ".seg heap", ".wide x", ".include ../s.telda"]}))
    for n in (8, 30):
        fs = {"p.telda": [".seg text", ".include f0.telda", "p:", "call f%d" % (n - 1), ".entry"]}
        for k in range(n):
            fs["f%d.telda" % k] = [".seg " + r.choice(["text", "data", "rodata"]), "f%d:" % k, ".wide f%d" % ((k * 7) % n)] + \
                ([".include f%d.telda" % (k + 1)] if k + 1 < n else []) + [".wide p", ".global f%d" % k]
        out.append(Prog("deep%d" % n, fs))
        out.append(Prog("many-files%d" % n, {**{"p.telda": [".include f%d.telda" % k for k in range(n)] + [".seg text", "p:", ".entry"]},
                        **{k: [l for l in v if not l.startswith(".include")] for k, v in fs.items() if k != "p.telda"}}))
    return out

def layouts(c):
    """segment sizes around the page size"""
    out = []
    for i, n in enumerate([0, 1, 127, 128, 129, 255, 256, 257]):
        for j, m in enumerate([0, 1, 128, 130]):
            ls = [".seg heap", ".wide e", ".seg text", "t:", ".string " + "t" * n, "e:", ".wide h", ".seg data", ".string " + "d" * m, "d:", ".wide t", ".entry",
                  ".seg rodata", "r:", ".wide d", ".seg heap", "h:", ".seg text", ".wide r"]
            out.append(Prog("lay%d-%d" % (i, j), {"p.telda": ls}))
    # far from the start of the segment
    for i, n in enumerate([4095, 4096, 4200, 9000, 20000, 32768, 33000, 61000]):
        fill = [".string " + "f" * 1000] * (n // 1000) + [".string " + "f" * (n % 1000)]
        a, b = [("text", "data"), ("data", "text"), ("text", "rodata"), ("heap", "text")][i % 4]
        out.append(Prog("far%d" % i, {"p.telda": [".seg " + a] + fill + ["far:", ".global far", ".wide far", ".entry", "call far", ".seg " + b, "b:", ".wide b", ".wide far", ".byte 1"]}))
        out.append(Prog("fare%d" % i, {"p.telda": [".seg " + b, ".wide far", ".seg " + a] + fill + [".entry", "far:", "ldi r1, far", ".seg " + b, "call far"]}))
    # each kind of use, label and entry at each edge exactly
    uses = [(".wide x", 0), ("call x", 1), ("jnz x", 1), ("ldi r1, x", 2), ("load r1l, r2, x", 2), ("load r1, r2, x", 2), ("store r1, x, r2l", 2), ("store r1, x, r2", 2)]
    for i, edge in enumerate((127, 128, 254, 255, 256, 4095, 0x7ffe, 0x7fff, 0x8000, 0xfefd)):
        for j, (use, at) in enumerate(uses):
            if edge > 5000 and (i + j) % 3:
                continue
            n = edge - at
            seg = ("text", "data", "rodata")[(i + j) % 3]
            lay = [".seg " + seg] + [".string " + "f" * 1000] * (n // 1000) + [".string " + "f" * (n % 1000)] + [use]
            if edge % 2:
                lay += ["x:", ".global x"]
            else:
                lay = lay[:-1] + [".entry", "x:", use]
            out.append(Prog("edge%d-%d" % (edge, j), {"p.telda": lay}))
    return out

SCOPE_LINES = [".seg text", ".seg data", "a:", ".wide a", "call a", ".global a", ".ref a", ".entry", "b:", ".wide b", ".string ", ".include i.telda"]
FAULT_LINES = [".seg text", ".seg bad", "a:", ".wide a", "nop", "nop r1", ".global a", ".ref a", ".entry", "; c", ".byte x", ".include i.telda", ".include p.telda"]

def enumerated(c, invariants, alphabet, depth, label):
    progs = []
    inc = [b".seg data", b"a:", b".wide b"]
    for n in range(0, depth + 1):
        for k, t in enumerate(itertools.product(alphabet, repeat=n)):
            if n == depth and depth > 3 and k % 3 != 0:
                continue
            progs.append(Prog("%s%d-%d" % (label, n, k), {"p.telda": [".seg text"] + list(t), "i.telda": inc}))
            # without a segment first, too, if it is about that
            if alphabet is FAULT_LINES and ".seg text" in t[1:]:
                progs.append(Prog("%sn%d-%d" % (label, n, k), {"p.telda": list(t), "i.telda": inc}))
    for i in range(0, len(progs), 6000):
        check(c, progs[i:i + 6000], invariants, label)

def c20(c):
    r = c.rng("faults")
    progs = [raw(program(r, "flt%d" % i, faults=r.choice([0, 1, 1, 1, 2, 3, 6]))) for i in range(2500 if c.thorough else 420)]
    # every kind of fault by itself
    for i in range(3000 if c.thorough else 500):
        progs.append(raw(Prog("one%d" % i, {"p.telda": [".seg text", "a:", "main:", "nop", fault(r, ["a", "main"], []), ".byte 1"]})))
    progs += [soup(r, "soup%d" % i) for i in range(3000 if c.thorough else 400)]
    progs += masses(c) + oversized(c)
    # far down in a file, and many faults
    for n in (254, 255, 256, 257, 1000, 65536):
        progs.append(Prog("far%d" % n, {"p.telda": [".seg text"] + ["" if n > 2000 else r.choice(["", "nop", "; c", "l:" if k == 7 else "nop"]) for k in range(n - 2)] + ["bad", "nop", "call nowhere"]}))
    for n in (40, 300):
        progs.append(raw(Prog("lots%d" % n, {"p.telda": [".seg text", "a:", "main:"] + [fault(r, ["a", "main"], []) for _ in range(n)] + ["halt"]})))
    progs += [Prog("none", {"q.telda": []}, main="p.telda"), Prog("blank", {"p.telda": []}), Prog("dir", {"p.telda": [".include sub/x.telda"], "sub/y.telda": []})]
    check(c, progs, ("Diagnosed", "Sound"), "diagnosis")
    enumerated(c, ("Diagnosed", "Sound"), FAULT_LINES, 4 if c.thorough else 3, "sequences")

def masses(c):
    """more faults, and includes in includes, than the call stack has room for"""
    limit = resource.getrlimit(resource.RLIMIT_NOFILE)
    deep = 3000 if limit[1] == resource.RLIM_INFINITY else min(limit[1] - 100, 3000)
    resource.setrlimit(resource.RLIMIT_NOFILE, (max(limit[0], deep + 100), limit[1]))
    out = []
    for i, l in enumerate([b"bogus", b".byte x", b"\xff", b"a:"]):
        head = [b".seg text", b"a:"] if i % 2 or i > 2 else []
        out.append(Prog("mass%d" % i, {"p.telda": head + [l]}, real={"p.telda": head + [l] * 60000}, mass=60000))
    # .word takes two bytes each
    for n in (30000,):
        out.append(Prog("unbound%d" % n, {"p.telda": [".seg data", ".wide a"]}, real={"p.telda": [".seg data"] + [".wide a"] * n}, mass=n))
    for i, last in enumerate(([".seg text", "nop", "x:"], ["nop"], [".seg text", "bad"])):
        first = [".include d/a.telda", ".seg text", ".wide x", ".global x"]
        real = {"p.telda": first, "d/a.telda": [".include f0.telda"]}
        for k in range(deep - 1):
            real["d/f%d.telda" % k] = [".include f%d.telda" % (k + 1)]
        real["d/f%d.telda" % (deep - 1)] = last
        path = "d/f%d.telda" % (deep - 1)
        out.append(Prog("abyss%d" % i, {"p.telda": first, "d/a.telda": [".include f%d.telda" % (deep - 1)], path: last}, real=real))
    return out

def oversized(c):
    """segments and sums of segments around the size of the address space"""
    out = []
    def fill(n):
        return [".string " + "s" * 1000] * (n // 1000) + ([".string " + "s" * (n % 1000)] if n % 1000 else [])
    for n in (65406, 65407, 65408, 65409, 65535, 65536, 65537):
        out.append(Prog("big%d" % n, {"p.telda": [".seg text"] + fill(n)}))
    for n, m in ((30000, 35200), (30000, 35279), (30000, 35280), (30000, 35300), (65280, 0), (65281, 0), (65408, 0), (65400, 3)):
        out.append(Prog("two%d-%d" % (n, m), {"p.telda": [".seg data"] + fill(n) + [".seg text"] + (fill(m) or [".string "])}))
    out.append(Prog("late", {"p.telda": [".seg text"] + fill(65530) + ["call 5", "nop", ".wide 1", "nop", ".byte 1", "nop", "nop"]}))
    return out
