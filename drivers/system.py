"""Checks of the whole: from source files to what a running program does (C28, C29)."""
import concurrent.futures, json, os, re
import asm, files
from files import run_tool
from link import AMAGIC, content, default_opts

BDATA = ["r5l", "r5h", "r6b", "r7b", "r8b", "r9b"]
WDATA = ["r5", "r6", "r7", "r8", "r9"]
COND = "jez jlt jle jgt jge jnz jne jo jno jb jc jae jnc ja jbe".split()
# no segment ever reaches here, and the stack is not that big
NOWHERE = 0xf000

def lit(r, bits):
    v = r.choice([0, 1, 2, 127, 128, 255, (1 << bits) - 1, 1 << bits - 1, r.randrange(1 << bits), r.randrange(1 << bits)])
    k = r.random()
    if k < .15 and v < 1 << bits - 1:
        return "-%d" % v
    if k < .25 and bits == 8:
        return "'\\x%02x'" % v
    return r.choice(["%d", "%d", "0x%xw" if bits == 16 else "0x+%xb", "0o%o"]) % v

class Unit:
    """a piece of program that stands by itself: falls into nothing, is found only by its name.
    Names in lines are written @name@, local ones @.name@."""
    def __init__(self, seg, name, lines, main=False):
        self.seg, self.name, self.lines, self.main = seg, name, lines, main
    def uses(self):
        return {n for l in self.lines for n in re.findall("@([^@.][^@]*)@", l)} - {self.name}

class Maker:
    """a random program that ends, and says nothing about addresses"""
    def __init__(self, r, size=1, faults=.7):
        self.r, self.n = r, 0
        self.fault_left = r.choice([1, 1, 2, 3]) if r.random() < faults else 0
        self.long = r.choice([257, 600, 1030, 1100, 2050]) if r.random() < .03 else 0
        self.perms = False        # relies on segments not sharing pages
        self.units = []
        self.strings, self.words, self.bytes, self.ro, self.heap = [], [], [], [], []
        for i in range(r.randrange(1, 3)):
            self.strings.append(self.unit("rodata", "text%d" % i, [".string %s\\0" % "".join(r.choice(["a", "Hi", " ", "\\n", "\\xff", "á", ";", "'", "\\'", "\\\\", "0"]) for _ in range(r.randrange(0, 7))), ".byte 0"]))
        for i in range(r.randrange(1, 4)):
            n = r.choice([1, 2, 4, 8])
            self.words.append((self.unit("data", "vars%d" % i, [".wide " + lit(r, 16) for _ in range(n)]), n))
        if r.random() < .6:
            self.bytes.append((self.unit("data", "bytes", [".byte " + lit(r, 8) for _ in range(8)]), 8))
        if r.random() < .6:
            self.ro.append((self.unit("rodata", "table", [".wide %d" % r.randrange(65536) for _ in range(4)]), 4))
        if r.random() < .4:
            self.heap.append(self.unit("heap", "pool", [".wide 1"]))
        if r.random() < .3:
            self.unit(r.choice(["data", "rodata"]), "fill", [".string " + "#" * r.choice([1, 100, 127, 128, 129, 300])])
        if r.random() < .06:
            # everything is far from everything
            for seg in r.choice([["text"], ["text"], ["data"], ["text", "rodata"]]):
                self.unit(seg, "far" + seg, [".string " + "~" * 1000] * r.choice([4, 4, 4, 5, 9]) + [".string " + "~" * r.randrange(200)])
        self.unit("text", "puts", ["@.n@:", "load r1l, r3, r0", "or r1l, r0b, r1l", "jez @.e@", "or r2l, r0b, r1l", "ldi r1, 4", "syscall",
                                   "ldi r1, 1", "add r3, r3, r1", "jmp @.n@", "@.e@:", "ret"])
        nf = r.randrange(0, 5) if size == 1 else r.randrange(3, 9)
        self.funcs = [("f%d" % i, r.choice([0, 0, 1, 2])) for i in range(nf)]
        self.calls = {}
        self.budget = 60 * size
        for i in range(nf - 1, -1, -1):
            self.function(i)
        self.main_unit()
        # what is used, and now and then what is not
        byname = {u.name: u for u in self.units}
        used = ["main"] + [u.name for u in self.units if u.name == "fill" or u.name[:3] == "far" or r.random() < .15]
        for n in used:
            used += sorted(byname[n].uses() - set(used))
        self.units = [u for u in self.units if u.name in used]

    def unit(self, seg, name, lines, main=False):
        u = Unit(seg, name, lines, main)
        self.units.append(u)
        return name

    def label(self):
        self.n += 1
        return ".%d" % self.n

    def wr(self):
        return self.r.choice(WDATA)
    def br(self):
        return self.r.choice(BDATA)

    def alu(self):
        r = self.r
        k = r.random()
        if k < .2:
            return ["ldi %s, %s" % ((self.wr(), lit(r, 16)) if r.random() < .6 else (self.br(), lit(r, 8)))]
        x, regs = (self.wr, WDATA + ["r0"]) if r.random() < .6 else (self.br, BDATA + ["r0b"])
        y = lambda: r.choice(regs)
        if k < .8:
            return ["%s %s, %s, %s" % (r.choice(asm.BIN), r.choice([x, x, x, y])(), y(), y())]
        if k < .9:
            return ["mul %s, %s, %s, %s" % (y(), y(), y(), y())]
        # a divisor that is not zero
        d = x()
        byte = d in BDATA
        one = "r1l" if byte else "r1"
        return ["ldi %s, %d" % (one, r.choice([1, 3, 128, 255] if byte else [1, 7, 256, 65535])), "or %s, %s, %s" % (one, one, d), "div %s, %s, %s, %s" % (y(), y(), y(), one)]

    def out(self, reg=None):
        reg = reg or self.br()
        return ["or r2l, r0b, " + reg, "ldi r1, 4", "syscall"]

    def puts(self):
        return ["ldi r3, @%s@" % self.r.choice(self.strings), "call @puts@"]

    def echo(self):
        r = self.r
        ls = ["ldi r1, 3", "syscall", "or %s, r0b, r1l" % self.br()]
        return ls

    def memory(self):
        r = self.r
        k = r.random()
        if k < .15 and self.heap:
            at = r.randrange(2, 900)
            reg = self.wr()
            return ["ldi r3, @%s@" % self.heap[0], "store r3, %d, %s" % (at, reg), "add %s, %s, %s" % (self.wr(), self.wr(), self.wr()),
                    "load %s, r3, %d" % (self.wr(), at)]
        if k < .3 and self.ro:
            n, c = r.choice(self.ro)
            return ["ldi r3, @%s@" % n, "load %s, r3, %d" % (self.wr(), 2 * r.randrange(c))]
        if k < .5 and self.bytes:
            n, c = r.choice(self.bytes)
            return ["ldi r3, @%s@" % n, "ldi r4, %d" % (c - 1), "and r4, %s, r4" % self.wr(),
                    r.choice(["load %s, r3, r4" % self.br(), "store r3, r4, " + self.br()])]
        n, c = r.choice(self.words)
        if r.random() < .5:
            return [r.choice(["load %s, r0, @%s@" % (r.choice([self.wr, self.br])(), n), "store r0, @%s@, %s" % (n, r.choice([self.wr, self.br])())])]
        return ["ldi r4, %d" % (c - 1), "and r4, %s, r4" % self.wr(), "add r4, r4, r4",
                r.choice(["load %s, r4, @%s@" % (self.wr(), n), "store r4, @%s@, %s" % (n, self.wr())])]

    def call(self, after):
        """a call of a function with a greater number"""
        r = self.r
        if after >= len(self.funcs):
            return self.puts()
        i = r.randrange(after, len(self.funcs))
        name, args = self.funcs[i]
        ls = ["push " + self.wr() for _ in range(args)]
        if args == 0 and r.random() < .4:
            # through a table or a register
            zero = [f for f, a in self.funcs[after:] if a == 0]
            if r.random() < .5:
                t = "jumps%d" % len(self.units)
                n = r.choice([1, 2, 4])
                self.unit(r.choice(["rodata", "rodata", "data"]), t, [".wide @%s@" % r.choice(zero) for _ in range(n)])
                ls += ["ldi r4, %d" % (n - 1), "and r4, %s, r4" % self.wr(), "add r4, r4, r4", "load r4, r4, @%s@" % t]
            else:
                ls += ["ldi r4, @%s@" % name]
            l = self.label()
            return ls + ["ldi rl, @%s@" % l, "jmp r4", "@%s@:" % l]
        return ls + ["call @%s@" % name]

    def fault(self):
        r = self.r
        ro = (self.ro or [(s, 1) for s in self.strings])[0][0]
        k = r.randrange(10)
        if k == 0:
            return ["div r5, r6, r5, r0"] if r.random() < .5 else ["div r6b, r7b, r5l, r0b"]
        if k == 1:
            return [r.choice(["null", ".byte 0x3c", ".byte 255", ".byte 0x55"])]
        if k == 2:
            return ["load %s, r0, %d" % (r.choice(["r5", "r5l"]), NOWHERE)]
        if k == 3:
            return ["ldi r3, %d" % NOWHERE, "store r3, r0, " + r.choice(["r5", "r5l"])]
        if k == 4:
            return [r.choice(["reth", ".byte 0x11", ".byte 0x12", "ctf"])]
        if k == 5:
            return [r.choice(["call %d", "jmp %d"]) % NOWHERE]
        self.perms = True
        if k == 6:
            return ["store r0, @%s@, r5" % ro]
        if k == 7:
            return [r.choice(["jmp @%s@", "call @%s@"]) % self.words[0][0]]
        if k == 8:
            return ["load r5l, r0, @puts@"]
        return ["ldi r3, @puts@", "store r3, r0, r5l"]

    def ending(self):
        r = self.r
        return r.choice([["halt"], ["halt"], ["ldi r1, %d" % r.choice([1, 2, 5, 16, 255, 300, 0xffff]), "syscall"]])

    def body(self, depth, after, save):
        """statements; may call functions with numbers from after; save gets registers used beyond the common ones"""
        r = self.r
        ls = []
        for _ in range(r.randrange(1, 5)):
            self.budget -= 1
            k = r.random()
            if self.budget < 0 or k < .25:
                ls += self.alu()
            elif k < .42:
                ls += self.memory()
            elif k < .52:
                ls += self.out()
            elif k < .58:
                ls += self.echo()
            elif k < .63:
                ls += self.puts()
                save.add("rl")
            elif k < .73 and after is not None:
                ls += self.call(after)
                save.add("rl")
            elif k < .80:
                reg = r.choice([self.wr, self.br])()
                other = r.choice(WDATA if reg in WDATA else BDATA)
                ls += ["push " + reg] + self.alu() + ["pop " + other]
            elif k < .92 and depth < 3:
                l = self.label()
                a, b = self.wr(), self.wr()
                ls += r.choice([["sub r0, %s, %s" % (a, b)], ["sub r0b, %s, %s" % (self.br(), self.br())], ["and r0, %s, %s" % (a, b)],
                                ["add %s, %s, %s" % (self.wr(), a, b)]])
                ls += ["%s @%s@" % (r.choice(COND), l)] + self.body(depth + 1, after, save) + ["@%s@:" % l]
            elif depth < 2 and not ({"loop"} & save):
                l = self.label()
                save |= {"r10", "loop"}
                ls += ["ldi r10, %d" % r.randrange(1, 5), "@%s@:" % l] + self.body(depth + 2, None if r.random() < .5 else after, save) + \
                      (["ldi r4, 1", "sub r10, r10, r4"] if r.random() < .5 else ["ldi r1l, 1", "sub r10b, r10b, r1l"]) + ["jnz @%s@" % l]
                save.discard("loop")
            elif self.fault_left and r.random() < .5:
                self.fault_left -= 1
                ls += self.fault()
            else:
                ls += self.alu()
        return ls

    def function(self, i):
        r = self.r
        name, args = self.funcs[i]
        save = set()
        ls = self.body(0, i + 1, save)
        saved = [x for x in ("rl", "r10") if x in save]
        pro = ["push " + x for x in saved]
        for a in range(args):
            if r.random() < .8:
                pro.append("load %s, rs, %d" % (self.wr(), 2 * len(saved) + 2 * a))
        epi = ["pop " + x for x in reversed(saved)]
        epi += ["ret %d" % (2 * args)] if args or r.random() < .2 else [r.choice(["ret", "ret", "jmp rl"])]
        # when a jump does not fit the flow: leave early
        self.unit("text", name, pro + ls + epi)

    def main_unit(self):
        r = self.r
        handler = r.random() < .5
        pro = ["ldi r%d, %s" % (i, lit(r, 16)) for i in range(1, 11)]
        if handler:
            self.unit("data", "savedrs", [".wide 0"])
            self.unit("data", "tries", [".byte %d" % r.choice([1, 2, 3])])
            again = r.random() < .7
            # what trap it was, then either stop or go on where things can be recovered
            self.unit("text", "handler", ["or r9, r0, r1", "add r2l, r1l, r0b", "ldi r1, 4", "syscall", "load r1l, r0, @tries@", "ldi r2l, 1",
                                          "sub r1l, r1l, r2l", "store r0, @tries@, r1l"] +
                      (["jez @.stop@", "load rs, r0, @savedrs@", "jmp @recover@", "@.stop@:"] if again else []) + self.ending())
            pro += ["store r0, @savedrs@, rs", "ldi r1, 15", "ldi r2, @handler@", "syscall"]
        if self.long:
            # more than a buffer's worth of input and output
            l = self.label()
            pro += ["ldi r10, %d" % self.long, "@%s@:" % l, "ldi r1, 3", "syscall", "add r2l, r1l, r0b", "ldi r1, 4", "syscall", "ldi r4, 1", "sub r10, r10, r4", "jnz @%s@" % l]
        save = {"rl"}
        ls = self.body(0, 0, save) + self.body(0, 0, save)
        if self.fault_left and r.random() < .7:
            self.fault_left -= 1
            ls += self.fault()
        ls += ["jmp @recover@"]
        self.unit("text", "main", pro + ls, main=True)
        save = set()
        rec = self.out() + self.body(0, 0, save) + self.out()
        if self.fault_left and r.random() < .3:
            # the stack is finite
            self.fault_left -= 1
            rec += ["@.deep@:", r.choice(["push r5", "push r5l"]), "jmp @.deep@"]
        self.unit("text", "recover", rec + self.ending())

# ---- arrangements ---------------------------------------------------------
SHORT = ["L%d" % i for i in range(36)] + list("abcdefghijklmnopqrstuvwxyzABCDEFG")
def render(r, units, shared, everything, style):
    """lines of one file of units; shared: names other files use"""
    local = {}
    defined = {u.name for u in units}
    rename = {}
    if style.get("local_names"):
        # local names as they come, also the same as in other files
        pool = SHORT[:]
        r.shuffle(pool)
        rename = {n: pool.pop() for n in sorted(defined - shared) if n != "main" and len(pool) > 40}
    out, seg = [], None
    heads, tails = [], []
    for n in sorted(defined & shared):
        (heads if r.random() < .6 else tails).append(r.choice([".global ", ".globl "]) + n)
    needed = set()
    for u in units:
        needed |= u.uses()
    for n in sorted(needed - defined):
        (heads if r.random() < .6 else tails).append(r.choice([".ref ", ".reference ", ".global "]) + n)
    r.shuffle(heads)
    r.shuffle(tails)
    for i, u in enumerate(units):
        if seg != u.seg or r.random() < .1:
            out.append(".seg " + u.seg)
            seg = u.seg
        if u.main and style.get("entry", True):
            out.append(".entry")
        out.append(rename.get(u.name, u.name) + ":")
        def name(m):
            n = m.group(1)
            if n[0] == ".":
                k = (i, n)
                if k not in local:
                    local[k] = "l%d" % len(local) if style.get("local_names") else "%s_%s" % (u.name, n[1:])
                return local[k]
            return rename.get(n, n)
        for l in u.lines:
            out.append(re.sub("@([^@]+)@", name, l))
            if r.random() < .02:
                out.append(r.choice(["; remark", "", "   # remark"]))
    return heads + out + tails

class Arrangement:
    """sources [(main, {path: lines})] of inputs, of archive members and how to go on"""
    def __init__(self, kind, inputs, members=(), opts=None, args=(), names=0):
        self.kind, self.inputs, self.members, self.opts, self.args, self.names = kind, inputs, list(members), opts or default_opts(exec=1), list(args), names

def split(r, units, n):
    groups = [[] for _ in range(n)]
    for u in units:
        r.choice(groups).append(u)
    return [g for g in groups if g]

def shared_names(groups):
    of = {u.name: i for i, g in enumerate(groups) for u in g}
    return {n for i, g in enumerate(groups) for u in g for n in u.uses() if of[n] != i}

def nest(r, lines, path, fs, depth):
    """lines of a file, parts of which are moved into other files"""
    def segment(k):
        return ([l for l in lines[:k] if l.startswith(".seg")] or [None])[-1]
    out, i = [], 0
    here = None
    while i < len(lines):
        n = r.randrange(1, max(2, len(lines) // 3))
        if depth < 3 and r.random() < .4:
            # a file has to begin with its segment
            part = ([segment(i)] if segment(i) and not lines[i].startswith(".seg") else []) + lines[i:i + n]
            d = r.choice(["", "sub/"])
            name = "%sf%d.telda" % (d, len(fs))
            q = os.path.join(os.path.dirname(path), name)
            fs[q] = None
            fs[q] = nest(r, part, q, fs, depth + 1)
            out.append(".include " + name)
        else:
            if not lines[i].startswith(".seg") and segment(i) != here and segment(i):
                out.append(segment(i))
            out += lines[i:i + n]
            here = segment(i + n)
        i += n
    return out

def arrange(r, mk, kind, aligns):
    units = mk.units[:]
    if kind != "plain":
        r.shuffle(units)
    style = {"local_names": r.random() < .5, "entry": True}
    opts = default_opts(exec=1)
    args = []
    al = r.choice(aligns)
    if kind != "plain" and r.random() < .5:
        opts["align"] = al
        args += ["-A", "%d" % al]
    if r.random() < .3:
        opts["strip"] = 1
        args.append("-S")
    if kind in ("plain", "shuffled"):
        extra = set()
        if r.random() < .3:
            style["entry"] = False
            extra = {"main"}
            opts["entry"] = ["sym", list(b"main")]
            args += ["-E", "main"]
        return Arrangement(kind, [("p.telda", {"p.telda": render(r, units, extra, True, style)})], opts=opts, args=args, names=1)
    if kind == "include":
        # the same lines, some of them in files that are included
        style["local_names"] = False
        fs = {"p.telda": None}
        fs["p.telda"] = nest(r, render(r, units, set(), True, style), "p.telda", fs, 0)
        return Arrangement(kind, [("p.telda", fs)], opts=opts, args=args, names=1)
    n = r.randrange(2, max(3, min(6, len(units))))
    groups = split(r, units, n)
    shared = shared_names(groups)
    if r.random() < .2:
        shared |= {r.choice(units).name for _ in range(2)}
    if r.random() < .3:
        style["entry"] = False
        shared |= {"main"}
        opts["entry"] = ["sym", list(b"main")]
        args += ["-E", "main"]
    src = []
    for i, g in enumerate(groups):
        st = dict(style, local_names=r.random() < .6)
        src.append(("u%d.telda" % i, {"u%d.telda" % i: render(r, g, shared, False, st)}))
    if kind == "archive":
        m = [i for i, g in enumerate(groups) if any(u.main for u in g)][0]
        keep = [i for i in range(len(src)) if i == m or r.random() < .3]
        # objects in archives are taken if something needs them
        for i, g in enumerate(groups):
            if i not in keep and not any(u.name in shared and u.name != "main" for u in g):
                keep.append(i)
        ins, mem = [src[i] for i in keep], [src[i] for i in range(len(src)) if i not in keep]
        # something of no use
        decoy = [".seg text", ".global unused", "unused:", "null"] + ([".global " + u.name for u in groups[m] if u.name in shared][:1])
        if len(decoy) > 4:
            decoy.append(decoy[4].split()[1] + ":")
        mem.insert(r.randrange(len(mem) + 1), ("decoy.telda", {"decoy.telda": decoy}))
        r.shuffle(ins)
        return Arrangement(kind, ins, mem, opts, args, names=1)
    return Arrangement(kind, src, opts=opts, args=args, names=1)

KINDS = ["plain", "shuffled", "include", "files", "files", "archive", "staged"]

def build_and_run(c, pid, a, k, stdin, r, direct):
    """builds one arrangement and runs it in several ways; the runs"""
    d = os.path.join(c.scratch, pid, "%d" % k)
    tc, tl, ts, tar, t = (os.path.join(c.bins, x) for x in ("tc", "tl", "tstrip", "tar", "t"))
    for main, fs in a.inputs + a.members:
        for path, lines in fs.items():
            full = os.path.join(d, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write("\n".join(lines).encode() + b"\n")
    ins, mem = [asm.to_path(m) for m, _ in a.inputs], [asm.to_path(m) for m, _ in a.members]
    problems, runs = [], []
    def tool(cmd):
        st, out, err = run_tool(cmd, d)
        if st != 0:
            problems.append([os.path.basename(cmd[0]), cmd[1:], st, err.decode("utf-8", "replace")[-600:]])
        return st == 0
    def go(way, path, names):
        for flag in (0, 1):
            named = way == "named" and not flag
            st, out, err = run_tool(["./" + path] if named else [t] + (["-t"] if flag else []) + [path], d, stdin=stdin,
                                    env=dict(os.environ, PATH=c.bins + ":" + os.environ.get("PATH", "")) if named else None)
            o = {"way": a.kind + ":" + way, "status": -1000 if st is None else st, "err": err.decode("utf-8", "replace")[-300:], "trap": "", "term": [], "names": names}
            m = re.search(rb"trapped with (\w+)\n$", err)
            if m:
                o["trap"] = m.group(1).decode()
            if flag:
                m = re.search(rb"Ended with (\w+) at <(.*)\+([0-9A-F]+)>\n$", out, re.S)
                if m:
                    o["term"] = [m.group(1).decode(), list(m.group(2)), int(m.group(3), 16)]
                    out = out[:m.start()]
                    if st != 0:
                        o["term"][0] = "status %s" % st
                else:
                    o["term"] = ["nothing shown", [], 0]
            o["out"] = list(out)
            runs.append(o)
    if not tool([tc] + [m for m, _ in a.inputs + a.members]):
        return problems, runs
    if direct:
        go("assembled", ins[0], 0)
    order = ins[:]
    more = []
    if mem:
        if r.random() < .5:
            tool([tar, "-o", "lib.savn"] + mem)
        else:
            with open(os.path.join(d, "lib.savn"), "wb") as f:
                f.write(AMAGIC + b"".join(content(os.path.join(d, m)) for m in mem))
        more = ["-l", "lib.savn"]
    if r.random() < .3:
        # there is something already, perhaps longer
        with open(os.path.join(d, "a.to"), "wb") as f:
            f.write(bytes(r.randrange(256) for _ in range(50)) * r.choice([1, 400]))
    if tool([tl] + a.args + ["-e", "-o", "a.to"] + order + more):
        go(r.choice(["linked", "named"]), "a.to", a.names)
        if r.random() < .5 and tool([ts, "a.to"]):
            go(r.choice(["stripped", "named"]), "a.to", 0)
    if not mem and len(ins) > 1:
        # in stages, in another order
        r.shuffle(order)
        groups, i = [], 0
        while i < len(order):
            n = r.randrange(1, 4)
            groups.append(order[i:i + n])
            i += n
        parts = []
        for i, g in enumerate(groups):
            al = r.choice([["-A", "%d" % r.choice([1, 2, 16, 128, 256])], []])
            if tool([tl] + al + r.choice([["-S"], [], []]) + ["-o", "s%d.to" % i] + g):
                parts.append("s%d.to" % i)
                if r.random() < .3:
                    tool([ts, "s%d.to" % i])
        if tool([tl] + a.args + ["-e", "-o", "b.to"] + parts):
            go("staged", "b.to", 0)
    return problems, runs

def c28(c):
    r = c.rng("system")
    n = 700 if c.thorough else 130
    jobs = []
    for i in range(n):
        mk = Maker(r, size=2 if r.random() < (.5 if c.thorough else .3) else 1)
        aligns = [128, 256, 512, 1024, 2048, 4096, 8192] + ([] if mk.perms else [1, 2, 4, 16, 64])
        stdin = bytes(r.choice([r.randrange(256), r.randrange(32, 127), 10, 0, 255]) for _ in range(600 + mk.long))
        kinds = KINDS if c.thorough else ["plain"] + r.sample(KINDS[1:], 3)
        arrs = [arrange(r, mk, k, aligns) for k in kinds]
        jobs.append(("p%d" % i, mk, arrs, stdin, r.random()))
    import random
    def work(j):
        pid, mk, arrs, stdin, seed = j
        rr = random.Random(seed)
        res = []
        for k, a in enumerate(arrs):
            direct = a.kind in ("plain", "shuffled", "include") and not a.opts["entry"]
            res.append(build_and_run(c, pid, a, k, stdin, rr, direct))
        return res
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(work, jobs))
    lines, cases = [], []
    ways = {}
    for (pid, mk, arrs, stdin, seed), res in zip(jobs, results):
        problems = [p for ps, _ in res for p in ps]
        if problems:
            c.violation("a program could not be built", {"program": pid, "problems": problems[:3],
                        "sources": [[m, {p: l for p, l in fs.items()}] for a in arrs for m, fs in a.inputs + a.members][:12]})
            continue
        which = r.randrange(len(arrs))
        a = arrs[which]
        runs = []
        for k, (_, rs) in enumerate(res):
            for o in rs:
                o = dict(o, names=o["names"] if k == which else 0)
                runs.append(o)
                ways[o["way"]] = ways.get(o["way"], 0) + 1
        src = lambda x: [{"main": asm.blist(m), "files": [{"path": asm.blist(p), "lines": [asm.blist(l) for l in ls]} for p, ls in fs.items()]} for m, fs in x]
        lines.append(json.dumps({"id": pid, "sources": src(a.inputs), "members": src(a.members), "opts": a.opts, "in": list(stdin), "runs": runs}))
        cases.append({"id": pid, "kind": a.kind, "options": a.args, "sources": [[m, fs] for m, fs in a.inputs + a.members], "stdin": list(stdin)[:60]})
    if lines:
        c.validate("TraceSystem", lines, cases, invariants=("Ended", "Builds", "LoadedWell", "StaysInUserMode", "Finishes"), label="programs")
        c.parts["programs"]["ways"] = ways

# --------------------------------------------------------------------- C29
from cpugen import ins, w16, BYTE_ALU, WIDE_ALU, JUMPS

class Image:
    """a boot image that comes to an end: machine code with labels"""
    CTR = 0xc0de          # bank 0x5a
    def __init__(self, r, kind):
        self.r, self.kind, self.n = r, kind, 0
        self.inits, self.parts = {}, {}
        self.depth = 0
        self.slots, self.ram_stack = [], False
        self.handler = r.random() < .85
        self.ports_exec = kind == "ports"
        self.build()

    # code is a list of bytes, ("ref", name) for two bytes and ("at", name)
    def lab(self):
        self.n += 1
        return "l%d" % self.n
    def reg(self):
        return self.r.randrange(1, 10)
    def breg(self):
        return self.r.randrange(0, 14)
    def alu(self):
        r = self.r
        k = r.random()
        if k < .25:
            return ins(64, self.reg(), 0, w=self.value()) if r.random() < .6 else ins(63, self.breg(), b=r.randrange(256))
        if k < .7:
            if r.random() < .5:
                return ins(r.choice(WIDE_ALU), r.randrange(0, 10), r.randrange(11), r.randrange(11))
            return ins(r.choice(BYTE_ALU), self.breg(), r.randrange(16), r.randrange(16))
        if r.random() < .5:
            return ins(r.choice([82, 84]), r.randrange(0, 10), r.randrange(0, 10), r.randrange(11), r.randrange(11))
        return ins(r.choice([81, 83]), self.breg(), self.breg(), r.randrange(16), r.randrange(16))
    def value(self):
        r = self.r
        return r.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, r.randrange(65536), r.randrange(256)])
    def where(self):
        """an address to use: RAM, ROM, tables, ports, and where nothing is mapped"""
        r = self.r
        return r.choice([0x8800 + r.randrange(256), 0xa000 + r.randrange(128), 0xa07f, 0xa080, 0xa100 + r.randrange(64), 0xb000 + r.randrange(128), 0xbfff,
                         0x2000 + r.randrange(64), 0x1000 + r.randrange(128), 0x7fff, 0xffff, r.randrange(0x80), 0, 0x7f, 0xd000, 0xe000 + r.randrange(256)])
    def out(self, b=None):
        r = self.r
        b = r.randrange(1, 16) if b is None else b
        return ins(39, 0, b, w=r.choice([0, 1, 1, 2, 0x7f]))
    def memory(self):
        r = self.r
        a = self.where()
        k = r.random()
        if k < .5:
            op = r.choice([39, 40])
            return ins(op, 0, r.randrange(0, 11), w=a)
        if k < .8:
            op = r.choice([43, 44])
            return ins(op, self.reg(), 0, w=a)
        return ins(64, 5, 0, w=a) + ins(r.choice([41, 42]), 5, 0, r.randrange(11)) if r.random() < .5 else \
               ins(64, 5, 0, w=a) + ins(r.choice([45, 46]), self.reg(), 5, 0)
    def physical(self):
        r = self.r
        hi, lo = r.choice([(0, 0x9800 + r.randrange(32)), (0, r.randrange(0x80)), (1, 5), (0x5a, 0x100), (0xff, 0xffff), (0, 0x1000 + r.randrange(64)),
                           (0, 0x8400 + 4 * r.randrange(16)), (0, 0x8480 + 4 * r.randrange(96)), (2, r.randrange(128))])
        c = ins(63, 3, b=hi) + ins(64, 4, 0, w=lo)
        if r.random() < .5 and not (hi == 0 and 0x8400 <= lo < 0x8600):
            return c + ins(19, 3, 4, r.randrange(16))
        b = r.choice([1, 9, 11])
        # pload destination, high byte; address
        return c + ins(20, b, 3, 4) + self.out(b)
    def retable(self):
        """another frame or other rights for a page, and its use before and after"""
        r = self.r
        if not self.slots:
            return self.memory()
        a, at = r.choice(self.slots)
        use = lambda: ins(43, 9, 0, w=a + 1) + self.out(9) if r.random() < .6 else ins(39, 0, r.randrange(1, 11), w=a + 1)
        c = use() if r.random() < .8 else []
        k = r.random()
        if k < .4:
            c += ins(63, 3, b=0) + ins(64, 4, 0, w=at) + ins(63, 9, b=r.choice([7, 0x27, 0x27, 0x23, 0x25, 0x37, 0, 3])) + ins(19, 3, 4, 9)
        elif k < .8:
            c += ins(63, 3, b=0) + ins(64, 4, 0, w=at + 1) + ins(63, 9, b=r.choice([0, 0x80])) + ins(19, 3, 4, 9)
        else:
            c += ins(64, 14, 0, w=r.choice(self.roots))
        return c + use()
    def patch(self):
        """a routine in RAM, written, called, changed and called again"""
        r = self.r
        at = r.choice([0x8f00, 0x8efe, 0x8f7e])
        def put(v):
            return ins(64, 6, 0, w=63 | 0x90 << 8) + ins(40, 0, 6, w=at) + ins(64, 6, 0, w=v | 38 << 8) + \
                   ins(40, 0, 6, w=at + 2) + ins(39, 0, 0, w=at + 4)
        c = put(r.randrange(256)) + [37] + w16(at) + self.out(9)
        for _ in range(r.randrange(1, 3)):
            c += ins(63, 9, b=r.randrange(256)) + ins(39, 0, 9, w=at + 2) + [37] + w16(at) + self.out(9)
        return c
    def special(self):
        r = self.r
        return r.choice([lambda: [12], lambda: [0], lambda: [13], lambda: [11], lambda: [0xee], lambda: ins(82, 5, 6, 5, 0),
                         lambda: ins(66, 13, r.randrange(11, 16), 0) if r.random() < .3 else ins(66, 5, r.randrange(11, 16), 0) + self.out(9),
                         lambda: [10], lambda: ins(34, 14), lambda: ins(36, r.randrange(1, 9)), lambda: [65, 0x12, 0x34], lambda: [64, 0x53, 0, 0],
                         lambda: ins(64, 15, 0, w=0x1800), lambda: ins(64, 14, 0, w=self.base),
                         lambda: ins(64, 0, 1, w=r.choice([0x3000, 0xd000, 0xa000]))])()
    def chunk(self, n, loops=True):
        r = self.r
        c = []
        for _ in range(n):
            k = r.random()
            if k < .3:
                c += self.alu()
            elif k < .42:
                c += self.out()
            elif k < .6:
                c += self.memory()
            elif k < .66:
                c += self.physical()
            elif k < .7:
                c += self.retable() if self.slots else self.patch() if self.ram_stack else []
            elif k < .76:
                c += self.special()
            elif k < .82:
                c += r.choice([ins(34, r.randrange(0, 16)), ins(33, r.randrange(16)), ins(35, r.randrange(14)), ins(36, r.randrange(10))])
            elif k < .9:
                l = self.lab()
                c += [r.choice(JUMPS), ("ref", l)] + self.chunk(r.randrange(1, 3), loops) + [("at", l)]
            elif k < .95 and loops:
                l = self.lab()
                # r10 counts, r5 is one
                c += ins(64, 10, 0, w=r.randrange(1, 4)) + [("at", l)] + self.chunk(2, False) + ins(64, 5, 0, w=1) + ins(68, 10, 10, 5) + [52, ("ref", l)]
            else:
                l, m = self.lab(), self.lab()
                c += [37, ("ref", l), 64, 0x01, ("ref", m), ("at", l)] + self.alu() + ins(38, b=r.choice([0, 0, 2, 7])) + [("at", m)]
        return c

    def tables(self):
        """page tables in the image; returns bytes of the first and of second level tables, for a base"""
        r = self.r
        ram = r.random() < .6
        base = 0x8400 if ram else 0x1000
        first = bytearray(64)
        seconds = []
        def entry(frame, flags):
            v = frame << 8 | flags
            return v.to_bytes(4, "little")
        pages = {}
        U = 0x20
        for p in range(1, 52):
            # code is identity mapped, execute only or readable
            pages[p] = (128 * p, 0b1001 | r.choice([2, 2, 0]) | (U if p < 16 or p >= 32 else 0))
        pages[0] = (0, 0b111 | U) if r.random() < .7 else None
        for a in (0xa000, 0xa080, 0xa100):
            pages[a >> 7] = (r.choice([a, 0x010000, 0x5a0100 & ~127, 0xfffc00, 0x9800, 0x1000, 0]), r.choice([1, 3, 5, 7, 7, 15, 0]) | r.choice([U, U, 0]) | r.choice([0, 16]))
        for a in (0xb000, 0xbf80, 0xe000, 0xe080):
            pages[a >> 7] = (r.choice([0x9000, 0x020000, 0x8800]), r.choice([3, 7, 7, 0]) | r.choice([U, 0]))
        # the stack
        for a in range(0x9000, 0x9800, 128):
            pages[a >> 7] = (r.choice([a, a]), 7 | r.choice([U, U, 0]))
        pages[0x1000 >> 7] = (0x1000, r.choice([3, 3 | U]))
        pages = {p: e for p, e in pages.items() if e}
        tops = sorted({p >> 5 for p in pages})
        self.tops = tops
        for i, t in enumerate(tops):
            at = base + 128 * (i + 1)
            flags = r.choice([0b101111, 0b101111, 0b101111, 0b001111, 0b101011, 0b101101]) if t > 9 else 0b101111
            first[4 * t:4 * t + 4] = entry(at, flags)
            s = bytearray(128)
            for p, (f, fl) in pages.items():
                if p >> 5 == t:
                    s[4 * (p & 31):4 * (p & 31) + 4] = entry(f, fl)
            seconds.append(bytes(s))
        data = bytes(first) + bytes(64) + b"".join(seconds)
        return ram, base, data

    def build(self):
        r = self.r
        code, self.base = [], self.value()
        for i in range(1, 11):
            code += ins(64, i, 0, w=self.value())
        end = r.choice([0x7fe0, 0x7fff, 0x7fff, 0x7000]) if r.random() < .2 else 0
        if end:
            code += ins(43, 6, 0, w=end) + self.out(6)
        vm = self.kind in ("vm", "user")
        rs = r.choice([0x9700, 0x9400]) if vm else r.choice([0x9700, 0xff00, 0x8100, 0x9801, 0x30, 0x8010, 1, 0])
        code += ins(64, 11, 0, w=rs) + ins(64, 13, 0, w=self.value())
        if r.random() < .3:
            code += ins(34, 12) + ins(66, 3, 12, 0) + self.out(5) + self.out(6)
        ram, base, data = self.tables()
        self.base = base
        self.ram_stack = rs > 0x8200
        if ram and vm:
            # once they are copied
            slots = [(a, base + 128 * (1 + self.tops.index(a >> 12)) + 4 * (a >> 7 & 31)) for a in (0xa000, 0xa080, 0xa100, 0xb000, 0xe000)]
            # first level entries, where these pages have one of their own
            slots += [(a, base + 4 * (a >> 12)) for a in (0xa000, 0xb000, 0xe000)]
        code += ins(64, 14, 0, w=base)
        # counter of traps
        code += ins(63, 3, b=0x5a) + ins(64, 4, 0, w=self.CTR) + ins(63, 1, b=r.choice([1, 3, 6, 12])) + ins(19, 3, 4, 1)
        code += (ins(64, 15, 0, w=0x1800) if self.handler else ins(64, 15, 0, w=0))
        code += self.chunk(r.randrange(1, 8))
        if vm:
            if ram:
                code += ins(64, 7, 0, w=0) + ins(64, 8, 0, w=len(data)) + ins(64, 9, 0, w=1) + [("at", "copy")] + ins(43, 6, 7, w=0x1000) + \
                        ins(39, 7, 6, w=base) + ins(66, 7, 7, 9) + ins(68, 0, 7, 8) + [52, ("ref", "copy")]
            self.slots = slots if ram else []
            self.roots = [base, base, 0x1000]
            code += [17] + self.chunk(r.randrange(2, 8))
            if self.kind == "user":
                code += ([18, 17] if r.random() < .2 else []) + [16] + self.chunk(r.randrange(3, 12)) + r.choice([[17], [18], [16], [12], []]) + self.chunk(r.randrange(0, 5))
        if self.ports_exec:
            code += r.choice([ins(64, 0, 1, w=r.randrange(0x80)), [37] + w16(r.randrange(0x80)), [17]])
        # it may also end at some edge
        code += r.choice([[10], [0], [12], ins(82, 1, 2, 3, 0)]) if r.random() < .75 else \
                ins(64, 0, 1, w=r.choice([0x7ffe, 0x7fff, 0x7fff, 0x8000, 0x3000, 0xd000, 0xbfff]))
        h = []
        # the handler: what happened, where, in which mode
        h += ins(63, 3, b=0) + ins(64, 4, 0, w=1) + ins(19, 3, 4, 1)
        if r.random() < .6:
            for off in r.sample([0, 1, 30, 31, 32, 33, 2, 8, 17], 3):
                h += ins(43, 7, 11, w=off) + ins(19, 3, 4, 7)
        if r.random() < .3:
            h += [12] if r.random() < .1 else self.alu()
        if self.slots and r.random() < .4:
            # another frame or other rights for a page at every trap
            a, at = r.choice(self.slots)
            k = r.randrange(2)
            h += ins(63, 3, b=0) + ins(64, 4, 0, w=at + k) + ins(20, 1, 3, 4) + ins(63, 9, b=0x80 if k else r.choice([0x20, 4, 2, 1])) + ins(73, 1, 1, 9) + ins(19, 3, 4, 1)
        h += ins(63, 3, b=0x5a) + ins(64, 4, 0, w=self.CTR) + ins(20, 1, 3, 4) + ins(63, 9, b=1) + ins(67, 1, 1, 9) + ins(19, 3, 4, 1)
        # returning needs a stack that keeps what is put there
        h += ([52, ("ref", "more")] if rs > 0x8200 and not self.ports_exec else []) + ins(64, 15, 0, w=0) + r.choice([[10], [0], [12]]) + [("at", "more"), 13]
        self.parts = [(0x80, self.place(code, 0x80)), (0x1000, list(data)), (0x1800, self.place(h, 0x1800)), (0x2000, [r.randrange(256) for _ in range(64)])]
        if end:
            self.parts.append((end, [r.randrange(1, 256)]))
        if self.parts[0][0] + len(self.parts[0][1]) > 0x1000:
            raise ValueError
        if self.kind == "small":
            b = self.place(sum((ins(64, i, 0, w=self.value()) for i in list(range(1, 12)) + [13, 14]), []) + self.chunk(r.randrange(0, 6)), 0x80)
            self.parts = [(0x80, b[:r.choice([len(b), len(b), r.randrange(56, len(b) + 1)])])]
            if r.random() < .3:
                self.parts = [(0x80, b + ins(64, 0, 1, w=r.choice([0x7ffe, 0x7fff, 0x7fff, 0x8000, 0x8001, 0xb000])))]

    @staticmethod
    def place(code, start):
        at, pos = {}, start
        for x in code:
            if isinstance(x, tuple):
                if x[0] == "at":
                    at[x[1]] = pos
                else:
                    pos += 2
            else:
                pos += 1
        out = []
        for x in code:
            if isinstance(x, tuple):
                if x[0] == "ref":
                    out += w16(at[x[1]])
            else:
                out.append(x)
        return out

    def bytes(self):
        b = bytearray()
        for at, bs in self.parts:
            b.extend(bytes(at - 0x80 - len(b)))
            b.extend(bs)
        return bytes(b)

def watch(c, way, cmd, d, stdin, names=0):
    st, out, err = run_tool(cmd, d, stdin=stdin, timeout=10)
    o = {"way": way, "status": -1000 if st is None else st, "err": err.decode("utf-8", "replace")[-300:], "trap": "", "term": [], "names": names}
    m = re.search(rb"trapped with (\w+)\n$", err)
    if m:
        o["trap"] = m.group(1).decode()
    if "-t" in cmd:
        m = re.search(rb"Ended with (\w+) at <([^>]*)\+([0-9A-F]+)>\n$", out, re.S)
        if m:
            o["term"] = [m.group(1).decode(), list(m.group(2)), int(m.group(3), 16)]
            out = out[:m.start()]
            if st != 0:
                o["term"][0] = "status %s" % st
        else:
            o["term"] = ["nothing shown", [], 0]
    o["out"] = list(out) if st is not None else []
    return o

def c29(c):
    r = c.rng("boot")
    n = 1500 if c.thorough else 260
    t = os.path.join(c.bins, "t")
    jobs = []
    for i in range(n):
        kind = r.choice(["direct", "direct", "vm", "user", "user", "user", "ports", "small"])
        while True:
            try:
                im = Image(r, kind)
                break
            except ValueError:
                pass
        # fed to the processor as instructions when it runs ports
        stdin = bytes([r.choice([10, 0])] * 900) if kind == "ports" else bytes(r.choice([r.randrange(256), 10, 0]) for _ in range(900))
        jobs.append(("b%d" % i, im, stdin))
    def work(j):
        bid, im, stdin = j
        with open(os.path.join(c.scratch, bid), "wb") as f:
            f.write(im.bytes())
        runs = [watch(c, "plain", [t, "-r", bid], c.scratch, stdin)]
        if runs[0]["status"] != -1000:
            runs += [watch(c, "shown", [t, "-t", "-r", bid], c.scratch, stdin), watch(c, "again", [t, "--raw-binary", bid], c.scratch, stdin)]
        return runs
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(work, jobs))
    lines, cases = [], []
    for (bid, im, stdin), runs in zip(jobs, results):
        lines.append(json.dumps({"id": bid, "parts": [[a - 0x80, list(b)] for a, b in im.parts], "in": list(stdin), "runs": runs}))
        cases.append({"id": bid, "kind": im.kind, "image": im.bytes().hex() if len(im.bytes()) < 9000 else "long", "stdin": list(stdin)[:40]})
    c.validate("TraceBoot", lines, cases, invariants=("Ended", "Finishes"), label="images", extra_cfg="PROPERTY Privilege\n")
