"""Checks of the linker, archive selection and strip properties (C17, C21-C23, C25)."""
import itertools, json, os
import files, objgen
from files import run_tool
from objgen import hexb

AMAGIC = "álvasavn\n".encode()
ALIGNS = [1, 2, 4, 8, 16, 32, 64, 128, 128, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768]

class Obj:
    """an object under construction; segs {type: [start, bytes]}"""
    def __init__(self):
        self.segs, self.syms, self.rel, self.entry = {}, [], [], None
    def sym(self, name, g, st, loc):
        self.syms.append((name, g, st, loc))
        return len(self.syms) - 1
    def put(self, st, bs, start=None):
        """more bytes for a segment; where they are"""
        if st not in self.segs:
            self.segs[st] = [start if start is not None else 0x80, bytearray()]
        a = self.segs[st][0] + len(self.segs[st][1])
        self.segs[st][1].extend(bs)
        return a
    def use(self, st, index, content=(0, 0), pad=0):
        """a place that refers to a symbol"""
        self.put(st, [0x25] * pad)
        self.rel.append((st, self.put(st, content), index))
    def tokens(self):
        t = {}
        if self.entry:
            t["e"] = "%x:%x" % self.entry
        if self.segs:
            t["segs"] = "|".join("%x:%x:%s" % (s, a, hexb(b)) for s, (a, b) in sorted(self.segs.items()))
        if self.syms:
            t["syms"] = "|".join("%s:%d:%x:%x" % (n.encode().hex(), g, s, l) for n, g, s, l in self.syms)
        if self.rel:
            t["rel"] = "|".join("%x:%x:%x" % x for x in self.rel)
        return t

GLOBALS = ["g0", "g1", "g2", "main", "á", "g3"]
LOCALS = ["l0", "l1", "g0", "g1", "main", "", "loop"]
SEGS = [0x10, 0x18, 0x20, 0x70]

def random_objects(r, n, maxlen=40, dup=.03, undef=.1, zero=.08):
    """objects that refer to each other"""
    objs = []
    names = r.sample(GLOBALS, r.randrange(1, 6))
    owner = {g: r.randrange(n) for g in names if r.random() >= undef}
    for k in range(n):
        o = Obj()
        segs = [s for s in SEGS if r.random() < .7] + ([0] if r.random() < zero else [])
        at = 0x80
        for s in segs:
            ln = r.choice([0, 1, 2, 3, r.randrange(maxlen), r.randrange(maxlen), 127, 128])
            how = r.random()
            if s == 0 and how < .8:
                start = 0
            elif how < .6:
                start = at
                at = -(-(at + ln) // 128) * 128
            else:
                start = r.choice([0, 1, 0x7f, 0x1234, 0xff00 - ln, r.randrange(0, 0xff00 - ln), 65535 - ln])
            o.put(s, [r.randrange(256) for _ in range(ln)], start)
        def place(absent=True):
            st = r.choice([s for s in (segs or SEGS)] if r.random() < .95 or not absent else SEGS)
            if st not in o.segs:
                return st, 0
            a, b = o.segs[st]
            return st, a + r.choice([0, len(b), r.randrange(len(b) + 1)])
        ids = []
        mine = [g for g in owner if owner[g] == k]
        for g in names:
            if g in mine or r.random() < dup:
                ids.append((g, 1) + place())
            elif r.random() < .6:
                ids.append((g, 1, 0xff, r.choice([0xfaff, 0xfaff, 0, 0xffff])))
        for _ in range(r.randrange(4)):
            ids.append((r.choice(LOCALS), 0) + place())
        r.shuffle(ids)
        for x in ids:
            o.sym(*x)
        if o.syms:
            for st, (a, b) in o.segs.items():
                for off in range(r.randrange(2), len(b) - 1, 2):
                    if r.random() < .35:
                        i = r.randrange(len(o.syms))
                        o.rel.append((st, a + off, i))
                        if r.random() < .7:
                            v = o.syms[i][3]
                            b[off], b[off + 1] = v & 255, v >> 8
            r.shuffle(o.rel)
        if r.random() < .45:
            o.entry = place()
        objs.append(o)
    return objs

def options(r, objs, execp=.5):
    opts = {"align": r.choice(ALIGNS), "exec": int(r.random() < execp), "strip": int(r.random() < .3), "entry": []}
    args = []
    if opts["align"] != 128 or r.random() < .2:
        args += r.choice([["-A", "%d" % opts["align"]], ["--alignment", "%d" % opts["align"]]])
    if opts["strip"]:
        args.append("-S")
    if opts["exec"]:
        args.append("-e")
        if r.random() < .5:
            k = r.random()
            if k < .3:
                a = r.choice([0, 0x80, 0xffff, r.randrange(65536)])
                opts["entry"], e = ["addr", a], r.choice(["0x%x", "0x%X", "0x%04x", "0x%06x"]) % a
            elif k < .35:
                opts["entry"], e = ["bad"], r.choice(["0xzz", "0x", "0x10000", "0x-1"])
            else:
                e = r.choice([s[0] for o in objs for s in o.syms] + ["nope"]) or "nope"
                opts["entry"] = ["sym", list(e.encode())]
            args += ["-E", e]
    return opts, args

class Job:
    """one run of the linker: inputs and archives (lists of objects)"""
    def __init__(self, jid, inputs, archives, opts, args):
        self.id, self.inputs, self.archives, self.opts, self.args = jid, inputs, archives, opts, args

# families of names that are easily taken for one another
FAMILIES = [lambda i: "N" * 200 + "%d" % i, lambda i: "q%d" % i + "x" * 200, lambda i: "a" * (i + 1), lambda i: "_" * i + "s", lambda i: "%d" % i,
            lambda i: "".join(ch.upper() if i >> q & 1 else ch for q, ch in enumerate("abcdefghij")), lambda i: "s" + "\u0301" * i,
            lambda i: chr(0xe9 + i) + "n", lambda i: "a b"[:2] + "%d" % i, lambda i: "f.%d" % i, lambda i: "x" + " " * i, lambda i: "s%d." % (i % 3) + "0" * (i // 3)]
def renamed(r, job):
    """the job with other names, still different"""
    names = sorted({s[0] for o in all_objects(job) for s in o.syms} - {""})
    f = r.choice(FAMILIES)
    ids = r.sample(range(len(names) + r.choice([0, 3])), len(names))
    to = {n: f(i) for n, i in zip(names, ids)}
    if len(set(to.values())) < len(to) or any(len(n.encode()) > 200 + 10 for n in to.values()):
        return
    for o in {id(o): o for o in all_objects(job)}.values():
        o.syms = [(to.get(n, n),) + tuple(x) for n, *x in o.syms]
    e = job.opts["entry"]
    if e and e[0] == "sym":
        n = to.get(bytes(e[1]).decode())
        if n:
            e[1] = list(n.encode())
            job.args[job.args.index("-E") + 1] = n
def all_objects(job):
    return list(job.inputs) + [o for ms in job.archives for o in ms]

def default_opts(**kw):
    return dict({"align": 128, "exec": 0, "strip": 0, "entry": []}, **kw)

def write_objects(c, named):
    """{path: Obj} to files; {path: object as JSON}"""
    cases = []
    for path, o in named.items():
        os.makedirs(os.path.dirname(os.path.join(c.scratch, path)), exist_ok=True)
        t = o.tokens()
        t.update(id=path, path=path)
        cases.append(t)
    lines = c.harness("put", cases)
    out = {}
    for l in lines:
        j = json.loads(l)
        out[j["id"]] = j["obj"]
        if j["wrote"] != 1:
            c.violation("an object could not be written", j["id"])
    return out

def archive(c, path, members):
    with open(os.path.join(c.scratch, path), "wb") as f:
        f.write(AMAGIC)
        for m in members:
            with open(os.path.join(c.scratch, m), "rb") as g:
                f.write(g.read())

def content(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None

def file_names(r, n):
    """n names for files, and one more"""
    f = r.choice([lambda i: "x%d" % i, lambda i: "x" * (i + 1), lambda i: "z%d.to" % (n - i), lambda i: "%d.o" % ((i * 7919) % 10007), lambda i: "á" * (i % 50 + 1) + "%d" % (i // 50)])
    ns = [f(i) for i in range(n + 1)]
    r.shuffle(ns)
    return ns if len(set(ns)) == n + 1 and max(len(x.encode()) for x in ns) < 200 else ["y%d.to" % i for i in r.sample(range(n + 1), n + 1)]

def execute(c, r, jobs):
    named = {}
    for j in jobs:
        for i, o in enumerate(j.inputs):
            named["%s/i%d.to" % (j.id, i)] = o
        for a, ms in enumerate(j.archives):
            for i, o in enumerate(ms):
                named["%s/m%d-%d.to" % (j.id, a, i)] = o
    objs = write_objects(c, named)
    runs = {}
    for j in jobs:
        d = os.path.join(c.scratch, j.id)
        os.makedirs(d, exist_ok=True)
        args = list(j.args)
        for a, ms in enumerate(j.archives):
            archive(c, "%s/lib%d.ar" % (j.id, a), ["%s/m%d-%d.to" % (j.id, a, i) for i in range(len(ms))])
            args += ["-l", "lib%d.ar" % a]
        out = "out.to"
        if r.random() < .1:
            out = "a.to"
        else:
            args += ["-o", out]
        old = None
        if r.random() < .3:
            old = bytes(r.randrange(256) for _ in range(r.choice([1, 700])))
            with open(os.path.join(d, out), "wb") as f:
                f.write(old)
        ins = ["i%d.to" % i for i in range(len(j.inputs))]
        if r.random() < .5:
            # under other names: their order on the command line is what counts
            to = [n for n in file_names(r, len(ins)) if n != out]
            for a, b in zip(ins, to):
                os.rename(os.path.join(d, a), os.path.join(d, b))
            ins = to[:len(ins)]
        st, so, se = run_tool([os.path.join(c.bins, "tl")] + args + ins, d)
        runs[j.id] = (st, se, int(content(os.path.join(d, out)) != old), "%s/%s" % (j.id, out))
        if st is None or st < 0:
            c.violation("the linker did not end in an orderly way (status %s)" % st, {"job": j.id, "args": args, "inputs": [o.tokens() for o in j.inputs]})
    shown = c.harness("show", [{"id": j.id, "path": runs[j.id][3]} for j in jobs])
    lines = []
    for j, s in zip(jobs, shown):
        st, se, made, _ = runs[j.id]
        lines.append(json.dumps({
            "id": j.id, "opts": j.opts, "status": -1 if st is None else st, "made": made, "err": se.decode("utf-8", "replace")[:200],
            "inputs": [objs["%s/i%d.to" % (j.id, i)] for i in range(len(j.inputs))],
            "members": [objs["%s/m%d-%d.to" % (j.id, a, i)] for a, ms in enumerate(j.archives) for i in range(len(ms))],
            "out": json.loads(s)["read"]}))
    return lines

def judge(c, r, jobs, label, invariants=("Linked",)):
    shared = {}
    for j in jobs:
        for o in {id(o) for o in all_objects(j)}:
            shared[o] = shared.get(o, 0) + 1
    for j in jobs:
        # objects of several jobs keep their names
        if r.random() < .4 and all(shared[id(o)] == 1 for o in all_objects(j)):
            renamed(r, j)
    lines = execute(c, r, jobs)
    if lines:
        cases = [{"id": j.id, "args": j.args, "inputs": [o.tokens() for o in j.inputs], "archives": [[o.tokens() for o in m] for m in j.archives]} for j in jobs]
        c.validate("TraceLink", lines, cases, invariants=invariants, label=label)
    return lines

# ---- C21: layout and patching ---------------------------------------------
def c21(c):
    r = c.rng("layout")
    jobs = []
    for i in range(1500 if c.thorough else 300):
        objs = random_objects(r, r.choice([1, 1, 2, 2, 3, 4]), dup=0, undef=.05 if i % 3 else 0)
        o, a = options(r, objs, .4)
        jobs.append(Job("lay%d" % i, objs, [], o, a))
    # sizes around the page for two inputs with everything referring to everything
    for i, (n, m) in enumerate(itertools.product([0, 1, 2, 127, 128, 129], repeat=2)):
        objs = [cross(n, 0), cross(m, 1)]
        al = ALIGNS[i % len(ALIGNS)]
        jobs.append(Job("cross%d" % i, objs, [], default_opts(align=al), ["-A", "%d" % al]))
    # entry points in each segment, first or later input, whatever it started at
    for i, (st, start, n, k) in enumerate(itertools.product([0] + SEGS, [0, 0x80, 0x7ffd, 0xfff0], [0, 1, 5], [0, 1, 2])):
        objs = [random_objects(r, 1, maxlen=9, zero=.5)[0] for _ in range(3)]
        for q, o in enumerate(objs):
            o.syms, o.rel, o.entry = [], [], None
            if q == k:
                o.segs.pop(st, None)
                # without bytes there may be no segment at all
                if n or start:
                    o.put(st, [r.randrange(256) for _ in range(n)], start)
            elif q > k and r.random() < .5:
                o.entry = r.choice([(s, a) for s, (a, b) in o.segs.items()] or [(0x20, 0)])
        objs[k].entry = (st, start + r.randrange(n + 1) if n or start else r.choice([0, 0x80]))
        opts, args = default_opts(exec=i % 2), ["-e"] if i % 2 else []
        jobs.append(Job("entry%d" % i, objs, [], opts, args))
    jobs += many_jobs(c, r)
    judge(c, r, jobs, "layout, patching and entry")
    judge(c, r, big_jobs(c), "around the size of memory")

def many_jobs(c, r):
    """many inputs; inputs with many symbols and relocations"""
    jobs = []
    for i, n in enumerate((20, 40)):
        objs = random_objects(r, n, maxlen=8, dup=0, undef=0)
        al = r.choice([1, 2, 16, 128])
        jobs.append(Job("many%d" % n, objs, [], default_opts(align=al), ["-A", "%d" % al]))
    for n in (127, 128, 255, 256, 257, 300) + ((1100,) if c.thorough else ()):
        objs = []
        for k in range(2):
            o = Obj()
            for s in SEGS:
                o.put(s, [k] * (n // 3 + k), 0x80 + 0x1000 * s // 8)
            for j in range(n):
                st = r.choice(SEGS)
                o.sym("s%d" % j if k == j % 2 else "t%d" % j, int(k == j % 2), st, o.segs[st][0] + r.randrange(n // 3))
            for j in range(r.choice([1, 20])):
                o.sym("s%d" % (j * 2 + 1 - k), 1, 0xff, 0xfaff)
            order = list(range(len(o.syms)))
            r.shuffle(order)
            for j in order:
                o.use(r.choice(SEGS), j, (j & 255, k))
            objs.append(o)
        al = r.choice([1, 128, 512])
        jobs.append(Job("wide%d" % n, objs, [], default_opts(align=al), ["-A", "%d" % al]))
    return jobs

def cross(n, which):
    """every segment refers to symbols in every segment, here and there"""
    o = Obj()
    at = 0x80
    ids = []
    for s in SEGS:
        ids.append((s, "h%d-%x" % (which, s)))
    for s, _ in ids:
        o.put(s, [s] * n, at)
        at += 0x200
    for s, name in ids:
        o.sym(name, 1, s, o.segs[s][0] + n)
    for s, _ in ids:
        o.sym("h%d-%x" % (1 - which, s), 1, 0xff, 0xfaff)
    for s, _ in ids:
        o.sym("loc", 0, s, o.segs[s][0] + n // 2)
    for s, _ in ids:
        for i in range(len(o.syms)):
            o.use(s, i, (which, i))
    if which:
        o.entry = (0x20, o.segs[0x20][0] + n)
    return o

def big_jobs(c):
    jobs = []
    def of(sizes):
        objs = []
        for sz in sizes:
            o = Obj()
            for s, n in sz.items():
                o.put(s, b"", 0)
                o.segs[s][1] += bytes((i * 7 + s) & 255 for i in range(n))
                o.sym("s%x" % s, 0, s, n)
                if n >= 2:
                    o.rel.append((s, n - 2, len(o.syms) - 1))
            objs.append(o)
        return objs
    sizes = [[{0x20: 65407}], [{0x20: 65408}], [{0x20: 30000}, {0x20: 35407}], [{0x20: 30000}, {0x20: 35408}], [{0x20: 40000}, {0x20: 40000}],
             [{0x10: 30000, 0x20: 1}, {0x10: 35279, 0x20: 1}], [{0x10: 30000, 0x20: 1}, {0x10: 35281, 0x20: 1}], [{0: 65532}], [{0: 40000}, {0: 25532}], [{0: 40000}, {0: 30000}], [{0: 200, 0x20: 5}], [{0: 100, 0x20: 5}, {0: 28}],
             [{0: 128, 0x10: 3}], [{0: 129, 0x10: 3}], [{0: 65000, 0x70: 500}], [{0: 65000, 0x70: 600}]]
    for i, s in enumerate(sizes):
        for al in ((1, 128, 32768) if i % 2 else (128, 4096)):
            jobs.append(Job("big%d-%d" % (i, al), of(s), [], default_opts(align=al), ["-A", "%d" % al]))
    for al in (16384, 32768):
        for n in (1, 16384, 32767, 32768):
            jobs.append(Job("al%d-%d" % (al, n), of([{0x10: n, 0x20: 1}]), [], default_opts(align=al), ["-A", "%d" % al]))
    return jobs

# ---- C22: symbols ---------------------------------------------------------
ROLES = ["none", "ref", "unused", "def", "local", "both"]
def role(o, name, what, k):
    """what an object has to do with a name"""
    if what == "none":
        o.put(0x20, [0x20])
    elif what == "ref":
        o.use(0x20, o.sym(name, 1, 0xff, 0xfaff), (0xff, 0xfa), 1)
    elif what == "unused":
        o.sym(name, 1, 0xff, 0xfaff)
    elif what == "def":
        i = o.sym(name, 1, 0x20, o.put(0x20, [k, k]))
        o.use(0x20, i)
    elif what == "local":
        i = o.sym(name, 0, 0x10, o.put(0x10, [k] * (k + 1)))
        o.use(0x20, i)
    elif what == "both":
        i = o.sym(name, 0, 0x10, o.put(0x10, [k] * (k + 1)))
        j = o.sym(name, 1, 0xff, 0xfaff)
        o.use(0x20, j)
        o.use(0x20, i)
    return o

def c22(c):
    r = c.rng("symbols")
    jobs = []
    for n in (1, 2, 3):
        for t in itertools.product(ROLES, repeat=n):
            for ex in (0, 1):
                objs = []
                for k, w in enumerate(t):
                    o = Obj()
                    o.put(0x20, [0x90 + k] * k, 0x80)
                    role(o, "x", w, k)
                    if k == n - 1:
                        o.entry = (0x20, 0x80)
                    objs.append(o)
                opts, args = default_opts(exec=ex), ["-e"] if ex else []
                if ex and len(t) != 2 and "def" not in t:
                    # the start symbol is what is missing
                    objs[-1].entry = None
                    opts["entry"], args = ["sym", list(b"x")], args + ["-E", "x"]
                elif ex and r.random() < .3:
                    opts["entry"], args = ["sym", list(b"x")], args + ["-E", "x"]
                elif ex and r.random() < .2:
                    objs[-1].entry = None
                jobs.append(Job("roles%d-%s-%d" % (n, "-".join(t), ex), objs, [], opts, args))
    for i in range(1500 if c.thorough else 250):
        objs = random_objects(r, r.choice([2, 3, 4, 5]), maxlen=24, dup=.04, undef=.15)
        o, a = options(r, objs, .5)
        jobs.append(Job("sym%d" % i, objs, [], o, a))
    # one definition, many references before and after; many local symbols of its name
    for n in (9, 17, 40):
        for where in (0, n // 2, n - 1):
            objs = [role(Obj(), "x", "def" if k == where else r.choice(["ref", "ref", "local", "both"]), k) for k in range(n)]
            objs[0].entry = (0x20, 0x80)
            objs[0].put(0x20, [0x20], 0x80)
            jobs.append(Job("crowd%d-%d" % (n, where), objs, [], default_opts(exec=1), ["-e"]))
            jobs.append(Job("twice%d-%d" % (n, where), objs + [role(Obj(), "x", "def", 1)], [], default_opts(), []))
    jobs += many_jobs(c, r)
    judge(c, r, jobs, "symbol resolution")

# ---- C17: archives --------------------------------------------------------
def c17(c):
    r = c.rng("archives")
    jobs = []
    roles = ["none", "ref", "def"]
    combos = list(itertools.product(itertools.product(roles, repeat=2), repeat=4))
    if not c.thorough:
        combos = r.sample(combos, 700)
    for i, t in enumerate(combos):
        objs = []
        for k, w in enumerate(t):
            o = Obj()
            o.put(0x20, [0x90 + k], 0x80)
            role(o, "x", w[0], k)
            role(o, "y", w[1], k + 4)
            objs.append(o)
        jobs.append(Job("sel%d" % i, objs[:1], [objs[1:]] if i % 3 else [objs[1:2], objs[2:]], default_opts(), []))
    # chains and webs of many members
    for i in range(1200 if c.thorough else 200):
        n, names = r.randrange(1, 9), ["n%d" % j for j in range(r.randrange(2, 9))]
        objs = []
        owners = {x: r.randrange(n + 2) for x in names}
        for k in range(n + 2):
            o = Obj()
            o.put(0x20, [k] * r.randrange(1, 4), 0x80)
            for x in names:
                if owners[x] == k or r.random() < .04:
                    role(o, x, "def", k)
                elif r.random() < .25:
                    role(o, x, r.choice(["ref", "ref", "unused", "local", "both"]), k)
            objs.append(o)
        ni = r.choice([1, 1, 2])
        ms = objs[ni:]
        cut = sorted(r.randrange(len(ms) + 1) for _ in range(r.choice([0, 0, 1, 2])))
        # an archive has at least one member
        arch = [ms[a:b] for a, b in zip([0] + cut, cut + [len(ms)]) if a < b]
        if arch and r.random() < .1:
            arch.append(r.choice(arch))
        opts, args = options(r, objs, .3)
        ins = objs[:ni]
        if r.random() < .05:
            ins = ins + [r.choice(ins)]
        jobs.append(Job("web%d" % i, ins, arch, opts, args))
    # long chains in every direction, in one archive or many, with members nobody needs
    for n in (17, 60, 130):
        for way in ("up", "down", "mixed"):
            ms = []
            for k in range(n):
                o = Obj()
                o.put(0x20, [k & 255], 0x80)
                role(o, "c%d" % k, "def", k & 7)
                if k + 1 < n and k != n - 9:
                    role(o, "c%d" % (k + 1), "ref", k & 7)
                ms.append(o)
            if way == "down":
                ms.reverse()
            elif way == "mixed":
                r.shuffle(ms)
            cuts = [0] + sorted(r.sample(range(1, n), r.choice([0, 3, 12]))) + [n]
            jobs.append(Job("chain%d-%s" % (n, way), [role(Obj(), "c0", "ref", 0)], [ms[a:b] for a, b in zip(cuts, cuts[1:])], default_opts(), []))
    judge(c, r, jobs, "selection from archives")

# ---- C23: stages ----------------------------------------------------------
def stage_routes(c, r, j, d, tl, ts):
    """links in several ways; (route, status, path) of each"""
    n = len(j.inputs)
    ins = ["i%d.to" % i for i in range(n)]
    res = []
    def run(args):
        return run_tool([tl] + args, d)[0]
    def copy(f, g):
        with open(os.path.join(d, f), "rb") as a, open(os.path.join(d, g), "wb") as b:
            b.write(a.read())
    def final(name, files, extra=(), more=()):
        st = run(j.args + list(extra) + ["-o", name + ".to"] + files + list(more))
        res.append([name, st, name + ".to", 0])
    final("direct", ins)
    if not j.opts["strip"]:
        final("outstripped", ins, ["-S"])
    # strip afterwards
    if res[0][1] == 0:
        copy("direct.to", "poststrip.to")
        res.append(["poststrip", run_tool([ts, "poststrip.to"], d)[0], "poststrip.to", 0])
    # every grouping into consecutive stages once, stripping now and then
    for cutset in range(1 << (n - 1)):
        name = "g%d" % cutset
        groups, cur = [], [ins[0]]
        for i in range(1, n):
            if cutset >> (i - 1) & 1:
                groups.append(cur)
                cur = []
            cur.append(ins[i])
        groups.append(cur)
        fs, ok = [], 0
        for gi, g in enumerate(groups):
            if len(g) == 1 and r.random() < .5:
                fs.append(g[0])
                continue
            t = "%s-%d.to" % (name, gi)
            # small enough for the stage to fit in memory
            al = r.choice([["-A", "%d" % r.choice(ALIGNS[:12])], [], []])
            ok = ok or run(al + r.choice([["-S"], [], []]) + ["-o", t] + g)
            if ok == 0 and r.random() < .3:
                ok = run_tool([ts, t], d)[0]
            fs.append(t)
        if ok == 0:
            final(name, fs)
        else:
            res.append([name, ok, name + ".to", 0])
    # a left to right chain
    acc, ok = ins[0], 0
    for i in range(1, n):
        t = "chain%d.to" % i
        ok = ok or run(["-o", t, acc, ins[i]])
        acc = t
    if ok == 0:
        final("chain", [acc])
    else:
        res.append(["chain", ok, "chain.to", 0])
    # inputs stripped first
    for i in ins:
        copy(i, "s" + i)
    ok = run_tool([ts] + ["s" + i for i in ins], d)[0]
    if ok == 0:
        final("instripped", ["s" + i for i in ins])
    else:
        res.append(["instripped", ok, "", 0])
    # from archives
    k = r.randrange(1, n)
    with open(os.path.join(d, "all.ar"), "wb") as f:
        f.write(AMAGIC + b"".join(content(os.path.join(d, r.choice(["", "s"]) + i)) for i in ins[k:]))
    final("archive", ins[:k], ["-l", "all.ar"])
    res[-1][3] = k
    return res

def c23(c):
    r = c.rng("stages")
    jobs = []
    for i in range(800 if c.thorough else 150):
        objs = random_objects(r, r.choice([2, 3, 3, 4]), maxlen=24, dup=.01, undef=.06, zero=0 if i % 4 else .3)
        o, a = options(r, objs, .5)
        jobs.append(Job("st%d" % i, objs, [], o, a))
    # symbols in segments that only other inputs have bytes in
    for t in itertools.product([0, 1, 2], repeat=3):
        objs = []
        for k, w in enumerate(t):
            o = Obj()
            o.put(0x20, [k] * 3, 0x80)
            if w:
                o.put(0x10, [k] * (w - 1), 0x100)
            i = o.sym("d%d" % k, 1, 0x10, 0x100 + max(w - 1, 0) if w else 0)
            o.use(0x20, i)
            for q in range(3):
                if q != k:
                    o.use(0x20, o.sym("d%d" % q, 1, 0xff, 0xfaff))
            if k == 1:
                o.entry = (0x10, 0x100 if w else 0)
            objs.append(o)
        jobs.append(Job("seg%s" % "".join(map(str, t)), objs, [], default_opts(exec=1), ["-e"]))
    for j in jobs:
        if r.random() < .4:
            renamed(r, j)
    named = {"%s/i%d.to" % (j.id, i): o for j in jobs for i, o in enumerate(j.inputs)}
    objs = write_objects(c, named)
    tl, ts = os.path.join(c.bins, "tl"), os.path.join(c.bins, "tstrip")
    routes = {j.id: stage_routes(c, r, j, os.path.join(c.scratch, j.id), tl, ts) for j in jobs}
    shown = c.harness("show", [{"id": "%s/%s" % (j.id, x[0]), "path": "%s/%s" % (j.id, x[2] or "none")} for j in jobs for x in routes[j.id]])
    read = {json.loads(s)["id"]: json.loads(s)["read"] for s in shown}
    lines = []
    for j in jobs:
        lines.append(json.dumps({
            "id": j.id, "opts": j.opts, "inputs": [objs["%s/i%d.to" % (j.id, i)] for i in range(len(j.inputs))], "members": [],
            "outs": [{"route": x[0], "status": -1 if x[1] is None else x[1], "arch": x[3], "out": read["%s/%s" % (j.id, x[0])]} for x in routes[j.id]]}))
    cases = [{"id": j.id, "args": j.args, "inputs": [o.tokens() for o in j.inputs]} for j in jobs]
    c.validate("TraceLink", lines, cases, invariants=("Routes",), label="routes")
    c.validate("TraceLink", lines[:200], cases, invariants=("StageTheorem",), label="two stages are one (specification)", count=False)
    c.parts["routes"]["outputs"] = len(shown)

# ---- C25: stripping -------------------------------------------------------
def c25(c):
    r = c.rng("strip")
    cases = []
    for i in range(1500 if c.thorough else 300):
        o = objgen.obj(r, p=r.choice([.3, .6, 1]), nsym=10)
        o.update(id="s%d" % i, path="s%d.to" % i)
        if r.random() < .5:
            o["pre"] = hexb(objgen.prefix(r))
        cases.append(o)
    big = {"id": "big", "path": "big.to", "e": "20:80", "segs": "20:80:~20000,3,1", "pre": hexb(b"#!/bin/env t\n"),
           "syms": "|".join("%s:%d:20:%x" % (("s%d" % i).encode().hex(), i % 2, i) for i in range(1500)), "rel": "|".join("20:%x:%x" % (i, i) for i in range(1500))}
    cases.append(big)
    put = [json.loads(l) for l in c.harness("put", cases)]
    before = {x["id"]: list(content(os.path.join(c.scratch, x["id"] + ".to"))) for x in put}
    modes, runs = {}, {}
    ts = os.path.join(c.bins, "tstrip")
    i = 0
    while i < len(put):
        flags = r.choice([[], [], ["-a"], ["--all"], ["-a", "-f"]])
        # several files in one run: one that is refused does not keep the others from being stripped
        n = r.choice([1, 1, 1, 3, 3, 9]) if i else 40
        group = put[i:i + n]
        i += n
        st, _, err = run_tool([ts] + flags + [g["id"] + ".to" for g in group], c.scratch)
        for g in group:
            modes[g["id"]] = (int(bool(flags) and flags[0] != "-f"), int("-f" in flags))
        refuse = [not g["obj"]["entry"] and modes[g["id"]] == (1, 0) for g in group]
        for g, ref in zip(group, refuse):
            # the status of a run is a failure if any file was refused
            runs[g["id"]] = (st if n == 1 or ref or not any(refuse) else (0 if st == 1 else -1), err)
    shown = {}
    for l in c.harness("show", [{"id": x["id"], "path": x["id"] + ".to"} for x in put]):
        j = json.loads(l)
        shown[j["id"]] = j["read"]
    lines = []
    for x in put:
        i = x["id"]
        lines.append(json.dumps({"id": i, "inp": x["obj"], "all": modes[i][0], "force": modes[i][1], "status": -1 if runs[i][0] is None else runs[i][0],
                                 "err": runs[i][1].decode("utf-8", "replace")[:200], "before": before[i], "after": list(content(os.path.join(c.scratch, i + ".to")) or b""), "out": shown[i]}))
    c.validate("TraceLink", lines, cases, invariants=("StrippedRight",), label="stripping")
