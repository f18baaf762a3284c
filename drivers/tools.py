"""Checks of what all tools have in common (C32, C33)."""
import concurrent.futures, json, os, random, shutil
import asm, dis, files, link, objgen, system
from files import run_tool, damaged
from objgen import hexb
from link import content, AMAGIC

def put_file(path, b):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(b)

# --------------------------------------------------------------------- C32
def spoilt(r, good, archive=False):
    """(kind, contents) of an input that is, most of the time, no object (or archive)"""
    b = r.choice(good)
    if archive:
        b = AMAGIC + b"".join(r.sample(good, r.randrange(1, min(4, len(good)) + 1)))
    k = r.randrange(12)
    if k == 0:
        return "none", b""
    if k == 1:
        return "dir", b""
    if k == 2:
        return "file", r.choice([b"", b"\0", b"\x7fELF" + bytes(60), b".seg text\nnop\n", "álvur2".encode(), "álvur2\n".encode(), AMAGIC, AMAGIC + b"\0", AMAGIC[:-1]])
    if k == 3:
        # cut a little, or where a section ends
        ends = [i for i, x in enumerate(b) if x == 95] or [len(b)]
        return "file", b[:r.choice(ends + [len(b) - 1, len(b) - 2])]
    if k < 7:
        return "file", b[:r.randrange(len(b))]
    if k == 7:
        return "file", (b[len(AMAGIC):] if archive else AMAGIC + b + r.choice([b"x", "álvur2\n".encode(), b"\0"]))
    if k == 8 and archive:
        return "file", b + r.choice([b"x", b"\0", "álvur2\n".encode(), r.choice(good)[:-1]])
    if k == 9:
        # magic of another version or none
        return "file", b.replace("álvur2".encode(), r.choice(["álvur1", "álvur3", "Álvur2", "alvur2"]).encode(), 1)
    return "file", damaged(r, [b] + good)

def kind_of(path):
    return "dir" if os.path.isdir(path) else "file" if os.path.exists(path) else "none"
def seen(path):
    b = content(path)
    return [-1] if b is None else list(b)

def c32(c):
    r = c.rng("refuse")
    n = 4000 if c.thorough else 700
    puts, pool = [], {}
    for i in range(60):
        objs = link.random_objects(r, 3, maxlen=20)
        for j, o in enumerate(objs):
            t = o.tokens()
            t.update(id="w%d-%d" % (i, j), path="w%d-%d.to" % (i, j))
            if r.random() < .2:
                t["pre"] = hexb(objgen.prefix(r))
            puts.append(t)
    # programs that end when they are started
    for i in range(20):
        o = link.Obj()
        code = [r.choice([1, 5])] if i % 2 else [64, 0x10, 4, 0, 62, 0x40, 65 + i, 3, 1]
        o.put(0x20, code, 0x80)
        o.entry = (0x20, 0x80)
        t = o.tokens()
        t.update(id="run%d" % i, path="run%d.to" % i)
        puts.append(t)
    for l in c.harness("put", puts):
        j = json.loads(l)
        if j["wrote"]:
            pool[j["id"]] = content(os.path.join(c.scratch, j["id"] + ".to"))
    webs = sorted({k.split("-")[0] for k in pool if k[0] == "w"})
    runs = [pool[k] for k in sorted(pool) if k.startswith("run")]
    cases = []
    for i in range(n):
        tool = r.choice(["tl", "tl", "tl", "tstrip", "tstrip", "tobjdump", "t", "tdbg"])
        web = r.choice(webs)
        good = [pool[k] for k in sorted(pool) if k.split("-")[0] == web]
        if tool in ("t", "tdbg"):
            good = runs
        cs = {"id": "r%d" % i, "tool": tool, "ins": [], "arch": [], "flags": [], "all": 0, "force": 0}
        m = 1 if tool in ("t", "tdbg") else r.choice([1, 2, 3, 5]) if r.random() < .95 else 12
        cs["ins"] = [("file", r.choice(good)) for _ in range(m)]
        bad = r.random() < .9
        if tool == "tl":
            cs["arch"] = [("file", AMAGIC + b"".join(r.sample(good, r.randrange(1, len(good) + 1)))) for _ in range(r.choice([0, 0, 1, 2]))]
            cs["flags"] = r.choice([[], [], ["-e"], ["-S"], ["-e", "-E", "0x80"], ["-A", "16"]]) + r.choice([[], ["-o", "sub/out"], ["-o", "out"]])
        elif tool == "tstrip":
            cs["flags"], cs["all"], cs["force"] = r.choice([([], 0, 0), ([], 0, 0), (["-a"], 1, 0), (["-a", "-f"], 1, 1)])
        elif tool == "tobjdump":
            cs["flags"] = r.choice([["-t"], ["-d"], ["-t", "-d", "-R"], ["--syms"]])
            if r.random() < .4:
                cs["ins"][r.randrange(m)] = ("file", AMAGIC + b"".join(r.sample(good, r.randrange(1, len(good) + 1))))
        elif tool == "t":
            cs["flags"] = r.choice([[], ["-t"]])
        if bad:
            if cs["arch"] and r.random() < .5:
                cs["arch"][r.randrange(len(cs["arch"]))] = spoilt(r, good, True)
            else:
                # the first, the last or one between
                at = r.choice([0, m - 1, r.randrange(m)])
                cs["ins"][at] = spoilt(r, good, tool == "tobjdump" and r.random() < .3)
                if tool == "tstrip" and cs["ins"][at][0] == "dir":
                    cs["ins"][at] = ("none", b"")
        cases.append(cs)
    # what the library can read, damaged or not, is run by the checks of running
    q = [{"id": cs["id"], "bytes": hexb(cs["ins"][0][1])} for cs in cases if cs["tool"] in ("t", "tdbg") and cs["ins"][0][0] == "file" and cs["ins"][0][1] not in runs]
    readable = {json.loads(l)["id"] for l in c.harness("objread", q) if "error" not in json.loads(l)["read"]}
    cases = [cs for cs in cases if cs["id"] not in readable]
    def work(cs):
        d = os.path.join(c.scratch, cs["id"])
        names = ["i%d.to" % i for i in range(len(cs["ins"]))]
        libs = ["l%d.savn" % i for i in range(len(cs["arch"]))]
        os.makedirs(os.path.join(d, "sub"))
        for nm, (kind, b) in zip(names + libs, cs["ins"] + cs["arch"]):
            p = os.path.join(d, nm)
            if kind == "dir":
                os.makedirs(p)
            elif kind == "file":
                put_file(p, b)
        out = os.path.join(d, cs["flags"][-1] if "-o" in cs["flags"] else "a.to")
        if len(cs["id"]) % 2 and cs["tool"] == "tl":
            put_file(out, b"what was there before")
        before = [seen(os.path.join(d, x)) for x in names + libs]
        old = seen(out)
        cmd = [os.path.join(c.bins, cs["tool"])] + cs["flags"] + [y for x in libs for y in ("-l", x)] + names
        st, so, se = run_tool(cmd, d, stdin=b"si\nsi\nq\n" if cs["tool"] == "tdbg" else b"xyz")
        after = [seen(os.path.join(d, x)) for x in names + libs]
        rec = [{"kind": k, "before": b, "after": a} for (k, _), b, a in zip(cs["ins"] + cs["arch"], before, after)]
        res = {"id": cs["id"], "tool": cs["tool"], "all": cs["all"], "force": cs["force"], "status": -1 if st is None else st, "ins": rec[:len(names)], "arch": rec[len(names):],
               "err": se.decode("utf-8", "replace")[:200], "out": so.decode("utf-8", "replace")[:200], "old": old, "new": seen(out)}
        shutil.rmtree(d)
        return json.dumps(res)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        lines = list(ex.map(work, cases))
    show = [{"id": cs["id"], "tool": cs["tool"], "flags": cs["flags"], "ins": [[k, hexb(b)] for k, b in cs["ins"]], "arch": [[k, hexb(b)] for k, b in cs["arch"]]} for cs in cases]
    c.validate("TraceRefuse", lines, show, invariants=("Refuses",), label="tools and unreadable inputs")
    c.model("TeldaTools", ["TypeOK", "AsForetold", "ReadsFirst", "NeverTouched"], properties=["Alone", "Ends"], constants="CONSTANT MaxInputs = %d\n" % (8 if c.thorough else 5))
    p = c.parts["tools and unreadable inputs"]
    for tool in ("tl", "tstrip", "tobjdump", "t", "tdbg"):
        p[tool] = sum(cs["tool"] == tool for cs in cases)
        p[tool + " refusing"] = sum(json.loads(l)["status"] != 0 for l, cs in zip(lines, cases) if cs["tool"] == tool)

# --------------------------------------------------------------------- C33
WAYS = ["plain", "again", "elsewhere", "absolute", "older", "environment", "crowded"]
# of the linker and archiver, whose outputs do not tell the names of their inputs
MORE = ["renamed", "options last"]
def circumstances(r, how, d, cmd, tree, outs, stdin=None):
    """one run: tree {path: contents}, outs the files made; the observation"""
    w = os.path.join(d, how if how not in ("elsewhere",) else "else where/á/deep")
    if how == "renamed":
        to = {p: n for p, n in zip(sorted(tree), r.sample(["a.b", "z", "Z", "0", "out.to", "x y.to", "sub/i0.to", "i9.savn", "álvur", "i1.telda", "i0", "_", "deep/er/i1.to", "b.to", "c.to"], len(tree)))}
        tree = {to[p]: b for p, b in tree.items()}
        cmd = [to.get(x, x) for x in cmd]
    if how == "options last":
        n = next(i for i in range(1, len(cmd) + 1) if all(x in tree for x in cmd[i:]))
        cmd = cmd[:1] + cmd[n:] + cmd[1:n]
    if how == "crowded":
        for x in ["a.to", "out.to", "x", "tmp", ".tmp", "out.tmp", "i0", "i0.bak", "l.to", "stdin", "sub.to"]:
            if x not in tree and x not in outs:
                put_file(os.path.join(w, x), r.choice(list(tree.values()) + [b"junk"]))
    for p, b in tree.items():
        put_file(os.path.join(w, p), b)
    env = None
    if how == "older":
        for o in outs:
            if o not in tree:
                put_file(os.path.join(w, o), bytes(r.randrange(256) for _ in range(r.choice([1, 50, 3000]))))
    if how == "environment":
        env = dict(os.environ, LANG="da_DK.UTF-8", TZ="Asia/Tokyo", RUST_BACKTRACE="1", HOME="/nowhere", COLUMNS="20", TERM="dumb")
    if how == "absolute":
        cmd = [cmd[0]] + [os.path.join(w, x) if x in tree or x in outs else x for x in cmd[1:]]
    st, so, se = run_tool(cmd, w, stdin=stdin, env=env)
    if how == "absolute":
        so = so.replace(w.encode() + b"/", b"")
    made = {o: list(content(os.path.join(w, o)) or []) if os.path.exists(os.path.join(w, o)) else [-1] for o in outs}
    if st != 0:
        # what was there stays there
        made = {o: [-1] if o not in tree else m for o, m in made.items()}
    # status and messages are the property of other checks, only differences count
    return {"how": how, "status": -1 if st is None else st, "out": so.decode("latin-1")[-4000:], "made": [made[o] for o in outs]}

def c33(c):
    r = c.rng("same")
    jobs = []
    tc, tl, ts, tar, td, t, dbg = (os.path.join(c.bins, x) for x in ("tc", "tl", "tstrip", "tar", "tobjdump", "t", "tdbg"))
    full = c.thorough
    # the assembler
    for i in range(500 if full else 70):
        p = asm.program(r, "p%d" % i, faults=r.choice([0, 0, 0, 1, 3]), big=r.random() < .2)
        tree = {q: b"\n".join(ls) + b"\n" for q, ls in p.files.items()}
        jobs.append(("tc%d" % i, [tc, p.main], tree, [asm.to_path(p.main)], None))
    # the linker: webs of objects, with archives
    named, webs = {}, []
    for i in range(500 if full else 90):
        objs = link.random_objects(r, r.randrange(1, 6), dup=.01, undef=.05)
        ni = r.randrange(1, len(objs) + 1)
        opts, args = link.options(r, objs, .4)
        for k, o in enumerate(objs):
            named["o%d-%d.to" % (i, k)] = o
        webs.append((i, len(objs), ni, args))
    for i in range(60 if full else 15):
        named["code%d.to" % i] = dis.code_object(r)
    big = link.Obj()
    for i in range(120):
        big.put(0x20, [0x25, i], 0x80)
        big.sym("s%d" % (i % 90), int(i < 60), 0x20, 0x80 + 2 * (i % 100))
    big.entry = (0x20, 0x80)
    named["big.to"] = big
    link.write_objects(c, named)
    data = {p: content(os.path.join(c.scratch, p)) for p in named}
    data = {p: b for p, b in data.items() if b}
    for i, n, ni, args in webs:
        tree = {"i%d.to" % k: data["o%d-%d.to" % (i, k)] for k in range(n) if "o%d-%d.to" % (i, k) in data}
        if len(tree) < n:
            continue
        extra = []
        if ni < n:
            tree["l.savn"] = AMAGIC + b"".join(tree["i%d.to" % k] for k in range(ni, n))
            extra = ["-l", "l.savn"]
        jobs.append(("tl%d" % i, [tl] + args + extra + ["-o", "out"] + ["i%d.to" % k for k in range(ni)], tree, ["out"], None))
        if i % 3 == 0:
            jobs.append(("tar%d" % i, [tar, "-o", "out"] + ["i%d.to" % k for k in range(n)], tree, ["out"], None))
    for i, p in enumerate(sorted(data)):
        if i % 4 == 0:
            jobs.append(("ts%d" % i, [ts] + r.choice([[], ["-a", "-f"]]) + ["x.to"], {"x.to": data[p]}, ["x.to"], None))
        if i % 4 == 1 or p.startswith(("code", "big")):
            jobs.append(("td%d" % i, [td] + r.choice([["-t"], ["-d"], ["-t", "-d", "-R"]]) + ["x.to"], {"x.to": data[p]}, [], None))
    # programs, run and debugged
    for i in range(150 if full else 25):
        mk = system.Maker(r, size=1)
        stdin = bytes(r.randrange(256) for _ in range(600 + mk.long))
        a = system.arrange(r, mk, "plain", [128])
        d = "prog%d" % i
        for main, fs in a.inputs:
            for path, ls in fs.items():
                put_file(os.path.join(c.scratch, d, path), "\n".join(ls).encode() + b"\n")
        w = os.path.join(c.scratch, d)
        ok = run_tool([tc] + [m for m, _ in a.inputs], w)[0] == 0 and run_tool([tl] + a.args + ["-e", "-o", "x"] + [asm.to_path(m) for m, _ in a.inputs], w)[0] == 0 if "-e" not in a.args else \
            run_tool([tc] + [m for m, _ in a.inputs], w)[0] == 0 and run_tool([tl] + a.args + ["-o", "x"] + [asm.to_path(m) for m, _ in a.inputs], w)[0] == 0
        if not ok:
            continue
        tree = {"x": content(os.path.join(w, "x"))}
        jobs.append(("t%d" % i, [t] + r.choice([[], ["-t"]]) + ["x"], tree, [], stdin))
        cmds = b"".join(r.choice([b"si\n", b"n\n", b"si\n", b"rpc\n", b"rs\n", b"r 0x80\n"]) for _ in range(12)) + b"q\n"
        jobs.append(("dbg%d" % i, [dbg, "x"], tree, [], cmds))
    def work(j):
        jid, cmd, tree, outs, stdin = j
        rr = random.Random("%s/%d" % (jid, c.seed))
        d = os.path.join(c.scratch, "run", jid)
        runs = [circumstances(rr, how, d, cmd, tree, outs, stdin) for how in WAYS + (MORE if cmd[0] in (tl, tar) and len(tree) < 15 else [])]
        shutil.rmtree(d)
        return json.dumps({"id": jid, "runs": runs})
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        lines = list(ex.map(work, jobs))
    cases = [{"id": j[0], "cmd": [os.path.basename(j[1][0])] + j[1][1:], "files": {p: hexb(b)[:4000] for p, b in j[2].items()}} for j in jobs]
    c.validate("TraceSame", lines, cases, invariants=("Function",), label="runs in different circumstances")
    p = c.parts["runs in different circumstances"]
    p["runs"] = sum(len(json.loads(l)["runs"]) for l in lines)
