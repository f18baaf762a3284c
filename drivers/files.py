"""Checks of the object file and archive properties (C13-C16)."""
import errno, json, os, resource, signal, subprocess, time
from itertools import count
import objgen
from objgen import hexb
from cpugen import word


def gen_objects(c, label, n, **kw):
    r = c.rng(label)
    out = []
    for i in range(n):
        o = objgen.obj(r, p=r.choice([.2, .5, .9, 1]), **kw)
        o["id"] = "%s%d" % (label, i)
        if r.random() < .5:
            o["pre"] = hexb(objgen.prefix(r))
        if r.random() < .2:
            o["old"] = hexb(r.randrange(256) for _ in range(r.choice([1, 20, 600])))
        out.append(o)
    return out

def big_objects():
    """around the limits of the section length; the second value says nothing, the specification decides"""
    out = []
    for n in (65531, 65532, 65533, 65535, 65536):
        out.append({"id": "seg%d" % n, "segs": "10:0:~%d,3,1" % n})
    for n in (13106, 13107, 13108):
        out.append({"id": "rel%d" % n, "rel": "|".join("20:%x:%x" % (i, i & 7) for i in range(n))})
    for n in (10, 11, 12):
        # a name that fills the symbol table up
        out.append({"id": "sym%d" % n, "syms": "|".join(["61:1:20:1"] + ["%s:1:20:5" % (b"n" * 6000).hex()] * n)})
    for n in (65535 - 4 - 1, 65535 - 4, 65535 - 3, 65535):
        out.append({"id": "name%d" % n, "syms": "%s:1:20:5" % (b"n" * n).hex()})
        out.append({"id": "lname%d" % n, "syms": "%s:0:20:5" % (b"n" * (n - 1)).hex()})
    return out

def bad_names():
    names = [b"a\0b", b"\0", b" lead", b" ", b"  "]
    return [{"id": "bad%d-%d" % (i, g), "syms": "61:1:20:1|%s:%d:20:5" % (n.hex(), g)} for i, n in enumerate(names) for g in (0, 1)]

def tlc_objects(c, lines, nearly=0):
    """objects encoded by the specification, as harness cases"""
    path = os.path.join(c.scratch, "gen.ndjson")
    out = os.path.join(c.scratch, "encoded.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    c.model("GenObj", ["NearlyFails"] if nearly else ["DecodingInverts", "CutsFail"], env={"TRACE": path, "OUT": out, "NEARLY": str(nearly)},
            label="faulty files (GenObj)" if nearly else "encoding and decoding (GenObj)")
    cases = []
    with open(out) as f:
        for l in f:
            j = json.loads(l)
            cases.append({"id": "%s-%d" % (j["id"], j["n"]), "bytes": hexb(j["bytes"])})
    return cases

def c13(c):
    cases = gen_objects(c, "o", 2500 if c.thorough else 350)
    # nothing, and each part by itself
    cases += [{"id": "empty"}]
    for k, v in [("e", "20:1234"), ("fl", "0"), ("fl", "1"), ("ss", "0"), ("ss", "ffff"), ("hs", "0"), ("hs", "1234"),
                 ("segs", "20:80:"), ("segs", "ff:ffff:00"), ("syms", ":1:ff:0"), ("syms", ":0:0:0"), ("rel", "20:1:0")]:
        cases.append({"id": "only-%s-%s" % (k, v.replace(":", "")), k: v})
    for n in (4000, 9000, 20000):
        cases.append({"id": "large%d" % n, "e": "20:80", "segs": "20:80:~%d,3,1|10:8000:~%d,7,0" % (n, n), "pre": hexb(b"#!t\n"),
                      "syms": "|".join("%s:1:20:%x" % (("s%d" % i).encode().hex(), i) for i in range(n // 20)),
                      "rel": "|".join("20:%x:%x" % (i, i) for i in range(n // 20))})
    # many and long of everything, around the sizes of bytes
    for n in (127, 128, 255, 256, 257, 300):
        cases.append({"id": "many%d" % n, "segs": "|".join("%x:%x:%s" % (s, n, hexb([s] * n)) for s in objgen.SEGS), "e": "20:%x" % n,
                      "syms": "|".join("%s:%d:20:%x" % (b"n".hex() * (i + n - 4), i & 1, i) for i in range(8)) + "".join(
                          "|%s:%d:10:%x" % (("m%d" % i).encode().hex(), i & 1, i) for i in range(n - 8)),
                      "rel": "|".join("10:%x:%x" % (n - i, i) for i in range(n)), "pre": hexb(b"#" * n + b"\n")})
    for n in (1023, 1024, 1025, 4096, 8193, 20000):
        cases.append({"id": "name%d" % n, "syms": "|".join("%s:%d:20:%x" % ((b"n" * k + b"x").hex(), k & 1, k) for k in (n - 2, n - 1, n))})
    # longer in all than one section can be
    for i, ns in enumerate([(40000, 40000), (65532, 1, 3), (30000, 20000, 20000, 5), (65000, 65000)]):
        cases.append({"id": "giant%d" % i, "segs": "|".join("%x:%x:~%d,%d,%d" % (objgen.SEGS[k], 16 * k, n, 2 * k + 3, k) for k, n in enumerate(ns)), "e": "20:80",
                      "pre": hexb(b"#" * (i * 65530)), "syms": "|".join("%s:1:20:%x" % (("s%d" % j).encode().hex(), j) for j in range(9)), "rel": "10:1:3|20:4:5"})
    # prefixes made of pieces of the magic
    r = c.rng("prefix")
    for i in range(300 if c.thorough else 80):
        o = {"id": "pre%d" % i, "pre": hexb(objgen.prefix(r)), "e": "20:80"}
        cases.append(o)
    lines = c.harness("obj", cases)
    if lines:
        c.validate("TraceObj", lines, cases, invariants=("RoundTrip",), label="written and read back")
    # the other direction: files made by the specification
    small = [l for l in lines if len(l) < 6000][:600 if c.thorough else 120]
    small = [l for l in small if '"wrote":1' in l]
    if small:
        gen = tlc_objects(c, small)
        lines = c.harness("objread", gen)
        if lines:
            c.validate("TraceObj", lines, gen, invariants=("ReadsFormat",), label="files made by the specification")

def damaged(r, files):
    b = bytearray(r.choice(files))
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        i = r.randrange(len(b) + 1)
        k = r.randrange(7)
        if k == 0 and i < len(b):
            b[i] = r.choice([0, 1, 32, 95, 16, 24, 112, 255, b[i] ^ (1 << r.randrange(8))])
        elif k == 1:
            del b[i:i + r.choice([1, 1, 2, 5])]
        elif k == 2:
            b[i:i] = bytes(r.choice([0, 32, 95, 65, 255, r.randrange(256)]) for _ in range(r.choice([1, 1, 2, 5])))
        elif k == 3:
            # a piece of another file
            o = r.choice(files)
            j = r.randrange(len(o))
            b[i:i + r.choice([0, 3, 9])] = o[j:j + r.choice([1, 4, 12, 40])]
        elif k == 4:
            # the same piece again
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.choice([1, 3, 5, 20])]
        elif k == 5 and b"_" in b:
            j = r.choice([q for q, x in enumerate(b) if x == 95])
            b[j + r.choice([0, 1, 2]):j + 3] = r.choice([b"_", b"x", b"", b"sy", b"_se", b"st"])
        else:
            b += r.choice([b"\0", b"_", bytes(b[:40])])
    return bytes(b)

def c14(c):
    r = c.rng("cut")
    cases = gen_objects(c, "t", 400 if c.thorough else 60, maxseg=60)
    for i, o in enumerate(cases):
        o["cut"] = 1
        o["dmg"] = "%d:%d" % (c.seed * 1000 + i, 3000 if c.thorough else 300)
    cases.append({"id": "large", "e": "20:80", "cut": 97, "segs": "20:80:~9000,3,1|10:8000:~3000,7,0", "dmg": "7:50",
                  "syms": "|".join("%s:1:20:%x" % (("s%d" % i).encode().hex(), i) for i in range(300))})
    lines = c.harness("obj", cases)
    if lines:
        c.validate("TraceObj", lines, cases, invariants=("RoundTrip", "CutsRejected", "DamageSurvived"), label="truncated and damaged files")
        p = c.parts["truncated and damaged files"]
        js = [json.loads(l) for l in lines]
        p["truncations"] = sum(len(j["cuts"]) for j in js)
        p["damaged"] = sum(len(j["dmg"]) for j in js)
        # files that are nearly objects, and damaged ones, judged byte for byte
        small = [l for l in lines if len(l) < 9000 and '"wrote":1' in l]
        odd = tlc_objects(c, [json.dumps({k: v for k, v in json.loads(l).items() if k not in ("cuts", "dmg", "bad", "read")}) for l in small[:200 if c.thorough else 30]], nearly=1)
        r.shuffle(odd)
        odd = odd[:40000 if c.thorough else 4000]
        files = [bytes(json.loads(l)["bytes"]) for l in small]
        for i in range(30000 if c.thorough else 3000):
            odd.append({"id": "dmg%d" % i, "bytes": hexb(damaged(r, files))})
        for i in range(0, len(odd), 8000):
            lines = c.harness("objread", odd[i:i + 8000])
            if lines:
                c.validate("TraceObj", lines, odd[i:i + 8000], invariants=("ReadsStrictly",), label="faulty files")
    big = big_objects() + bad_names()
    lines = c.harness("obj", big)
    # the contents are long: the verdict needs only what the object is
    slim = []
    for l in lines:
        j = json.loads(l)
        j["bytes"] = []
        j["read"] = {}
        slim.append(json.dumps(j))
    if slim:
        c.validate("TraceObj", slim, big, invariants=("Refused",), label="limits of the format")


# --------------------------------------------------------------------- C15
def run_tool(cmd, cwd, limit=None, stdin=None, timeout=20, env=None, tries=5):
    """exit status (negative: signal), stdout, stderr; None status if it did not end"""
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        p = subprocess.run(cmd, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           stdin=None if stdin is not None else subprocess.DEVNULL,
                           preexec_fn=pre if limit is not None else None, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return None, b"", b""
    except OSError as e:
        if e.errno == errno.ETXTBSY and tries:
            time.sleep(.2)
            return run_tool(cmd, cwd, limit, stdin, timeout, env, tries - 1)
        if cmd[0].startswith("./"):
            return 126, b"", str(e).encode()
        raise
    return p.returncode, p.stdout, p.stderr

def c15(c):
    r = c.rng("out")
    d = c.scratch
    prog = ".seg text\n.entry\n.global _start\n_start:\nldi r1, 4\nldi r2, msg\ncall far\nhalt\n.ref far\n.seg data\nmsg:\n.string \"hello\"\n"
    far = ".seg text\n.global far\nfar:\nnop\nret\n"
    big = ".seg data\n" + "".join("l%d:\n.wide l%d\n.string \"%s\"\n" % (i, i, "x" * 40) for i in range(300)) + ".seg text\n.global far\nfar:\nret\n"
    for n, t in [("prog", prog), ("far", far), ("big", big)]:
        with open(os.path.join(d, n + ".telda"), "w") as f:
            f.write(t)
    B = lambda t: os.path.join(c.bins, t)
    s, o, e = run_tool([B("tc"), "prog.telda", "far.telda", "big.telda"], d)
    if s != 0:
        c.violation("assembling plain sources failed: %s" % e.decode("utf-8", "replace"), {"sources": [prog, far, big]})
        return
    with open(os.path.join(d, "pre.to"), "wb") as f:
        f.write(b"#!/bin/env t\n" + open(os.path.join(d, "far.to"), "rb").read())
    runs = [("tc-prog", ["tc", "prog.telda"], "prog.to"), ("tc-big", ["tc", "big.telda"], "big.to"),
            ("tl-e", ["tl", "-e", "-o", "x.out", "prog.to", "far.to"], "x.out"),
            ("tl", ["tl", "-o", "x.out", "prog.to"], "x.out"), ("tl-big", ["tl", "-e", "-S", "-o", "x.out", "prog.to", "big.to"], "x.out"),
            ("tl-a", ["tl", "-o", "x.out", "prog.to", "big.to"], "x.out"),
            ("tar", ["tar", "-o", "x.out", "prog.to", "far.to", "pre.to"], "x.out"), ("tar-big", ["tar", "-o", "x.out", "far.to", "big.to"], "x.out"),
            ("tstrip", ["tstrip", "s.to"], "s.to"), ("tstrip-a", ["tstrip", "-a", "s.to"], "s.to"), ("tstrip-pre", ["tstrip", "p.to"], "p.to"),
            ("tstrip-big", ["tstrip", "b.to"], "b.to")]
    inplace = {"s.to": "prog.to", "p.to": "pre.to", "b.to": "big.to"}
    def once(k, cmd, out, limit, old=None):
        w = os.path.join(d, "w%d" % k)
        os.makedirs(w, exist_ok=True)
        for f in ("prog.telda", "far.telda", "big.telda", "prog.to", "far.to", "big.to", "pre.to"):
            with open(os.path.join(d, f), "rb") as a, open(os.path.join(w, f), "wb") as b:
                b.write(a.read())
        if out in inplace:
            with open(os.path.join(d, inplace[out]), "rb") as a, open(os.path.join(w, out), "wb") as b:
                b.write(a.read())
        elif old is not None:
            # something was there before
            with open(os.path.join(w, out), "wb") as b:
                b.write(old)
        elif os.path.exists(os.path.join(w, out)):
            os.remove(os.path.join(w, out))
        s, o, e = run_tool([B(cmd[0])] + cmd[1:], w, limit)
        try:
            with open(os.path.join(w, out), "rb") as f:
                data = f.read()
        except OSError:
            data = b""
        return s, data, e
    def content(f):
        with open(os.path.join(d, f), "rb") as h:
            return h.read()
    others = count()
    def alike(s, data, full):
        """the complete output, or as long and holding the same object"""
        if data == full or s != 0 or len(data) != len(full):
            return int(data == full)
        n = next(others)
        for k, b in (("a", data), ("b", full)):
            with open(os.path.join(d, "alike%d%s" % (n, k)), "wb") as f:
                f.write(b)
        x, y = [json.loads(l)["read"] for l in c.harness("show", [{"id": k, "path": "alike%d%s" % (n, k)} for k in "ab"])]
        return int(x == y and "entry" in x)
    lines = []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for name, cmd, out in runs:
            s, full, e = once(0, cmd, out, None)
            if s != 0:
                c.violation("%s failed: %s" % (" ".join(cmd), e.decode("utf-8", "replace")), {"cmd": cmd})
                continue
            limits = set(range(min(len(full), 60) + 1)) | set(range(max(0, len(full) - 40), len(full) + 2)) | \
                {r.randrange(len(full)) for _ in range(2000 if c.thorough else 60)} | {8191, 8192, 8193, 16383, 16384, 16385}
            limits = sorted(l for l in limits if l <= len(full) + 1)
            def job(il):
                i, l = il
                s, data, e = once(1 + i % 8, cmd, out, l)
                return {"id": "%s-%d" % (name, l), "limit": l, "full": len(full), "size": len(data), "reachable": 1,
                        "status": 999 if s is None or s < 0 else s, "same": alike(s, data, full)}
            # each worker directory is used by one job at a time
            chunks = [[(i, l) for i, l in enumerate(limits) if i % 8 == w] for w in range(8)]
            for part in ex.map(lambda ch: [job(x) for x in ch], chunks):
                lines += [json.dumps(x) for x in part]
            # in the place of older, longer and shorter, outputs; what is left after it belongs to no output
            olds = [] if out in inplace else [full + full, full + b"x", b"\0" * (len(full) + 5000), full[:len(full) // 2], b"z" * len(full), b""]
            for i, old in enumerate(olds):
                s, data, e = once(0, cmd, out, None, old)
                lines.append(json.dumps({"id": "%s-old%d" % (name, i), "limit": -1, "full": len(full), "size": len(data), "reachable": 1,
                                         "status": 999 if s is None or s < 0 else s, "same": alike(s, data, full)}))
            lines.append(json.dumps({"id": name + "-unlimited", "limit": -1, "full": len(full), "size": len(full), "reachable": 1, "status": 0, "same": 1,
                                     "bytes": list(full), "files": [list(content(f)) for f in cmd[3:]] if cmd[0] == "tar" else []}))
    # outputs that cannot be
    os.makedirs(os.path.join(d, "dir.to"), exist_ok=True)
    os.makedirs(os.path.join(d, "isdir"), exist_ok=True)
    with open(os.path.join(d, "dir.telda"), "w") as f:
        f.write(far)
    for name, cmd in [("tc-dir", ["tc", "dir.telda"]), ("tc-second-dir", ["tc", "far.telda", "dir.telda"]), ("tc-first-dir", ["tc", "dir.telda", "far.telda"]),
                      ("tl-dir", ["tl", "-o", "isdir", "prog.to"]), ("tl-none", ["tl", "-o", "none/x", "prog.to"]),
                      ("tl-e-dir", ["tl", "-e", "-o", "isdir", "prog.to", "far.to"]), ("tl-e-full", ["tl", "-e", "-o", "/dev/full", "prog.to", "far.to"]),
                      ("tl-full", ["tl", "-o", "/dev/full", "prog.to"]), ("tar-full", ["tar", "-o", "/dev/full", "prog.to"]),
                      ("tar-dir", ["tar", "-o", "isdir", "prog.to"]), ("tar-none", ["tar", "-o", "none/x", "prog.to"]),
                      ("tar-missing", ["tar", "-o", "y.savn", "prog.to", "missing.to"]), ("tl-missing", ["tl", "-o", "y.out", "prog.to", "missing.to"]),
                      ("tstrip-missing", ["tstrip", "missing.to", "far.to"]), ("tstrip-missing2", ["tstrip", "far.to", "missing.to"]),
                      ("tc-missing", ["tc", "missing.telda", "far.telda"])]:
        s, o, e = run_tool([B(cmd[0])] + cmd[1:], d)
        lines.append(json.dumps({"id": name, "limit": -1, "full": 0, "size": 0, "reachable": 0, "status": 999 if s is None or s < 0 else s, "same": 0}))
    c.validate("TraceOut", lines, invariants=("ReportsTrue",), label="tool runs with failing outputs")
    c.model("MCWrite", ["SuccessMeansComplete", "NeverOver", "FitsMeansSuccess", "NoLeftovers"], properties=["Reports"],
            constants="CONSTANT Works <- MCWorks\nCONSTANT Capacities <- MCCapacities\nCONSTANT Olds <- MCOlds\nCONSTANT MaxLimit = 14\n")


# --------------------------------------------------------------------- C16
def c16(c):
    r = c.rng("archive")
    d = c.scratch
    tarb = os.path.join(c.bins, "tar")
    shows, wants, files = [], {}, {}
    groups = []
    puts = []
    n = 500 if c.thorough else 80
    for i in range(n):
        k = r.choice([1, 1, 2, 3, 4, 8])
        members = []
        for j in range(k):
            o = objgen.obj(r, maxseg=r.choice([10, 60]), nsym=4, nrel=3, p=r.choice([.2, .6]))
            o["id"] = "g%dm%d" % (i, j)
            o["path"] = "g%dm%d.to" % (i, j)
            if r.random() < .6:
                o["pre"] = hexb(objgen.prefix(r))
            puts.append(o)
            members.append(o["id"])
        if r.random() < .15:
            members.append(r.choice(members))
        groups.append(members)
    # one large member between small ones
    puts.append({"id": "large", "path": "large.to", "segs": "20:80:~9000,3,1|10:9000:~8190,5,0", "e": "20:80"})
    # many members
    for i in range(300):
        puts.append({"id": "n%d" % i, "path": "n%d.to" % i, "segs": "20:%x:%s" % (i, hexb([i & 255] * (i % 5))), "syms": "%s:1:20:%x" % (("s%d" % i).encode().hex(), i)})
    puts.append({"id": "huge", "path": "huge.to", "segs": "20:0:~65530,3,1", "e": "20:80"})
    puts.append({"id": "giant", "path": "giant.to", "segs": "10:0:~40000,3,1|20:9c40:~40000,5,2", "e": "20:9c40", "syms": "61:1:20:9c40", "rel": "10:3:0"})
    for k in (255, 256, 257, 300):
        groups.append(["n%d" % i for i in range(k)])
    groups += [["n1", "giant", "n2", "giant", "n3"]]
    groups += [["n1", "huge", "n2"]]
    groups += [["large"], ["g0m0", "large", "g1m0"], ["large", "large", "g2m0"]]
    out = c.harness("put", puts)
    objs = {}
    for l in out:
        j = json.loads(l)
        if j["wrote"]:
            objs[j["id"]] = j["obj"]
    cases, extra = [], {}
    for i, members in enumerate(groups):
        if any(m not in objs for m in members):
            continue
        arch = "a%d.savn" % i
        if r.random() < .4:
            # in the place of an older one
            with open(os.path.join(d, arch), "wb") as f:
                f.write("álvasavn\n".encode() * r.choice([0, 1]) + b"".join(open(os.path.join(d, r.choice(list(objs)) + ".to"), "rb").read() for _ in range(r.choice([1, 3, 12]))))
        s, o, e = run_tool([tarb, "-o", arch] + [m + ".to" for m in members], d)
        if s != 0:
            c.violation("tar failed on %s: %s" % (members, e.decode("utf-8", "replace")), {"members": members})
            continue
        id = "a%d" % i
        big = {"large", "huge", "giant"} & set(members) or len(members) > 100
        cases.append({"id": id, "path": arch, "cut": 1997 if big else 1 if i < (100 if c.thorough else 16) else 17})
        extra[id] = {"want": [objs[m] for m in members], "files": [list(open(os.path.join(d, m + ".to"), "rb").read()) for m in members]}
    # archives that are none
    for i, b in enumerate([b"", b"a", "álvasavn\n".encode(), "álvasavn".encode(), "álvur2\n\0".encode(), "álvasavm\n".encode() + "álvur2\n\0".encode(),
                           "álvasavn\n".encode() + "álvur2\n\0".encode(), b" " + "álvasavn\n".encode() + "álvur2\n\0".encode(),
                           "álvasavn\n".encode() + "álvur2\n\0".encode() + b"x", "álvasavn\n".encode() + "álvur2\n_entry\0\3\0\x20\0\0\0".encode() * 2]):
        with open(os.path.join(d, "n%d.savn" % i), "wb") as f:
            f.write(b)
        cases.append({"id": "n%d" % i, "path": "n%d.savn" % i, "cut": 1})
        extra["n%d" % i] = {}
    lines = []
    for l in c.harness("archive", cases):
        j = json.loads(l)
        j.update(extra[j["id"]])
        lines.append(json.dumps(j))
    if lines:
        c.validate("TraceObj", lines, cases, invariants=("ArchivesRead",), label="archives and their prefixes")
        c.parts["archives and their prefixes"]["truncations"] = sum(len(json.loads(l)["cuts"]) for l in lines)
