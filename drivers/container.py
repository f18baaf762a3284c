"""C36: containers of sections of the user's own."""
import json

LONG = "a name that is longer than most names of sections are and that goes on" + " and on" * 20 + "."
NAMES = ["a", "ab", "_seg", "þættir álvur2\n", LONG, " ", "name", "", "a\0b", "b", "A", "a "]
GOOD = [0, 1, 2, 3, 4, 5, 6, 9, 10, 11]
BYTES = [list(n.encode()) for n in NAMES]
MAGIC = "álvur2\n".encode()

def content(r, t, big):
    k = r.random()
    if t == 6:
        return "".join(r.choice("abc é\n\0") for _ in range(r.choice([0, 1, 5, 40, 200]))).encode()
    if big:
        n = r.choice([65535, 65534, 65536, 65537, 70001, 40003])
    else:
        n = r.choice([0, 0, 1, 2, 3, 5, 12, 13, 14, 127, 130, 255, 256, 257, r.randrange(600)])
    if k < .2:
        # a container in a section
        return (MAGIC + b"a\0\1\0x\0" * 3 + bytes(r.randrange(256) for _ in range(n)))[:max(n, 5)]
    if k < .3:
        return bytes(n)
    return bytes(r.randrange(256) for _ in range(n))

def gap(r):
    k = r.random()
    if k < .4:
        return b""
    g = b"".join(r.choice([b"#!/usr/bin/env t\n", MAGIC[:r.randrange(8)], "á".encode(), b"\xc3", b"\0", b"a\0\1\0x", bytes([r.randrange(256)]), b"x" * 150, MAGIC[1:]]) for _ in range(r.choice([1, 2, 6])))
    return g if MAGIC not in g else g[:5]

TOKENS = [b"\xc3", b"\xc3\xa1", MAGIC[:7], b"\0", b"a\0\1\0x"]
INSIDES = [b"", b"\0", MAGIC, b"a\0\0\0"]

def small(gaps, second):
    """The streams MCAalv.tla goes through, read by the program in the way that the model does."""
    gs = [b""]
    for _ in range(gaps):
        gs = sorted(set(gs) | {g + t for g in gs for t in TOKENS})
    one = [(t, x) for t in (0, 1) for x in INSIDES]
    upto = {0: [[]], 1: [[]] + [[s] for s in one]}
    upto[2] = upto[1] + [[s, t] for s in one for t in one]
    for tail in (b"", b"\0", MAGIC[:7]):
        for g in gs:
            for x in upto[2]:
                yield [[g, x]], tail
        for g in (b"", b"\xc3\xa1"):
            for x in upto[1]:
                for h in gs:
                    for y in upto[second]:
                        yield [[g, x], [h, y]], tail

def c36small(c):
    cases, more = [], {}
    every = 1 if c.thorough else 9
    at = c.rng("small").randrange(every)
    for i, (cs, tail) in enumerate(small(1, 1)):
        if i % every != at:
            continue
        ops, view = [], []
        for j, (_, secs) in enumerate(cs):
            ops += ["o", "r"]
            view += [["open"], ["rest"]]
            for t in [s[0] for s in secs][:: -1 if i % 2 else 1] + [i // 2 % 2]:
                ops.append("t%x:-1" % t)
                view.append(["take", BYTES[t], -1])
            ops.append("l")
            view.append(["leave"])
        ops.append("o")
        view.append(["open"])
        id = "m%d" % i
        case = {"id": id, "tail": tail.hex(), "buf": "%x" % (1, 2, 7, 64)[i % 4], "ops": ",".join(ops)}
        for j, (g, secs) in enumerate(cs):
            case["c%d" % j] = "/".join([g.hex()] + ["%x:%s" % (t, x.hex()) for t, x in secs])
        cases.append(case)
        more[id] = {"cs": [[list(g), [[BYTES[t], list(x)] for t, x in secs]] for g, secs in cs], "tail": list(tail), "ops": view, "plain": 0}
    lines = []
    for l in c.harness("aalv", cases):
        j = json.loads(l)
        j.update(more[j["id"]])
        lines.append(json.dumps(j))
    c.validate("TraceAalv", lines, cases, invariants=("Conforms", "BackAgain"), label="small containers")

def c36(c):
    c.model("MCAalv", ["Placed", "AllGot", "InOrder", "NoMore", "Opens1"],
            constants="CONSTANT MaxGap = %d\nCONSTANT MaxSecond = %d\n" % ((2, 2) if c.thorough else (1, 1)))
    c36small(c)
    for b in range(5 if c.thorough else 1):
        r = c.rng("container%d" % b)
        cases, more = [], {}
        for i in range(2500 if c.thorough else 700):
            big, broken = i % 70 == 9, r.random() < .08
            cs = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                secs = [(t, content(r, t, big and r.random() < .3)) for t in (r.choice(GOOD) for _ in range(r.choice([0, 1, 2, 4, 12])))]
                cs.append([gap(r), secs])
            if broken:
                # a name that cannot be written comes last
                cs[-1][1].append((r.choice([7, 8]), content(r, 0, False)))
            over = any(len(x) > 65535 for _, s in cs for _, x in s)
            tail = r.choice([b"", b"", gap(r), b"\0", MAGIC[:4]])
            ops, view = [], []
            if not broken and not over:
                for _, secs in cs:
                    ops.append("o")
                    view.append(["open"])
                    for _ in range(r.choice([0, 1, len(secs), len(secs), 2 * len(secs) + 1])):
                        if r.random() < .2:
                            ops.append("r")
                            view.append(["rest"])
                        t = r.choice([s[0] for s in secs] or [0]) if r.random() < .85 else r.choice(GOOD)
                        n = -r.choice([1, 2, 3, 4])
                        if t != 6 and r.random() < .25:
                            n = max(0, r.choice([0, 1, 11, 12, 300] + [len(s[1]) + d for s in secs for d in (0, 0, 1)]))
                        ops.append("t%x:%d" % (t, n))
                        view.append(["take", BYTES[t], n])
                    if r.random() < .5:
                        ops.append("r")
                        view.append(["rest"])
                    ops.append("l")
                    view.append(["leave"])
                if r.random() < .3:
                    ops.append("o")
                    view.append(["open"])
            id = "a%d" % i
            case = {"id": id, "tail": tail.hex(), "buf": "%x" % r.choice([1, 2, 7, 64, 8192]), "ops": ",".join(ops)}
            for j, (g, secs) in enumerate(cs):
                case["c%d" % j] = "/".join([g.hex()] + ["%x:%s" % (t, x.hex()) for t, x in secs])
            cases.append(case)
            more[id] = {"cs": [[list(g), [[BYTES[t], list(x)] for t, x in secs]] for g, secs in cs], "tail": list(tail), "ops": view,
                        "plain": int(MAGIC not in tail and len([v for v in view if v == ["open"]]) == len(cs))}
        lines = []
        for l in c.harness("aalv", cases):
            j = json.loads(l)
            j.update(more[j["id"]])
            lines.append(json.dumps(j))
        c.validate("TraceAalv", lines, cases, invariants=("Conforms", "BackAgain"), label="containers%d" % b)
