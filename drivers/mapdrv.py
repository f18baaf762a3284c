"""Check of the listing of the memory map (C30)."""
import json, os, re
import cpu, files, link
from cpugen import *
from machine import SEGS, sysc

LINE = re.compile(r"^([0-9a-f]{3})_ => ([0-9a-f]{5})_ \((.*)\)$")
def line(l):
    if l == "PPP_ => ffPPP_ (U XWR)":
        return [-1, -1, list("U XWR")]
    m = LINE.match(l)
    return [int(m.group(1), 16) * 16, int(m.group(2), 16) * 16, list(m.group(3))] if m else [-2, -2, ["?", l]]

def states(c, r):
    cases = []
    def emit(name, regs, fl, mem, pc=None):
        cases.append(case("%s%d" % (name, len(cases)), regs, word(r) if pc is None else pc, fl, mem))
    # every pair of entry flags (the meaning of each of the 256 values at both levels, crossed in the thorough run)
    for f1 in range(256):
        rp = word(r)
        regs, fl = state(r, um=r.random() < .5, vm=True)
        regs[13] = rp
        t = cpu.Tables(r, rp)
        v1 = f1 % 16
        t.top(v1, f1)
        for v2, f2 in enumerate(range(256) if c.thorough else r.sample(range(256), 32)):
            if v2 == 32:
                break
            t.page(v1 << 5 | v2, f2, frame=r.choice([0, 0xffff80, 0x8000, 128 * r.randrange(0x20000)]))
        emit("pair", regs, fl, t.mem)
    if c.thorough:
        for f1 in range(64):
            for part in range(2):
                rp = word(r)
                regs, fl = state(r, um=r.random() < .5, vm=True)
                regs[13] = rp
                t = cpu.Tables(r, rp)
                v1 = r.randrange(16)
                t.top(v1, f1)
                for v2 in range(32):
                    t.page(v1 << 5 | v2, part * 32 + v2)
                emit("cross", regs, fl, t.mem)
    # random address spaces, tables shared between first level entries, tables inside themselves
    for i in range(900 if c.thorough else 120):
        rp = r.choice([0, 0x1000, 0x8000, 0xffc0, 0xffff, 0xfffd, word(r)])
        regs, fl = state(r, um=r.random() < .5, vm=True)
        regs[13] = rp
        t = cpu.Tables(r, rp)
        for v1 in r.sample(range(16), r.choice([0, 1, 2, 5, 16])):
            f = r.choice([F for F in [cpu.F_ALL, 0x3f, r.randrange(256), r.randrange(256) | 1]])
            t.top(v1, f, at=r.choice(list(t.l2.values()) + [128 * (rp // 128)]) if r.random() < .2 else None)
            for v2 in r.sample(range(32), r.choice([0, 1, 3, 32 if r.random() < .3 else 4])):
                t.page(v1 << 5 | v2, r.choice([0x3f, r.randrange(256), r.randrange(256) | 1]),
                       frame=r.choice([None, 0, 0xffff80, 128 * r.randrange(0x20000)]))
        emit("space", regs, fl, t.mem)
    # no translation
    for i in range(20):
        regs, fl = state(r, um=r.random() < .5, vm=False)
        emit("direct", regs, fl, {r.randrange(65536): r.randrange(256) for _ in range(20)})
    lines = c.harness("map", cases)
    if len(lines) != len(cases):
        return
    printed = {m.group(1): m.group(2) for m in re.finditer(r"\n@@@ (\S+)\n(.*?)\n\{", c.output, re.S)}
    out = []
    for l in lines:
        j = json.loads(l)
        text = printed.get(j["id"], "?")
        j["lines"] = [line(x) for x in text.split("\n")[:-1]] + ([[-2, -2, ["unfinished", text.split("\n")[-1]]]] if text and text[-1:] != "\n" else [])
        j["what"] = "state"
        out.append(json.dumps(j))
    c.validate("TraceMap", out, cases, invariants=("Lists", "Truth"), label="listings of given states")

def programs(c, r):
    """the listing a running program gets, and that it takes nothing from it"""
    cases, jobs, seen = [], [], {}
    marks = "<>+-#"
    for i in range(250 if c.thorough else 60):
        o = link.Obj()
        t = r.choice([0x20, 0x20, 0x20, 0xff, 0])
        k = r.choice([1, 1, 2, 3])
        # registers with values that must survive, checked by printing what they became
        code, want = [], b""
        for n in range(k):
            m = ord(r.choice(marks))
            # one byte register of those that must be as before is shown
            has = {1: 0, 2: 0, 3: m}
            for q in r.sample(range(4, 16), 6) if len(code) < 60 else [9]:
                has[q] = r.randrange(256)
                code += ins(63, q, b=has[q])
            q = r.choice([1, 1, 2, 3] + list(has))
            code += ins(63, 3, b=m) + ins(64, 1, 0, w=4) + [12] + ins(64, 1, 0, w=0) + [12]
            code += ins(71, 3, q, 0) + ins(64, 1, 0, w=4) + [12]
            want += bytes([m, has[q]])
        code += [10]
        at = r.choice([0x80, 0x80, 0, 0x1f0, r.randrange(0x8000)])
        o.put(t, code + [r.randrange(256) for _ in range(r.choice([0, 0, 100, 300]))], at)
        o.entry = (t, at)
        end = at + len(o.segs[t][1])
        for s in r.sample([0x10, 0x18, 0x70, 0xff, 0], r.randrange(4)):
            if s in o.segs:
                continue
            n = r.choice([1, 1, 127, 128, 129, r.randrange(1, 600)])
            start = r.choice([-(-end // 128) * 128, end, end + r.randrange(5000)])
            if start + n > 0xf000:
                break
            o.put(s, [r.randrange(256) for _ in range(n)], start)
            end = start + max(n, 1024 if s == 0x70 else 0)
        tk = o.tokens()
        tk.update(id="p%d" % i, path="p%d.to" % i)
        if r.random() < .5:
            tk["fl"] = r.randrange(2)
        if r.random() < .5:
            tk["ss"] = "%x" % r.choice([0, 1, 128, 129, 384, 1000, 4000])
        if r.random() < .5:
            tk["hs"] = "%x" % r.choice([0, 1, 128, 129, 1000])
        cases.append(tk)
        seen[tk["id"]] = want
    out = []
    for l in c.harness("put", cases):
        j = json.loads(l)
        st, so, se = files.run_tool([os.path.join(c.bins, "t"), os.path.join(c.scratch, j["id"] + ".to")], c.scratch, timeout=20)
        text, lists, cur, rest = b"", [], None, so
        # after each mark the lines of a listing, then a mark
        want = seen[j["id"]]
        for n in range(len(want)):
            text += rest[:1]
            rest = rest[1:]
            if n % 2 == 0:
                cur = []
                while LINE.match(rest.split(b"\n")[0].decode("utf-8", "replace")) or rest.startswith(b"PPP_"):
                    a, _, rest = rest.partition(b"\n")
                    cur.append(line(a.decode("utf-8", "replace")))
                lists.append(cur)
        text += rest
        out.append(json.dumps({"id": j["id"], "what": "program", "obj": j["obj"], "lists": lists, "text": list(text), "expect": list(want),
                               "status": -1 if st is None else st, "err": se.decode("utf-8", "replace")[-200:]}))
    c.validate("TraceMap", out, cases, invariants=("Shows",), label="listings of loaded programs")

def c30(c):
    states(c, c.rng("states"))
    programs(c, c.rng("programs"))
