"""Random objects as harness tokens."""
SEGS = [0, 0x10, 0x18, 0x20, 0x70, 0xff]

def hexb(bs):
    return bytes(bs).hex()

def name(r, local=False):
    k = r.random()
    if k < .1:
        return ""
    if k < .5:
        return r.choice(["main", "a", "b", "_start", "loop", "x1", "_seg", "_reloc"])
    if k < .6:
        return r.choice(["á", "álvur2", "日本", "ß\u0301", "a b", "tab\there", "q\"\\", "\n", "é" * 20])
    if k < .65 and local:
        return " led"
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz_.0123456789") for _ in range(r.randrange(1, 30)))

def obj(r, maxseg=200, nsym=6, nrel=6, p=.5):
    """tokens of an object"""
    t = {}
    ad = lambda: r.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, 0xfffe, 0xffff, r.randrange(65536)])
    if r.random() < p:
        t["e"] = "%x:%x" % (r.choice(SEGS), ad())
    if r.random() < p:
        t["fl"] = "%d" % r.randrange(2)
    if r.random() < p:
        t["ss"] = "%x" % ad()
    if r.random() < p:
        t["hs"] = "%x" % ad()
    segs = []
    for s in SEGS:
        if r.random() < p:
            n = r.choice([0, 1, 2, 3, r.randrange(maxseg)])
            segs.append("%x:%x:%s" % (s, ad(), hexb(r.choice([0, 0xc3, 0xa1, 95, r.randrange(256)]) for _ in range(n))))
    if segs:
        t["segs"] = "|".join(segs)
    syms = []
    for _ in range(r.randrange(nsym + 1)):
        g = r.randrange(2)
        syms.append("%s:%d:%x:%x" % (name(r, not g).encode().hex(), g, r.choice(SEGS), ad()))
    if syms:
        t["syms"] = "|".join(syms)
    rel = ["%x:%x:%x" % (r.choice(SEGS), ad(), ad()) for _ in range(r.randrange(nrel + 1))]
    if rel:
        t["rel"] = "|".join(rel)
    return t

MAGIC = "álvur2\n".encode()

def prefix(r):
    """anything that does not contain the magic"""
    k = r.random()
    if k < .3:
        return b"#!/usr/bin/env t\n"
    if k < .4:
        return b"\n" * r.randrange(1, 4)
    out = b""
    for _ in range(r.randrange(1, 6)):
        out += r.choice([MAGIC[:r.randrange(1, 8)], b"\xc3", b"\xc3\xc3", b"\0", b"_seg\0\1\0x",
                         bytes(r.randrange(256) for _ in range(r.randrange(12))), "álvasavn\n".encode()])
    out += r.choice([b"", MAGIC[:r.randrange(0, 8)]])
    return out if MAGIC not in out + MAGIC[:-1] else b"#!"
