"""C02: rpm-only round trip."""
from universe import *
from c01 import opkg, npkg

LEVEL = "model_checking"
TECH = ("bounded exhaustive enumeration of package pairs (explicit-state, on the real make/apply code), "
        "oracle: byte identity with the independently generated new package")
RO = "t0=1;" + FAST
COMPS = [(G.GZIP, 9), (G.BZIP2, 9), (G.LZMA, 7), (G.XZ, 3), (G.ZSTD, 3)]


def run(ck, tier):
    th = tier == "thorough"
    for l in TIGHT:
        B.build(*limits(l))
    KU = kinds_universe(False)
    KU = KU if th else KU[::2]

    def g_kinds():
        for i in range(len(KU)):
            for j in range(len(KU)):
                for src in (0, 1):
                    yield i, j, src

    def b_kinds(ctx, c):
        i, j, s = c
        o, n = built(opkg(KU[i], source=bool(s))), built(npkg(KU[j], source=bool(s)))
        roundtrips(ctx, o, n, RO)
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("file kinds x file kinds", g_kinds, b_kinds)

    # header sizes x payload sizes around the block size, related or not
    hs = [0, 1, 100, 4095, 4096, 7000, 7600, 7999, 8000, 8192, 8300, 16000]
    ps = [0, 1, 300, 4096, 7000, 8191, 8192, 8193, 16384]

    def g_sizes():
        for h1 in hs:
            for h2 in (hs if th else hs[::3]):
                for p1 in ps:
                    for p2 in (ps if th else ps[::3]):
                        for rel in (0, 1):
                            yield h1, h2, p1, p2, rel

    def b_sizes(ctx, c):
        h1, h2, p1, p2, rel = c
        o = built(opkg([R("/f", rnd(1, p1))], extra=rnd(5, h1).hex().encode()[:h1]))
        n = built(npkg([R("/f", rnd(1 if rel else 2, p2))], extra=rnd(5 if rel else 6, h2).hex().encode()[:h2]))
        roundtrips(ctx, o, n, RO)
        ctx.outcome(c)
    ck.explore("header x payload sizes", g_sizes, b_sizes)

    # header length at every offset near a block boundary
    def g_edge():
        for x in range(7490, 7520, 1 if th else 3):
            for t in (0, 1, 2, 3, 4):
                for v in (0, 1):
                    yield x, t, v
        for t in range(0, 128 if th else 66):      # whatever the block size
            yield 0, t, 1

    def b_edge(ctx, c):
        x, t, v = c
        o = built(opkg([R("/f", rnd(1, 9000 if x else 200))], extra=b"x" * x, encoding=b"u" * t))
        n = built(npkg([R("/f", rnd(1, 9000 if x else 200)[v * 20:])], extra=b"x" * (x + 3), encoding=b"u" * t))
        roundtrips(ctx, o, n, RO)
        ctx.outcome(c)
    ck.explore("header near a block boundary", g_edge, b_edge)

    W = list(words("AaB", 3 if th else 2))

    def g_words():
        for o in W:
            for n in W:
                for blk in (0, 1):
                    for comp in range(len(COMPS)):
                        yield o, n, blk, comp

    def b_words(ctx, c):
        o, n, blk, k = c
        cc = dict(comp=COMPS[k][0], level=COMPS[k][1])
        roundtrips(ctx, built(opkg([R("/f", word_bytes(o))], **cc)), built(npkg([R("/f", word_bytes(n))], **cc)),
                  RO + (";b0=1,1" if blk else ";n0"))
        ctx.outcome(c)
    ck.explore("content words x compressors", g_words, b_words)

    # mixed compressors
    def g_mixed():
        for a in range(len(COMPS)):
            for b in range(len(COMPS)):
                for g in ("", ";g0", ";k0=0,1"):
                    yield a, b, g

    def b_mixed(ctx, c):
        a, b, g = c
        o = built(opkg([R("/f", A + B_)], comp=COMPS[a][0], level=COMPS[a][1]))
        n = built(npkg([R("/f", A1 + B_)], comp=COMPS[b][0], level=COMPS[b][1]))
        roundtrips(ctx, o, n, RO + g)
        ctx.outcome(c)
    ck.explore("compressor pairs", g_mixed, b_mixed)

    # identity
    def g_id():
        for i in range(len(KU)):
            for k in range(len(COMPS)):
                for side in (0, 1):
                    for g in ("", ";g0"):
                        yield i, k, side, g

    def b_id(ctx, c):
        i, k, side, g = c
        p = built(opkg(KU[i], comp=COMPS[k][0], level=COMPS[k][1]))
        roundtrips(ctx, p if side == 0 else None, None if side == 0 else p, RO + g, tag=" (single package)")
        ctx.outcome(c)
    ck.explore("single-package deltas", g_id, b_id)

    def g_idsz():
        for h in hs:
            for p in ps + [20000, 70000]:
                for k in range(len(COMPS)):
                    yield h, p, k

    def b_idsz(ctx, c):
        h, p, k = c
        x = built(opkg([R("/f", rnd(1, p))], extra=b"x" * h, comp=COMPS[k][0], level=COMPS[k][1]))
        roundtrips(ctx, x, None, RO, tag=" (single package)")
        ctx.outcome(c)
    ck.explore("single-package sizes", g_idsz, b_idsz)

    def g_attr():
        for ep in (None, 0, 7):
            for sig in (0, 1, 5, 2000):
                for src in (0, 1):
                    for trail in (b"",):
                        yield ep, sig, src

    def b_attr(ctx, c):
        ep, sig, src = c
        k = dict(epoch=ep, sig_extra=rnd(4, sig), source=bool(src))
        o, n = built(opkg([R("/f", A)], **k)), built(npkg([R("/f", A + B_)], **k))
        roundtrips(ctx, o, n, RO)
        roundtrips(ctx, None, n, RO, tag=" (single package)")
        ctx.outcome(c)
    ck.explore("attributes", g_attr, b_attr)

    # files much larger than a block, parts moved across block boundaries
    def g_blk():
        for a in (0, 1, 4095, 8191, 8192, 8193):
            for b in (0, 1, 8000, 8192):
                for k in range(4):
                    for h in (0, 500):
                        yield a, b, k, h

    def b_blk(ctx, c):
        a, b, k, h = c
        x, y, z = rnd(11, 9000), rnd(12, 9000), rnd(13, a)
        o = built(opkg([R("/f", x + y + z), R("/g", rnd(14, b))], extra=b"x" * h))
        data = {0: y + x, 1: z + tweak(x, step=100) + y, 2: x[100:] + b"q" * 5000 + y[:4000], 3: y + z + y}[k]
        n = built(npkg([R("/g", rnd(14, b)), R("/f", data)], extra=b"x" * h))
        roundtrips(ctx, o, n, RO + ";b0=1,1")
        ctx.outcome(c)
    ck.explore("blocks", g_blk, b_blk)
    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["make"] + t["apply"],
                          traces_validated_against_impl=t["apply"]))
