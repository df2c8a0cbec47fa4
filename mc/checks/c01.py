"""C01: standard round trip over the bounded package space, on the real library."""
from universe import *

LEVEL = "model_checking"
TECH = ("bounded exhaustive enumeration of package pairs (explicit-state, on the real make/apply code), "
        "oracle: byte identity with the independently generated new package")


def opkg(fs, **k): return Pkg(files=list(fs), version="1", **k)
def npkg(fs, **k): return Pkg(files=list(fs), version="2", **k)


# blocks of 16 bytes by the place they take in the search's table (of 65537): the last, the first, the last but one, the second; and any
HASHES = dict(
    e=["0369403d36fc396611c9229ee85dded2", "488e4ff780773dc1548323d2ac5a6588", "9ce9d6af732614044fa39e262f27874f", "af782290227e707c9ef7b57d6d61aefb",
       "c05fd00c0b73f7757f0fd83bf874c9e7", "c55952128b08ed24362cb483a425dea0"],
    z=["298c9254a80c892e7183ff770ddc6e73", "820b48926828f9c7153b34a669729a47", "9acaa1b076a035a28f6fff934c990b17", "b0155e39908e14059bc52907971cbe9c",
       "d670c7f2f246e3ddb70b8a5f53f36171", "fd17f040fba4d36692a8afd96b4491b8"],
    y=["1ad39cbcab47d19e3c6cca8e3cd5f847", "55ed07501d45373ccf1768b92febba58", "5ea4946312425c6a965add839e5f2287", "63026236f6f21fa4a73e8c7fd6b35136",
       "69d409f9ca485fd681fd01efc3b3b008", "b8db0c40fe6f94280f2cd37c2a394145"],
    l=["1189690ed2d0da2a433eb37d57125b50", "5ed9b8fabd94e51d6c3f884a1da75631", "a9d11862ba72a9e14aaa49de3fd7684b", "bdb20774a7dceb2398b264a8ea5648c0",
       "cf6ac5fbb92e00fbdab385b38117ef80", "ee87736c81920ccd615b75b41f030053"],
    r=[hashlib.md5(b"r%d" % i).hexdigest() for i in range(6)])


def run(ck, tier):
    th = tier == "thorough"
    for l in TIGHT:
        B.build(*limits(l))

    def g_kinds():
        U = kinds_universe(True)
        V = U if th else kinds_universe(False)
        for i in range(len(U)):
            for j in range(len(V)):
                yield i, j
    KU, KV = kinds_universe(True), kinds_universe(True) if th else kinds_universe(False)

    def b_kinds(ctx, c):
        o, n = built(opkg(KU[c[0]])), built(npkg(KV[c[1]]))
        roundtrips(ctx, o, n)
        ctx.outcome(c[0] * 1000 + c[1])
        ctx.sample("old=%s new=%s" % ([f.name + ":" + f.kind for f in KU[c[0]]], [f.name + ":" + f.kind for f in KV[c[1]]]))
    ck.explore("file kinds x file kinds", g_kinds, b_kinds)

    # diff shapes: contents are words over pieces
    W = list(words("AaB", 4 if th else 3)) + [w + x for w in words("AB", 2) for x in ("s", "sA", "sa")]
    W = list(dict.fromkeys(W))

    def g_words():
        for o in W:
            for n in W:
                for blk in (0, 1):
                    yield o, n, blk

    def b_words(ctx, c):
        o, n = built(opkg([R("/f", word_bytes(c[0]))])), built(npkg([R("/f", word_bytes(c[1]))]))
        roundtrips(ctx, o, n, FAST + ";b0=1,1" if c[2] else FAST + ";n0")
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("content words", g_words, b_words)

    # larger pieces: matches longer and shorter than the search's thresholds, moved and overlapping
    big = rnd(7, 700)

    def g_moves():
        for m in (20, 31, 32, 33, 47, 64, 200, 500):
            for src in (0, 1, 15, 16, 17, 100):
                for pre in (0, 1, 33):
                    for post in (0, 1, 33):
                        for gap in (0, 1, 2, 8, 40):
                            yield m, src, pre, post, gap

    def b_moves(ctx, c):
        m, src, pre, post, gap = c
        o = built(opkg([R("/f", big)]))
        piece = big[src:src + m]
        data = rnd(8, pre) + piece + rnd(9, gap) + tweak(piece, step=24) + rnd(10, post)
        roundtrips(ctx, o, built(npkg([R("/f", data)])), FAST + ";b0=1,1")
        ctx.outcome(c)
    ck.explore("moved and near matches", g_moves, b_moves)

    # pieces that meet at the ends of the search's table
    def hpiece(x, i):
        h = bytes.fromhex(HASHES[x.lower()][(i + 3 * x.isupper()) % 6])
        return h + hashlib.md5(h).digest()

    def g_hash():
        for ow in words("ezylr", 3):
            if ow:
                for nw in words("ezylrEZYLR", 3 if th else 2):
                    for sep in (0, 1):
                        yield ow, nw, sep

    def b_hash(ctx, c):
        ow, nw, sep = c
        od = b"".join(hpiece(x, i) for i, x in enumerate(ow))
        nd = b"".join(rnd(400 + i, 23 * sep) + hpiece(x, i) for i, x in enumerate(nw))
        o = next(p for p in (opkg([R("/" + "n" * i, od + rnd(420, 40))]) for i in range(1, 18)) if G.filtered_archive(p).index(od) % 16 == 0)
        roundtrip(ctx, built(o), built(npkg([R("/n", nd + rnd(421, 50))])), FAST + (";n0" if len(nw) & 1 else ";b0=1,1"))
        ctx.outcome(c)
    ck.explore("ends of the search's table", g_hash, b_hash)

    # identity deltas, either argument
    def g_id():
        for i in range(len(KU)):
            for v in (1, 2, 3):
                for side in (0, 1):
                    yield i, v, side

    def b_id(ctx, c):
        p = built(opkg(KU[c[0]]))
        roundtrips(ctx, p if c[2] == 0 else None, p if c[2] else None, FAST + ";v0=%d" % c[1])
        ctx.outcome(c)
    ck.explore("identity deltas", g_id, b_id)

    # delta versions and add block settings over the kinds
    KS = kinds_universe(False)[::(1 if th else 2)]

    def g_ver():
        for i in range(len(KS)):
            for j in range(0, len(KS), 1 if th else 5):
                for v in (1, 2):
                    for o in ("", ";n0", ";b0=1,1"):
                        yield i, j, v, o

    def b_ver(ctx, c):
        roundtrips(ctx, built(opkg(KS[c[0]])), built(npkg(KS[c[1]])), FAST + ";v0=%d" % c[2] + c[3])
        ctx.outcome(c)
    ck.explore("versions x add block", g_ver, b_ver)

    # name lengths, content lengths, link lengths: padding in every phase
    def g_pad():
        for nl in range(1, 10):
            for cl in list(range(0, 9)) + [30, 31, 32, 33]:
                for ll in (1, 2, 3, 4, 5):
                    for pre in ("./", "/", ""):
                        yield nl, cl, ll, pre

    def b_pad(ctx, c):
        nl, cl, ll, pre = c
        fs = [R("/" + "n" * nl, A[:cl]), L("/m" + "l" * nl, "t" * ll), R("/z", B_[:cl + 1])]
        o = built(opkg(fs, prefix=pre))
        n = built(npkg([fs[2], fs[0], L("/m" + "l" * nl, "t" * (ll + 1))], prefix=pre))
        roundtrips(ctx, o, n)
        ctx.outcome(c)
    ck.explore("names, sizes and paddings", g_pad, b_pad)

    # header attributes
    def g_attr():
        for ep in (None, 0, 1, 4294967295):
            for algo in ("md5", "sha256"):
                for colors in (False, True):
                    for extra in (0, 1, 50, 3000):
                        for sig in (0, 1, 7, 8, 2000):
                            for fmt in ("cpio",):
                                yield ep, algo, colors, extra, sig

    def b_attr(ctx, c):
        ep, algo, colors, extra, sig = c
        def fs(v): return [R("/usr/lib/l", A + v, color=1), R("/usr/bin/b", B_ + v, color=2),
                           R("/usr/lib64/l", C_ + v, color=2), R("/usr/share/d", A + C_ + v, color=0)]
        k = dict(epoch=ep, algo=algo, colors=colors, extra=b"x" * extra, sig_extra=rnd(4, sig))
        roundtrips(ctx, built(opkg(fs(b""), **k)), built(npkg(fs(b"!"), **k)))
        roundtrips(ctx, built(opkg(fs(b""))), built(npkg(fs(b"!"), **k)))
        ctx.outcome(c)
    ck.explore("header attributes", g_attr, b_attr)

    # hard links: size recorded for all, data only with the last
    def g_hl():
        for n in (2, 3):
            for which in itertools.product((0, 1), repeat=n):
                for emp in (0, 1):
                    yield n, which, emp

    def b_hl(ctx, c):
        n, which, emp = c
        def fs(v):
            r = [R("/h%d" % i, A + v, ino=5, nlink=n, cpio_data=(b"" if i < n - 1 else None)) for i in range(n)]
            return [f for f, w in zip(r, which) if w or f is r[-1]] + ([R("/e", b"")] if emp else [])
        roundtrips(ctx, built(opkg(fs(b""))), built(npkg(fs(b"+"))))
        roundtrips(ctx, built(opkg(fs(b""))), built(npkg([R("/p", A)])))
        roundtrips(ctx, built(opkg([R("/p", A)])), built(npkg(fs(b"+"))))
        ctx.outcome(c)
    ck.explore("hard links", g_hl, b_hl)

    # payload orders: every permutation x every subset of files with no data in the old archive
    def g_perm():
        for n in (3, 4) if not th else (3, 4, 5):
            for p in itertools.permutations(range(n)):
                for skip in range(1 << n):
                    yield p, skip

    def b_perm(ctx, c):
        p, skip = c
        fs = [R("/f%d" % i, rnd(20 + i, 50 + i), flags=G.F_CONFIG if skip >> i & 1 else 0) for i in range(len(p))]
        o = built(opkg(fs, order=list(p)))
        n = built(npkg([R("/f%d" % i, tweak(rnd(20 + i, 50 + i))) for i in range(len(p))]))
        roundtrips(ctx, o, n)
        ctx.outcome(c)
    ck.explore("payload orders x skipped files", g_perm, b_perm)

    # many files: multi-digit sequences
    def g_many():
        for n in (7, 8, 9, 63, 64, 65, 66, 100) + ((511, 512, 513, 600) if th else ()):
            for step in (1, 2, 8, 9, 65):
                for rev in (0, 1):
                    yield n, step, rev

    def b_many(ctx, c):
        n, step, rev = c
        fs = [R("/d/f%04d" % i, rnd(100 + i, 1 + i % 50), flags=0 if (i // step) % 2 == 0 else G.F_CONFIG) for i in range(n)]
        od = list(range(n))
        od = od[::-1] if rev else od
        o = built(opkg(fs, order=od))
        w = built(npkg([R("/d/f%04d" % i, rnd(100 + i, 1 + i % 50) + b"x") for i in range(n)]))
        roundtrips(ctx, o, w)
        ctx.outcome(c)
    ck.explore("many files", g_many, b_many)

    # blocks: files much larger than an internal block, parts moved across block boundaries
    def g_blk():
        for a in (0, 1, 4095, 8191, 8192, 8193, 16384):
            for b in (0, 1, 8000, 8192, 20000):
                for k in range(3):
                    yield a, b, k

    def b_blk(ctx, c):
        a, b, k = c
        x, y, z = rnd(11, 9000), rnd(12, 9000), rnd(13, a)
        o = built(opkg([R("/f", x + y + z), R("/g", rnd(14, b))]))
        data = {0: y + x, 1: z + tweak(x, step=100) + y, 2: x[100:] + b"q" * 5000 + y[:4000]}[k]
        n = built(npkg([R("/g", rnd(14, b)), R("/f", data)]))
        roundtrips(ctx, o, n, FAST + ";b0=1,1")
        ctx.outcome(c)
    ck.explore("blocks", g_blk, b_blk)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["make"] + t["apply"],
                          traces_validated_against_impl=t["apply"]))
