"""C17: every size around the internal buffers, in every role, for every compressor."""
from universe import *
from c01 import opkg, npkg
from c18 import synth, run_synth, verify, expect_offadj

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of sizes in windows around every multiple of the internal buffer sizes, per role, compressor "
        "and content class, replayed through make, independent decoding and apply")
COMPS = [G.GZIP, G.BZIP2, G.LZMA, G.XZ, G.ZSTD]
DCOMPS = [0, 1, 2, 3, 4, 5, 6]
MARKS = (1024, 2048, 4096, 8192, 12288, 16384)


def window(r, marks=MARKS, small=40):
    s = set(range(small))
    for m in marks:
        s |= set(range(m - r, m + r + 1))
    return sorted(s)


def content(cls, n, seed=60):
    if cls == 0:
        return rnd(seed, n)
    if cls == 1:
        return bytes(n)
    t = b"line %d of a text\n"
    return b"".join(t % i for i in range(n // 10 + 2))[:n]


def bounded(m):
    """The library with another limit for the numbers of a copy or an adjustment, which has to divide larger ones: 2^31-1 in truth, which
    would take packages of gigabytes."""
    t = "#include <stdint.h>\n#include <limits.h>\n#undef INT32_MAX\n#undef INT32_MIN\n#define INT32_MAX %d\n#define INT32_MIN %dU\n" % (m, m + 1)
    return "limit%d" % m, (("drpm_diff.c", t), ("drpm_make.c", t))


def merged(pairs):
    """adjustments as a mapping: position -> adjustment in force from there on"""
    pos = off = 0
    out = []
    for a, b in pairs:
        pos += a
        off += b
        if b:
            if out and out[-1][0] == pos:
                out.pop()
            out.append((pos, off))
    return out


def magnitudes(d):
    return dict(copies=max([l for _, l in d.ext_copies] or [0]), distances=max([abs(o) for o, _ in d.ext_copies] or [0]),
                pieces=max([l for _, l in d.int_copies] or [0]),
                positions=max([a for a, _ in d.offadj] or [0]), adjustments=max([abs(b) for _, b in d.offadj] or [0]))


def run(ck, tier):
    th = tier == "thorough"
    sizes = window(40 if th else 8)

    # new file content carried in the delta (internal data), small old package
    def g_carried():
        for n in sizes:
            for cls in (0, 1, 2):
                for k in range(7):
                    if th or (n + cls) % 7 == k or k == 1:
                        yield n, cls, k

    def b_carried(ctx, c):
        n, cls, k = c
        o = built(opkg([R("/f", b"x")]))
        w = built(npkg([R("/f", content(cls, n))], comp=COMPS[(n + cls) % 5], level=3))
        d = make(ctx, o, w, "k0=%d,%d" % (k, 1 if k else 0))
        verify(d, o, w, 3, False, k)
        apply(ctx, o, w)
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("carried data", g_carried, b_carried)

    # the same content in the old package (external copies, block filling)
    def g_copied():
        for n in sizes:
            for cls in (0, 2):
                for t in (0, 1):
                    for x in range(len(COMPS)):
                        if th or (n + t) % 5 == x:
                            yield n, cls, t, x

    def b_copied(ctx, c):
        n, cls, t, x = c
        data = content(cls, n)
        o = built(opkg([R("/a", data), R("/b", b"tail")], comp=COMPS[x], level=3))
        w = built(npkg([R("/b", b"tail"), R("/a", data)], comp=COMPS[(x + 1) % 5], level=3))
        roundtrip(ctx, o, w, FAST + (";t0=1" if t else ""))
        ctx.outcome(c)
    ck.explore("copied data", g_copied, b_copied)

    # changed everywhere: add block of that size, each add block compressor
    def g_add():
        for n in window(20 if th else 4, small=70):
            for bc in range(0, 7):
                for t in (0, 1):
                    yield n, bc, t

    def b_add(ctx, c):
        n, bc, t = c
        data = content(0, n)
        o = built(opkg([R("/a", data)]))
        w = built(npkg([R("/a", tweak(data, step=40))]))
        d = make(ctx, o, w, FAST + ";b0=%d,%d" % (bc, 1 if bc else 0) + (";t0=1" if t else ""))
        dd = verify(d, o, w, 3, bool(t))
        if dd.add:
            ctx.count("add_blocks")
        apply(ctx, o, w)
        ctx.outcome(c)
    ck.explore("add block", g_add, b_add)

    # independently encoded: copies and add block of every size around block boundaries, incompressible add block
    BIG = built(opkg([R("/f", rnd(42, 20000)), R("/g", rnd(43, 9000))]))

    def g_enc():
        for n in window(12 if th else 3, (1024, 4096, 8192, 16384), 4):
            for st in (0, 1, 8191, 8192):
                for ac in (None, 1, 2, 3, 4, 5, 6):
                    for ro in (0, 1):
                        if st + n < 29000:
                            yield n, st, ac, ro

    def b_enc(ctx, c):
        n, st, ac, ro = c
        if n == 0:
            return
        run_synth(ctx, BIG, c, cps=((st, n),), splits=(1,), ints=(b"header",), ver=3, ro=bool(ro),
                  add=rnd(66, n) if ac else None, addcomp=ac or G.GZIP)
    ck.explore("encoded copies and add blocks", g_enc, b_enc)

    # the whole filtered archive (gathered in steps of 64 KiB) and the new one, of every size around that step
    def g_arch():
        for m in (65536, 131072) if th else (65536,):
            for n in range(m - 480, m + 10):
                for k in (0, 1, 2):
                    yield n, k

    def b_arch(ctx, c):
        n, k = c
        d = bytes(n - 3000) + rnd(5, 3000)
        fs = [R("/a", d)] if k == 0 else [R("/a", d[:n // 2]), R("/b" + "b" * (n % 7), d[n // 2:])] if k == 1 else [R("/a", d), L("/l", "t" * 9), R("/c", A)]
        o = built(opkg(fs, level=1))
        w = built(npkg([R("/a", b"x" + d[-2000:])] if k else [R("/a", d[:-3])]))
        roundtrip(ctx, o, w, FAST)
        ctx.outcome(c)
    ck.explore("archive sizes", g_arch, b_arch)

    # sizes of the target's header, signature; header written uncompressed ahead of the payload
    def g_hdr():
        for n in window(12 if th else 3):
            for t in (0, 1):
                for sig in (0, 1):
                    yield n, t, sig

    def b_hdr(ctx, c):
        n, t, sig = c
        blob = b"h" * n if not sig else b""
        kw = dict(extra=blob, sig_extra=rnd(4, n) if sig else b"")
        o = built(opkg([R("/a", A)], **kw))
        w = built(npkg([R("/a", A1)], **kw))
        roundtrip(ctx, o, w, FAST + (";t0=1" if t else ""))
        if t:
            roundtrip(ctx, w, None, FAST + ";t0=1", tag=" (single package)")
        ctx.outcome(c)
    ck.explore("header and signature sizes", g_hdr, b_hdr)

    # sizes of the compressed stream itself: incompressible content so it passes every buffer size
    def g_stream():
        for n in sizes:
            for k in (0, 1, 2, 3, 4, 5, 6):
                if th or (n * 3) % 7 == k or n % 512 < 4:
                    yield n, k

    def b_stream(ctx, c):
        n, k = c
        o = built(opkg([R("/f", b"x")]))
        w = built(npkg([R("/f", rnd(77, n))]))
        for t in ("", ";t0=1"):
            roundtrip(ctx, o, w, "k0=%d,%d" % (k, 1 if k else 0) + t)
        ctx.outcome(c)
    ck.explore("stream sizes", g_stream, b_stream)

    # large: several times every buffer
    def g_large():
        for n in (40000, 65535, 65536, 65537, 131072, 300000) + ((1 << 20, 5000000) if th else ()):
            for cls in (0, 1, 2):
                for x in range(5):
                    for t in (0, 1):
                        for k in (0, 1, 2, 3, 4, 5, 6):
                            if th and n < 400000 or (x + t + cls) % 7 == k:
                                yield n, cls, x, t, k

    def b_large(ctx, c):
        n, cls, x, t, k = c
        data = content(cls, n)
        o = built(opkg([R("/a", data)], comp=COMPS[x], level=3))
        w = built(npkg([R("/a", data[n // 2:] + content(0, n // 3, 61) + tweak(data[:n // 2], step=50))], comp=COMPS[x], level=3))
        roundtrip(ctx, o, w, "k0=%d,%d;b0=%d,1" % (k, 1 if k else 0, 1 + (n + x) % 6) + (";t0=1" if t else ""))
        ctx.outcome(c)
    ck.explore("large", g_large, b_large)
    # numbers too large for one copy or adjustment are divided: the library built with small limits, sizes around them
    LIM = (40, 63, 300) if not th else (33, 40, 63, 64, 300)

    def lim_make(ctx, m, o, w, opts):
        r = ctx.ex(*bounded(m)).make(putc(ctx, "old.rpm", o), putc(ctx, "new.rpm", w), ctx.path("d.drpm"), opts)
        ctx.count("make")
        if r["rc"] != OK:
            raise Violation("make returned %s" % why(r["rc"]), key="limit:make")
        return DL.parse(slurp(ctx.path("d.drpm")))

    def effective(ctx, m):
        """which of the numbers does this build divide?"""
        e = ctx.cache.get(("eff", m))
        if e is None:
            big = [rnd(90 + i, 9 * m + 150) for i in range(4)]
            o = built(opkg([R("/k", big[3], flags=G.F_CONFIG), R("/a", big[0]), R("/b", big[1]), R("/k2", big[3], flags=G.F_CONFIG), R("/c", big[2])]))
            w = built(npkg([R("/a", big[2] + big[0] + big[3])]))
            g = magnitudes(lim_make(ctx, m, o, w, FAST))
            e = ctx.cache[("eff", m)] = {k for k, v in g.items() if v <= m}
            for k in e:
                ctx.count("divided " + k)
        return e

    def g_lim():
        W = lambda m: (m - 17, m - 1, m, m + 1, m + 2, 2 * m - 1, 2 * m, 2 * m + 1, 2 * m + 2, 3 * m + 3)
        for m in LIM:
            for a in W(m):
                for b in W(m) if th else (m, 2 * m + 2):
                    for k in range(9):
                        for t in (0, 1):
                            yield m, a, b, k, t

    def b_lim(ctx, c):
        m, a, b, k, t = c
        x, y, z, q = rnd(80, a), rnd(81, b), rnd(82, 70), rnd(83, 33)
        fo, fn = [(q + x + z, x + q[:5] + z), (x + y + z, y + x + z), (x + q + y, q + y + z + x + y), (q + y + x, tweak(x, step=30) + y + q),
                  (q, x + q + y), (x + q + y + z, z + q + x), (z + x, x + z + x + z), (y + x + q, q + x + q + y), (z + q + x, x)][k]
        o = built(opkg([R("/s", y, flags=G.F_CONFIG), R("/a", q), R("/s2", x, flags=G.F_CONFIG), R("/f", fo)] if k & 1 else [R("/f", fo), R("/g", z)]))
        w = built(npkg([R("/f", fn), R("/g", z + b"!")]))
        d = lim_make(ctx, m, o, w, FAST + (";b0=1,1" if k & 2 else ";n0") + (";t0=1" if t else ""))
        if max(magnitudes(d).values()) == 0x7fffffff:   # this limit comes from elsewhere: not what is meant
            ctx.count("other limit")
            return ctx.outcome("other limit")
        try:
            h, pl = DL.apply_(d, o)
        except DL.Bad as e:
            raise Violation("limit %d: carrying out the copies: %s" % (m, e), key="limit:copies")
        if pl != w.archive or h != w.header:
            raise Violation("limit %d: the copies lead to other data" % m, key="limit:data")
        if not t and merged(d.offadj) != merged(expect_offadj(o.pkg)):
            raise Violation("limit %d: other offset adjustments" % m, key="limit:offadj")
        e = effective(ctx, m)
        for n, v in magnitudes(d).items():
            if n in e and v > m:
                raise Violation("limit %d: %s of %d left whole" % (m, n, v), key="limit:%s" % n)
        apply(ctx, o, w)
        ctx.outcome(c)
    ck.explore("divided numbers", g_lim, b_lim)
    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["make"] + t["apply"],
                          traces_validated_against_impl=t["apply"]))
