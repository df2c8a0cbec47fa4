"""C03: every compressor, level and option choice round-trips, or is refused when the delta is made."""
from universe import *
from c01 import opkg, npkg
from c18 import verify

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of the configuration product (target compressor x level x delta type x version x delta "
        "compression x level x add block), each replayed through make, independent decoding and apply")

LEVELS = {G.GZIP: range(1, 10), G.BZIP2: range(1, 10), G.LZMA: range(1, 10), G.XZ: range(1, 10), G.ZSTD: range(1, 20)}
# the levels the option setter accepts per compressor (0 = default)
OLEVELS = {k: ([0] if k == 0 else range(0, 10)) for k in range(7)}


def heavy(comp, lev):
    return comp == G.ZSTD and (lev > 15 or lev == 0) or comp in (G.LZMA, G.XZ) and lev > 6


def EX(ctx): return ctx.ex(max_alloc_mb=2000)


def contents():
    t = b"the quick brown fox jumps over the lazy dog %d\n"
    text = b"".join(t % (i % 37) for i in range(260))
    return [R("/usr/share/t", text), R("/usr/share/r", rnd(50, 3000)), R("/e", b""), L("/l", "usr/share/t")], \
           [R("/usr/share/t", text[:4000] + b"changed" + tweak(text[4000:], step=900)), R("/usr/share/r", rnd(50, 2000) + rnd(51, 900)),
            L("/l", "usr/share/r")]


def run(ck, tier):
    th = tier == "thorough"
    OF, NF = contents()

    # every target compressor x level x type/version x add block
    def g_target():
        for c in LEVELS:
            for l in LEVELS[c]:
                for t in ("t0=1", "v0=1", "v0=2", "v0=3"):
                    for blk in (";n0", ";b0=1,1", ""):
                        for g in (";k0=1,1", ";g0"):
                            if g == ";g0" and blk and not th:
                                continue
                            yield c, l, t + blk + g

    def b_target(ctx, c):
        comp, l, o = c
        old, new = built(opkg(OF, comp=comp, level=l)), built(npkg(NF, comp=comp, level=l))
        d = make(ctx, old, new, o, ex=EX(ctx))
        verify(d, old, new, int(o[3]) if o[0] == "v" else 3, o[0] == "t", comp if ";g0" in o else G.GZIP,
               addblk=False if ";n0" in o else None)
        apply(ctx, old, new, ex=EX(ctx))
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("target compressor x level x type", g_target, b_target)

    # an old package compressed differently
    def g_old():
        for a in LEVELS:
            for la in (1, 5, 9):
                for b in LEVELS:
                    for lb in (1, 3, 6):
                        for t in ("t0=1", "v0=3"):
                            yield a, la, b, lb, t

    def b_old(ctx, c):
        a, la, b, lb, t = c
        roundtrip(ctx, built(opkg(OF, comp=a, level=la)), built(npkg(NF, comp=b, level=lb)), t + ";" + FAST, ex=EX(ctx))
        ctx.outcome(c)
    ck.explore("old x new compressor", g_old, b_old)

    # every delta compression x level x type x add block compression
    def g_delta():
        for k in range(7):
            for l in OLEVELS[k]:
                for t in ("t0=1", "v0=1", "v0=2", "v0=3"):
                    for bc in range(0, 7):
                        for bl in ((1, 9, 0) if bc else (0,)):
                            if (heavy(k, l) or heavy(bc, bl)) and not th and (t != "v0=3" or bl == 0 and l != 1):
                                continue
                            if not th and bc not in (0, 2, k) and l not in (0, 1, 9):
                                continue
                            yield k, l, t, bc, bl

    def b_delta(ctx, c):
        k, l, t, bc, bl = c
        old, new = built(opkg(OF)), built(npkg(NF))
        d = make(ctx, old, new, "%s;k0=%d,%d;b0=%d,%d" % (t, k, l, bc, bl), ex=EX(ctx))
        dd = verify(d, old, new, int(t[3]) if t[0] == "v" else 3, t[0] == "t", k)
        if dd.add:
            eqc = G.detect(dd.add)
            if eqc != bc:
                raise Violation("add block compressed with %d, asked for %d" % (eqc, bc), key="addblk comp")
            ctx.count("add_blocks")
        apply(ctx, old, new, ex=EX(ctx))
        ctx.outcome(c)
    ck.explore("delta compression x add block compression", g_delta, b_delta)

    # the same over both targets' compressors, defaults and identity deltas
    def g_id():
        for c in LEVELS:
            for l in LEVELS[c]:
                for o in ("t0=1", "v0=1", "v0=2", "v0=3"):
                    for g in (";k0=1,1", ";g0"):
                        if heavy(c, l) and g == ";g0" and o == "v0=1" and not th:
                            continue
                        yield c, l, o + g

    def b_id(ctx, c):
        comp, l, o = c
        p = built(npkg(NF, comp=comp, level=l))
        roundtrip(ctx, p, None, o, ex=EX(ctx), tag=" (single package)")
        ctx.outcome(c)
    ck.explore("single package x compressor", g_id, b_id)

    # packages that are not compressed: no compressor is recorded
    def g_plain():
        for fl in ("", "9", "0", "19"):
            for oc in (G.GZIP, G.NONE):
                for t in ("t0=1", "v0=1", "v0=2", "v0=3"):
                    for k in (";g0",) + tuple(";k0=%d,1" % i for i in range(7)):
                        for blk in (";n0", ";b0=1,1", ""):
                            yield fl, oc, t, k, blk, 0
                for t in ("t0=1", "v0=1", "v0=2", "v0=3"):
                    for k in (";g0", ";k0=1,1", ";k0=0,0"):
                        yield fl, G.NONE, t, k, "", 1

    def b_plain(ctx, c):
        fl, oc, t, k, blk, solo = c
        new = built(npkg(NF, comp=G.NONE, flags=fl))
        old = None if solo else built(opkg(OF, comp=oc, flags="" if oc == G.NONE else "auto"))
        d = roundtrip(ctx, new if solo else old, None if solo else new, t + k + blk, ex=EX(ctx))
        if not solo and fl in ("", "0"):
            verify(d, old, new, int(t[3]) if t[0] == "v" else 3, t[0] == "t", int(k[4]) if k != ";g0" else G.NONE)
        ctx.outcome(c)
    ck.explore("packages that are not compressed", g_plain, b_plain)

    # payloads the format cannot reproduce: never OK at make and then impossible to apply
    def variants():
        arch = G.archive(npkg(NF))
        V = [("gzip 1 said 9", dict(comp=G.GZIP, level=1, flags="9")),
             ("gzip 9 said 1", dict(comp=G.GZIP, level=9, flags="1")),
             ("no flags", dict(comp=G.GZIP, flags=None)),
             ("flags too long", dict(comp=G.GZIP, flags="9x3")),
             ("zstd 19T8", dict(comp=G.ZSTD, level=3, flags="3T8")),
             ("xz 7 said 2", dict(comp=G.XZ, level=7, flags="2")),
             ("level 0", dict(comp=G.GZIP, level=6, flags="0")),
             ("level 99", dict(comp=G.GZIP, level=6, flags="99")),
             ("level 10", dict(comp=G.BZIP2, level=6, flags="10")),
             ("level 12", dict(comp=G.XZ, level=6, flags="12")),
             ("level 50", dict(comp=G.LZMA, level=6, flags="50")),
             ("letters", dict(comp=G.GZIP, level=6, flags="a")),
             ("empty flags", dict(comp=G.GZIP, level=6, flags="")),
             ("gzip with name", dict(comp=G.GZIP, comp_payload=gz_named(arch))),
             ("gzip stored", dict(comp=G.GZIP, comp_payload=gz_raw(arch, 0), flags="9")),
             ("two members", dict(comp=G.GZIP, comp_payload=gz_raw(arch[:100], 9) + gz_raw(arch[100:], 9), flags="9")),
             ("lzip", dict(comp=G.LZIP, level=9)),
             ("none", dict(comp=G.NONE)),
             ("none said gzip", dict(comp=G.GZIP, comp_payload=arch)),
             ("zstd said gzip", dict(comp=G.ZSTD, level=3, comp_name="gzip")),
             ("bzip2 said xz", dict(comp=G.BZIP2, level=9, comp_name="xz", flags="2")),
             ("unknown name", dict(comp=G.GZIP, comp_name="brotli")),
             ("no name", dict(comp=G.GZIP, comp_name=None)),
             ("xar", dict(payload_format="xar")),
             ("unknown format", dict(payload_format="xar!")),
             ("trailing", dict(comp=G.GZIP, trailing=b"garbage")),
             ("trailing zeros", dict(comp=G.XZ, level=3, trailing=b"\0" * 8)),
             ("trailing bz", dict(comp=G.BZIP2, level=3, trailing=b"zz")),
             ("trailing zstd", dict(comp=G.ZSTD, level=3, trailing=b"zz")),
             ("trailing lzma", dict(comp=G.LZMA, level=3, trailing=b"zz"))]
        return V

    def g_bad():
        for i in range(len(variants())):
            for t in ("t0=1", "v0=1", "v0=2", "v0=3"):
                for solo in (0, 1):
                    yield i, t, solo

    def b_bad(ctx, c):
        i, t, solo = c
        name, kw = variants()[i]
        old, new = built(opkg(OF)), built(npkg(NF, **kw))
        r = ctx.ex(max_alloc_mb=2000).make(None if solo else putc(ctx, "old.rpm", old), putc(ctx, "new.rpm", new), ctx.path("d.drpm"), t + ";" + FAST)
        ctx.count("make")
        ctx.outcome((c, r["rc"]))
        if r["rc"] != OK:
            ctx.count("refused")
            return
        if name in MUST_REFUSE and not (solo and t[0] == "t"):
            raise Violation("%s: a delta was made for an unsupported payload compression" % name, key="accepted:" + name)
        # the declared compression may not be the true one: then applying must say so
        r = ctx.ex(max_alloc_mb=2000).apply(putc(ctx, "new.rpm", new) if solo else putc(ctx, "old.rpm", old), ctx.path("d.drpm"), ctx.path("out.rpm"))
        ctx.count("apply")
        if r["rc"] == OK and slurp(ctx.path("out.rpm")) != new.raw:
            raise Violation("%s: apply reported OK with a wrong output" % name, key="wrong:" + name)
        if r["rc"] != OK and name in MUST_WORK:
            raise Violation("%s: apply returned %s" % (name, why(r["rc"])), key="refused:" + name)
        ctx.outcome((c, r["rc"]))
    ck.explore("payloads with a doubtful compression", g_bad, b_bad)

    # libraries built without zstd, without lzip and without both: what they support works as ever, what they do not never
    # leads to success with a wrong result
    def g_conf():
        for cf in CONFS:
            for a in LEVELS:
                for b in LEVELS:
                    for t in ("t0=1", "t0=0") + (("v0=1", "v0=2") if th else ("v0=1",)):
                        for k in (";g0",) + tuple(";k0=%d,1" % i for i in range(7)):
                            if not th and k != ";g0" and G.ZSTD not in (a, b, int(k[4])) and (a, b) != (G.GZIP, G.XZ):
                                continue
                            yield cf, a, b, t, k, ";n0"
        for cf in CONFS:
            for k in range(7):
                for bc in range(7):
                    for t in ("t0=0", "v0=1"):
                        yield cf, G.GZIP, G.XZ, t, ";k0=%d,1" % k, ";b0=%d,1" % bc

    def b_conf(ctx, c):
        cf, a, b, t, k, blk = c
        lacks = CONFS[cf][1]
        exc = ctx.ex(cf, CONFS[cf][0], max_alloc_mb=2000)
        old, new = built(opkg(OF, comp=a, level=3)), built(npkg(NF, comp=b, level=3))
        po, pn, d, out = putc(ctx, "old.rpm", old), putc(ctx, "new.rpm", new), ctx.path("d.drpm"), ctx.path("out.rpm")
        used = {a, b, *([int(k[4])] if k != ";g0" else []), *([int(blk[4])] if blk[1] == "b" else [])}
        can = not used & lacks
        for who, e in (("this library", exc), ("the full library", EX(ctx))):
            r = e.make(po, pn, d, t + k + blk)
            ctx.count("make")
            ctx.outcome((c, who, r["rc"]))
            if r["rc"] != OK:
                if can or e is not exc:
                    raise Violation("%s: making a delta returned %s" % (who, why(r["rc"])), key="config make")
                ctx.count("refused")
                continue
            if os.path.exists(out):
                os.unlink(out)
            dl = DL.parse(slurp(d))
            r = exc.apply(po, d, out)
            ctx.count("apply")
            ctx.outcome((c, who, "apply", r["rc"]))
            if r["rc"] == OK and slurp(out) != new.raw:
                raise Violation("apply reported OK with a wrong output (delta made by %s)" % who, key="config wrong")
            if r["rc"] != OK and can:
                raise Violation("applying a delta made by %s returned %s" % (who, why(r["rc"])), key="config apply")
            if r["rc"] != OK:
                ctx.count("refused")
            if e is exc and can:
                apply(ctx, old, new, ex=EX(ctx), tag=" by the full library")
        ctx.sample(c)
    ck.explore("libraries without a compressor", g_conf, b_conf)
    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["make"] + t["apply"],
                          traces_validated_against_impl=t["apply"]))


CONFS = {"nozstd": (("no:WITH_ZSTD",), {G.ZSTD}), "nolzip": (("no:HAVE_LZLIB_DEVEL",), {G.LZIP}),
         "neither": (("no:WITH_ZSTD", "no:HAVE_LZLIB_DEVEL"), {G.ZSTD, G.LZIP})}
MUST_REFUSE = {"no flags", "flags too long", "zstd 19T8", "xar", "unknown format"}
MUST_WORK = set()


def gz_raw(data, level):
    import zlib
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def gz_named(data):
    b = gz_raw(data, 9)
    return b[:3] + b"\x08" + b[4:10] + b"name\0" + b[10:]
