"""C19: with patch information, files left different by the patch are not relied on, and everything else works."""
from universe import *
import rpml as PL
from c07 import reroot

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of patch states of every file, forms of the patch, names of print and patch, and entry encodings, on the real code; "
        "oracle: the file sequence computed from the patch states, the rebuilt package, and applying to a system where the patched files are changed")

STD = "t0=0;" + FAST
# what patch and print say of a file
STATES = ("absent",     # not in the patch
          "patched",    # shipped by the patch, and so different
          "same",       # not shipped (unpatched), and as in the old package
          "other",      # not shipped (unpatched), and different from the old package
          "gone")       # unpatched, and not in the print at all
OTHER = b"what the system has instead of it " * 3
UNP = 1 << 10


def pname(f): return "./" + f.name.lstrip("/")


def print_entry(f, st):
    if f.kind == "reg":
        d = OTHER if st in ("other", "patched") else f.data
        return PL.F(pname(f), f.mode, len(d), hashlib.md5(d).digest(), user=4, group=4)
    if f.kind == "link":
        t = f.linkto if st != "other" else "else"
        return PL.F(pname(f), f.mode, len(t), hashlib.md5(t.encode()).digest())
    return PL.F(pname(f), f.mode, rdev=f.rdev if f.kind in ("chr", "blk") else 0)


def make_print(p, sts, nm=None, evr=None, **k):
    return PL.rpml(nm or p.name, evr or evr_of(p), files=[print_entry(f, s) for f, s in zip(p.files, sts) if s != "gone"], **k)


def evr_of(p):
    return ("%d:" % p.epoch if p.epoch is not None else "") + p.version + "-" + p.release


def make_patch(p, sts, form, **k):
    un = [f for f, s in zip(p.files, sts) if s in ("same", "other", "gone")]
    sh = [(f, s) for f, s in zip(p.files, sts) if s == "patched"]
    if form == "rpml":
        return PL.rpml(k.pop("nm", None) or p.name, k.pop("evr", None) or evr_of(p), patches=["fix-1"] if un or not sh else ["a", "b"],
                       unpatched=[f.name.lstrip("/") for f in un], files=[print_entry(f, s) for f, s in sh], **k)
    # a patch package lists all of the files, and carries those that it changes
    fs = []
    for f, s in zip(p.files, sts):
        if s == "absent":
            continue
        fs.append(File(f.name, data=OTHER if s == "patched" else f.data, kind=f.kind, linkto=f.linkto, rdev=f.rdev,
                       flags=UNP if s != "patched" else 0, payload=s == "patched"))
    return built(Pkg(files=fs, name=k.get("nm") or p.name, version=k.get("version") or p.version, release=p.release, epoch=k.get("epoch", p.epoch),
                     algo=p.algo, level=1)).raw


def excluded(p, sts):
    return [i for i, s in enumerate(sts) if p.files[i].kind == "reg" and p.files[i].data
            and (s in ("other", "gone") or (s == "same" and p.algo != "md5"))]


def with_patches(ctx, pr, pa, opts=STD):
    ctx.put("print", pr)
    ctx.put("patch", pa)
    return opts + ";p0=%s|%s" % (ctx.path("print"), ctx.path("patch"))


def run(ck, tier):
    th = tier == "thorough"

    def host(ctx):
        return ctx.cache.get("host") or ctx.cache.setdefault("host", Host(ctx))

    # 1. patch states of all files x form x digest x new package; applied to the package and to the patched system
    def olds(root):
        mk = lambda n, algo: Pkg(name=n, algo=algo, files=reroot([R("/a/f", A + B_), R("/a/g", B_ + C_), R("/b", C_ + A[:30]), L("/a/l", "f"), D("/d")], root + "/" + n))
        return [mk("pm", "md5"), mk("ps", "sha256")]

    def setup(ctx):
        if "olds" not in ctx.cache:
            h = host(ctx)
            ctx.cache["olds"] = [built(p) for p in olds(h.root)]
            h.install(ctx.cache["olds"])
        return host(ctx), ctx.cache["olds"]

    def g_excl():
        for ai in (0, 1):
            for sts in itertools.product(STATES, repeat=3):
                for ls in STATES if th or sts == ("other", "same", "absent") else ("absent", "other"):
                    for form in ("rpml", "rpm"):
                        for nw in (0, 1, 2):        # 2: identity
                            yield ai, sts, ls, form, nw

    def b_excl(ctx, c):
        ai, sts, ls, form, nw = c
        h, os_ = setup(ctx)
        old = os_[ai]
        p = old.pkg
        full = sts + (ls, "absent")
        opts = with_patches(ctx, make_print(p, full), make_patch(p, full, form))
        if nw == 2:
            new = None
        else:
            fs = list(p.files) if nw == 0 else [File(p.files[0].name, data=tweak(A + B_)), File(p.files[1].name, data=A + C_ + B_)]
            new = built(Pkg(files=fs, name=p.name, version="2", level=1))
        d = make(ctx, old, new, opts, ex=h.ex())
        ex_ = excluded(p, full)
        got, want = DL.parse(d).sequence, G.sequence(p, skip=ex_)
        if got != want:
            raise Violation("the files the delta relies on are not those left as they were", key="sequence",
                            got=G.seq_decode(got[16:], len(p.files)), want=[i for i in range(len(p.files)) if i not in ex_])
        apply(ctx, old, new or old, ex=h.ex())
        # the system: patched files hold something else
        h.clear()
        h.place(p)
        for i in ex_:
            h.put(File(p.files[i].name, data=OTHER)) if i % 2 else os.unlink(p.files[i].name)
        for mode in (1, 2):
            r = h.ex().check(ctx.path("d.drpm"), mode)
            ctx.count("check")
            if r["rc"] != OK:
                raise Violation("the delta cannot be used on the patched system: %s" % why(r["rc"]), key="check:%s" % why(r["rc"]))
        out = ctx.path("out.rpm")
        r = h.ex().apply(None, ctx.path("d.drpm"), out)
        ctx.count("apply")
        if r["rc"] != OK or slurp(out) != (new or old).raw:
            raise Violation("applying to the patched system: %s" % why(r["rc"]), key="fs:%s" % why(r["rc"]))
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("patch states", g_excl, b_excl)

    # 2. names of print and patch
    EP = (None, 0, 2)

    def g_nevr():
        for form in ("rpml", "rpm"):
            for oe in EP:
                for pr in itertools.product(("n", "n2", "m"), ("1", "2", "1 "), ("1", "2"), EP):
                    for pa in (pr, ("n", "1", "1", oe)) if not th else itertools.product(("n", "n2", "m"), ("1", "2"), ("1",), EP):
                        yield form, oe, pr, pa

    def b_nevr(ctx, c):
        form, oe, pr, pa = c
        p = Pkg(files=[R("/a/f", A)], name="n", epoch=oe)
        old, new = built(p), built(Pkg(files=[R("/a/f", A1)], name="n", version="2", level=1))
        q = lambda t: Pkg(files=p.files, name=t[0], version=t[1], release=t[2], epoch=t[3])
        opts = with_patches(ctx, make_print(q(pr), ["other"]), make_patch(q(pa), ["other"], form))
        ok = all(t == ("n", "1", "1", oe) for t in (pr, pa))
        make(ctx, old, new, opts, expect=OK if ok else ARGS)
        if ok:
            if DL.parse(slurp(ctx.path("d.drpm"))).sequence != G.sequence(p, skip=[0]):
                raise Violation("patch information not used", key="nevr:unused")
            apply(ctx, old, new)
        ctx.outcome((form, ok))
    ck.explore("names", g_nevr, b_nevr)

    # 2a. names of which one begins like another, in each of the three places
    NV = [("n", "1", "1"), ("n", "1", "12"), ("n", "12", "1"), ("nn", "1", "1"), ("n-1", "1", "1"), ("n", "1", "1.1")]

    def g_pre():
        for form in ("rpml", "rpm"):
            yield from ((form,) + t for t in itertools.product(range(len(NV)), repeat=3))

    def b_pre(ctx, c):
        form, o, pr, pa = c
        q = lambda i, **k: Pkg(files=[R("/a/f", A)], name=NV[i][0], version=NV[i][1], release=NV[i][2], **k)
        old, new = built(q(o)), built(Pkg(files=[R("/a/f", A1)], name="n", version="2", level=1))
        opts = with_patches(ctx, make_print(q(pr), ["other"]), make_patch(q(pa), ["other"], form))
        make(ctx, old, new, opts, expect=OK if o == pr == pa else ARGS)
        if o == pr == pa and DL.parse(slurp(ctx.path("d.drpm"))).sequence != G.sequence(old.pkg, skip=[0]):
            raise Violation("patch information not used", key="nevr:unused")
        ctx.outcome(c)
    ck.explore("names that begin alike", g_pre, b_pre)

    # 2b. a digest that differs in one bit, or is another file's
    def g_dig():
        for form in ("rpml", "rpm"):
            for k in list(range(128)) + ["next", "zero", "rev", "half", "half2"]:
                yield form, k

    def b_dig(ctx, c):
        form, k = c
        p = Pkg(files=[R("/a/f", A), R("/a/g", B_), R("/a/h", C_)], name="n")
        old, new = built(p), built(Pkg(files=[R("/a/f", A + B_), R("/a/g", C_ + B_)], name="n", version="2", level=1))
        m = hashlib.md5(B_).digest()
        m2 = hashlib.md5(A).digest()
        m = {"next": m2, "zero": bytes(16), "rev": m[::-1], "half": m[:8] + m2[8:], "half2": m2[:8] + m[8:]}.get(k) or \
            bytes(x ^ (1 << (k & 7) if i == k >> 3 else 0) for i, x in enumerate(m))
        sts = ["same"] * 3
        es = [print_entry(f, s) for f, s in zip(p.files, sts)]
        es[1] = PL.F(pname(p.files[1]), p.files[1].mode, len(B_), m, user=4, group=4)
        d = make(ctx, old, new, with_patches(ctx, PL.rpml("n", "1-1", files=es), make_patch(p, sts, form)))
        if DL.parse(d).sequence != G.sequence(p, skip=[1]):
            raise Violation("a file with another digest is relied on, or others are not", key="digest")
        apply(ctx, old, new)
        ctx.outcome(c)
    ck.explore("digests", g_dig, b_dig)

    # 2c. names that begin or end alike, in any order of package, print and patch
    RN = ["/d/a", "/d/ab", "/d/a.b", "/da", "/d/A", "/a", "/d/d/a", "/d/b"]

    def g_rel():
        for a, b in itertools.permutations(RN, 2):
            for sts in itertools.product(("absent", "same", "other", "gone"), repeat=2):
                for po in (0, 1):
                    for uo in (0, 1):
                        yield (a, b), sts, po, uo
        for t in itertools.permutations(RN[:5] if not th else RN, 3):
            for sts in itertools.product(("same", "other", "gone"), repeat=3):
                yield t, sts, 1, 0

    def b_rel(ctx, c):
        ns, sts, po, uo = c
        p = Pkg(files=[R(n, d) for n, d in zip(ns, (A, B_, C_))], name="n")
        old, new = built(p), built(Pkg(files=[R("/q", C_ + B_ + A)], name="n", version="2", level=1))
        es = [print_entry(f, s) for f, s in zip(p.files, sts) if s != "gone"]
        un = [f.name[1:] for f, s in zip(p.files, sts) if s != "absent"]
        d = make(ctx, old, new, with_patches(ctx, PL.rpml("n", "1-1", files=es[::-1] if po else es),
                                             PL.rpml("n", "1-1", patches=["fix"] if un else [], unpatched=un[::-1] if uo else un)))
        if DL.parse(d).sequence != G.sequence(p, skip=[i for i, s in enumerate(sts) if s in ("other", "gone")]):
            raise Violation("another file's state was taken", key="related")
        ctx.outcome(c)
    ck.explore("related names", g_rel, b_rel)

    # 3. encodings: whatever entries come before the one that matters, it is found
    def entries():
        lens = list(range(0, 12)) + [62, 63, 64]
        for u in lens + [65, 128, 255, 256]:
            for g in lens:
                if u == 1 or g == 1 or (g > 8 and u > 12 and not th and g != 64):
                    continue
                for kind in ("reg", "dir", "chr", "link", "blk", "fifo"):
                    yield kind, u, g, 2
        for nb in range(1, 5):
            for size in (0, 1, 255, 256, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0xffffffff):
                if size.bit_length() <= 8 * nb:
                    for kind in ("reg", "link"):
                        for u, g in ((0, 0), (4, 4), (8, 8), (30, 40)):
                            yield kind, u, g, (nb, size)
        yield "gone", 0, 0, 1

    MODE = dict(reg=0o100644, dir=0o40755, chr=0o20644, link=0o120777, blk=0o60644, fifo=0o10644, gone=0)

    def mkentry(n, e):
        kind, u, g, s = e
        nb, size = s if isinstance(s, tuple) else (0, s)
        return PL.F(n, MODE[kind], size, b"\7" * 16, rdev=0x102, user=u, group=g, nbytes=nb)

    NAMES = [1, 2, 50, 253, 254, 255, 256, 257, 300, 511, 512, 1000, 5000, 30000, 65000]

    def g_enc():
        es = list(entries())
        for e in es:
            yield "entry", e, 1
        for e in es[::1 if th else 7]:
            yield "entry", e, 17
        for a in NAMES:
            for b in NAMES:
                for sh in (None, 0, 1, 254, 255):
                    yield "names", (a, b), sh
        for n in list(range(0, 50)) + [255, 256, 1000]:
            yield "files", n, 0
            yield "unpatched", n, 0
            yield "patches", n, 0
        yield "patches", 65535, 0
        for n in range(256):
            yield "host", n, 0
        for n in (0, 1, 0x7fffffff, 0xffffffff):
            yield "time", n, 0
        for n in (1, 2, 100, 200, 250):
            yield "nevr", n, 0

    def b_enc(ctx, c):
        what, v, k = c
        n = "n" * v if what == "nevr" else "n"
        p = Pkg(files=[R("/a/f", A), R("/a/key", B_), R("/z", C_)], name=n)
        old, new = built(p), built(Pkg(files=[R("/a/f", A1)], name="n", version="2", level=1))
        sts = ["same", "other", "other"]
        fs = [print_entry(f, s) for f, s in zip(p.files, sts)]
        un = ["a/f", "a/key", "z"]
        kw, extra, pats = {}, [], ["fix"]
        if what == "entry":
            extra = [mkentry("./a/e%d" % i, v) for i in range(k)]
        elif what == "names":
            extra = [PL.F("./" + "x" * v[0], 0o40755), PL.F("./" + "x" * (v[1] - 1) + "y", 0o100644, 5, b"\1" * 16)]
            un = ["x" * v[0], "x" * (v[1] - 1) + "y"] + un
            kw = dict(share=k)
        elif what == "files":
            extra = [PL.F("./e%d" % i, 0o40755) for i in range(v)]
        elif what == "unpatched":
            un = ["e%d" % i for i in range(v)] + un
        elif what == "patches":
            pats = ["p%d" % i for i in range(v)] if v < 5000 else ["p"] * v
        elif what == "host":
            kw = dict(host="h" * v)
        elif what == "time":
            kw = dict(time=v)
        if not pats:
            un = []
        # the same entries before the files in the print, between them, and in the patch
        for at in (0, 1, 3):
            pr = PL.rpml(n, "1-1", files=fs[:at] + extra + fs[at:], **kw)
            pa = PL.rpml(n, "1-1", files=extra, patches=pats, unpatched=un, **kw)
            d = make(ctx, old, new, with_patches(ctx, pr, pa))
            if DL.parse(d).sequence != G.sequence(p, skip=[1, 2] if un else []):
                raise Violation("an entry was not read for what it is", key="enc:" + what)
            if at == 1:
                apply(ctx, old, new)
            if not extra and what != "unpatched":
                break
        ctx.outcome((what, str(v), k))
    ck.explore("entry encodings", g_enc, b_enc)

    # 3b. a name can share no more with the one before than that one has, whatever came earlier
    def g_share():
        for first in (0, 1, 5, 40, 254, 255):
            for ln in (1, 2, 5, 30):
                for off in sorted({0, 1, ln - 1, ln, ln + 1, ln + 2, first - 1, first, first + 1, 255}):
                    if 0 <= off <= 255:     # (an empty name is the end)
                        for rest in (0, 1, 3, 255) if off else (1, 3, 255):
                            for where in ("unpatched", "print", "patch"):
                                yield first, ln, off, rest, where

    def b_share(ctx, c):
        first, ln, off, rest, where = c
        p = Pkg(files=[R("/a/f", A), R("/z", C_)], name="n")
        old, new = built(p), built(Pkg(files=[R("/a/f", A1)], name="n", version="2", level=1))
        sts = ["other", "same"]
        fs = [print_entry(f, s) for f, s in zip(p.files, sts)]
        un = ["a/f", "z"]
        z = b"w" * rest
        odd = bytes([off]) + (bytes([rest]) if rest < 255 else b"\xff\0\xff") + z
        # names: first, one of length ln that shares nothing, the odd one, then the ones that matter (sharing nothing)
        def run_(names, ents):
            b = b""
            for k, (nm, e) in enumerate(zip(names, ents)):
                b += (odd if nm is None else PL.name(b"", nm.encode(), 0)) + e
            return b
        names = (["y" * first] if first else []) + ["x" * ln, None]
        d40 = PL.entry(PL.F("", 0o40755))
        pr, pa = PL.rpml("n", "1-1", files=fs, share=0), PL.rpml("n", "1-1", patches=["fix"], unpatched=un, share=0)
        if where == "unpatched":
            head = PL.rpml("n", "1-1", patches=["fix"], unpatched=[], ncount=len(names) + 2, end=b"")
            pa = head + run_(names + un, [b""] * (len(names) + 2)) + b"\0\0"
        else:
            head = PL.rpml("n", "1-1", end=b"") if where == "print" else PL.rpml("n", "1-1", patches=["fix"], unpatched=un, share=0, end=b"")
            ents = [d40] * len(names) + [PL.entry(f) for f in fs]
            b = head + run_(names + [f.name for f in fs], ents) + b"\0\0"
            if where == "print":
                pr = b
            else:
                pa = b
        good = off <= ln
        if where == "patch" and not good:
            # the entries of a patch's own files need not be read
            r = ctx.ex().make(putc(ctx, "old.rpm", old), putc(ctx, "new.rpm", new), ctx.path("d.drpm"), with_patches(ctx, pr, pa))
            ctx.count("make")
            if r["rc"] not in (OK, FORMAT):
                raise Violation("make returned %s" % why(r["rc"]), key="share:rc")
            return
        d = make(ctx, old, new, with_patches(ctx, pr, pa), expect=OK if good else FORMAT)
        if good and DL.parse(d).sequence != G.sequence(p, skip=[0]):
            raise Violation("an entry was not read for what it is", key="share")
        ctx.outcome(c)
    ck.explore("shared beginnings", g_share, b_share)

    # 4. rpm-only deltas do not look at it; files that are missing or of another kind are errors
    def g_bad():
        for pr in ("good", "missing", "dir", "empty", "rpm", "drpm", "text"):
            for pa in ("good", "missing", "dir", "empty", "rpm", "drpm", "text", "otherlist"):
                for t in (0, 1):
                    for new in (0, 1):
                        yield pr, pa, t, new

    def b_bad(ctx, c):
        pr, pa, t, nw = c
        p = Pkg(files=[R("/a/f", A), R("/a/g", B_)], name="n")
        old = built(p)
        new = built(Pkg(files=[R("/a/f", A1)], name="n", version="2", level=1)) if nw else None
        sts = ["other", "absent"]
        if "base" not in ctx.cache:
            ctx.cache["base"] = make(ctx, built(p), built(Pkg(files=[R("/a/f", A1)], name="n", version="2", level=1)), STD)
        # (a standard delta starts as the package it makes, which is not the old one)
        data = dict(empty=b"", rpm=make_patch(p, sts, "rpm"), drpm=ctx.cache["base"], text=b"not any of these\n")

        def what(k, good):
            if k == "missing": return ctx.path("nosuch")
            if k == "dir": return ctx.dir
            return ctx.put("pi-" + k + ("p" if good else ""), data.get(k, good))
        a = what(pr, make_print(p, sts))
        b = what(pa, make_patch(p, sts, "rpml" if pa != "otherlist" else "rpml", nm="other" if pa == "otherlist" else None) or b"")
        opts = "t0=%d;%s;p0=%s|%s" % (t, FAST, a, b)
        if t == 1:
            want = [OK]
        elif pr == "good":
            want = dict(good=[OK], rpm=[OK], missing=[IO], dir=[IO, FORMAT], empty=[FORMAT, IO], drpm=[ARGS], text=[FORMAT], otherlist=[ARGS])[pa]
        else:
            want = dict(missing=[IO], dir=[IO, FORMAT], empty=[FORMAT, IO], rpm=[FORMAT], drpm=[FORMAT], text=[FORMAT])[pr]
        r = ctx.ex().make(putc(ctx, "old.rpm", old), putc(ctx, "new.rpm", new) if new else None, ctx.path("d.drpm"), opts)
        ctx.count("make")
        if r["rc"] not in want:
            raise Violation("print %s, patch %s: %s, expected %s" % (pr, pa, why(r["rc"]), [why(w) for w in want]), key="bad:%s:%s" % (pr, pa))
        if r["rc"] == OK:
            if t == 0 and DL.parse(slurp(ctx.path("d.drpm"))).sequence != G.sequence(p, skip=[0]):
                raise Violation("patch information not used", key="bad:unused")
            apply(ctx, old, new or old)
        ctx.outcome((c, r["rc"]))
    ck.explore("other kinds of files", g_bad, b_bad)

    t = ck.totals
    n = t["make"] + t["apply"] + t["check"]
    return ck.finish(dict(states=len(ck.distinct), transitions=n, traces_validated_against_impl=n))
