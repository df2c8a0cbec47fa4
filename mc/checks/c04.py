"""C04: applying never reports success unless the output is the intended package."""
from mutate import *

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of pairings of deltas with old packages and of one- and two-point alterations of delta, old package and "
        "installed files; each applied by the real code and every success compared with the intended package")


def judge(ctx, r, new, what, c):
    ctx.count("apply")
    if r["rc"] not in ERR:
        raise Violation("undocumented code %r" % r["rc"])
    if r["rc"] == OK:
        out = slurp(ctx.path("out.rpm"))
        if out != new.raw:
            n = next((i for i, (x, y) in enumerate(zip(out or b"", new.raw)) if x != y), None)
            raise Violation("apply reported OK with another result than the intended package: %s" % what, key="wrong:%s" % what,
                            first_difference=n, out_len=len(out or b""), new_len=len(new.raw))
        ctx.count("still_right")
    ctx.outcome((what, r["rc"], c[0]))


def applied(ctx, raw, old, new, what, c, ex=None):
    p = ctx.put("m.drpm", raw)
    po = putc(ctx, "old.rpm", old) if isinstance(old, G.Built) else (ctx.put("oldm.rpm", old) if old is not None else None)
    r = (ex or ctx.ex()).apply(po, p, ctx.path("out.rpm"))
    judge(ctx, r, new, what, c)
    ctx.sample([list(map(str, c)), why(r["rc"])])


def no_md5(raw):
    """the same delta without the digest of the whole package: the signature's digest is what is left"""
    return change_field(raw, {"tgt_md5": b"\0" * 16})


def run(ck, tier):
    th = tier == "thorough"
    prepare(ck)
    L_ = lens()
    names = [n for n, _ in BASES]

    # 1. every delta between variants of a package, applied to every other variant
    def variants():
        f = [R("/a", A), R("/b", B_ + C_), L("/l", "zz")]
        mk = lambda *fs, **k: Pkg(files=list(fs), name="v", **k)
        return [mk(*f), mk(R("/a", A1), f[1], f[2]), mk(f[1], f[0], f[2]), mk(*f, version="2"), mk(*f, epoch=1), mk(*f, order=[1, 0, 2]),
                mk(f[0], R("/b", B_ + C_, flags=G.F_CONFIG), f[2]), mk(f[0], f[1], L("/l", "zy")), mk(f[0], f[1]), mk(*f, summary="other"),
                mk(*f, comp=G.XZ, level=2), mk(*f, algo="sha256"), mk(R("/a", A, perm=0o755), f[1], f[2]), mk(R("/a", b""), f[1], f[2]),
                mk(R("/a", A, digest=hashlib.md5(b"q").hexdigest()), f[1], f[2]), mk(*f, arch="noarch"),
                # the header of the first, another archive
                mk(R("/a", A, cpio_data=A1), f[1], f[2]), mk(f[0], R("/b", B_ + C_, cpio_data=B_ + b"q" + C_[1:]), f[2]),
                mk(R("/a", A, cpio_data=A + b"more"), f[1], f[2]), mk(R("/a", A, cpio_data=b""), f[1], f[2])]

    NV = len(variants())
    OPT = ["t0=0;k0=0,1", "t0=0;v0=1;k0=0,1", "t0=1;k0=0,1", "t0=1;k0=1,1;n0"]

    def g_x():
        for i in range(NV - 4):
            for j in range(NV - 4):
                for o in range(len(OPT)):
                    yield i, j, o

    def b_x(ctx, c):
        i, j, o = c
        vs = ctx.cache.setdefault("vs", [built(p) for p in variants()])
        raw = make(ctx, vs[i], vs[j], OPT[o])
        for k in range(NV):
            for m in (raw, no_md5(raw)):
                if m is not raw and o == 3:
                    continue
                p = ctx.put("m.drpm", m)
                r = ctx.ex().apply(putc(ctx, "old.rpm%d" % k, vs[k]), p, ctx.path("out.rpm"))
                judge(ctx, r, vs[j], "another old package", c)
                if k == i and r["rc"] != OK:
                    raise Violation("the right old package is refused: %s" % why(r["rc"]), key="refused")
    ck.explore("pairings", g_x, b_x)

    # 2. truncations and extensions of the delta
    def g_cut():
        for n in names:
            for k in range(L_[n][0]):
                yield n, k
            for e in (b"\0", b"\xff", b"\0" * 8, b"\x1f\x8b", b"x" * 5000, "twice"):
                yield n, e

    def b_cut(ctx, c):
        n, k = c
        raw, old, new = base(ctx, n)
        applied(ctx, raw[:k] if isinstance(k, int) else raw + (raw if k == "twice" else k), old, new, "a cut or extended delta", c)
    ck.explore("truncations", g_cut, b_cut)

    # 3. every byte of the delta
    def g_byte():
        for n in names:
            for i, b in enumerate(L_[n][1]):
                for v in byte_values(b, th or n in ("r3", "rid", "s1", "s2", "s3")):
                    yield n, i, v

    def b_byte(ctx, c):
        n, i, v = c
        raw, old, new = base(ctx, n)
        applied(ctx, raw[:i] + bytes([v]) + raw[i + 1:], old, new, "a changed byte", c)
    ck.explore("bytes", g_byte, b_byte)

    # 4. every byte of the stream of deltas that carry no digest of the whole package (lead and signature excepted:
    #    nothing covers these then)
    def g_nb():
        for n in ("s3", "s1", "r3"):
            off = 0
            for f, w in zip(L_[n][2], L_[n][3]):
                for k in range(w):
                    if f not in ("leadsig", "leadsig_len", "tgt_md5"):
                        for x in ((1, 2, 4, 8, 16, 32, 64, 128, 255) if not th else range(1, 256)):
                            yield n, f, k, x

    def b_nb(ctx, c):
        n, f, k, x = c
        raw, old, new = base(ctx, n)
        z = ctx.cache.get(("z", n))
        if z is None:
            z = ctx.cache[("z", n)] = no_md5(raw)
        b = dict(DL.stream_fields(DL.parse(z)))[f]
        applied(ctx, change_field(z, {f: b[:k] + bytes([b[k] ^ x]) + b[k + 1:]}, G.NONE), old, new, "a changed byte, no full digest", c)
    ck.explore("bytes without digest", g_nb, b_nb)

    # 5. fields swapped between two deltas, one and two at a time
    def others(ctx, n):
        """deltas that share something with the base: same source, same target, other content"""
        k = ("others", n)
        if k not in ctx.cache:
            raw, old, new = base(ctx, n)
            n2 = built(replace(new.pkg, files=[R("/a", tweak(A, step=8)), R("/b", B_ + b"-" + C_), L("/l", "zy")]))
            o2 = built(replace(old.pkg, files=[R("/a", tweak(A, step=16)), R("/b", C_ + B_), L("/l", "zz"), R("/cfg", b"dd", flags=G.F_CONFIG)]))
            opt = dict(BASES)[n]
            ctx.cache[k] = [(make(ctx, old, n2, opt), n2), (make(ctx, o2, new, opt), new), (make(ctx, o2, n2, opt), n2)]
        return ctx.cache[k]

    SW = ["src_nevr", "sequence", "tgt_md5", "tgt_size", "tgt_comp", "tgt_header_len", "leadsig", "payfmt_off", "int_copies", "ext_copies",
          "ext_data_len", "add_data", "int_data", "offadj", "header", "tgt_nevr"]
    ATTR = {"leadsig_len": None}

    def g_sw():
        for n in ("s3", "s2", "s1", "r3"):
            for k in range(3):
                for i in range(1, 5 if th else 4):
                    for fs in itertools.combinations(SW, i):
                        yield n, k, fs

    def b_sw(ctx, c):
        n, k, fs = c
        raw, old, new = base(ctx, n)
        oraw, onew = others(ctx, n)[k]
        d, e = DL.parse(raw), DL.parse(oraw)
        d.comp = e.comp = G.NONE
        for f in fs:
            if f == "tgt_comp":
                d.tgt_algo, d.comp_param = e.tgt_algo, e.comp_param
            elif f == "add_data":
                d.add_data, d.add_outer = e.add_data, e.add_outer
            elif f == "header":
                d.header, d.lead = e.header, e.lead
            else:
                setattr(d, f, getattr(e, f))
        # the digest says which package is meant
        want = onew if "tgt_md5" in fs else new
        applied(ctx, DL.encode(d), old, want, "fields of another delta", c)
    ck.explore("swapped fields", g_sw, b_sw)

    # 6. every byte of, and every cut through, the old package
    def oldlens():
        return len(built(old_pkg()).raw)

    def g_ob():
        raw = built(old_pkg()).raw
        for n in ("s3", "s1", "r3", "rid", "sid"):
            for i, b in enumerate(raw):
                for v in byte_values(b, th):
                    yield n, i, v
            for k in range(len(raw)):
                yield n, k, "cut"
            for e in range(1, 6):
                yield n, e, "ext"

    def b_ob(ctx, c):
        n, i, v = c
        raw, old, new = base(ctx, n)
        o = old.raw[:i] if v == "cut" else old.raw + b"\0" * i if v == "ext" else old.raw[:i] + bytes([v]) + old.raw[i + 1:]
        applied(ctx, raw, o, new, "an altered old package", c)
    ck.explore("altered old packages", g_ob, b_ob)

    # 7. old packages whose archive is another one, well compressed: every byte of the archive
    def g_oa():
        a = built(old_pkg()).archive
        for n in ("s3", "s1", "r3"):
            for i in range(len(a)):
                for x in (1, 2, 4, 8, 0x10, 0x20, 0x80) if not th else range(1, 256):
                    yield n, i, x
            for i in range(len(a)):
                yield n, i, "cut"
                yield n, i, "ins"
                yield n, i, "del"

    def b_oa(ctx, c):
        n, i, x = c
        raw, old, new = base(ctx, n)
        a = old.archive
        a = a[:i] if x == "cut" else a[:i] + b"0" + a[i:] if x == "ins" else a[:i] + a[i + 1:] if x == "del" else a[:i] + bytes([a[i] ^ x]) + a[i + 1:]
        o = old.lead + old.sig + old.header + G.compress(a, G.GZIP, 1)
        for m in (raw, no_md5(raw)):
            applied(ctx, m, o, new, "an altered archive", c)
    ck.explore("altered archives", g_oa, b_oa)

    # 8. installed files: every byte, cut and extension
    def g_in():
        for n in ("s3", "s1"):
            for f in range(2):
                ln = len(old_pkg().files[f].data)
                for i in range(ln):
                    for x in (1, 0x80) if not th else range(1, 256):
                        yield n, f, i, x
                    yield n, f, i, "cut"
                    yield n, f, i, "ins"
                for g in (b"\0", b"x" * 9000):
                    yield n, f, ln, g

    def b_in(ctx, c):
        n, f, i, x = c
        h = ctx.cache.get("host")
        if h is None:
            h = ctx.cache["host"] = Host(ctx)
            o = built(old_pkg(h.root))
            h.install([o])
            h.place(o.pkg)
        raw, old, new = base(ctx, n, h.root)
        fl = old.pkg.files[f]
        d = fl.data
        d = d[:i] if x == "cut" else d[:i] + b"q" + d[i:] if x == "ins" else d + x if isinstance(x, bytes) else d[:i] + bytes([d[i] ^ x]) + d[i + 1:]
        try:
            open(fl.name, "wb").write(d)
            for m in (raw, no_md5(raw)):
                applied(ctx, m, None, new, "an altered installed file", c, ex=h.ex())
        finally:
            open(fl.name, "wb").write(fl.data)
    ck.explore("altered installed files", g_in, b_in)

    # 9. copies rearranged
    def g_cp():
        for n in ("s3", "r3"):
            ni = sum(1 for f in L_[n][2] if f.startswith("int_a"))
            ne = sum(1 for f in L_[n][2] if f.startswith("ext_a"))
            for kind, k in (("int", ni), ("ext", ne)):
                for i in range(k):
                    for w in "ab":
                        for dv in list(range(-9, 0)) + list(range(1, 10)) + [64, -64, 4096, -4096]:
                            for j in range(i, k):
                                for dw in (-1, 1, -dv) if j != i else (0,):
                                    yield n, kind, i, w, dv, j, dw

    def b_cp(ctx, c):
        n, kind, i, w, dv, j, dw = c
        raw, old, new = base(ctx, n)
        d = DL.parse(raw)
        d.comp = G.NONE
        cs = d.int_copies if kind == "int" else d.ext_copies
        k = "ab".index(w)
        for at, v in ((i, dv), (j, dw)):
            e = list(cs[at])
            e[k] += v
            cs[at] = tuple(e)
        applied(ctx, DL.encode(d), old, new, "changed copies", c)
    ck.explore("changed copies", g_cp, b_cp)

    # 10. digests that agree up to a zero byte: the digest of the package, of its signature, of the sequence, of the old package
    def zeros(kind, k):
        sz = starts_zero
        md = lambda b: hashlib.md5(b).digest()
        f = [R("/a", A), R("/b", B_ + C_)]
        salted = lambda i: Pkg(files=f, version="2", level=1, summary="%d.%d" % (k, i))
        if kind in ("full", "signature", "rpmonly signature"):
            val = (lambda b: md(b.raw)) if kind == "full" else lambda b: md(b.header + b.payload)
            new = search(lambda i: G.build(salted(i)), lambda b: sz(val(b)))
            old = built(Pkg(files=f))

            def other(i):
                a = new.archive.replace(A, A[:20] + b"%08d" % i + A[28:])
                return a, G.compress(a, G.GZIP, 1)
            a, z = search(other, lambda x: sz(md((new.leadsig if kind == "full" else b"") + new.header + x[1])))
            return old, new, a
        if kind == "sequence":
            mk = lambda i: Pkg(files=[R("/a%d" % i, A), R("/b", B_ + C_)])
            old = search(mk, lambda p: sz(G.sequence(p)))
            n = int(old.files[0].name[2:])
            oth = search(lambda i: replace(mk(n), files=[R(old.files[0].name, b"%064d" % i), R("/b", B_ + C_)]), lambda p: sz(G.sequence(p)))
        else:
            mk = lambda i: G.build(Pkg(files=[R("/a", A), R("/b", B_ + C_)], summary="%d" % i))
            old = search(mk, lambda b: sz(md(b.header + b.payload)))
            oth = search(lambda i: G.build(Pkg(files=[R("/a", b"%064d" % i), R("/b", B_ + C_)], summary=old.pkg.summary)), lambda b: sz(md(b.header + b.payload)))
            return old, G.build(salted(0)), oth
        return G.build(old), G.build(salted(0)), G.build(oth)

    def g_z():
        for k in range(4 if th else 2):
            for kind in ("full", "signature", "rpmonly signature", "sequence", "old package"):
                yield kind, k

    def b_z(ctx, c):
        kind, k = c
        old, new, x = zeros(kind, k)
        raw = make(ctx, old, new, "t0=%d;k0=0,1;n0" % (kind in ("rpmonly signature", "old package")))
        if kind in ("sequence", "old package"):
            for m in (raw, no_md5(raw)):
                applied(ctx, raw, x, new, "a digest that begins alike (%s)" % kind, c)
            return
        # the same target, and the whole archive as data of its own
        d = DL.parse(raw if kind == "full" else no_md5(raw))
        hd = new.header if d.rpmonly else b""
        for data in (new.archive, x):
            d.ext_copies, d.int_copies, d.int_data = [], [(0, len(hd + data))], hd + data
            d.add_data = b""
            applied(ctx, DL.encode(d), old, new, "a digest that begins alike (%s)" % kind, c)
    ck.explore("digests that begin alike", g_z, b_z)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["apply"], traces_validated_against_impl=t["apply"]))
