"""C18: made deltas conform to the format; conforming deltas are applied."""
from universe import *
from c01 import opkg, npkg

LEVEL = "model_checking"
TECH = ("bounded exhaustive enumeration: every made delta decoded and executed by an independent implementation of the "
        "format, and every small arrangement of copies encoded independently and replayed on the library")


def sgn(v): return v - (1 << 32) if v & 0x80000000 else v


def expect_offadj(p):
    """pairs mapping the filtered archive to the original one"""
    order = p.order if p.order is not None else range(len(p.files))
    used = set(G.used_files(p))
    pos = fpos = last = diff = 0
    out = []
    for i in order:
        f = p.files[i]
        if not f.payload:
            continue
        d = f.linkto.encode() if f.kind == "link" else (f.data if f.kind == "reg" else b"")
        if f.cpio_data is not None:
            d = f.cpio_data
        nm = p.prefix + f.name.lstrip("/") if p.prefix != "/" else f.name
        n = len(G.cpio_entry(nm, f.mode, d))
        if i in used:
            k = len(G.cpio_entry("./" + f.name.lstrip("/"), f.mode, d))
            if pos - fpos != diff:
                out.append((fpos - last, pos - fpos - diff))
                last, diff = fpos, pos - fpos
            fpos += k
        pos += n
    return out


def eq(name, got, want):
    if got != want:
        raise Violation("%s in the delta is %r, expected %r" % (name, short(got, 120), short(want, 120)), key="field:" + name)


def verify(raw, old, new, ver, ro, comp=None, addblk=None, solo=False):
    """raw: the delta; old/new: Built.  Checks it against the format."""
    try:
        d = DL.parse(raw)
    except DL.Bad as e:
        raise Violation("delta does not parse: %s" % e, key="parse:%s" % e)
    eq("type", d.rpmonly, ro)
    eq("version", d.version, ver)
    if d.trailing:
        raise Violation("data after the compressed stream", key="trailing")
    if comp is not None:
        eq("stream compression", d.comp, comp)
    eq("source name", d.src_nevr, old.pkg.nevr.encode())
    eq("target md5", d.tgt_md5, hashlib.md5(new.raw).digest())
    if ver >= 2:
        eq("target size", d.tgt_size, len(new.raw))
        if not (ro and solo):
            eq("target compression", d.tgt_algo, DL.ALGO_OF[new.pkg.comp] | (new.pkg.level << 8 if new.pkg.comp else 0))
    eq("lead and signature", d.leadsig, new.leadsig)
    if ro:
        eq("target name", d.tgt_nevr, new.pkg.nevr.encode())
        eq("sequence", d.sequence, hashlib.md5(old.header + old.payload).digest())
        if not solo:
            eq("target header length", d.tgt_header_len, len(new.header))
            eq("payload format offset", d.payfmt_off, DL.header_tags(new.header)[0][1124][1])
            eq("external data length", d.ext_data_len, len(old.header) + len(old.archive))
    else:
        eq("sequence", d.sequence, G.sequence(old.pkg))
        eq("delta header", DL.set_payfmt(d.header, b"cpio"), new.header)
        if ver >= 3:
            eq("target header length", d.tgt_header_len, 0)
        eq("payload format offset", d.payfmt_off, DL.header_tags(new.header)[0][1124][1])
        eq("external data length", d.ext_data_len, len(G.filtered_archive(old.pkg)))
        if ver >= 3:
            eq("offset adjustments", d.offadj, expect_offadj(old.pkg))
        # the RPM envelope of the delta itself: size and digest over header and stream
        body = d.header + raw[len(d.lead) + len(d.sig) + len(d.header):]
        t, data = DL.header_tags(d.sig)
        if 1000 in t:
            off = t[1000][1]
            eq("signature size", struct.unpack(">I", data[off:off + 4])[0], len(body))
        if 1004 in t:
            off = t[1004][1]
            eq("signature md5", data[off:off + 16], hashlib.md5(body).digest())
        else:
            raise Violation("no digest in the delta's signature", key="field:signature md5")
    if addblk is False and d.add:
        raise Violation("add block although switched off", key="addblk")
    if ro and solo:
        eq("copies", (d.int_copies, d.ext_copies), ([], []))
        return d
    try:
        h, pl = DL.apply_(d, old)
    except DL.Bad as e:
        raise Violation("carrying out the copies: %s" % e, key="copies:%s" % str(e)[:40])
    eq("resulting header", h, new.header)
    eq("resulting archive", pl, new.archive)
    return d


import struct


def arrangements(n_ext, ext_len, starts, lens, ints):
    """all lists of (external copies before each internal copy) with n_ext external copies in all"""
    for cps in itertools.product([(s, l) for s in starts for l in lens if s + l <= ext_len], repeat=n_ext):
        for splits in compositions(n_ext, len(ints)):
            yield cps, splits


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for r in compositions(n - a, k - 1):
            yield (a,) + r


def synth(old, cps, splits, ints, ver, ro, add=None, comp=G.GZIP, tcomp=G.GZIP, tlevel=1, addcomp=G.GZIP):
    """An independently encoded delta that carries out exactly these copies, and the package it yields.
    cps: absolute (start, length); ints: internal pieces; add: bytes added to the copied data (same total length)"""
    ext = old.header + old.archive if ro else G.filtered_archive(old.pkg)
    out, ap, k = bytearray(), 0, 0
    for n, piece in zip(splits, ints):
        for s, l in cps[k:k + n]:
            b = ext[s:s + l]
            if add is not None:
                b = bytes((x + y) & 255 for x, y in zip(b, add[ap:ap + l]))
                ap += l
            out += b
        k += n
        out += piece
    out = bytes(out)
    rel, pos = [], 0
    for s, l in cps:
        rel.append((s - pos, l))
        pos = s + l
    d = DL.Delta(rpmonly=ro, version=ver, comp=comp, comp_level=1, src_nevr=old.pkg.nevr.encode(),
                 ext_data_len=len(ext), ext_copies=rel, int_copies=[(n, len(p)) for n, p in zip(splits, ints)],
                 int_data=b"".join(ints))
    if add is not None:
        a = G.compress(add[:ap], addcomp, 1)
        if ro:
            d.add_outer = a
        else:
            d.add_data = a
    d.tgt_algo = DL.ALGO_OF[tcomp] | tlevel << 8
    lead = bytes([0xed, 0xab, 0xee, 0xdb, 3, 0]) + b"\0\0\0\1" + b"synth".ljust(66, b"\0") + b"\0\1\0\5" + b"\0" * 16
    if ro:
        # the output begins with "the header"
        hl = len(out) // 2 or 1
        hdr, arch = out[:hl], out[hl:]
        d.tgt_header_len = hl
        d.tgt_nevr = b"pkg-2-1"
        d.sequence = hashlib.md5(old.header + old.payload).digest()
    else:
        np = replace(old.pkg, version="2", comp=tcomp, level=tlevel, payload=out)
        hdr, arch = G.HDR_MAGIC + G.hdr_blob(G.header_entries(np), 63), out
        d.header = DL.header_with_payfmt(np, "drpm")
        d.lead = lead
        d.sequence = G.sequence(old.pkg)
    body = hdr + G.compress(arch, tcomp, tlevel)
    sig = G.HDR_MAGIC + G.hdr_blob([(1000, G.I32, [len(body)]), (1004, G.BIN, hashlib.md5(body).digest())], 62)
    sig += b"\0" * (-len(sig) % 8)
    d.leadsig = lead + sig
    full = d.leadsig + body
    d.tgt_md5 = hashlib.md5(full).digest()
    d.tgt_size = len(full)
    return d, full


def run_synth(ctx, old, c, **k):
    d, full = synth(old, **k)
    ctx.put("d.drpm", DL.encode(d))
    ex = ctx.ex()
    r = ex.apply(putc(ctx, "old.rpm", old), ctx.path("d.drpm"), ctx.path("out.rpm"))
    ctx.count("apply")
    if r["rc"] != OK:
        raise Violation("a conforming delta was refused with %s" % why(r["rc"]), key="synth:%s" % why(r["rc"]))
    if slurp(ctx.path("out.rpm")) != full:
        raise Violation("OK but wrong output for a conforming delta", key="synth:wrong")
    ctx.outcome(c)


from dataclasses import replace


def run(ck, tier):
    th = tier == "thorough"
    KU = kinds_universe(False)
    step = 1 if th else 2

    def g_kinds():
        for i in range(0, len(KU)):
            for j in range(0, len(KU), step):
                yield i, j, 1 + (i + j // step) % 3

    def b_kinds(ctx, c):
        i, j, v = c
        o, n = built(opkg(KU[i])), built(npkg(KU[j]))
        d = make(ctx, o, n, FAST + ";v0=%d" % v)
        verify(d, o, n, v, False, G.GZIP)
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("standard: kinds x kinds", g_kinds, b_kinds)

    def g_ro():
        for i in range(0, len(KU), 1 if th else 2):
            for j in range(0, len(KU), 2 if th else 3):
                yield i, j, (i + j) & 1

    def b_ro(ctx, c):
        i, j, s = c
        o, n = built(opkg(KU[i], source=bool(s))), built(npkg(KU[j], source=bool(s)))
        d = make(ctx, o, n, FAST + ";t0=1")
        verify(d, o, n, 3, True, G.GZIP)
        ctx.outcome(c)
    ck.explore("rpm-only: kinds x kinds", g_ro, b_ro)

    W = list(dict.fromkeys(list(words("AaB", 3)) + [w + x for w in words("AB", 2) for x in ("s", "sA", "sa")]))

    def g_words():
        for o in W:
            for n in W:
                for m in range(4):
                    yield o, n, m

    def b_words(ctx, c):
        a, b, m = c
        ro, blk = bool(m & 1), bool(m & 2)
        o, n = built(opkg([R("/f", word_bytes(a))])), built(npkg([R("/f", word_bytes(b))]))
        d = make(ctx, o, n, FAST + (";b0=1,1" if blk else ";n0") + (";t0=1" if ro else ""))
        d = verify(d, o, n, 3, ro, G.GZIP, addblk=blk)
        ctx.outcome((len(d.int_copies), tuple(d.ext_copies), len(d.add)))
    ck.explore("content words", g_words, b_words)

    def g_solo():
        for i in range(len(KU)):
            for v in (1, 2, 3, 0):
                for side in (0, 1):
                    yield i, v, side

    def b_solo(ctx, c):
        i, v, side = c
        p = built(opkg(KU[i]))
        d = make(ctx, p if side else None, None if side else p, FAST + (";v0=%d" % v if v else ";t0=1"))
        verify(d, p, p, v or 3, not v, G.GZIP, solo=True) if not v else verify(d, p, p, v, False, G.GZIP)
        ctx.outcome(c)
    ck.explore("single package", g_solo, b_solo)

    # offset adjustments, prefixes, skipped files, orders
    def g_off():
        for n in (2, 3, 4):
            for p in itertools.permutations(range(n)):
                for skip in range(1 << n):
                    for pre in ("./", "/", ""):
                        yield p, skip, pre

    def b_off(ctx, c):
        p, skip, pre = c
        fs = [R("/f" + "x" * i, rnd(20 + i, 5 + 3 * i), flags=G.F_CONFIG if skip >> i & 1 else 0) for i in range(len(p))]
        o = built(opkg(fs, order=list(p), prefix=pre))
        n = built(npkg([R("/q", A)]))
        d = make(ctx, o, n)
        d = verify(d, o, n, 3, False)
        ctx.outcome((tuple(d.offadj), len(d.sequence)))
    ck.explore("offset adjustments", g_off, b_off)

    # device numbers; names like the one that ends an archive
    def g_dev():
        for kind in ("chr", "blk"):
            for r in sorted({0, *(1 << b for b in range(16)), *((1 << b) - 1 for b in range(1, 17)), *(0xffff ^ 1 << b for b in range(16)), 0x1234, 0x8180}):
                yield kind, r
        T = "TRAILER!!!"
        for nm in [T[:k] for k in range(1, 10)] + [T + x for x in ("x", "!", "/x", " ", ".txt")] + ["x" + T, "x/" + T, "trailer!!!", T[:9] + "?", "a" + T[1:], T[1:]]:
            for pre in ("", "./"):
                yield nm, pre

    def b_dev(ctx, c):
        a, b = c
        if a in ("chr", "blk"):
            fs = [File("/dev/x", kind=a, rdev=b), R("/f", A)]
            o, n = built(opkg(fs)), built(npkg([R("/f", A1)]))
        else:
            fs = [R("/a", A), R("/" + b.replace("./", "") + a, B_), R("/z", C_)]
            o, n = built(opkg(fs, prefix=b, source=b == "")), built(npkg([R("/z", C_ + b"1"), R("/a", A1 + B_)], prefix=b, source=b == ""))
        verify(make(ctx, o, n), o, n, 3, False)
        apply(ctx, o, n)
        ctx.outcome(c)
    ck.explore("device numbers and trailer-like names", g_dev, b_dev)

    # larger diffs: random-looking content cut and pasted; the diff's output must add up
    def g_cut():
        L_ = (31, 32, 33, 64, 100, 255, 256, 1024)
        for a in L_:
            for b in L_:
                for k in range(6):
                    for ro in (0, 1):
                        yield a, b, k, ro

    def b_cut(ctx, c):
        a, b, k, ro = c
        x, y, z = rnd(30, a), rnd(31, b), rnd(32, 70)
        od = x + z + y
        nd = [y + z + x, x + x + y, tweak(x, step=11) + y + y, z[:10] + x + z[10:] + y, y[1:] + x[:-1], x + b"" + tweak(z, step=5) + y][k]
        o, n = built(opkg([R("/f", od)])), built(npkg([R("/f", nd)]))
        d = make(ctx, o, n, FAST + ";b0=1,1" + (";t0=1" if ro else ""))
        d = verify(d, o, n, 3, bool(ro))
        ctx.outcome((len(d.int_copies), tuple(d.ext_copies), len(d.add)))
    ck.explore("cut and paste", g_cut, b_cut)

    # the other direction: every small arrangement of copies, encoded independently
    OLD = built(opkg([R("/f", rnd(40, 300)), R("/g", rnd(41, 77))]))

    def g_arr():
        el = len(G.filtered_archive(OLD.pkg))
        starts, lens = (0, 1, 200, el - 10), (1, 10, 150)
        for ne in (0, 1, 2):
            for ints in ((b"i",), (b"i", b""), (b"", b"yes", b"")):
                for cps, sp in arrangements(ne, el, starts, lens, ints):
                    if not ne and not any(ints):
                        continue
                    for v in (1, 2, 3):
                        yield cps, sp, ints, v, None
        for cps, sp in arrangements(3, el, (0, 200, el - 10), (1, 10) if not th else (1, 10, 150), (b"p", b"q")):
            yield cps, sp, (b"p", b"q"), 3, None
        for ne in (1, 2):
            for cps, sp in arrangements(ne, el, (0, 200), (1, 150), (b"p",)):
                for a in (0, 1, 128, 255):
                    yield cps, sp, (b"p",), 3, a

    def b_arr(ctx, c):
        cps, sp, ints, v, a = c
        add = None
        if a is not None:
            add = bytes((a + k) & 255 for k in range(400))
        run_synth(ctx, OLD, c, cps=cps, splits=sp, ints=ints, ver=v, ro=False, add=add)
    ck.explore("arrangements (standard)", g_arr, b_arr)

    def g_arr2():
        el = len(OLD.header + OLD.archive)
        hl = len(OLD.header)
        for ne in (1, 2):
            for ints in ((b"header",), (b"", b"header", b"")):
                for cps, sp in arrangements(ne, el, (0, 1, hl - 5, hl, el - 10), (1, 10, 150), ints):
                    for a in (None, 77):
                        yield cps, sp, ints, a

    def b_arr2(ctx, c):
        cps, sp, ints, a = c
        add = bytes((a + k) & 255 for k in range(400)) if a is not None else None
        run_synth(ctx, OLD, c, cps=cps, splits=sp, ints=ints, ver=3, ro=True, add=add)
    ck.explore("arrangements (rpm-only)", g_arr2, b_arr2)

    # across internal blocks: starts and lengths around multiples of the block size
    BIG = built(opkg([R("/f", rnd(42, 20000)), R("/g", rnd(43, 9000))]))

    def g_big():
        el = len(G.filtered_archive(BIG.pkg))
        P = (0, 1, 8191, 8192, 8193, 16384, el - 1)
        Ls = (1, 8191, 8192, 8193, 16384)
        for ro in (0, 1):
            for cps, sp in arrangements(2 if th else 2, el, P, Ls, (b"headeri",)):
                if th or (cps[0][0] + cps[1][1]) % 3 == ro:
                    yield cps, sp, ro

    def b_big(ctx, c):
        cps, sp, ro = c
        run_synth(ctx, BIG, c, cps=cps, splits=sp, ints=(b"headeri",), ver=3, ro=bool(ro))
    ck.explore("arrangements across blocks", g_big, b_big)

    # every stream compression x add block compression x target compression
    def g_comp():
        for sc in (G.NONE, G.GZIP, G.BZIP2, G.LZMA, G.XZ, G.LZIP, G.ZSTD):
            for ac in (None, G.GZIP, G.BZIP2, G.LZMA, G.XZ, G.LZIP, G.ZSTD):
                for tc in (G.GZIP, G.BZIP2, G.LZMA, G.XZ, G.ZSTD):
                    for ro in (0, 1):
                        for v in ((3,) if ro else (2, 3)):
                            yield sc, ac, tc, ro, v

    def b_comp(ctx, c):
        sc, ac, tc, ro, v = c
        add = bytes((7 * k) & 255 for k in range(400)) if ac is not None else None
        run_synth(ctx, OLD, c, cps=((0, 100), (50, 200)), splits=(1, 1), ints=(b"header", b"x"), ver=v, ro=bool(ro),
                  add=add, comp=sc, tcomp=tc, tlevel=1 if tc != G.LZMA else 2, addcomp=ac or G.GZIP)
    ck.explore("stream x add block x target compression", g_comp, b_comp)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["make"] + t["apply"],
                          traces_validated_against_impl=t["make"] + t["apply"]))
