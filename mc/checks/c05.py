"""C05: malformed delta files are rejected without memory errors or hangs."""
import struct

from mutate import *

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of one- and two-point mutations of base deltas (every truncation, byte, field), and of all short files, "
        "executed on the real code under AddressSanitizer with a time and allocation limit")
NOTE = ("Every mutant within the stated bounds is read, checked and applied by the real library code (clang, AddressSanitizer, allocation cap, "
        "time limit); the verdict needs only a documented return code and an undisturbed process. Trusts AddressSanitizer to notice bad "
        "accesses of the library's own memory.")


def documented(r, what):
    if r["rc"] not in ERR:
        raise Violation("%s returned the undocumented code %r" % (what, r["rc"]), key="code")


def exercise(ctx, raw, old, db=False, every=True):
    """reads, checks and applies a delta file"""
    p = ctx.put("m.drpm", raw)
    out = ctx.path("out.rpm")
    h = host(ctx) if db else None
    ex = h.ex() if db else ctx.ex()
    rc = []
    r = ex.read(p)
    documented(r, "read")
    rc.append(r["rc"])
    r = ex.apply(putc(ctx, "old.rpm", old), p, out)
    documented(r, "apply")
    rc.append(r["rc"])
    n = 2
    if db:
        for mode in (1, 2):
            r = ex.check(p, mode)
            documented(r, "check")
            rc.append(r["rc"])
        r = ex.apply(None, p, out)
        documented(r, "apply from installed files")
        rc.append(r["rc"])
        n += 3
    ctx.count("call", n)
    return tuple(rc)


def host(ctx):
    h = ctx.cache.get("host")
    if h is None:
        h = ctx.cache["host"] = Host(ctx)
        o = built(old_pkg(h.root))
        h.install([o])
        h.place(o.pkg)
    return h


def see(ctx, c, raw, old, db=False):
    rc = exercise(ctx, raw, old, db)
    ctx.outcome((rc, len(raw)))
    ctx.sample([list(map(str, c)), [why(x) for x in rc]])


def run(ck, tier):
    th = tier == "thorough"
    prepare(ck)
    L_ = lens()
    names = [n for n, _ in BASES]

    # 1. every truncation, and extensions
    def g_cut():
        for n in names:
            for k in range(L_[n][0]):
                yield n, k
            for e in (b"\0", b"\xff", b"\0" * 8, b"\x1f\x8b", b"x" * 5000):
                yield n, e

    def b_cut(ctx, c):
        n, k = c
        raw, old, new = base(ctx, n)
        see(ctx, c, raw[:k] if isinstance(k, int) else raw + k, old)
    ck.explore("truncations", g_cut, b_cut)

    # 2. every byte
    def g_byte():
        for n in names:
            for i, b in enumerate(L_[n][1]):
                for v in byte_values(b, th or n in ("r3", "rid", "s1")):
                    yield n, i, v

    def b_byte(ctx, c):
        n, i, v = c
        raw, old, new = base(ctx, n)
        see(ctx, c, raw[:i] + bytes([v]) + raw[i + 1:], old)
    ck.explore("bytes", g_byte, b_byte)

    # 3. every number field, over the edge values, in a stream that stays well compressed
    FB = ["s3", "s2", "s1", "r3", "rid", "s3b0"]

    def nums(n): return [f for f, w in zip(L_[n][2], L_[n][3]) if is_number(f, w)]

    def vals(n, f):
        w = dict(zip(L_[n][2], L_[n][3]))[f]
        vs = EDGE32 + [len_ for len_ in (1 << 32, (1 << 32) + 1, (1 << 40), (1 << 63) - 1, 1 << 63, (1 << 64) - 1) if w == 8]
        return vs

    def g_f():
        for n in FB:
            for f in nums(n):
                for v in vals(n, f):
                    for comp in (G.NONE, G.GZIP) if not th else range(7):
                        yield n, f, v, comp
                for dv in (-3, -2, -1, 1, 2, 3):
                    yield n, f, "%+d" % dv, G.NONE

    def delta_of(raw, f, v):
        if isinstance(v, int):
            return v
        b = dict(DL.stream_fields(DL.parse(raw)))[f]
        return int.from_bytes(b, "big") + int(v)

    def b_f(ctx, c):
        n, f, v, comp = c
        raw, old, new = base(ctx, n)
        see(ctx, c, change_field(raw, {f: delta_of(raw, f, v)}, comp), old, db=False)
    ck.explore("fields", g_f, b_f)

    # 4. every pair of number fields
    def g_ff():
        for n in ("s3", "s1", "r3"):
            fs = nums(n)
            big = set(f for f in fs if not f[-1].isdigit())
            for f, g in itertools.combinations(fs, 2):
                if f in big or g in big or th:
                    for v in FEW32:
                        for w in FEW32:
                            yield n, f, v, g, w

    def b_ff(ctx, c):
        n, f, v, g, w = c
        raw, old, new = base(ctx, n)
        see(ctx, c, change_field(raw, {f: v, g: w}, G.NONE), old)
    ck.explore("pairs of fields", g_ff, b_ff)

    # 5. streams cut after every byte but well compressed
    def g_sc():
        for n in FB:
            for k in range(sum(L_[n][3])):
                for comp in (G.GZIP, G.XZ, G.ZSTD) if not th else range(1, 7):
                    yield n, k, comp

    def b_sc(ctx, c):
        n, k, comp = c
        raw, old, new = base(ctx, n)
        d = DL.parse(raw)
        s = b"".join(b for _, b in DL.stream_fields(d))[:k]
        d.comp, d.comp_level = comp, 1
        see(ctx, c, DL.wrap(d, s), old)
    ck.explore("short streams", g_sc, b_sc)

    # 6. copies: every small arrangement, in bounds or not
    def g_cp():
        for kind in ("s3", "r3"):
            for ni in range(3):
                for ia in itertools.product((0, 1, 2, 0xffffffff), repeat=ni):
                    for ib in itertools.product((0, 1, 9, 0xffffffff), repeat=ni):
                        for ne in range(3):
                            for ea in itertools.product((0, -1, 5, 0x7fffffff), repeat=ne):
                                for eb in itertools.product((0, 1, 0xffffffff), repeat=ne):
                                    yield kind, ia, ib, ea, eb

    def b_cp(ctx, c):
        kind, ia, ib, ea, eb = c
        raw, old, new = base(ctx, kind)
        d = DL.parse(raw)
        d.comp = G.NONE
        d.int_copies, d.ext_copies = list(zip(ia, ib)), list(zip(ea, eb))
        see(ctx, c, DL.encode(d), old)
    ck.explore("copies", g_cp, b_cp)

    # 7. external data lengths against copies that stay within them
    def g_xl():
        for kind in ("s3", "r3"):
            for L in [0, 1, 109, 110, 1000, 8191, 8192, 8193, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 45, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]:
                for at in (0, 1, 100, L - 1, L // 2, L):
                    for n in (0, 1, 2, 300, 20000):
                        if 0 <= at and at + n <= L and at + n < 1 << 31:
                            yield kind, L, at, n

    def b_xl(ctx, c):
        kind, L, at, n = c
        raw, old, new = base(ctx, kind)
        d = DL.parse(raw)
        d.comp, d.ext_data_len, d.int_copies, d.ext_copies, d.int_data = G.NONE, L, [(1, 0)], [(at, n)], b""
        d.add_data = d.add_outer = b"" if kind == "s3" else d.add_outer
        see(ctx, c, DL.encode(d), old)
    ck.explore("external lengths", g_xl, b_xl)

    # 8. add blocks: every byte, cut and size
    ADDS = [G.NONE, G.GZIP, G.BZIP2, G.LZMA, G.XZ, G.LZIP, G.ZSTD]

    def g_ab():
        for comp in ADDS:
            n = len(G.compress(b"\0" * 150, comp, 1))
            for kind in ("s3", "r3"):
                for k in range(n + 1):
                    yield kind, comp, "cut", k, 0
                for k in range(n):
                    for x in (1, 0x10, 0x80, 0xff) if not th else range(1, 256):
                        yield kind, comp, "xor", k, x
                for k in (0, 1, 2, 149, 151, 8191, 8192, 8193, 100000):
                    yield kind, comp, "len", k, 0

    def b_ab(ctx, c):
        kind, comp, how, k, x = c
        raw, old, new = base(ctx, kind)
        d = DL.parse(raw)
        d.comp = G.NONE
        z = G.compress(b"\0" * (k if how == "len" else 150), comp, 1)
        if how == "cut":
            z = z[:k]
        elif how == "xor":
            z = z[:k] + bytes([z[k] ^ x]) + z[k + 1:]
        if kind == "s3":
            d.add_data = z
        else:
            d.add_outer = z
        see(ctx, c, DL.encode(d), old)
    ck.explore("add blocks", g_ab, b_ab)

    # 9. short files, and magics with every short continuation
    def g_sh():
        for n in range(0, 3):
            for t in itertools.product(range(256) if n < 2 else range(0, 256, 5), repeat=n):
                yield "", bytes(t)
        pre = [b"drpm", b"drpmDLT3", b"drpmDLT3\0\0\0\0", b"drpmDLT3\0\0\0\1x\0\0\0\1x", b"\xed\xab\xee\xdb", b"drpmDLT3\0\0\0\0\0\0\0\0DLT3", b"\x1f\x8b\x08",
               b"drpmDLT3\0\0\0\0\0\0\0\0\x1f\x8b\x08\0", b"drpmDLT3\0\0\0\0\0\0\0\0BZh9", b"drpmDLT3\0\0\0\0\0\0\0\0\xfd7zXZ\0", b"drpmDLT3\0\0\0\0\0\0\0\0LZIP\1",
               b"drpmDLT3\0\0\0\0\0\0\0\0\x28\xb5\x2f\xfd", b"drpmDLT3\0\0\0\0\0\0\0\0]\0\0\x80\0"]
        for p in pre:
            for n in range(0, 5):
                for t in itertools.product((0, 1, 0x7f, 0x80, 0xff) if n > 1 else range(256), repeat=n):
                    yield p, bytes(t)

    def b_sh(ctx, c):
        see(ctx, c, (c[0] or b"") + c[1], built(old_pkg()))
    ck.explore("short files", g_sh, b_sh)

    # 9b. the lead and signature which the delta carries: every length, and the signature's own counts
    def g_ls():
        for n in ("s3", "s1", "r3", "rid"):
            for k in range(0, 140):
                yield n, "cut", k
                yield n, "grow", k
            for size in (16, 100, 300):
                for k in range(0, min(size, 112) + 1):
                    yield n, "plain", (size, k)
            for il in (0, 1, 2, 3, "-1", "+0", "+1", "+2", "+7", 0xffff, 0x0fffffff, 0x10000000, 0x10000001, 0x7fffffff, 0x80000000, 0xffffffff):
                for dl in ["%+d" % x for x in list(range(-40, 140)) + [-16 * 7, 256, 1024, 65536]] + [0, 1, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff]:
                    if th or il in ("+0", "-1", "+1") or isinstance(dl, int) or int(dl) % 8 == 0:
                        yield n, il, dl

    def b_ls(ctx, c):
        n, a, v = c
        raw, old, new = base(ctx, n)
        d = DL.parse(raw)
        b = d.leadsig
        if a == "cut":
            b = b[:max(len(b) - v, 0)]
        elif a == "grow":
            b = b + bytes(v)
        elif a == "plain":      # no region whose end would be missed: one entry of bytes, some of them not there
            b = b[:104] + struct.pack(">IIIIII", 1, v[0], 1004, 7, 0, v[0]) + bytes(v[0] - v[1])
        else:
            o = [int.from_bytes(b[104 + 4 * i:108 + 4 * i], "big") for i in (0, 1)]
            w = [x if isinstance(x, int) else o[i] + int(x) for i, x in enumerate((a, v))]
            b = b[:104] + b"".join((x & 0xffffffff).to_bytes(4, "big") for x in w) + b[112:]
        d.leadsig, d.comp = b, G.NONE
        see(ctx, c, DL.encode(d), old)
    ck.explore("leads and signatures", g_ls, b_ls)

    # 10. the same on a system where the old package is installed: fields and bytes of the standard deltas
    def g_db():
        for n in ("s3", "s1", "r3"):
            for f in nums(n):
                for v in EDGE32[::1 if th else 2]:
                    yield n, f, v
            for f in ("src_nevr", "sequence"):
                for k in range(40):
                    for x in (1, 0x80, 0xff, 0x30):
                        yield n, f, (k, x)

    def b_db(ctx, c):
        n, f, v = c
        h = host(ctx)
        raw, old, new = base(ctx, n, h.root)
        if not isinstance(v, int):
            b = dict(DL.stream_fields(DL.parse(raw)))[f]
            k, x = v
            if k >= len(b):
                ctx.count("past_end")
                return
            v = b[:k] + bytes([b[k] ^ x]) + b[k + 1:]
        see(ctx, c, change_field(raw, {f: v}, G.NONE), old, db=True)
    ck.explore("with the package installed", g_db, b_db)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["call"], traces_validated_against_impl=t["call"]))
