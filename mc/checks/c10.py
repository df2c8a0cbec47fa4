"""C10: reading a delta reports exactly the values stored in it."""
from universe import *
from dataclasses import replace

LEVEL = "model_checking"
TECH = ("bounded exhaustive enumeration of delta files written field by field by an independent encoder; every query with every "
        "tag on the real reader compared with the values that were put in")

M32 = 0xffffffff
ALGOS = {0: 0, 1: 1, 2: 2, 3: 1, 4: 2, 5: 3, 6: 4, 7: 6}     # stored algorithm -> reported compression
EDGE = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0x80000001, M32]
UNSET = 0xABCD


def expected(d, path, nevr):
    """what every tag must report: tag -> (number or None, string or (), array or None)"""
    v2, v3 = d.version >= 2, d.version >= 3
    comp, hcomp = d.comp, getattr(d, "hdr_comp", 1)
    arr = lambda ps: [x & M32 for p in ps for x in p]
    hexs = lambda b: b.hex()
    cut = lambda b: b.split(b"\0")[0].decode("latin-1")
    num = {1: d.version, 2: 1 if d.rpmonly else 0, 3: comp, 7: d.tgt_size if v2 else 0,
           9: ALGOS[d.tgt_algo & 255] if v2 else hcomp,
           11: d.tgt_header_len if v3 else 0, 14: d.payfmt_off, 17: d.ext_data_len, 18: len(d.int_data)}
    st = {0: path, 4: hexs(d.sequence), 5: cut(d.src_nevr), 6: nevr, 8: hexs(d.tgt_md5),
          10: hexs(d.comp_param) if v2 and d.comp_param else None, 13: hexs(d.leadsig)}
    ar = {12: arr(d.offadj) if v3 else [], 15: arr(d.int_copies), 16: arr(d.ext_copies)}
    return num, st, ar


UINT, ULONG, ULL = {1, 2, 3, 7, 9}, {1, 2, 3, 7, 9, 11, 14}, {1, 2, 3, 7, 9, 11, 14, 17, 18}
NAMES = ["filename", "version", "type", "compression", "sequence", "source name", "target name", "target size", "target md5",
         "target compression", "compression parameter", "target header length", "offset adjustments", "lead and signature",
         "payload format offset", "internal copies", "external copies", "external data length", "internal data length"]


def compare(rep, d, path, nevr):
    num, st, ar = expected(d, path, nevr)
    g = rep["get"]
    for tag in [-1] + list(range(20)) + [1000]:
        r = g[str(tag)]
        nm = NAMES[tag] if 0 <= tag < len(NAMES) else "tag %d" % tag
        for k, (ok, how) in enumerate(((UINT, "uint"), (ULONG, "ulong"), (ULL, "ullong"))):
            rc, val = r[k]
            if (rc == OK) != (tag in ok) or rc not in (OK, ARGS):
                raise Violation("%s as %s returned %s" % (nm, how, why(rc)), key="code:%s:%s" % (nm, how))
            if rc == OK and val != num[tag]:
                raise Violation("%s as %s is %d, stored %d" % (nm, how, val, num[tag]), key="value:%s:%s" % (nm, how))
            if rc != OK and val != UNSET:
                raise Violation("%s as %s refused but written" % (nm, how), key="written:%s:%s" % (nm, how))
        rc, val = r[3]
        if (rc == OK) != (tag in st) or rc not in (OK, ARGS):
            raise Violation("%s as string returned %s" % (nm, why(rc)), key="code:%s:string" % nm)
        if rc == OK and val != st[tag]:
            raise Violation("%s is %r, stored %r" % (nm, short(val, 80), short(st[tag], 80)), key="value:%s:string" % nm)
        if rc != OK and val != "untouched":
            raise Violation("%s as string refused but written" % nm, key="written:%s:string" % nm)
        rc, val = r[4]
        if (rc == OK) != (tag in ar) or rc not in (OK, ARGS):
            raise Violation("%s as array returned %s" % (nm, why(rc)), key="code:%s:array" % nm)
        if rc == OK and val != ar[tag]:
            i = next((i for i, (x, y) in enumerate(zip(val, ar[tag])) if x != y), None)
            raise Violation("%s: %d elements, stored %d, first difference at %s" % (nm, len(val), len(ar[tag]), i), key="value:%s:array" % nm)
    if any(x != ARGS for x in rep["nulls"]):
        raise Violation("null arguments: %s" % rep["nulls"], key="nulls")
    if rep["destroy"][:2] != [0, 1]:
        raise Violation("destroy: %s" % rep["destroy"], key="destroy")


_hdr = {}


def header(comp=G.GZIP, epoch=None, name="tgt"):
    k = (comp, epoch, name)
    if k not in _hdr:
        p = Pkg(name=name, version="2.5", release="3", epoch=epoch, comp=comp, files=[R("/a", A)])
        b = G.build(p)
        _hdr[k] = (DL.set_payfmt(b.header, b"drpm"), b.lead, p.nevr)
    return _hdr[k]


LEADSIG = rnd(77, 112)


def base(kind, comp=G.NONE, **k):
    """kind: rpm-only, or the version of a standard delta"""
    d = DL.Delta(rpmonly=kind == "r", version=3 if kind == "r" else kind, comp=comp, comp_level=3,
                 src_nevr=b"src-1-1", sequence=rnd(1, 16) + (b"" if kind == "r" else b"\x02"), tgt_md5=rnd(3, 16), tgt_size=123456,
                 tgt_algo=1 | 9 << 8, leadsig=LEADSIG, payfmt_off=17, ext_data_len=1000)
    if d.rpmonly:
        d.tgt_nevr, d.tgt_header_len = b"tgt-2.5-3", 321
    else:
        d.header, d.lead, _ = header()
    return replace(d, **k)


def putdelta(d):
    return DL.encode(d)


def see(ctx, d, nevr="tgt-2.5-3", hcomp=None):
    if hcomp is not None:
        d.hdr_comp = hcomp
    p = ctx.put("d.drpm", putdelta(d))
    r = ctx.ex().dump(p)
    ctx.count("read")
    if r["rc"] != OK:
        raise Violation("reading a well-formed delta returned %s" % why(r["rc"]), key="read:%s" % why(r["rc"]))
    compare(r, d, p, nevr)
    ctx.outcome(hashlib.md5(repr(r["get"]).encode()).hexdigest()[:12])


KINDS = [1, 2, 3, "r"]


def ints(n, data):
    """n internal copies over the data"""
    out, left = [], len(data)
    for i in range(n):
        l = left if i == n - 1 else min(left, i % 3)
        out.append((i % 5, l))
        left -= l
    return out


def exts(n, total):
    out, pos = [], 0
    for i in range(n):
        l = 1 + i % 7
        to = (i * 37) % max(total - 8, 1)
        out.append((to - pos, l))
        pos = to + l
    return out


def adjs(n): return [(i * 3, -i if i % 2 else i * 5) for i in range(n)]


def run(ck, tier):
    th = tier == "thorough"

    # 1. every shape
    def g_shape():
        for kind in KINDS:
            for comp in range(7):
                for ni in range(4):
                    for ne in range(4):
                        for na in range(3 if kind in (3, "r") else 1):
                            for nd in (0, 1, 5):
                                for add in (0, 1, 3) if kind != "r" else (1, 3):
                                    yield kind, comp, ni, ne, na, nd, add

    def b_shape(ctx, c):
        kind, comp, ni, ne, na, nd, add = c
        data = rnd(5, nd)
        d = base(kind, comp, int_copies=ints(ni, data), ext_copies=exts(ne, 1000), offadj=adjs(na), int_data=data)
        if kind == "r":
            d.add_outer = rnd(6, add)
        else:
            d.add_data = rnd(6, add)
        see(ctx, d)
        ctx.sample(list(c))
    ck.explore("shapes", g_shape, b_shape)

    # 2. numbers of elements
    NS = [0, 1, 255, 256, 1023, 1024, 1025, 4096, 5000]
    if th:
        NS += [2, 511, 512, 513, 1365, 1366, 2047, 2048, 2049, 16384, 65536, 70000]

    def g_n():
        for kind in KINDS:
            for comp in (G.NONE, G.GZIP, G.ZSTD):
                for ni in NS:
                    for ne in NS:
                        for na in ((0, 1, 1024, 5000) if kind in (3, "r") else (0,)):
                            if th or comp == G.NONE or ni in (0, 1025) or ne in (1, 1024):
                                yield kind, comp, ni, ne, na

    def b_n(ctx, c):
        kind, comp, ni, ne, na = c
        data = rnd(5, 40)
        see(ctx, base(kind, comp, int_copies=ints(ni, data), ext_copies=exts(ne, 100000), offadj=adjs(na), int_data=data,
                      ext_data_len=100000, add_outer=b"x" if kind == "r" else b""))
    ck.explore("numbers of elements", g_n, b_n)

    # 3. every pair of edge values in two number fields
    FIELDS = ["tgt_size", "payfmt_off", "tgt_header_len", "ext_data_len", "adj_a", "adj_b", "ext_a", "ext_b", "int_a", "ext_back"]
    E64 = EDGE + [1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]

    def setf(d, f, v):
        if f == "adj_a":
            d.offadj = [(v, 7), (5, 6)]
        elif f == "adj_b":
            d.offadj = [(3, DL.sm(v)), (5, 6)]
        elif f == "ext_a":
            d.ext_copies = [(v & 0x7fffffff, 1)]
            d.ext_data_len = max(d.ext_data_len, (v & 0x7fffffff) + 1)
        elif f == "ext_b":
            d.ext_copies = [(1, v)]
            d.ext_data_len = max(d.ext_data_len, v + 1)
        elif f == "ext_back":       # forth, then all the way back
            v &= 0x7fffffff
            d.ext_copies = [(v, 1), (-v, 1)]
            d.ext_data_len = max(d.ext_data_len, 2)
            d.ext_data_len = max(d.ext_data_len, v + 1)
        elif f == "int_a":
            d.int_copies = [(v, 0), (1, 2)]
            d.int_data = b"ab"
        elif f == "ext_data_len":
            d.ext_data_len = max(d.ext_data_len if d.ext_copies else 0, v)
        else:
            setattr(d, f, v)

    def has(kind, f):
        return f not in ("tgt_header_len", "adj_a", "adj_b") or kind in (3, "r") if f != "tgt_size" else kind != 1

    def g_v():
        for kind in KINDS:
            fs = [f for f in FIELDS if has(kind, f)]
            for f, g in itertools.combinations(fs, 2):
                for v in E64 if f == "ext_data_len" and kind in (3, "r") else EDGE:
                    for w in E64 if g == "ext_data_len" and kind in (3, "r") else EDGE:
                        yield kind, f, v, g, w

    def b_v(ctx, c):
        kind, f, v, g, w = c
        d = base(kind, add_outer=b"q" if kind == "r" else b"")
        setf(d, f, v)
        setf(d, g, w)
        if kind in (1, 2) and d.ext_data_len > M32:
            ctx.count("not_expressible")
            return
        if d.rpmonly and d.tgt_header_len == 0:
            d.tgt_header_len = 1        # an rpm-only delta has a header part
        see(ctx, d)
    ck.explore("edge values", g_v, b_v)

    # 4. recorded compression and level
    def g_c():
        for kind in (1, 2, 3, "r"):
            for algo in ALGOS:
                for level in (0, 1, 2, 6, 9, 19, 255):
                    for hc in ((G.GZIP, G.BZIP2, G.LZMA, G.XZ, G.LZIP, G.ZSTD) if kind != "r" else (G.GZIP,)):
                        yield kind, algo, level, hc

    def b_c(ctx, c):
        kind, algo, level, hc = c
        d = base(kind, add_outer=b"q" if kind == "r" else b"")
        d.tgt_algo = algo | level << 8
        if kind != "r":
            d.header, d.lead, _ = header(hc)
        see(ctx, d, hcomp=hc)
    ck.explore("recorded compression", g_c, b_c)

    # 5. lengths of the variable parts
    LENS = list(range(0, 20)) + [63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 20000]

    def g_s():
        for kind in KINDS:
            for comp in range(7) if th else (G.NONE, G.GZIP, G.XZ):
                for part in ("src", "src0", "seq", "param", "lead", "add", "int", "nevr", "nevr0", "md5"):
                    for n in LENS:
                        if part in ("param",) and kind == 1 or part == "seq" and kind == "r" or part[:4] == "nevr" and kind != "r":
                            continue
                        if part == "add" and kind == "r" and n == 0:
                            continue
                        yield kind, comp, part, n

    def text(n): return bytes(33 + (i * 7) % 90 for i in range(n))

    def b_s(ctx, c):
        kind, comp, part, n = c
        d = base(kind, comp, add_outer=b"q" if kind == "r" else b"")
        nevr = "tgt-2.5-3"
        if part == "src":
            d.src_nevr = text(n)
        elif part == "src0":        # something behind the terminator
            d.src_nevr = text(n) + b"\0behind"
        elif part == "seq":
            d.sequence = rnd(9, 16 + n)
        elif part == "param":
            d.comp_param = rnd(9, n)
        elif part == "lead":
            d.leadsig = rnd(9, 112 + n)
        elif part == "add":
            d.add_outer, d.add_data = (rnd(9, n), b"") if kind == "r" else (b"", rnd(9, n))
        elif part == "int":
            d.int_data = rnd(9, n)
            d.int_copies = ints(3, d.int_data)
        elif part == "nevr":
            d.tgt_nevr = text(n)
            nevr = text(n).decode()
        elif part == "nevr0":
            d.tgt_nevr = text(n) + b"\0behind"
            nevr = text(n).decode()
        elif part == "md5":
            d.tgt_md5 = bytes([n & 255] * 16)
        see(ctx, d, nevr)
    ck.explore("lengths", g_s, b_s)

    # 6. every byte in the strings and digests; target names from the header
    def g_b():
        for kind in KINDS:
            for b in range(256):
                yield kind, "byte", b
        for kind in (1, 2, 3):
            for ep in (None, 0, 1, 7, 2 ** 31, 2 ** 32 - 1):
                for nm in ("t", "tgt", "a-b-c", "x" * 300, "lib++2"):
                    yield kind, ep, nm

    def b_b(ctx, c):
        kind = c[0]
        d = base(kind, add_outer=b"q" if kind == "r" else b"")
        nevr = "tgt-2.5-3"
        if c[1] == "byte":
            b = bytes([c[2]])
            d.src_nevr = b"a" + b + b"c"
            d.tgt_md5, d.leadsig, d.comp_param, d.sequence = b * 16, b * 112, b * 3, b * 16
            if kind == "r":
                d.tgt_nevr = b"q" + b
                nevr = d.tgt_nevr.split(b"\0")[0].decode("latin-1")
        else:
            d.header, d.lead, nevr = header(G.GZIP, c[1], c[2])
        see(ctx, d, nevr)
    ck.explore("contents", g_b, b_b)

    # 7. deltas made by the library, as the independent reader sees them
    def g_m():
        for i, o in enumerate(MADE):
            for j in range(len(PAIRS)):
                yield i, j

    MADE = ["t0=%d;v0=%d;k0=%d,1" % (t, v, k) for t in (0, 1) for v in (1, 2, 3) for k in (0, 1, 4) if (t, v) not in ((1, 1), (1, 2))]
    PAIRS = [([R("/a", A), R("/b", B_)], [R("/a", A1), R("/b", B_ + C_)]), ([R("/a", A)], [R("/a", A)]), ([], [R("/n", A)]),
             ([R("/a", A), D("/d"), L("/l", "a")], [R("/z", b"")]), ([R("/a", A * 300)], [R("/a", tweak(A * 300, step=50))])]

    def b_m(ctx, c):
        i, j = c
        o, n = PAIRS[j]
        old, new = built(Pkg(files=o)), built(Pkg(files=n, version="2", epoch=j or None))
        raw = make(ctx, old, new, MADE[i])
        d = DL.parse(raw)
        p = ctx.path("d.drpm")
        r = ctx.ex().dump(p)
        ctx.count("read")
        if r["rc"] != OK:
            raise Violation("reading a made delta returned %s" % why(r["rc"]))
        d.hdr_comp = G.GZIP
        compare(r, d, p, new.pkg.nevr)
        ctx.outcome(c)
    ck.explore("made deltas", g_m, b_m)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["read"] * 22 * 5, traces_validated_against_impl=t["read"]))
