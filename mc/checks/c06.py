"""C06: malformed packages, sequences and patch lists are rejected safely; corrupt or cut payloads are errors."""
from mutate import *
import lzma as LZ, struct, zlib, rpml as PL

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of mutants of packages (every byte, cut, header index entry, tag value shape, archive field, byte and cut of the "
        "compressed payload), of sequence strings and of patch lists; each taken through every call that reads it, under AddressSanitizer and a time limit")

STD, RO = "t0=0;k0=1,1", "t0=1;k0=1,1"
ALL = ("so", "sn", "ro", "rn", "si", "ri", "as", "ar", "q")


def rich(algo="md5", comp=G.GZIP, colors=False, **k):
    return Pkg(files=[R("/a/f", A), R("/a/lib/g", B_, color=2), L("/a/l", "zz"), D("/d"), R("/cfg", b"cc", flags=G.F_CONFIG),
                      File("/dev", kind="chr", rdev=0x103)], name="mo", algo=algo, comp=comp, level=6 if comp != G.ZSTD else 3, colors=colors, **k)


BASE = {"md5": dict(), "sha": dict(algo="sha256", comp=G.XZ), "col": dict(colors=True, comp=G.ZSTD, epoch=3)}


def setup(ctx, which):
    """-> (old Built, deltas made from it, sequence)"""
    k = ("c06", which)
    if k not in ctx.cache:
        o = built(rich(**BASE[which]))
        n = built(Pkg(files=[R("/a/f", A1), R("/a/lib/g", B_ + C_)], name="mo", version="2", level=1))
        s = make(ctx, o, n, STD)
        ctx.put("good.rpm", n.raw)
        ctx.put("ds.drpm", s)
        ctx.put("dr.drpm", make(ctx, o, n, RO))
        ctx.put("olds.rpm", o.raw)
        ctx.cache[k] = o, DL.parse(s).sequence.hex()
    else:
        # another base may have been set up since
        if ctx.cache.get("c06cur") != which:
            ctx.cache.pop(k)
            ctx.cache["c06cur"] = which
            return setup(ctx, which)
    ctx.cache["c06cur"] = which
    return ctx.cache[k]


def see(ctx, c, raw, which, calls=ALL, bad=()):
    """every call on this package; those named in bad must report an error"""
    o, seq = setup(ctx, which)
    m, good, out = ctx.put("m.rpm", raw), ctx.path("good.rpm"), ctx.path("o.bin")
    ex = ctx.ex()
    res = []
    for k in calls:
        if k == "so": r = ex.make(m, good, out, STD)
        elif k == "sn": r = ex.make(good, m, out, STD)
        elif k == "ro": r = ex.make(m, good, out, RO)
        elif k == "rn": r = ex.make(good, m, out, RO)
        elif k == "si": r = ex.make(m, None, out, STD)
        elif k == "ri": r = ex.make(m, None, out, RO)
        elif k == "as": r = ex.apply(m, ctx.path("ds.drpm"), out)
        elif k == "ar": r = ex.apply(m, ctx.path("dr.drpm"), out)
        elif k == "q": r = ex.checkseq(m, seq, 0)
        elif k == "p": r = ex.make(ctx.path("olds.rpm"), good, out, STD + ";p0=%s|%s" % (ctx.path("print"), m))
        ctx.count("calls")
        if r["rc"] not in ERR:
            raise Violation("undocumented code %r from %s" % (r["rc"], k), key="code:" + k)
        if r["rc"] == OK and k in bad:
            raise Violation("a corrupt or incomplete package is accepted (%s)" % k, key="accepted:" + k)
        res.append(r["rc"])
    ctx.outcome((c[0], c[1] if isinstance(c[1], str) else 0, tuple(res)))
    ctx.sample([list(map(short, map(repr, c))), [why(x) for x in res]])


# -- header layer ----------------------------------------------------------------

def entries(blob):
    """blob with magic -> (il, dl, [(tag, type, off, count)...], data)"""
    il, dl = struct.unpack(">II", blob[8:16])
    return il, dl, [struct.unpack(">IIiI", blob[16 + 16 * i:32 + 16 * i]) for i in range(il)], blob[16 + 16 * il:16 + 16 * il + dl]





def with_header(b, hdr, sig=None):
    return b.lead + (sig if sig is not None else b.sig) + hdr + b.payload


def patch32(blob, at, v):
    return blob[:at] + struct.pack(">I", v & 0xffffffff) + blob[at + 4:]


TYPES = list(range(0, 12)) + [255, 0x10006]


def shapes(val, typ):
    """(type, value) variants of a tag's value: other counts, other types"""
    n = len(val) if isinstance(val, list) else 1
    v = val if isinstance(val, list) else [val]
    out = []
    if typ in (G.I16, G.I32):
        out += [(typ, v[:-1]), (typ, v + [1]), (typ, v * 3), (typ, [0xffff] * n), (typ, [0] * n)] + ([(typ, [])] if n else [])
        if typ == G.I32:
            out += [(typ, [0xffffffff] * n), (typ, [0x7fffffff] * n), (typ, [0x80000000] * n), (typ, [9] * n)]
        out += [(G.I16 if typ == G.I32 else G.I32, [x & 0xffff for x in v]), (G.STR, b"x"), (G.SARR, [b"x"] * n), (G.BIN, b"\1" * max(1, n)),
                (G.I18N, [b"x"] * n)]
    elif typ in (G.STR, G.I18N, G.SARR):
        out += [(typ, b"" if typ == G.STR else [b""] * n), (typ, b"A" * 70000 if typ == G.STR else [b"A" * 70000] * n),
                (typ, b"\xff\x01%s%n" if typ == G.STR else [b"\xff%s%n"] * n)]
        out += [(t, x) for t, x in ((G.STR, v[0]), (G.SARR, v), (G.I18N, v), (G.SARR, v + [b"q"]), (G.SARR, v[:-1]), (G.SARR, v * 3)) if t != typ or x != val]
        out += [(G.I32, [1] * n), (G.I16, [1] * n), (G.BIN, b"\1" * max(1, n))]
    else:
        out += [(typ, val[:-1]), (typ, val + b"\0"), (typ, b""), (G.STR, b"x"), (G.I32, [1, 2, 3, 4]), (G.SARR, [b"x"] * 16), (G.I16, [1] * 16)]
    return [x for x in out if x[1] != val or x[0] != typ]


STRINGS = {
    1124: [b"", b"drpm", b"xar", b"tar", b"cpi", b"cpioo"],
    1125: [b"", b"none", b"identity", b"lzip", b"lzma", b"xz", b"bzip2", b"zstd", b"gzipx", b"uncompressed", b"x" * 300],
    1126: [b"", b"0", b"10", b"19", b"20", b"22", b"-1", b"999999999999999999999", b"3T4", b"x", b"9x", b" 9", b"w9.gzdio", b"\xff"],
    1000: [b"", b"-", b"a-b-c", b"x" * 66000], 1001: [b"", b"1-2", b":"], 1002: [b"", b"1-2"], 1022: [b"", b"src", b"nosrc"],
}
DIG = [b"", b"0", b"z" * 32, b"0" * 31, b"0" * 33, b"0" * 30, b"0" * 34, b"0" * 63, b"0" * 64, b"0" * 65, b"0" * 62, b"0" * 66, b"0" * 128, b"0" * 4000,
       b" " * 32, b"-" * 32, b"\xff" * 32, b"+1" * 16, b"0x" * 32]


def lists_of_values(E):
    """(tag, type, value) variants that keep the shape"""
    for tag, typ, val in E:
        for s in STRINGS.get(tag, ()):
            yield tag, typ, s
        if tag == 1035:
            for i in range(len(val)):
                for d in DIG:
                    yield tag, typ, val[:i] + [d] + val[i + 1:]
        elif typ in (G.I16, G.I32) and len(val) < 10:
            for i in range(len(val)):
                for x in (FEW32 if typ == G.I32 else [0, 1, 0o100000, 0o120777, 0o40000, 0o60000, 0o140000, 0xffff]):
                    yield tag, typ, val[:i] + [x] + val[i + 1:]
        elif typ == G.SARR:
            for i in range(len(val)):
                for x in (b"", b"/", b"..", b"../../x", b"./a", b"%n%s", b"A" * 5000, b"\xff\xfe", b"TRAILER!!!"):
                    yield tag, typ, val[:i] + [x] + val[i + 1:]
    for a in FEW32 + [2, 3, 8, 9, 10, 11]:
        yield 5011, G.I32, [a]


# -- archive layer ---------------------------------------------------------------

def cpio_split(a):
    """-> list of entry byte strings"""
    out = []
    while a:
        ns, fs = int(a[94:102], 16), int(a[54:62], 16)
        n = 110 + ns
        n += -n % 4
        n += fs + -fs % 4
        out.append(a[:n])
        if a[110:110 + ns - 1] == b"TRAILER!!!":
            break
        a = a[n:]
    return out


CPIO_EDGE = [b"%08x" % v for v in (0, 1, 2, 3, 4, 10, 0x1f, 0x3f, 0x40, 0x41, 0x44, 0x7f, 0xff, 0xfff, 0x1000, 0x2000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffffff,
                                   0x80000000, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff)] + [b"0000000g", b"        ", b"-0000001", b"0x000001", b"\0" * 8, b"\xff" * 8, b"FFFFFFFF"]


def rebuild(b, arch, comp=G.GZIP):
    """the package with another archive, well compressed; header and signature as they are"""
    return b.lead + b.sig + b.header + G.compress(arch, comp, 1)


def lzip_flush(pl):
    """everything comes out of it as the trailer says: only what ends the coder's stream, and carries nothing, is odd"""
    crc, n, m = struct.unpack("<IQQ", pl[-20:])
    d = LZ.LZMADecompressor(format=LZ.FORMAT_RAW, filters=[{"id": LZ.FILTER_LZMA1, "dict_size": 1 << 27, "lc": 3, "lp": 0, "pb": 2}])
    out = b""
    try:
        for i in range(6, len(pl)):
            out += d.decompress(pl[i:i + 1])
    except Exception:
        pass
    return m == len(pl) and n == len(out) and crc == zlib.crc32(out)


def decodes(pl, comp, arch):
    """True: a complete stream; False: corrupt or incomplete; None: undecided here"""
    try:
        if comp in (G.XZ, G.LZMA):
            d = LZ.LZMADecompressor(format=LZ.FORMAT_AUTO, memlimit=200 << 20)
            d.decompress(pl)
            return bool(d.eof)
        if comp == G.LZIP and pl[:4] == b"LZIP" and (len(pl) < 7 or pl[5] & 31 > 27 or pl[6]):
            # a larger dictionary than allowed, or the coder's first byte, which says nothing
            return None if len(pl) >= 7 else False
        G.decompress(pl, comp)
        return True
    except LZ.LZMAError as e:
        if comp == G.LZIP and len(pl) > 36 and lzip_flush(pl):
            return None
        return None if "limit" in str(e).lower() else False
    except ValueError:
        return False
    except Exception:
        return False


def run(ck, tier):
    th = tier == "thorough"
    bases = list(BASE)

    # 1. every cut and every byte of the package
    def g_cut():
        for w in bases:
            for k in range(len(built(rich(**BASE[w])).raw)):
                yield w, k
        for w in bases:
            for e in (b"\0", b"\xff" * 9, b"x" * 5000):
                yield w, e

    def b_cut(ctx, c):
        w, k = c
        o, _ = setup(ctx, w)
        if isinstance(k, int):
            # without its last bytes the package is incomplete, whatever the layer
            hl = len(o.raw) - len(o.payload)
            bad = ("so", "sn", "ro", "rn", "si", "as") + (("ar", "ri", "q") if k < hl else ())
            see(ctx, c, o.raw[:k], w, bad=bad)
        else:
            see(ctx, c, o.raw + k, w)
    ck.explore("package cuts", g_cut, b_cut)

    def g_byte():
        for w in bases:
            raw = built(rich(**BASE[w])).raw
            for i, b in enumerate(raw):
                for v in byte_values(b, th):
                    yield w, i, v

    def b_byte(ctx, c):
        w, i, v = c
        o, _ = setup(ctx, w)
        see(ctx, c, o.raw[:i] + bytes([v]) + o.raw[i + 1:], w)
    ck.explore("package bytes", g_byte, b_byte)

    # 2. index entries of header and signature: every field over the edge values; entries removed, repeated, swapped
    def g_ent():
        for w in bases if th else ["md5", "sha"]:
            b = built(rich(**BASE[w]))
            for part in ("header", "sig"):
                il = entries(getattr(b, part))[0]
                for v in EDGE32 + [il - 1, il + 1]:
                    yield w, part, "il", v
                    yield w, part, "dl", v
                for i in range(il):
                    for f in range(4):
                        for v in (TYPES if f == 1 else EDGE32 if f != 0 else [0, 61, 62, 63, 64, 100, 269, 1000, 1004, 1028, 1116, 1117, 1118, 1124, 1125, 1126, 5000, 5011, 0xffffffff]):
                            yield w, part, i, f, v
                    yield w, part, i, "del", 0
                    yield w, part, i, "dup", 0
                    for j in range(i):
                        yield w, part, i, "swap", j

    def b_ent(ctx, c):
        w, part = c[:2]
        o, _ = setup(ctx, w)
        blob = getattr(o, part)
        il, dl, es, data = entries(blob)
        rest = blob[16 + 16 * il + dl:]
        if c[2] == "il":
            nb = patch32(blob, 8, c[3])
        elif c[2] == "dl":
            nb = patch32(blob, 12, c[3])
        elif c[3] in ("del", "dup", "swap"):
            if c[3] == "del":
                es = es[:c[2]] + es[c[2] + 1:]
            elif c[3] == "dup":
                es = es[:c[2]] + [es[c[2]]] + es[c[2]:]
            else:
                es[c[2]], es[c[4]] = es[c[4]], es[c[2]]
            nb = blob[:8] + struct.pack(">II", len(es), dl) + b"".join(struct.pack(">IIiI", *e) for e in es) + data + rest
        else:
            nb = patch32(blob, 16 + 16 * c[2] + 4 * c[3], c[4])
        see(ctx, c, with_header(o, nb) if part == "header" else with_header(o, o.header, nb), w)
    ck.explore("index entries", g_ent, b_ent)

    # 3. well-formed headers whose tags have other shapes, are absent, or hold odd values; two at a time for the file tags
    def E(w): return G.header_entries(rich(**BASE[w]))

    def g_tag():
        for w in bases:
            es = E(w)
            for tag, typ, val in es:
                yield w, tag, None, None
                for t, v in shapes(val, typ):
                    yield w, tag, t, v
            for tag, t, v in lists_of_values(es):
                yield w, tag, t, v

    def mk(o, changes, region=True):
        es = {t: (t, ty, v) for t, ty, v in G.header_entries(o.pkg)}
        for tag, t, v in changes:
            if t is None:
                es.pop(tag, None)
            else:
                es[tag] = (tag, t, v)
        return with_header(o, G.HDR_MAGIC + G.hdr_blob(list(es.values()), 63))

    def b_tag(ctx, c):
        w, tag, t, v = c
        o, _ = setup(ctx, w)
        see(ctx, c, mk(o, [(tag, t, v)]), w)
    ck.explore("tag shapes", g_tag, b_tag)

    FT = (1028, 1030, 1033, 1035, 1036, 1037, 1045, 1116, 1117, 1118, 1140, 5011)

    def g_tag2():
        w = "col"
        es = [e for e in E(w) if e[0] in FT]
        var = []
        for tag, typ, val in es:
            var.append((tag, None, None))
            var += [(tag, t, v) for t, v in shapes(val, typ)]
        if th:
            for a, b in itertools.combinations(var, 2):
                if a[0] != b[0]:
                    yield w, (a, b)
        # the same change of count in every subset of the file tags
        for k in range(1, len(es) + 1):
            for sub in itertools.combinations(es, k):
                for how in ("less", "more", "none"):
                    yield w, tuple((tag, typ, val[:-1] if how == "less" else val + val[:1]) if how != "none" else (tag, None, None)
                                   for tag, typ, val in sub)

    def b_tag2(ctx, c):
        w, ch = c
        o, _ = setup(ctx, w)
        see(ctx, (w, str([x[0] for x in ch])), mk(o, ch), w)
    ck.explore("tag counts together", g_tag2, b_tag2)

    # 4. the signature's tags
    def g_sig():
        w = "md5"
        for tag, typ, val in SIG:
            yield w, tag, None, None
            for t, v in shapes(val, typ):
                yield w, tag, t, v

    SIG = [(1000, G.I32, [100]), (1007, G.I32, [100]), (1004, G.BIN, b"\1" * 16), (269, G.STR, b"0" * 40)]

    def b_sig(ctx, c):
        w, tag, t, v = c
        o, _ = setup(ctx, w)
        es = {x[0]: x for x in SIG}
        es.pop(tag)
        if t is not None:
            es[tag] = (tag, t, v)
        s = G.HDR_MAGIC + G.hdr_blob(list(es.values()), 62)
        see(ctx, c, with_header(o, o.header, s + b"\0" * (-len(s) % 8)), w)
    ck.explore("signature tags", g_sig, b_sig)

    # applying to a package whose archive ends after all that is used of it is right: only making must see its end
    # 5. the archive, well compressed: every field of every entry, cuts, bytes, entries removed, repeated, swapped
    def g_arc():
        for w in bases:
            a = built(rich(**BASE[w])).archive
            es = cpio_split(a)
            for i in range(len(es)):
                for f in range(13):
                    for v in CPIO_EDGE:
                        yield w, i, f, v
                yield w, i, "del", 0
                yield w, i, "dup", 0
                for j in range(i):
                    yield w, i, "swap", j
            for k in range(len(a)):
                yield w, "cut", k, 0
                if w == "md5" or th:
                    for x in (1, 2, 0x10, 0x80) if not th else range(1, 256):
                        yield w, "byte", k, x
            for e in (b"", b"\0" * 5000, a, a[:-4] + b"\1" * 4):
                yield w, "ext", e, 0
            for ns in list(range(0, 12)) + [0xffff, 0x10000, 0x10001, 0x1000a]:
                for fs in (0, 1, 0xffffffff, 0x7fffffff):
                    yield w, "one", ns, fs

    def b_arc(ctx, c):
        w, i, f, v = c
        o, _ = setup(ctx, w)
        a = o.archive
        bad = ()
        if i == "cut":
            a = a[:f]
            bad = ("so", "si") if f < len(o.archive) - 3 else ()
        elif i == "byte":
            a = a[:f] + bytes([a[f] ^ v]) + a[f + 1:]
        elif i == "ext":
            a += f
        elif i == "one":        # one entry of this name size, and nothing behind it
            a = G.cpio_entry("x" * min(f, 20), 0o100644, b"", namesize=f, filesize=v)
            bad = ("so", "si")
        else:
            es = cpio_split(a)
            if f == "del":
                es.pop(i)
                bad = ("so", "si") if i == len(es) else ()
            elif f == "dup":
                es.insert(i, es[i])
            elif f == "swap":
                es[i], es[v] = es[v], es[i]
            else:
                at = 6 + 8 * f
                es[i] = es[i][:at] + v + es[i][at + 8:]
            a = b"".join(es)
        see(ctx, c if not isinstance(f, bytes) else (w, i), rebuild(o, a), w, calls=("so", "sn", "si", "as") + (("ro", "rn") if i in ("cut", "ext") else ()), bad=bad)
    ck.explore("archives", g_arc, b_arc)

    # 6. the compressed payload: every cut, every byte, for every compressor; and joined, repeated and replaced streams
    COMPS = (G.GZIP, G.BZIP2, G.LZMA, G.XZ, G.LZIP, G.ZSTD)

    def pay(comp, big):
        a = built(rich()).archive
        if big:
            a = G.archive(Pkg(files=[R("/a/f", A + rnd(9, 3000)), R("/z", b"\0" * 9000)]))
        return G.compress(a, comp, 3)

    def g_pay():
        for big in (0, 1):
            for comp in COMPS:
                p = pay(comp, big)
                for k in range(len(p)):
                    yield comp, big, "cut", k
                    if not big or th or k % 16 == 0 or k < 64 or k > len(p) - 64:
                        for x in ((1, 4, 0x10, 0x40, 0x80, 0xff) if not th else range(1, 256)):
                            yield comp, big, k, x
        for c1 in COMPS:
            for c2 in COMPS:
                for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 18, 20):
                    yield c1, c2, "head", k
            for n in range(0, 20):
                yield c1, 0, "zeros", n
                yield c1, 0, "short", n
            yield c1, 0, "twice", 0
            yield c1, 0, "empty", 0

    def b_pay(ctx, c):
        comp, big, k, x = c
        w = "md5"
        o, _ = setup(ctx, w)
        p = ctx.cache.get(("pay", comp, big))
        if p is None:
            p = ctx.cache[("pay", comp, big)] = pay(comp, big if k not in ("head",) else 0)
        if k == "cut":
            m = p[:x]
        elif k == "head":       # the start of one compressor's data, the rest of another's
            m = p[:x] + pay(big, 0)[x:]
        elif k == "zeros":
            m = p[:x] + b"\0" * 40
        elif k == "short":
            m = p[:x]
        elif k == "twice":
            m = p + p
        elif k == "empty":
            m = G.compress(b"", comp, 3)
        else:
            m = p[:k] + bytes([p[k] ^ x]) + p[k + 1:]
        bad = ()
        # the format is known by its first bytes
        if k not in ("empty", "twice") and G.detect(m) != G.NONE and decodes(m, G.detect(m), None) is False and magic_ok(m):
            bad = ("so", "sn", "ro", "rn", "si", "as")
            ctx.count("corrupt")
        see(ctx, c, o.raw[:len(o.raw) - len(o.payload)] + m, w, calls=("so", "sn", "ro", "rn", "si", "as", "ri"), bad=bad)
    ck.explore("compressed payloads", g_pay, b_pay)

    # 7. sequences
    def g_seq():
        al = "08fgF\n -"
        for n in range(5):
            for s in itertools.product(al, repeat=n):
                yield "raw", "".join(s)
        for n in range(5 if th else 4):
            for s in itertools.product("0123456789abcdef", repeat=n):
                yield "after", "".join(s)
        for d in "0123456789abcdefx":
            for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 1000, 4095, 4096, 60000]:
                yield "after", d * n
                yield "name", d * n
        for n in range(0, 34):
            yield "raw", "0" * n
        for v in EDGE32:
            e = []
            x = v
            while True:
                e.append((x & 7) | (8 if x >> 3 else 0))
                x >>= 3
                if not x:
                    break
            s = "".join("%x" % q for q in e)
            for t in (s, "0" + s, "00" + s + "1", "1" + s + "1", s + s, "0" + s + s, "11" + s + s):
                yield "after", t
                yield "after", t + "0"
        for s in ("mo-1-1-", "mo-1-1", "-", "--", "---", "-" * 500, "mo", "a-b-", "mo-1-1-zz", "x" * 70000 + "-1-1-00"):
            yield "whole", s

    def b_seq(ctx, c):
        k, s = c
        o, seq = setup(ctx, "md5")
        md5 = seq[:32]
        t = {"raw": "mo-1-1-" + s, "after": "mo-1-1-" + md5 + s, "name": s + "-1-1-" + md5 + "16", "whole": s}[k]
        t = t.replace("\n", "\x01")
        for old in (ctx.path("olds.rpm"), None):
            for mode in (0, 1, 2):
                r = ctx.ex().checkseq(old, t, mode)
                ctx.count("calls")
                if r["rc"] not in ERR:
                    raise Violation("undocumented code %r" % r["rc"], key="code:seq")
        ctx.outcome((k, r["rc"]))
    ck.explore("sequences", g_seq, b_seq)

    # 8. lists of patched files: every byte, cut and extension; number fields over edges
    def plists():
        full = PL.rpml("mo", "1-1", files=[PL.F("./a/f", 0o100644, 64, b"\1" * 16), PL.F("./a/lib/g", 0o100644, 300, b"\2" * 16, user=3, group=2),
                                           PL.F("./a/l", 0o120777, 2, b"\3" * 16), PL.F("./d", 0o40755), PL.F("./dev", 0o20644, rdev=5),
                                           PL.F("./gone", 0), PL.F("./e", 0o100644, 0), PL.F("./u" + "x" * 300, 0o100644, 1, b"\4" * 16, user=90, group=60)],
                       patches=["p1", "p2"], unpatched=["a/f", "a/lib/g"])
        return full

    def g_pl():
        raw = plists()
        for which in ("print", "patch"):
            for k in range(len(raw) + 1):
                yield which, "cut", k
            for i, b in enumerate(raw):
                for v in byte_values(b, th or i < 80):
                    yield which, i, v
            for e in (b"\0", b"\xff" * 300):
                yield which, "ext", e
            # a file name that shares more than there was before it
            for off in range(0, 256):
                for ln in (0, 1, 5, 254):
                    yield which, "name", (off, ln)
            for n in EDGE32:
                yield which, "count", n

    def b_pl(ctx, c):
        which, k, v = c
        o, _ = setup(ctx, "md5")
        good = plists()
        if k == "cut": m = good[:v]
        elif k == "ext": m = good + v
        elif k == "name": m = PL.rpml("mo", "1-1", files=[PL.F("./ab", 0)], end=bytes([v[0], v[1]]) + b"n" * v[1] + b"\0\0" + b"\0\0")
        elif k == "count": m = PL.rpml("mo", "1-1", patches=["p"], unpatched=["a/f"], ncount=v)
        else: m = good[:k] + bytes([v]) + good[k + 1:]
        ctx.put("print", m if which == "print" else good)
        ctx.put("patch", m if which == "patch" else good)
        r = ctx.ex().make(ctx.path("olds.rpm"), ctx.path("good.rpm"), ctx.path("o.bin"), STD + ";p0=%s|%s" % (ctx.path("print"), ctx.path("patch")))
        ctx.count("calls")
        if r["rc"] not in ERR:
            raise Violation("undocumented code %r" % r["rc"], key="code:list")
        if k == "cut" and v < len(good) and r["rc"] == OK:
            raise Violation("an incomplete list is accepted", key="list:cut")
        if k == "cut" and v == len(good) and r["rc"] != OK:
            raise Violation("a good list is refused: %s" % why(r["rc"]), key="list:good")
        ctx.outcome((which, str(k) if isinstance(k, str) else 0, r["rc"]))
    ck.explore("patch lists", g_pl, b_pl)

    # 9. packages as patch information
    def g_pp():
        w = "md5"
        raw = built(rich()).raw
        for k in range(0, len(raw)):
            yield w, "cut", k
        for i, b in enumerate(raw[:len(raw) - 100]):
            for v in byte_values(b, th):
                yield w, i, v
        for tag, t, v in lists_of_values(E(w)):
            yield w, "tag", (tag, t, v)
        for tag, typ, val in E(w):
            yield w, "tag", (tag, None, None)
            for t, v in shapes(val, typ):
                yield w, "tag", (tag, t, v)

    def b_pp(ctx, c):
        w, k, v = c
        o, _ = setup(ctx, w)
        if "print" not in ctx.cache:
            ctx.cache["print"] = 1
            ctx.put("print", plists())
        ctx.put("print", plists())
        m = o.raw[:v] if k == "cut" else mk(o, [v]) if k == "tag" else o.raw[:k] + bytes([v]) + o.raw[k + 1:]
        see(ctx, (w, str(k) if isinstance(k, str) else 0), m, w, calls=("p",))
    ck.explore("patch packages", g_pp, b_pp)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["calls"], traces_validated_against_impl=t["calls"]))


def magic_ok(m):
    """formats the library knows by the same first bytes as we do"""
    return m[:2] == b"\x1f\x8b" or m[:3] == b"BZh" or m[:6] == b"\xfd7zXZ\0" or m[:3] == b"]\0\0" or m[:4] in (b"LZIP", b"\x28\xb5\x2f\xfd")
