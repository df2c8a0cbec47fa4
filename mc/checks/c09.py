"""C09: the sequence identifier names exactly the files and order of the old package."""
from universe import *
from dataclasses import replace
from c01 import opkg, npkg

LEVEL = "model_checking"
TECH = ("bounded exhaustive enumeration of file lists, orders and skipped subsets, and of every single-character change of "
        "identifiers, on the real code; oracle: an independent encoder and decoder of the sequence")
SEQ, STD = 2, 0


def ident(p):
    return p.nevr + "-" + G.sequence(p).hex()


def produced(ctx, old, new, opts=FAST):
    """the identifier from the sequence file, the delta and the query must all be the expected one"""
    sp = ctx.path("seq")
    d = make(ctx, old, new, opts + ";s0=" + sp)
    want = ident(old.pkg)
    got = slurp(sp)
    if got != (want + "\n").encode():
        raise Violation("sequence file holds %r, expected %r" % (got[:150], want[:150]), key="seqfile")
    dd = DL.parse(d)
    if dd.sequence != G.sequence(old.pkg):
        raise Violation("sequence in the delta differs", key="delta sequence")
    dec = G.seq_decode(dd.sequence[16:], len(old.pkg.files))
    if dec != G.used_files(old.pkg):
        raise Violation("sequence decodes to %r, expected %r" % (dec, G.used_files(old.pkg)), key="decode")
    r = ctx.ex().dump(ctx.path("d.drpm"))
    ctx.count("read")
    g = r["get"]["4"][3]
    # the query reports the sequence's digits alone
    if g[0] != OK or g[1] not in (want, dd.sequence.hex()):
        raise Violation("reading the delta reports sequence %r" % (g,), key="query")
    return want


def checkseq(ctx, old, seq, want, what, ex=None):
    r = (ex or ctx.ex()).checkseq(putc(ctx, "old.rpm", old), seq, 0)
    ctx.count("check")
    if (r["rc"] == OK) != want:
        raise Violation("checking %s returned %s" % (what, why(r["rc"])), key="check:%s:%s" % (what.split(":")[0], why(r["rc"])), seq=seq)
    if r["rc"] not in ERR:
        raise Violation("undocumented code %r" % r["rc"])


def valid(p, seq):
    """does this identifier denote p's files?  (independent decoder)"""
    if "-" not in seq:
        return False
    nevr, h = seq.rsplit("-", 1)
    if nevr != p.nevr or len(h) % 2 or any(c not in "0123456789abcdefABCDEF" for c in h) or len(h) < 32:
        return False
    b = bytes.fromhex(h)
    idx = G.seq_decode(b[16:], len(p.files))
    if idx is None:
        return False
    return G.seq_md5(p, idx) == b[:16]


def mutants(p):
    """packages that differ from p in one covered attribute"""
    for i, f in enumerate(p.files):
        def w(**k):
            fs = list(p.files)
            fs[i] = replace(f, **k)
            return replace(p, files=fs)
        yield "name", w(name=f.name + "x")
        yield "name", w(name=f.name[:-1] + chr(ord(f.name[-1]) ^ 1))
        yield "mode", w(perm=f.perm ^ 0o100)
        yield "mode", w(perm=f.perm ^ 0o4000)
        if f.kind == "reg" and f.data:
            yield "digest", w(data=bytes([f.data[0] ^ 1]) + f.data[1:])
            yield "digest", w(data=f.data[:-1] + bytes([f.data[-1] ^ 1]))
            yield "size", w(size=len(f.data) + 1)
        if f.kind == "reg":
            yield "kind", w(kind="dir")
            yield "size", w(data=f.data + b"!")
        if f.kind == "link":
            yield "link target", w(linkto=f.linkto + "/")
            yield "link target", w(linkto=f.linkto[:-1] + "_")
        if f.kind in ("chr", "blk"):
            yield "device", w(rdev=f.rdev ^ 1)
            yield "device", w(rdev=f.rdev ^ 0x100)
            yield "kind", w(kind="blk" if f.kind == "chr" else "chr")
        if f.kind == "dir":
            yield "kind", w(kind="fifo")
        yield "removed", replace(p, files=p.files[:i] + p.files[i + 1:])
        for j in range(i):
            fs = list(p.files)
            fs[i], fs[j] = fs[j], fs[i]
            yield "order", replace(p, files=fs)
        fs = list(p.files)
        fs.insert(i, R("/00", C_))
        yield "inserted", replace(p, files=fs)


def run(ck, tier):
    th = tier == "thorough"
    KU = kinds_universe(True)
    new = built(npkg([R("/q", A)]))

    def g_kinds():
        for i in range(len(KU)):
            for a in range(6):
                yield i, a
    ATT = [dict(), dict(algo="sha256"), dict(epoch=4), dict(prefix=""), dict(colors=True), dict(name="a-b-c", release="1.el9-x".replace("-", "_"))]

    def b_kinds(ctx, c):
        i, a = c
        p = opkg(KU[i], **{k: v for k, v in ATT[a].items()})
        old = built(p)
        s = produced(ctx, old, new)
        checkseq(ctx, old, s, True, "own identifier")
        ctx.outcome(s)
        ctx.sample(s)
    ck.explore("kinds", g_kinds, b_kinds)

    # every order and skipped subset
    def g_perm():
        for n in range(0, 6 if th else 5):
            for o in itertools.permutations(range(n)):
                for skip in range(1 << n):
                    yield n, o, skip

    def b_perm(ctx, c):
        n, o, skip = c
        old = built(opkg([R("/f%d" % i, b"%d" % i, flags=G.F_CONFIG if skip >> i & 1 else 0) for i in range(n)], order=list(o)))
        s = produced(ctx, old, new)
        checkseq(ctx, old, s, True, "own identifier")
        # any other order or subset of the same files is another identifier
        for k in range(n):
            for o2 in ([o[:k] + o[k + 1:]] if n else []):
                other = built(opkg(old.pkg.files, order=list(o2)))
                s2 = ident(other.pkg)
                checkseq(ctx, old, s2, True, "another order: same files")   # the package holds those files too
                if (s2 == s) != (G.used_files(other.pkg) == G.used_files(old.pkg)):
                    raise Violation("two orders share an identifier")
        ctx.outcome(s)
    ck.explore("orders x skipped subsets", g_perm, b_perm)

    # long lists: indices and runs of one to five digits
    def g_long():
        for n in (7, 8, 9, 15, 16, 17, 63, 64, 65, 511, 512, 513) + ((4095, 4096, 4097) if th else (4097,)):
            for pat in range(7):
                yield n, pat
        for n in (32767, 32768, 33000) + ((262143, 262145) if th else ()):
            for pat in (0, 2, 6) if n < 40000 else (0, 6):
                yield n, pat

    def b_long(ctx, c):
        n, pat = c
        o = list(range(n))
        skip = set()
        if pat == 1:
            o.reverse()
        elif pat == 2:
            o = o[n // 2:] + o[:n // 2]
        elif pat == 3:
            skip = set(range(1, n, 2))
        elif pat == 4:
            skip = set(range(n - 1))
        elif pat == 5:
            o = o[-1:] + o[:-1]
            skip = {0, n // 2}
        elif pat == 6:
            o = o[1:] + o[:1]
            skip = set(range(n // 3, 2 * n // 3))
        old = built(opkg([R("/f%05d" % i, b"%d" % (i % 10) if n < 30000 else b"", flags=G.F_CONFIG if i in skip else 0) for i in range(n)], order=o))
        s = produced(ctx, old, new)
        checkseq(ctx, old, s, True, "own identifier")
        ctx.outcome((n, pat))
    ck.explore("long lists", g_long, b_long)

    # packages that differ in one covered attribute
    BASES = [opkg([R("/a/f", A), R("/a/g", b"xy"), D("/d"), L("/l", "tgt"), File("/n", kind="chr", rdev=0x105)]),
             opkg([R("/f", A), R("/g", B_)], algo="sha256"),
             opkg([R("/f", A), File("/n", kind="blk", rdev=0x805), L("/s", "t")], epoch=1, order=[2, 0, 1]),
             opkg([R("/x", b""), R("/y", b"1", flags=G.F_CONFIG), R("/z", b"2")])]

    def g_mut():
        for i, p in enumerate(BASES):
            for k, _ in enumerate(mutants(p)):
                yield i, k

    def b_mut(ctx, c):
        i, k = c
        p = BASES[i]
        what, q = list(mutants(p))[k]
        s = ident(p)
        if q.order is not None and len(q.files) != len(p.files):
            q = replace(q, order=None)
        b = built(q)
        checkseq(ctx, b, s, valid(q, s), "a package with another %s" % what)
        # and applying to it is refused, too
        d = make(ctx, built(p), new)
        if not valid(q, s):
            r = ctx.ex().apply(putc(ctx, "old.rpm", b), ctx.path("d.drpm"), ctx.path("out.rpm"))
            ctx.count("apply")
            if r["rc"] == OK and slurp(ctx.path("out.rpm")) != new.raw:
                raise Violation("apply to a package with another %s is wrong" % what)
        ctx.outcome((i, k, valid(q, s)))
    ck.explore("covered attributes", g_mut, b_mut)

    def g_nevr():
        for k in range(8):
            yield k,

    def b_nevr(ctx, c):
        p = BASES[0]
        q = replace(p, **[dict(), dict(version="2"), dict(release="2"), dict(epoch=0), dict(epoch=1), dict(name="pkgx"), dict(name="pk"),
                          dict(version="1-1".replace("-", "_"))][c[0]])
        checkseq(ctx, built(q), ident(p), c[0] == 0, "another name or version")
        ctx.outcome(c)
    ck.explore("names", g_nevr, b_nevr)

    # every single-character change of the identifier, and cuts and insertions
    ALT = [BASES[0], BASES[2], BASES[3], opkg([]), opkg([R("/f%02d" % i, b"1", flags=G.F_CONFIG if i in (3, 4, 9) else 0) for i in range(20)],
                                               order=list(range(10, 20)) + list(range(10))),
           opkg([R("/f%02d" % i, b"1", flags=G.F_CONFIG if i % 2 else 0) for i in range(12)])]

    def g_alt():
        for i, p in enumerate(ALT):
            s = ident(p)
            for k in range(len(s) + 1):
                yield i, k, "del"
                for ch in "0123456789abcdefA-gz":
                    yield i, k, "set" + ch
                    yield i, k, "ins" + ch
                yield i, k, "cut"
            for tail in itertools.product("0123456789abcdef", repeat=3 if not th else 4):
                yield i, len(s), "ins" + "".join(tail)

    def b_alt(ctx, c):
        i, k, how = c
        p = ALT[i]
        s = ident(p)
        op, t = how[:3], how[3:]
        s2 = {"del": s[:k] + s[k + 1:], "set": s[:k] + t + s[k + 1:], "ins": s[:k] + t + s[k:], "cut": s[:k]}[op]
        checkseq(ctx, built(p), s2, valid(p, s2), "an altered identifier: %s" % op)
        ctx.outcome(s2)
    ck.explore("altered identifiers", g_alt, b_alt)

    # digests that agree up to a zero byte, of the sequence and of the signature
    def g_z():
        for k in range(16 if th else 4):
            for kind in ("sequence", "signature"):
                yield kind, k

    def b_z(ctx, c):
        kind, k = c
        md = lambda b: hashlib.md5(b.header + b.payload).digest()
        mk = lambda i, data=A: Pkg(files=[R("/a%d" % i, data), R("/b", B_)], summary="%d" % k)
        if kind == "sequence":
            i = search(lambda i: i + 1000 * k, lambda i: G.sequence(mk(i))[0] == 0)
            o = search(lambda j: b"%064d" % j, lambda d: G.sequence(mk(i, d))[0] == 0)
            old, oth = built(mk(i)), built(mk(i, o))
            s = ident(old.pkg)
        else:
            i = search(lambda i: i + 1000 * k, lambda i: md(G.build(mk(i)))[0] == 0)
            o = search(lambda j: b"%064d" % j, lambda d: md(G.build(mk(i, d)))[0] == 0)
            old, oth = built(mk(i)), built(mk(i, o))
            s = old.pkg.nevr + "-" + md(old).hex()
        checkseq(ctx, old, s, True, "own identifier")
        checkseq(ctx, oth, s, False, "an identifier whose digest begins alike: %s" % kind)
        ctx.outcome(c)
    ck.explore("digests that begin alike", g_z, b_z)

    # every short encoding of an order: all digit strings up to a length, against a package of three files
    P3 = opkg([R("/f%d" % i, b"%d" % i) for i in range(3)])

    def g_enc():
        for n in (2, 4, 6):
            for t in itertools.product("0123489abc" if n == 6 and not th else "0123456789abcdef", repeat=n):
                yield "".join(t),

    def b_enc(ctx, c):
        t = c[0]
        idx = G.seq_decode(bytes.fromhex(t), 3)
        md = G.seq_md5(P3, idx if idx is not None else [0, 1, 2])
        checkseq(ctx, built(P3), P3.nevr + "-" + md.hex() + t, idx is not None, "an encoded order: %s" % ("valid" if idx is not None else "invalid"))
        ctx.outcome((t, idx is None))
    ck.explore("encodings of orders", g_enc, b_enc)

    # numbers of any length: continuation digits far beyond what a size can hold
    RUNS = [[], [0], [1], [2], [0, 1], [1, 2], [0, 1, 2]]

    def g_over():
        for k in range(0, 60):
            for d in range(8):
                for pre in ("", "0", "81"):
                    for post in ("", "1"):
                        for c in "89":
                            yield k, d, pre, post, c

    def b_over(ctx, c):
        k, d, pre, post, ch = c
        t = pre + ch * k + "%d" % d + post
        t += "0" * (len(t) & 1)
        idx = G.seq_decode(bytes.fromhex(t), 3)
        for r in RUNS:
            sq = P3.nevr + "-" + G.seq_md5(P3, r).hex() + t
            if idx == r and k > 20:     # a long way to write a small number: accepted or not, but with no other meaning
                rc = ctx.ex().checkseq(putc(ctx, "old.rpm", built(P3)), sq, 0)["rc"]
                if rc not in (OK, FORMAT):
                    raise Violation("an overlong number: %s" % why(rc))
            else:
                checkseq(ctx, built(P3), sq, idx == r, "an overlong number")
        ctx.outcome(c)
    ck.explore("overlong numbers", g_over, b_over)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["check"] + t["make"] + t["read"] + t["apply"],
                          traces_validated_against_impl=t["check"] + t["read"]))
