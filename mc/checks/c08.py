"""C08: the on-disk check predicts whether the delta can be applied."""
from universe import *
from dataclasses import replace
from c07 import reroot
import elf

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of disk and database states of a small installed package, on the real code against a scratch "
        "system; oracle: the stated condition, evaluated on the state, and the outcome of applying")
FULL, SIZES = 1, 2

# states of one file on disk: name -> (bytes or kind)
STATES = ["ok", "missing", "first", "last", "mid", "short", "long", "empty", "dir", "link", "dangling", "zeros", "half", "longother"]


def disk(f, s):
    """content the library can see for that state, or None"""
    d = f.data
    if s in ("ok", "link"):
        return d
    if s == "first":
        return bytes([d[0] ^ 1]) + d[1:]
    if s == "last":
        return d[:-1] + bytes([d[-1] ^ 1])
    if s == "mid":
        return d[:len(d) // 2] + bytes([d[len(d) // 2] ^ 0x80]) + d[len(d) // 2 + 1:]
    if s == "short":
        return d[:-1]
    if s == "half":
        return d[:len(d) // 2]
    if s == "long":
        return d + b"x"
    if s == "longother":
        return bytes([d[0] ^ 1]) + d[1:] + b"x"
    if s == "empty":
        return b""
    if s == "zeros":
        return b"\0" * len(d)
    return None


def put_state(h, f, s):
    if os.path.lexists(f.name):
        if os.path.isdir(f.name) and not os.path.islink(f.name):
            shutil.rmtree(f.name)
        else:
            os.unlink(f.name)
    os.makedirs(os.path.dirname(f.name), exist_ok=True)
    if s == "dir":
        os.mkdir(f.name)
    elif s == "dangling":
        os.symlink(f.name + ".nowhere", f.name)
    elif s == "link":
        with open(f.name + ".target", "wb") as o:
            o.write(f.data)
        os.symlink(f.name + ".target", f.name)
    elif s != "missing":
        with open(f.name, "wb") as o:
            o.write(disk(f, s))


def expect(old, states):
    """(full, sizes) verdicts for the disk state"""
    full = sizes = True
    for i in G.used_files(old.pkg):
        f = old.pkg.files[i]
        if f.kind != "reg" or not f.data:
            continue
        c = disk(f, states.get(i, "ok"))
        # data appended to the recorded content does not matter to the full check, nor to applying
        full &= c is not None and c[:len(f.data)] == f.data
        sizes &= c is not None and len(c) == len(f.data)
    return full, sizes


def verdicts(ctx, h, ex, old, seqid, delta, new, full, sizes, what, pre=()):
    for mode, want in ((FULL, full), (SIZES, sizes)):
        for how in ("delta", "sequence"):
            r = ex.check(delta, mode, pre=pre) if how == "delta" else ex.checkseq(None, seqid, mode, pre=pre)
            ctx.count("check")
            if (r["rc"] == OK) != want:
                raise Violation("%s check of the %s returned %s, expected %s (%s)" %
                                ("full" if mode == FULL else "size", how, why(r["rc"]), "OK" if want else "an error", what),
                                key="%s:%s:%s:%s" % (mode, how, why(r["rc"]), want))
            if r["rc"] not in ERR:
                raise Violation("undocumented code %r" % r["rc"])
    out = ctx.path("out.rpm")
    r = ex.apply(None, delta, out, pre=pre)
    ctx.count("apply")
    if full and r["rc"] != OK:
        raise Violation("full check succeeds but applying returns %s (%s)" % (why(r["rc"]), what), key="predict:%s" % why(r["rc"]))
    if r["rc"] == OK and slurp(out) != new.raw:
        raise Violation("apply reported OK with a wrong result (%s)" % what, key="apply:wrong")


def setup(ctx, key, old, seqs=True):
    """makes a delta and its sequence id for an old package"""
    c = ctx.cache.get(("d", key))
    if c is None:
        nf = [replace(f, data=(f.data[:len(f.data) // 2] + b"!" + f.data[len(f.data) // 2:]) if f.kind == "reg" else b"") for f in old.pkg.files]
        new = G.build(replace(old.pkg, files=nf, version="77"))
        make(ctx, old, new, FAST + ";s0=" + ctx.path("seq"))
        d = ctx.put("d-%s.drpm" % key, slurp(ctx.path("d.drpm")))
        c = ctx.cache[("d", key)] = (d, slurp(ctx.path("seq")).decode().strip(), new)
    return c


def run(ck, tier):
    th = tier == "thorough"

    # 1. every state of every file, several packages
    def pkgs(root):
        o = root
        return [
            Pkg(files=[R(o + "/0/a", A), R(o + "/0/b", B_ + b"1")], name="c0"),
            Pkg(files=[R(o + "/1/a", A), R(o + "/1/cfg", C_, flags=G.F_CONFIG)], name="c1"),
            Pkg(files=[R(o + "/2/a", rnd(9, 9000)), R(o + "/2/e", b"")], name="c2"),
            Pkg(files=[R(o + "/3/a", A), L(o + "/3/l", "a")], name="c3", algo="sha256"),
            Pkg(files=[R(o + "/4/a", rnd(9, 4097)), R(o + "/4/b", rnd(10, 4096))], name="c4", algo="sha256", epoch=2),
            Pkg(files=[R(o + "/5/a", A), R(o + "/5/m", B_, verify=G.V_NOMD5)], name="c5"),
            Pkg(files=[R(o + "/6/b", A), R(o + "/6/a", B_)], name="c6", order=[1, 0]),
            Pkg(files=[R(o + "/7/a", b"x"), R(o + "/7/b", b"yz"), R(o + "/7/g", b"", flags=G.F_GHOST, payload=False, size=5)], name="c7"),
            Pkg(files=[R(o + "/8/a", rnd(11, 8192)), R(o + "/8/b", rnd(12, 20000))], name="c8"),
            Pkg(files=[R(o + "/10/a", A), R(o + "/10/b", A)], name="c10"),
            Pkg(files=[R(o + "/9/a", b"\x7fELF" + rnd(13, 200)), R(o + "/9/b", b"\x7fELF\2\1\1" + rnd(14, 200))], name="c9"),
        ]

    def mk(ctx):
        c = ctx.cache.get("c08")
        if c is None:
            h = Host(ctx)
            ps = [built(p) for p in pkgs(h.root)]
            h.install(ps)
            c = ctx.cache["c08"] = (h, ps)
        return c

    def g_states():
        n = len(pkgs(""))
        for k in range(n):
            for s in itertools.product(STATES, repeat=2):
                yield k, s
            if k in (0, 7):
                for s in STATES:
                    yield k, (s, "ok")

    def b_states(ctx, c):
        k, s = c
        h, ps = mk(ctx)
        old = ps[k]
        d, seqid, new = setup(ctx, k, old)
        st = {}
        for i, f in enumerate(old.pkg.files[:2]):
            if f.kind == "reg" and f.data:
                st[i] = s[i]
                put_state(h, f, s[i])
        for f in old.pkg.files:
            if f.kind == "reg" and not f.data and not os.path.exists(f.name) and not f.flags:
                h.put(f)
        full, sizes = expect(old, st)
        verdicts(ctx, h, h.ex(), old, seqid, d, new, full, sizes, "disk state %s" % st)
        ctx.outcome((k, s, full, sizes))
        ctx.sample([k, s, full, sizes])
    ck.explore("disk states", g_states, b_states)

    # 1b. contents whose digests agree up to a zero byte
    def twins(algo, k, n):
        dg = lambda b: hashlib.new(algo, b).digest()
        mk = lambda t: lambda i: (b"%s%d.%d " % (t, k, i)).ljust(n, b".")
        return search(mk(b"a"), lambda b: dg(b)[0] == 0), search(mk(b"b"), lambda b: dg(b)[0] == 0)

    TW = [(a, k, n) for a in ("md5", "sha256") for k in range(2) for n in (40, 5000)]

    def tpkgs(root):
        return [Pkg(name="tw%d" % j, algo=a, files=[R("%s/tw%d/a" % (root, j), twins(a, k, n)[0]), R("%s/tw%d/b" % (root, j), A)]) for j, (a, k, n) in enumerate(TW)]

    def g_tw():
        for j in range(len(TW)):
            for s in ("ok", "twin", "twin+"):
                for pre in (0, 1):
                    yield j, s, pre

    def b_tw(ctx, c):
        j, s, pre = c
        h = ctx.cache.get("tw")
        if h is None:
            h = ctx.cache["tw"] = Host(ctx, "tw")
            ps = [built(p) for p in tpkgs(h.root)]
            h.install(ps)
            for p in ps:
                h.place(p.pkg)
        old = built(tpkgs(h.root)[j])
        d, seqid, new = setup(ctx, "tw%d" % j, old)
        f = old.pkg.files[0]
        b = f.data if s == "ok" else twins(*TW[j])[1] + (b"x" if s == "twin+" else b"")
        full = s == "ok"
        # prelinked: undoing it gives that content
        with open(f.name, "wb") as x:
            x.write(elf.elf(total=len(b) + 1500) if pre else b)
        with open(f.name + ".orig", "wb") as x:
            x.write(b)
        verdicts(ctx, h, h.ex(), old, seqid, d, new, full, full if pre else len(b) == len(f.data), "content with a digest that begins alike", pre=["K\t1"] if pre else ())
        ctx.outcome(c)
    ck.explore("digests that begin alike", g_tw, b_tw)

    # 1c. the recorded digest differs in one place from that of the file, or is written in another way
    def dpkg(root, algo, pos):
        d = (hashlib.md5 if algo == "md5" else hashlib.sha256)(A).hexdigest()
        g = d.upper() if pos == "upper" else d if pos == "same" else d[:pos] + "%x" % (int(d[pos], 16) ^ (1 << pos % 4)) + d[pos + 1:]
        return Pkg(name="dg", algo=algo, files=[replace(R("%s/dg/a" % root, A), digest=g), R("%s/dg/b" % root, B_)])

    def g_dg():
        for algo, n in (("md5", 32), ("sha256", 64)):
            for pos in ["same", "upper"] + list(range(n)):
                yield algo, pos

    def b_dg(ctx, c):
        algo, pos = c
        h = ctx.cache.get("dg")
        if h is None:
            h = ctx.cache["dg"] = Host(ctx, "dg")
        old = built(dpkg(h.root, algo, pos))
        h.erase(["dg"])
        h.install([old])
        h.place(old.pkg)
        d, seqid, new = setup(ctx, "dg%s%s" % c, old)
        full = pos in ("same", "upper")
        f = old.pkg.files[0]
        for pre in (0, 1):
            with open(f.name + ".orig", "wb") as x:
                x.write(f.data)
            with open(f.name, "wb") as x:
                x.write(elf.elf(total=len(f.data) + 1500) if pre else f.data)
            verdicts(ctx, h, h.ex(), old, seqid, d, new, full, full if pre else True, "recorded digest: %s" % (pos,), pre=["K\t1"] if pre else ())
        ctx.outcome(c)
    ck.explore("recorded digests", g_dg, b_dg)

    # 2. states of the database
    BASE = dict(name="dbp", version="1", release="1")
    INST = [dict(), dict(version="2"), dict(release="2"), dict(epoch=1), dict(epoch=0), dict(version="1.0"), dict(name="dbp-x"),
            dict(arch="noarch"), "content", "mode", "extra", "name", "size", "order", "link"]

    def variant(root, v):
        fs = [R(root + "/a", A), R(root + "/b", B_), L(root + "/l", "zz")]
        kw = dict(BASE)
        if isinstance(v, dict):
            kw.update(v)
        elif v == "content":
            fs[0] = R(root + "/a", A1)
        elif v == "mode":
            fs[0] = R(root + "/a", A, perm=0o755)
        elif v == "extra":
            fs.append(R(root + "/c", C_))
        elif v == "name":
            fs[1] = R(root + "/bb", B_)
        elif v == "size":
            fs[0] = R(root + "/a", A + b"1")
        elif v == "order":
            fs = [fs[1], fs[0], fs[2]]
        elif v == "link":
            fs[2] = L(root + "/l", "zy")
        return Pkg(files=fs, **kw)

    def fits(v):
        """does the delta made for the base package belong to this one?"""
        if isinstance(v, dict):
            return not (set(v) - {"arch", "epoch"}) and v.get("epoch") in (None,)
        return v == "extra"     # the sequence names its files; further ones do not matter

    def g_db():
        yield ()
        for i in range(len(INST)):
            yield i,
        for i in range(len(INST)):
            for j in range(len(INST)):
                a, b = INST[i], INST[j]
                # instances that cannot be told apart by name-epoch-version-release are left out here
                # nor can an epoch of 0 and none be installed together
                if i != j and nevr_of(a).replace("-0:", "-") != nevr_of(b).replace("-0:", "-"):
                    yield i, j

    def nevr_of(v):
        return Pkg(**dict(BASE, **(v if isinstance(v, dict) else {}))).nevr

    def b_db(ctx, c):
        tag = "db" + "-".join(map(str, c))
        h = ctx.cache.get("dbhost") or ctx.cache.setdefault("dbhost", Host(ctx, "dh"))
        root = h.root + "/x"
        base = built(variant(root, {}))
        h.erase([n for n in ("dbp", "dbp-x")])
        h.erase(["--allmatches", "dbp"])
        h.erase(["--allmatches", "dbp-x"])
        for i in c:     # in this order
            h.install([built(variant(root, INST[i]))])
        for i in list(c) or [0]:
            h.place(variant(root, INST[i]))
        h.place(base.pkg)
        d, seqid, new = setup(ctx, "db", base)
        want = any(fits(INST[i]) for i in c)
        verdicts(ctx, h, h.ex(), base, seqid, d, new, want, want, "installed: %s" % [INST[i] for i in c])
        r = h.ex().checkseq(None, seqid, 0)
        if (r["rc"] == OK) != want:
            raise Violation("check without files returned %s" % why(r["rc"]), key="none:%s" % why(r["rc"]))
        ctx.outcome((c, want))
    ck.explore("database states", g_db, b_db)

    # 3. several instances with the same name-epoch-version-release
    def g_multi():
        for i in ("same-arch-first", "other-arch-first"):
            for j in ("content", "order", "link", "mode"):
                yield i, j

    def b_multi(ctx, c):
        i, j = c
        h = ctx.cache.get("dbhost2") or ctx.cache.setdefault("dbhost2", Host(ctx, "dh2"))
        root = h.root + "/x"
        base = built(variant(root, {}))
        other = built(replace(variant(h.root + "/other", j), arch="i686"))
        h.erase(["--allmatches", "dbp"])
        for b in ((base, other) if i == "same-arch-first" else (other, base)):
            h.install([b])
            h.place(b.pkg)
        d, seqid, new = setup(ctx, "multi", base)
        try:
            verdicts(ctx, h, h.ex(), base, seqid, d, new, True, True, "two architectures installed")
        except Violation as v:
            raise Violation(v.what, key="two-arch:%s" % i)
        ctx.outcome(c)
    ck.explore("two architectures", g_multi, b_multi)

    # 4. prelinked files: what counts is what undoing the prelinking gives (a stand-in for the prelink program gives FILE.orig)
    PST = ["ok", "first", "missing", "pre", "pre-first", "pre-last", "pre-short", "pre-long", "pre-none", "pre-empty", "pre-even", "pre-less"]

    def put_pre(h, f, s, blob=None):
        for p in (f.name, f.name + ".orig"):
            if os.path.lexists(p):
                os.unlink(p)
        if not s.startswith("pre"):
            put_state(h, f, s)
            return disk(f, s)
        d = f.data
        o = {"pre": d, "pre-first": disk(f, "first"), "pre-last": disk(f, "last"), "pre-short": d[:-1], "pre-long": d + b"q", "pre-none": None,
             "pre-empty": b"", "pre-even": d, "pre-less": d}[s]
        os.makedirs(os.path.dirname(f.name), exist_ok=True)
        if o is not None:
            with open(f.name + ".orig", "wb") as x:
                x.write(o)
        b = blob or elf.elf(total=len(d) + 30)
        # prelinking makes files longer; one of the same size or shorter is not taken for prelinked
        b = b[:len(d)] if s == "pre-even" else b[:len(d) - 1] if s == "pre-less" else b
        with open(f.name, "wb") as x:
            x.write(b)
        return b if s in ("pre-even", "pre-less") else (o or b"")

    def psetup(ctx):
        c = ctx.cache.get("pre")
        if c is None:
            h = Host(ctx, "hp")
            mkp = lambda n, algo: Pkg(files=[R(h.root + "/" + n + "/a", rnd(21, 700)), L(h.root + "/" + n + "/l", "a"), R(h.root + "/" + n + "/b", rnd(22, 5000))],
                                      name=n, algo=algo)
            ps = [built(mkp("pm", "md5")), built(mkp("ps", "sha256"))]
            h.install(ps)
            c = ctx.cache["pre"] = (h, ps)
        return c

    def g_pre():
        for k in (0, 1):
            for s in itertools.product(PST, repeat=2):
                yield k, s

    def b_pre(ctx, c):
        k, s = c
        h, ps = psetup(ctx)
        old = ps[k]
        d, seqid, new = setup(ctx, "pre%d" % k, old)
        full = sizes = True
        for f, st in zip([old.pkg.files[0], old.pkg.files[2]], s):
            got = put_pre(h, f, st)
            full &= got is not None and got[:len(f.data)] == f.data
            if st.startswith("pre") and st not in ("pre-even", "pre-less"):
                sizes &= got[:len(f.data)] == f.data        # the size says nothing of it, so it is looked into
            else:
                sizes &= got is not None and len(got) == len(f.data)
        verdicts(ctx, h, h.ex(), old, seqid, d, new, full, sizes, "prelinked %s" % (s,), pre=["K\t1"])
        ctx.outcome((c, full, sizes))
    ck.explore("prelinked files", g_pre, b_pre)

    # 5. which files count as prelinked: section tables of all kinds; malformed ones do no harm
    U = b".gnu.prelink_undo"

    def tables():
        N = [b".text", U, b".shstrtab", b".gnu.prelink_und", b".gnu.prelink_undo2", b".gnu.prelink_undo.x", b"x"]
        for is64 in (True, False):
            for le in (True, False):
                kw = dict(is64=is64, le=le)
                for n in range(0, 4):
                    for names in itertools.product(N, repeat=n):
                        yield dict(kw, names=names + (b".shstrtab",)), U in names
                for pad in (0, 1, 100, 4000):
                    for total in (0, 6000, 20000):
                        yield dict(kw, body=b"\1" * pad, total=max(total, 6000)), True
                yield dict(kw, names=(b".shstrtab", U), stridx=1), True
                for t in range(0, 12):
                    yield dict(kw, strtype=t), t == 3

    def g_elf():
        T = list(tables())
        for k in range(len(T)):
            yield "table", k, 0
        for is64 in (True, False):
            for le in (True, False):
                b = elf.elf(is64=is64, le=le)
                for i in range(len(b)):
                    for v in (0, 1, 3, 0x7f, 0x80, 0xff) if not th else range(256):
                        if b[i] != v:
                            yield (is64, le), i, v
                for i in range(0, len(b) - 3, 2):
                    for v in (0xffffffff, 0x7fffffff, 0x80000000, 0xffff0000, 0x7fff7fff):
                        yield (is64, le), i, (v,)
                for i in range(0, len(b)):
                    yield (is64, le), "cut", i

    def b_elf(ctx, c):
        k, i, v = c
        h, ps = psetup(ctx)
        old = ps[0]
        d, seqid, new = setup(ctx, "pre0", old)
        f, g = old.pkg.files[0], old.pkg.files[2]
        if ctx.cache.get("elf") is None:
            put_pre(h, g, "ok")
            put_pre(h, f, "pre")
            ctx.cache["elf"] = 1
        want = None
        if k == "table":
            T = ctx.cache.get("tables") or ctx.cache.setdefault("tables", list(tables()))
            kw, want = T[i]
            kw = dict(kw)
            b = elf.elf(**dict(kw, total=kw.get("total") or 1500))
        else:
            b = elf.elf(is64=k[0], le=k[1])
            if i == "cut":
                b = b[:v]
                if len(b) < 0x40:
                    want = False
            elif isinstance(v, tuple):
                b = b[:i] + v[0].to_bytes(4, "little" if k[1] else "big") + b[i + 4:]
            else:
                b = b[:i] + bytes([v]) + b[i + 1:]
            if i == "cut":
                f = replace(f, data=f.data)
            else:
                b += b"\xee" * (1500 - len(b))
        with open(f.name, "wb") as x:
            x.write(b)
        for mode in (FULL, SIZES):
            r = h.ex().check(d, mode, pre=["K\t1"])
            ctx.count("check")
            if r["rc"] not in ERR or want is not None and (r["rc"] == OK) != want:
                raise Violation("a file %s check returns %s" % ({True: "prelinked:", False: "not prelinked:"}.get(want), why(r["rc"])), key="elf:%s" % want)
            if r["rc"] == OK and want is None and mode == FULL:
                rr = h.ex().apply(None, d, ctx.path("out.rpm"), pre=["K\t1"])
                if rr["rc"] != OK or slurp(ctx.path("out.rpm")) != new.raw:
                    raise Violation("full check succeeds but applying does not", key="elf:apply")
        rr = h.ex().apply(None, d, ctx.path("out.rpm"), pre=["K\t1"])
        ctx.count("apply")
        if rr["rc"] == OK and slurp(ctx.path("out.rpm")) != new.raw:
            raise Violation("apply reported OK with a wrong result", key="elf:wrong")
        ctx.outcome((str(k), r["rc"], rr["rc"]))
    ck.explore("section tables", g_elf, b_elf)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["check"] + t["apply"] + t["make"],
                          traces_validated_against_impl=t["check"] + t["apply"]))
