"""C07: applying from installed files."""
from universe import *
from dataclasses import replace
import c16

LEVEL = "model_checking"
TECH = ("bounded exhaustive enumeration of installed packages, skipped subsets and orders, on the real code against a scratch "
        "system (files and rpm database); oracle: byte identity with the new package, and the list of files opened")


def reroot(files, root):
    return [replace(f, name=root + f.name) for f in files]


def tamper(h, f, how):
    """changes an installed file the delta must not need"""
    if os.path.lexists(f.name) and not os.path.isdir(f.name):
        os.unlink(f.name)
    if how:
        os.makedirs(os.path.dirname(f.name), exist_ok=True)
        with open(f.name, "wb") as o:
            o.write(b"changed by the user" * 3)


def fs_case(ctx, h, old, new, opts=FAST, ex=None, spoil=None, mkex=None):
    """old is installed; make with the old package file, apply without it"""
    make(ctx, old, new, opts, mkex or h.ex())
    ex = ex or h.ex()
    used = G.used_files(old.pkg)
    if spoil is not None:
        for i, f in enumerate(old.pkg.files):
            if f.kind == "reg" and (i not in used or not f.data):
                tamper(h, f, spoil)
    out = ctx.path("out.rpm")
    r = ex.raw("A", None, ctx.path("d.drpm"), out, pre=["P\t1"])
    ctx.count("apply")
    if r["rc"] != OK:
        raise Violation("apply from installed files returned %s" % why(r["rc"]), key="fs:%s" % why(r["rc"]))
    if slurp(out) != new.raw:
        raise Violation("apply from installed files reported OK but the output is wrong", key="fs:wrong")
    allowed = {old.pkg.files[i].name for i in used if old.pkg.files[i].kind == "reg"} | {ctx.path("d.drpm")}
    for p in r["paths"]:
        k, p = p.split(":", 1)
        if k == "r" and p not in allowed:
            raise Violation("opened a file it must not need: %s" % p.replace(h.root, "ROOT"), key="fs:opened")
        if k in "wt" and p != out and not p.startswith("/tmp/drpmpage"):
            raise Violation("wrote %s" % p, key="fs:wrote")


def sysof(ctx, key, mk):
    """the scratch system with the packages mk(root) installed, once per worker"""
    c = ctx.cache.get(key)
    if c is None:
        h = ctx.cache.get("host") or ctx.cache.setdefault("host", Host(ctx))
        ps = [built(p) for p in mk(h.root + "/" + key)]
        h.install(ps)
        for p in ps:
            h.place(p.pkg)
        c = ctx.cache[key] = (h, ps)
    return c


def run(ck, tier):
    th = tier == "thorough"
    KU = kinds_universe(True)
    KN = KU if th else KU[::3]
    lims = c16.LIMITS[1:3]
    with __import__("concurrent.futures").futures.ThreadPoolExecutor(4) as tp:
        list(tp.map(lambda l: B.build(*c16.variant(l)), lims))

    # 1. kinds
    def mk_kinds(root):
        return [Pkg(files=reroot(f, root + "/%d" % i), name="k%d" % i) for i, f in enumerate(KU)]

    def g_kinds():
        for i in range(len(KU)):
            for j in range(len(KN)):
                yield i, j

    def b_kinds(ctx, c):
        i, j = c
        h, ps = sysof(ctx, "kinds", mk_kinds)
        old = ps[i]
        new = G.build(Pkg(files=reroot(KN[j], h.root + "/kinds/%d" % i), name="k%d" % i, version="2"))
        fs_case(ctx, h, old, new, spoil=j & 1)
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("kinds x kinds", g_kinds, b_kinds)

    # 2. payload order x skipped subset x number of files x order in which the new package needs them
    N = 4

    def mk_perm(root):
        for n in range(1, N + 1):
            for o in itertools.permutations(range(n)):
                for skip in range(1 << n):
                    yield perm_pkg(root, n, o, skip)

    def perm_pkg(root, n, o, skip):
        t = "%d-%s-%d" % (n, "".join(map(str, o)), skip)
        fl = [G.F_CONFIG, G.F_GHOST, G.F_MISSINGOK, G.F_CONFIG | G.F_NOREPLACE]
        return Pkg(files=[R("%s/%s/f%d" % (root, t, i), rnd(70 + i, 100 + 37 * i), flags=fl[i] if skip >> i & 1 else 0)
                          for i in range(n)], order=list(o), name="p" + t)

    PL = [(n, o, s) for n in range(1, N + 1) for o in itertools.permutations(range(n)) for s in range(1 << n)]

    def g_perm():
        for k in range(len(PL)):
            n = PL[k][0]
            for need in itertools.permutations(range(n)):
                for l in range(3):
                    yield k, need, l

    def b_perm(ctx, c):
        k, need, l = c
        n, o, s = PL[k]
        h, ps = sysof(ctx, "perm", lambda root: list(mk_perm(root)))
        old = ps[k]
        new = G.build(Pkg(files=[replace(old.pkg.files[i], name=old.pkg.files[i].name + "n", flags=0) for i in need],
                          name=old.pkg.name, version="2"))
        fs_case(ctx, h, old, new, ex=h.ex(*c16.variant(lims[l - 1])) if l else None, spoil=1)
        ctx.outcome(c)
    ck.explore("orders x skipped subsets", g_perm, b_perm)

    # 3. sizes
    SZ = [0, 1, 3, 4, 5, 100, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20001]

    def mk_sizes(root):
        for a in SZ:
            for b in SZ:
                t = "s%d-%d" % (a, b)
                yield Pkg(files=[R("%s/%s/a" % (root, t), rnd(80, a)), L("%s/%s/b" % (root, t), "t" * 13),
                                 R("%s/%s/c" % (root, t), rnd(81, b))], name=t)
    SP = [(a, b) for a in SZ for b in SZ]

    def g_sizes():
        for k in range(len(SP)):
            for v in range(4 if not th else 6):
                yield k, v

    def b_sizes(ctx, c):
        k, v = c
        h, ps = sysof(ctx, "sizes", lambda root: list(mk_sizes(root)))
        old = ps[k]
        f = old.pkg.files
        x, y = f[0].data, f[2].data
        nd = [(x, y), (y, x), (x + b"q" + y, y), (x[len(x) // 2:], y[:len(y) // 3 + 1]), (tweak(x, step=9) if x else b"", y + x),
              (b"", y[5:] + x[7:] + y[:5])][v]
        new = G.build(Pkg(files=[replace(f[0], data=nd[0]), f[1], replace(f[2], data=nd[1])], name=old.pkg.name, version="2"))
        fs_case(ctx, h, old, new, FAST + (";b0=1,1" if v & 1 else ""))
        ctx.outcome(c)
    ck.explore("sizes", g_sizes, b_sizes)

    # 4. many files: below, at and above the number that may be open
    CN = (49, 50, 51, 52, 75, 101)

    def mk_many(root):
        for n in CN:
            for sk in (0, 1, 3):
                t = "m%d-%d" % (n, sk)
                yield Pkg(files=[R("%s/%s/f%03d" % (root, t, i), rnd(300 + i, 500 + (i * 7919) % 700),
                                   flags=G.F_CONFIG if sk and i % (sk + 1) == sk else 0) for i in range(n)], name=t)
    MP = [(n, s) for n in CN for s in (0, 1, 3)]

    def g_many():
        for k in range(len(MP)):
            for stride in (1, -1, 7, 13, 31):
                for pos in (0, 1):
                    yield k, stride, pos

    def b_many(ctx, c):
        k, stride, pos = c
        h, ps = sysof(ctx, "many", lambda root: list(mk_many(root)))
        old = ps[k]
        n = MP[k][0]
        f = old.pkg.files
        seq, i, seen = [], 0, set()
        while len(seq) < n:
            while i % n in seen:
                i += 1
            seen.add(i % n)
            seq.append(i % n)
            i += stride
        # one new file visiting the old ones in that order, a second visit reversed
        data = b"".join(f[i].data[50 * pos:400] for i in seq) + (b"".join(f[i].data[100:300] for i in reversed(seq)) if pos else b"")
        new = G.build(Pkg(files=[replace(f[0], name=f[0].name + "x", data=data)], name=old.pkg.name, version="2"))
        fs_case(ctx, h, old, new)
        ctx.outcome(c)
    ck.explore("many files", g_many, b_many)

    # 5. attributes: epochs, digests, colours, hard links, verify flags, prefixes, delta versions and compressions
    ATT = [dict(), dict(epoch=0), dict(epoch=3), dict(algo="sha256"), dict(prefix=""), dict(algo="sha256", epoch=1),
           dict(release="1.fc40"), dict(version="1.0~rc1"), dict(version="1^2")]

    def attr_files(root, v):
        p = root + "/d"
        return [[R(p + "/a", A), R(p + "/b", B_)],
                [R(p + "/a", A, ino=5, nlink=2, cpio_data=b""), R(p + "/b", A, ino=5, nlink=2), R(p + "/c", C_)],
                [R(p + "/lib/a", A, color=1), R(p + "/lib64/a", B_, color=2), R(p + "/bin/x", C_, color=2)],
                [R(p + "/a", A, verify=G.V_NOMD5), R(p + "/b", B_, verify=G.V_NOSIZE), R(p + "/c", C_)],
                [L(p + "/s", "y" * 300), D(p + "/dir"), R(p + "/e", b""), R(p + "/c", C_)]][v]

    def mk_attr(root):
        for i, a in enumerate(ATT):
            for v in range(5):
                t = "a%d-%d" % (i, v)
                yield Pkg(files=attr_files(root + "/" + t, v), name=t, colors=(v == 2), **a)

    def g_attr():
        for k in range(len(ATT) * 5):
            for o in ("v0=1", "v0=2", "v0=3", "k0=0,1", "k0=2,1", "k0=4,1", "k0=6,1", "n0", "b0=4,1", "b0=6,1"):
                for w in (0, 1):
                    yield k, o, w

    def b_attr(ctx, c):
        k, o, w = c
        h, ps = sysof(ctx, "attr", lambda root: list(mk_attr(root)))
        old = ps[k]
        nf = [replace(f, data=tweak(f.data) if f.data else b"", cpio_data=None, nlink=1, ino=0) for f in old.pkg.files]
        if w:
            nf.reverse()
        new = G.build(replace(old.pkg, files=nf, version="2", release="9"))
        fs_case(ctx, h, old, new, FAST + ";" + o, spoil=w)
        ctx.outcome(c)
    ck.explore("attributes x options", g_attr, b_attr)

    # 6. identity deltas from installed files
    def g_id():
        for k in range(len(KU)):
            yield k,

    def b_id(ctx, c):
        h, ps = sysof(ctx, "kinds", mk_kinds)
        old = ps[c[0]]
        make(ctx, old, None, FAST, h.ex())
        fs_case(ctx, h, old, old)
        ctx.outcome(c)
    ck.explore("identity", g_id, b_id)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["make"] + t["apply"], traces_validated_against_impl=t["apply"]))
