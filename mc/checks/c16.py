"""C16: the bounded block cache and open-file list never change the delivered bytes."""
from universe import *
import c18, elf

LEVEL = "model_checking"
TECH = ("bounded exhaustive exploration of the block cache of the real code, built with small limits: every sequence of "
        "copies up to a depth over every block position, three data sources; oracle: the bytes of the old data")

# (block size, blocks in core, open files)
LIMITS = [(64, 1, 1), (64, 2, 1), (64, 3, 2), (128, 2, 3), (512, 2, 2)]


variant = limits


class Src:
    """one old package as a source of data: 'std', 'ro' or 'fs'"""

    def __init__(self, ctx, files, order=None, colors=False, tag="s", prelinked=()):
        self.host = ctx.cache.get("host") or ctx.cache.setdefault("host", Host(ctx))
        for f in files:
            f.name = self.host.root + "/" + tag + f.name
        self.old = built(Pkg(files=files, order=order, name="src" + tag))
        self.host.place(self.old.pkg)
        self.host.install([self.old])
        for i in prelinked:
            prelink(files[i], n=i)
        self.path = ctx.put(tag + ".rpm", self.old.raw)
        self.std = G.filtered_archive(self.old.pkg)
        self.ro = self.old.header + self.old.archive

    def run(self, ctx, lim, kind, cps, ints=(b"headr",), splits=None, pre=(), good=True, **k):
        d, full = c18.synth(self.old, cps=cps, splits=splits or (len(cps),), ints=ints, ver=3, ro=(kind == "ro"),
                            comp=G.NONE if not k else G.GZIP, tcomp=G.GZIP, tlevel=1, **k)
        ctx.put("d.drpm", DL.encode(d))
        ex = self.host.ex(*variant(lim)) if lim else self.host.ex()
        out = ctx.path("out.rpm")
        r = ex.apply(None if kind == "fs" else self.path, ctx.path("d.drpm"), out, pre=["K\t1"] + list(pre))
        ctx.count("apply")
        if not good:
            return r
        if r["rc"] != OK:
            raise Violation("%s from %s: a conforming delta was refused" % (why(r["rc"]), kind), key="%s:%s" % (kind, why(r["rc"])))
        if slurp(out) != full:
            raise Violation("wrong bytes delivered from %s" % kind, key="%s:wrong" % kind)
        return r        # (what it left open or allocated is for C13)


def prelink(f, n=0):
    """what the prelink program does to an installed file; undoing it gives back what is kept beside it"""
    with open(f.name + ".orig", "wb") as o:
        o.write(f.data)
    e = elf.elf(is64=n & 1 == 0, le=n & 2 == 0, body=rnd(n, 30))
    with open(f.name, "wb") as o:
        o.write(e + b"\xee" * max(0, len(f.data) + 37 - len(e)))


def src(ctx, name, mk):
    s = ctx.cache.get("src:" + name)
    if s is None:
        s = ctx.cache["src:" + name] = Src(ctx, *mk(), tag=name)
    return s


def mk_small():
    return ([R("/f0", rnd(50, 90)), R("/f1", rnd(51, 130)), L("/l", "target"), R("/f2", rnd(52, 61))],)


def mk_pre(which):
    return lambda: ([R("/f0", rnd(50, 90)), R("/f1", rnd(51, 130)), L("/l", "target" * 20), R("/f2", rnd(52, 61)), R("/f3", rnd(53, 203)), R("/e", b""),
                     R("/f4", rnd(54, 40))], None, False)


PRE = [(0,), (1,), (3,), (4,), (6,), (1, 3), (1, 4), (3, 4), (0, 1), (4, 6), (0, 1, 3, 4, 6)]


def mk_shift(n):
    return ([R("/f0", rnd(50, n)), L("/l", "target" * 20), R("/f1", rnd(51, 130)), L("/m", "t"), R("/f2", rnd(52, 300)), R("/f3", rnd(53, 203)), R("/f4", rnd(54, 699)),
             R("/f5", rnd(55, 20))], None, False)


SH = [(2,), (4,), (2, 5), (2, 4, 6), (4, 5), (0, 6), (2, 4, 5, 6, 7)]


def run(ck, tier):
    th = tier == "thorough"
    ck.case_retries = 16        # the library's sweep counter is shared by the calls of a process
    lims = LIMITS
    with __import__("concurrent.futures").futures.ThreadPoolExecutor(4) as tp:
        list(tp.map(lambda l: B.build(*variant(l)), lims))
    kinds = ("std", "fs", "ro")

    # 1. every sequence of single-block copies over a set of block positions
    def g_seq():
        n, depth = (6, 5) if not th else (7, 6)
        for l in range(len(lims)):
            for kind in kinds:
                for dp in range(1, depth + 1):
                    for s in itertools.product(range(n), repeat=dp):
                        if min(s) or dp == depth:
                            if l > 2 and dp == depth and not th and s[-1] > s[0]:
                                continue
                            yield l, kind, s

    def b_seq(ctx, c):
        l, kind, s = c
        S = src(ctx, "small", mk_small)
        bs = lims[l][0]
        ext = S.ro if kind == "ro" else S.std
        nb = (len(ext) + bs - 1) // bs
        h = len(S.old.header) // bs
        if kind == "ro":
            pos = [0, 1, h, h + 1, nb - 2, nb - 1, 3]
        elif bs == 64:
            pos = [0, 2, 3, 5, nb // 2 + 2, nb - 1, 6]
        else:
            pos = [0, 1, 2, nb // 2, nb - 2, nb - 1, 3]
        cps = []
        for k in s:
            st = (pos[k] % nb) * bs
            cps.append((st, min(bs, len(ext) - st)))
        S.run(ctx, lims[l], kind, tuple(cps))
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("sequences of blocks", g_seq, b_seq)

    # 2. copies within, at and across block edges
    def g_edge():
        for l in range(len(lims)):
            bs = lims[l][0]
            P = (0, bs - 1, bs, bs + 1, 2 * bs, 5 * bs - 1, -1, -bs) if th else (0, bs - 1, bs + 1, 5 * bs, -bs)
            Ls = (1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1) if th else (1, bs, bs + 1, 3 * bs + 1)
            E = list(itertools.product(P, Ls))
            for kind in kinds:
                for n in (1, 2, 3):
                    for i, cps in enumerate(itertools.product(E, repeat=n)):
                        if n == 3 and not th and (i + l) % 5:
                            continue
                        yield l, kind, cps

    def b_edge(ctx, c):
        l, kind, cps = c
        S = src(ctx, "small", mk_small)
        ext = S.ro if kind == "ro" else S.std
        cl = []
        for p, n in cps:
            p = p % len(ext)
            cl.append((p, min(n, len(ext) - p)))
        S.run(ctx, lims[l], kind, tuple(cl))
        ctx.outcome(c)
    ck.explore("copies across block edges", g_edge, b_edge)

    # 3. files visited in every order with few open at a time; payload order and skipped files vary
    N = 4

    def mk_perm(order, skip):
        return lambda: ([R("/p%d" % i, rnd(60 + i, 100 + 37 * i), flags=G.F_CONFIG if skip >> i & 1 else 0) for i in range(N)],
                        list(order))

    def g_files():
        for o in itertools.permutations(range(N)):
            for skip in range((1 << N) - 1):
                n = N - bin(skip).count("1")
                for l in (1, 2) if not th else (1, 2, 3):
                    for kind in ("fs", "std"):
                        for s in itertools.product(range(n), repeat=3 if not th else 4):
                            if kind == "std" and (s[0] > s[1] or not th and l == 2):
                                continue
                            yield o, skip, l, kind, s

    def b_files(ctx, c):
        o, skip, l, kind, s = c
        S = src(ctx, "p%s-%d" % ("".join(map(str, o)), skip), mk_perm(o, skip))
        used = G.used_files(S.old.pkg)
        # position of the middle of each used file's content in the filtered archive
        mid, pos = [], 0
        for i in used:
            f = S.old.pkg.files[i]
            e = len(G.cpio_entry("./" + f.name.lstrip("/"), f.mode, f.data))
            mid.append(pos + e - len(f.data) // 2 - 3)
            pos += e
        S.run(ctx, lims[l], kind, tuple((mid[k], 40) for k in s))
        ctx.outcome(c)
    ck.explore("files visited in every order", g_files, b_files)

    # 3b. files that were prelinked
    def g_pre():
        for w in range(len(PRE)):
            for l in (0, 1, 2, 3):
                bs = lims[l][0]
                S = 20 if bs == 64 else 11
                for a in range(S):
                    yield w, l, (a,)
                    for b in range(S):
                        if th or (a + b + w + l) % 3 == 0:
                            yield w, l, (a, b)
                        if (th or (a * 7 + b + w + l) % 40 == 0) and a != b:
                            for x in range(0, S, 1 if th else 3):
                                yield w, l, (a, b, x)

    def b_pre(ctx, c):
        w, l, s = c
        S = ctx.cache.get("src:pre%d" % w)
        if S is None:
            S = ctx.cache["src:pre%d" % w] = Src(ctx, *mk_pre(w)(), tag="pre%d" % w, prelinked=PRE[w])
        bs = lims[l][0]
        n = (len(S.std) + bs - 1) // bs
        S.run(ctx, lims[l], "fs", tuple((k % n * bs, min(bs, len(S.std) - k % n * bs)) for k in s))
        ctx.outcome(c)
    ck.explore("prelinked files", g_pre, b_pre)

    # block edges everywhere in a package with prelinked files, links and others in turn
    def g_shift():
        for n in range(0, 516, 4 if th else 20):
            for w in range(len(SH)):
                yield n, w

    def b_shift(ctx, c):
        n, w = c
        t = "sh%d-%d" % (n, w)
        S = ctx.cache.get("src:" + t)
        if S is None:
            S = ctx.cache["src:" + t] = Src(ctx, *mk_shift(n), tag=t, prelinked=SH[w])
        nb = (len(S.std) + 511) // 512
        for dp in (1, 2, 3) if th else (1, 2):
            for s in itertools.product(range(nb), repeat=dp):
                S.run(ctx, lims[4], "fs", tuple((k * 512, min(512, len(S.std) - k * 512)) for k in s))
                ctx.outcome((c, s))
    ck.explore("prelinked files, shifted", g_shift, b_shift)

    # 4. the shipped limits: more than 50 files, forwards, backwards, in strides
    def mk_many():
        return ([R("/m%03d" % i, rnd(200 + i, 9000 + i)) for i in range(60)],)

    def g_many():
        for kind in ("fs", "std"):
            for stride in (1, 59, 7, 13, 31, 53):
                for rounds in (1, 2):
                    yield kind, stride, rounds

    def b_many(ctx, c):
        kind, stride, rounds = c
        S = src(ctx, "many", mk_many)
        per = {}
        pos = 0
        for i in G.used_files(S.old.pkg):
            f = S.old.pkg.files[i]
            e = len(G.cpio_entry("./" + f.name.lstrip("/"), f.mode, f.data))
            per[i] = pos + e - 4000
            pos += e
        cps = tuple((per[(k * stride) % 60], 300 + k) for k in range(60 * rounds))
        S.run(ctx, None, kind, cps)
        ctx.outcome(c)
    ck.explore("sixty files, shipped limits", g_many, b_many)

    t = ck.totals
    ck.assumptions.append("limits of the cache are lowered with -DDRPM_VERIF_*; the code paths are those of the shipped build")
    return ck.finish(dict(states=len(ck.distinct), transitions=t["apply"], traces_validated_against_impl=t["apply"],
                          limits=["block %d, %d in core, %d open files" % l for l in lims]))
