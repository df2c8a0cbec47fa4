"""C14: make options behave as documented under every sequence of option calls."""
from universe import *
from c19 import make_print, make_patch, excluded

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of sequences of option calls on the real code against a reference model of the option object; "
        "the delta made from the state the model predicts is compared with one made from a fresh object set straight to that state, and with the documented meaning of that state")
NOTE = ("The model says for every call what it returns and what it changes; each sequence ends with a delta made from both objects, whose bytes must be those of the "
        "model's state. What a state means (type, version, compressor, level, add block, files relied on, sequence file) is checked independently on the deltas themselves.")

NONE_, GZ, BZ, LZ, XZ_, LZIP, ZSTD = range(7)
# rpm-only, version, delta compression (None: the package's), add block (None: none), sequence file, patches
DEFAULT = (False, 3, None, (2, 0), None, None)
BAD = "bad"


def pkgs():
    fo = [R("/o/a/f", A + B_), R("/o/a/g", B_ + C_), R("/o/b", rnd(9, 900)), D("/o/d")]
    fn = [R("/o/a/f", A1 + B_), R("/o/a/g", C_ + B_), R("/o/b", tweak(rnd(9, 900), step=37)), D("/o/d")]
    return (built(Pkg(files=fo, level=3)), built(Pkg(files=fn, version="2", comp=G.BZIP2, level=4)))


# name of a file -> path, per worker
SEQS = {"q": "q", "Q": "a-longer-name-of-a-sequence-file", "nodir": "none/q"}
PATCHES = {"P": ("pr1", "pa1"), "P2": ("pr2", "pa2"), "nopatch": ("pr1", "missing"), "noprint": ("missing", "pa1")}


def tok(t, ctx):
    """a token as the executor takes it"""
    if t[0] == "s" and t[3:] in SEQS:
        return t[:3] + ctx.path(SEQS[t[3:]])
    if t[0] == "p":
        a, b = PATCHES[t[3:]] if t[3:] in PATCHES else [x if x == "@N" else "pr1" for x in t[3:].split("|")]
        return t[:3] + (a if a == "@N" else ctx.path(a)) + "|" + (b if b == "@N" else ctx.path(b))
    return t


def make_rc(o, other=False):
    """what making a delta from this state returns, and whether it gets as far as writing"""
    if o is None:
        return OK
    if o[0] and o[1] < 3:
        return ARGS
    if not o[0] and o[5] in ("nopatch", "noprint"):
        return IO
    if not o[0] and o[5] and other:
        return ARGS         # the patches are for another package
    if o[4] == "nodir":
        return IO
    return OK


def step(st, t, other=False):
    """the reference model: state (pair of objects) and call -> code, state"""
    k = t[0]
    i = int(t[1]) if t[1] in "01" else None
    o = st[i] if i is not None else None

    def to(new):
        return OK, st[:i] + (new,) + st[i + 1:]
    if k == "m":
        return make_rc(o, other), st
    if k == "i":
        return (ARGS, st) if i is None else to(DEFAULT)
    if k == "x":
        return (ARGS, st) if o is None else to(None)
    if o is None:
        return ARGS, st
    if k == "d":
        return to(DEFAULT)
    if k == "c":
        s = st[int(t[2])] if t[2] in "01" else None
        return (ARGS, st) if s is None else to(s)
    if k == "g":
        return to(o[:2] + (None,) + o[3:])
    if k == "n":
        return to(o[:3] + (None,) + o[4:])
    v = t[3:]
    if k == "t":
        return to((v == "1",) + o[1:]) if v in "01" else (ARGS, st)
    if k == "v":
        return to(o[:1] + (int(v),) + o[2:]) if v in ("1", "2", "3") else (ARGS, st)
    if k in "kb":
        c, l = map(int, v.split(","))
        if c > 6 or l > 9:
            return ARGS, st
        return to(o[:2] + ((c, l),) + o[3:]) if k == "k" else to(o[:3] + ((c, l),) + o[4:])
    if k == "s":
        return to(o[:4] + (None if v == "@N" else v,) + o[5:])
    if k == "p":
        return (ARGS, st) if "@N" in v else to(o[:5] + (v,))
    raise ValueError(t)


def toks(i, full):
    s = str(i)
    j = str(1 - i)
    T = ["t%s=0" % s, "t%s=1" % s, "v%s=1" % s, "v%s=2" % s, "k%s=1,9" % s, "k%s=0,0" % s, "g" + s, "n" + s, "b%s=1,5" % s, "b%s=0,0" % s,
         "s%s=q" % s, "s%s=Q" % s, "s%s=@N" % s, "p%s=P" % s, "p%s=P2" % s, "d" + s, "c%s%s" % (s, j), "m" + s]
    if full:
        T += ["v%s=3" % s, "k%s=2,1" % s, "k%s=3,4" % s, "k%s=4,0" % s, "k%s=5,0" % s, "k%s=6,2" % s, "b%s=2,3" % s, "b%s=3,1" % s, "b%s=4,6" % s, "b%s=5,2" % s, "b%s=6,0" % s,
              "s%s=nodir" % s, "p%s=nopatch" % s, "p%s=noprint" % s, "c%s%s" % (s, s), "x%s;i%s" % (s, s)]
        # refused
        T += ["t%s=2" % s, "t%s=65535" % s, "v%s=0" % s, "v%s=4" % s, "v%s=65535" % s, "k%s=7,1" % s, "k%s=65535,0" % s, "k%s=1,10" % s, "k%s=3,65535" % s,
              "b%s=7,1" % s, "b%s=65535,0" % s, "b%s=2,10" % s, "p%s=@N|x" % s, "p%s=x|@N" % s, "p%s=@N|@N" % s, "c%sN" % s, "cN%s" % s]
    return T


NULLS = ["iN", "xN", "dN", "cNN", "tN=0", "vN=3", "kN=1,1", "gN", "nN", "bN=2,1", "sN=q", "pN=P"]


# builds of the library: what is left out of config.h, the compressors each lacks
BUILDS = {"default": (), "nozstd": ("no:WITH_ZSTD",), "nolzip": ("no:HAVE_LZLIB_DEVEL",), "neither": ("no:WITH_ZSTD", "no:HAVE_LZLIB_DEVEL")}


class Run:
    build = "default"

    def __init__(self, ctx, pair):
        self.ctx, self.pair = ctx, pair
        self.old, self.new = pair
        c = ctx.cache
        if "set" not in c:
            p = pkgs()[0].pkg
            for n, sts in PSTATES.items():
                ctx.put("pr" + n, make_print(p, sts))
                ctx.put("pa" + n, make_patch(p, sts, "rpml"))
            for i, b in enumerate(pkgs()):
                ctx.put("p%d.rpm" % i, b.raw)
            c["set"] = True
        self.po = None if self.old is None else ctx.path("p%d.rpm" % self.old)
        self.pn = None if self.new is None else ctx.path("p%d.rpm" % self.new)
        self.pd = ctx.path("d")

    def clean(self):
        for n in [f for f in os.listdir(self.ctx.dir) if f == "d" or f.startswith("d.") or f in ("q", SEQS["Q"])]:
            os.unlink(self.ctx.path(n))

    def calls(self, ts):
        r = self.ctx.ex(self.build, BUILDS[self.build], max_alloc_mb=2000).opts(self.po, self.pn, self.pd, ";".join(tok(t, self.ctx) for t in ts))
        self.ctx.count("option_call", len(r["rcs"]))
        return r["rcs"]

    def canon(self, o):
        """the delta and sequence file of a state, made from a fresh object"""
        key = (self.pair, o and o[:4] + (None, None if o[0] else o[5]))
        got = self.ctx.cache.get(key)
        if got is None:
            q = self.ctx.path("canon.q")
            d = self.ctx.path("canon.d")
            if o is None:
                r = self.ctx.ex(max_alloc_mb=2000).make(self.po, self.pn, d, "-")
                T = "-"
            else:
                T = "t0=%d;v0=%d" % (o[0], o[1])
                T += ";k0=%d,%d" % o[2] if o[2] else ""
                T += ";b0=%d,%d" % o[3] if o[3] else ";n0"
                T += ";" + tok("p0=" + o[5], self.ctx) if o[5] and not o[0] else ""
                r = self.ctx.ex(max_alloc_mb=2000).make(self.po, self.pn, d, T + ";s0=" + q)
            if r["rc"] != OK:
                raise Violation("make with valid options: %s" % why(r["rc"]), key="canon", opts=T)
            b = slurp(d)
            self.meaning(o, b)
            got = self.ctx.cache[key] = (b, None if o is None else slurp(q))
            if o is not None:
                dl = DL.parse(b)
                want = dl.src_nevr + b"-" + dl.sequence.hex().encode() + b"\n"
                if got[1] != want:
                    raise Violation("the sequence file is not that of the delta", key="seqfile:content", got=got[1], want=want)
            self.ctx.count("state")
            self.ctx.outcome(key)
        return got

    def meaning(self, o, b):
        """what the state means, on the delta itself"""
        o = o or DEFAULT
        old, new = [None if i is None else pkgs()[i] for i in self.pair]
        d = DL.parse(b)
        tgt = (new or old).pkg
        ident = new is None or old is None

        def bad(what):
            raise Violation("made with %r, but %s" % (o, what), key="meaning:" + what)
        if d.rpmonly != o[0]:
            bad("the type is wrong")
        if d.version != o[1]:
            bad("the version is wrong")
        comp, level = o[2] or (tgt.comp, tgt.level)
        if ident and d.rpmonly and o[2] is None:
            comp, level = d.comp, 0     # such a delta takes no package apart: left open
        if d.comp != comp:
            bad("the compressor is wrong")
        body = b if not d.rpmonly else None
        if level:
            if d.rpmonly:
                st = b[8:]
                n = int.from_bytes(st[:4], "big")
                st = st[4 + n:]
                n = int.from_bytes(st[:4], "big")
                st = st[4 + n:]
            else:
                st = DL.split_rpm(b)[3]
            if comp in (GZ, BZ, LZ, XZ_) and st != G.compress(G.decompress(st, comp)[0], comp, level):
                bad("the compression level is wrong")
            if comp == ZSTD and st[:6] != G.compress(G.decompress(st, comp)[0], comp, level)[:6]:
                bad("the compression level is wrong")
        add = d.add
        if ident and d.rpmonly:
            return
        if (len(add) > 0) != (o[3] is not None):
            bad("the add block is there" if add else "the add block is missing")
        if add:
            c, l = o[3]
            if G.detect(add) != c:
                bad("the add block's compressor is wrong")
            if l and c in (GZ, BZ, LZ, XZ_) and add != G.compress(G.decompress(add, c)[0], c, l):
                bad("the add block's level is wrong")
        src = (old or new)
        if not d.rpmonly:
            skip = [] if o[5] is None else excluded(src.pkg, PSTATES[o[5][1:] or "1"])
            if d.sequence != G.sequence(src.pkg, skip=skip):
                bad("the files relied on are wrong")

    def body(self, ts):
        """runs a sequence on two fresh objects, making a delta of each at the end, twice"""
        self.clean()
        st = (None, None)
        pre = ["i0", "i1"]
        post = ["m0=.a", "m1=.b", "m0=.c"]
        flat = [x for t in ts for x in t.split(";")]
        seq = pre + flat + post
        want, made, qs = [], {}, {}
        for t in seq:
            rc, st = step(st, t, self.old is None)
            want.append(rc)
            if t[0] == "m":
                i = int(t[1]) if t[1] in "01" else None
                o = st[i] if i is not None else None
                if rc == OK or (rc == IO and (o[0] or o[5] not in ("nopatch", "noprint"))):
                    b, q = self.canon(o)
                    made["d" + t[3:]] = b
                    if o and o[4] in ("q", "Q"):
                        qs[SEQS[o[4]]] = q
        got = self.calls(seq)
        if got != want:
            i = next(i for i in range(len(want)) if i >= len(got) or got[i] != want[i])
            raise Violation("after %s, %s returned %s, expected %s" % (seq[:i], seq[i], why(got[i]), why(want[i])),
                            key="rc:%s:%s" % (seq[i].split("=")[0], why(got[i])), seq=seq)
        for n, b in made.items():
            if slurp(self.ctx.path(n)) != b:
                x = slurp(self.ctx.path(n))
                raise Violation("the delta made does not reflect the options in force", key="delta:" + self.diff(x, b), seq=seq, made=n)
        for n in ("q", SEQS["Q"]):
            g = slurp(self.ctx.path(n))
            if g != qs.get(n):
                raise Violation("sequence file %s %s" % (n, "was written" if n not in qs else "was not written" if g is None else "is wrong"),
                                key="seqfile:%s" % (n not in qs), seq=seq)
        self.ctx.sample(seq)

    @staticmethod
    def diff(x, b):
        try:
            x, b = DL.parse(x), DL.parse(b)
            return ",".join(f for f in ("rpmonly", "version", "comp", "sequence", "add_data", "add_outer", "src_nevr") if getattr(x, f) != getattr(b, f)) or "bytes"
        except Exception as e:
            return repr(e)


PSTATES = {"1": ("other", "same", "absent", "absent"), "2": ("absent", "gone", "patched", "absent")}
PAIRS = {"diff": (0, 1), "ident": (0, None), "new alone": (None, 1)}


def run(ck, tier):
    th = tier == "thorough"

    # the states themselves: every combination of settings
    def g_states():
        comps = [None] + [(c, l) for c in range(7) for l in range(0, 10, 1 if th else 3)]
        adds = [None] + [(c, l) for c in range(7) for l in range(0, 10, 1 if th else 3)]
        for pair in PAIRS:
            for r, v in ((False, 1), (False, 2), (False, 3), (True, 3)):
                for c in comps:
                    for a in adds if c in (None, (1, 9)) or th else ((2, 0), None):
                        for p in (None, "P", "P2") if not r else (None,):
                            if p and (pair == "new alone" or not (c is None or a == (2, 0))):
                                continue
                            yield pair, (r, v, c, a, None, p)

    def b_states(ctx, c):
        pair, o = c
        Run(ctx, PAIRS[pair]).canon(o)
        ctx.sample(c)
    ck.explore("states", g_states, b_states)

    def seqs(T, depth, pairs):
        for pair in pairs:
            for n in range(depth + 1):
                for ts in itertools.product(T, repeat=n):
                    yield (pair,) + ts

    def b_seq(ctx, c):
        Run(ctx, PAIRS[c[0]]).body(c[1:])

    # the compressor calls over the whole range of compressors and levels, in every build of the library
    def g_builds():
        for b in BUILDS:
            for pre in ("", "k0=1,9;b0=1,3", "g0;n0", "k0=4,2;b0=3,1"):
                for k in "kb":
                    for c in list(range(9)) + [16, 255, 256, 257, 262, 65535]:
                        for l in list(range(12)) + [19, 99, 255, 256, 257, 65535]:
                            yield b, pre, k, c, l

    def b_builds(ctx, c):
        b, pre, k, comp, lev = c
        R_ = Run(ctx, PAIRS["diff"])
        R_.build = b
        R_.clean()
        no_zstd = "no:WITH_ZSTD" in BUILDS[b]
        good = comp <= 6 and lev <= 9 and not (comp == ZSTD and no_zstd)
        call = "%s0=%d,%d" % (k, comp, lev)
        seq = ["i0"] + [x for x in pre.split(";") if x] + [call]
        lzip = good and comp == LZIP and "no:HAVE_LZLIB_DEVEL" in BUILDS[b]
        got = R_.calls(seq + ["m0=.a"])
        st = (None, None)
        for t in seq[:-1]:
            rc, st = step(st, t)
        if good:
            st = (st[0][:2] + (((comp, lev),) + st[0][3:] if k == "k" else (st[0][2], (comp, lev)) + st[0][4:]), None)
        want = [OK] * (len(seq) - 1) + [OK if good else ARGS]
        if got[:-1] != want:
            raise Violation("%s returned %s, expected %s (library: %s)" % (call, why(got[len(seq) - 1]), why(want[-1]), b), key="build rc:%s" % k)
        ctx.outcome((b, pre, k, comp, lev))
        if lzip:
            if got[-1] == OK:
                raise Violation("a delta was made with a compressor the library does not have", key="build lzip")
            return
        if got[-1] != OK:
            raise Violation("make returned %s (library: %s)" % (why(got[-1]), b), key="build make")
        if slurp(ctx.path("d.a")) != R_.canon(st[0])[0]:
            raise Violation("the delta made does not reflect the options in force (library: %s)" % b, key="build delta")
    ck.explore("compressors and levels x library", g_builds, b_builds)

    full0 = toks(0, True)
    short0, short1 = toks(0, False), toks(1, False)

    # every call, valid or refused, on one object
    ck.explore("pairs of calls", lambda: seqs(full0 + short1 + NULLS, 2, PAIRS), b_seq)
    ck.explore("one object", lambda: (c for c in seqs(full0 if th else [t for t in full0 if not t.startswith(("k0=3", "k0=4", "k0=6", "b0=3", "b0=4", "b0=6", "v0=65535", "b0=65535", "k0=65535"))], 3, ("diff",)) if len(c) == 4), b_seq)
    # two objects and copies between them
    both = [t for t in short0 + short1 if t not in ("t0=0", "t1=0", "k0=0,0", "k1=0,0", "b0=0,0", "b1=0,0", "v0=1", "v1=1")]
    ck.explore("two objects", lambda: (c for c in seqs(both, 4 if th else 3, ("diff",)) if len(c) >= 4), b_seq)
    if th:
        ck.explore("longer", lambda: (c for c in seqs(short0, 5, ("diff",)) if len(c) >= 5), b_seq)

    t = ck.totals
    return ck.finish(dict(evaluations=t["option_call"] + t["state"], distinct_nontrivial=len(ck.distinct),
                          rule="a case counts as distinct by the state of the option object that a delta was made from and the pair of packages",
                          alphabet=full0, two_objects=both, depth="3 calls on one object, %d on two" % (4 if th else 3)))
