"""Operation scenarios, for the checks that make every one of an operation's steps fail."""
from universe import *
import rpml as PL, elf, core
import c16
from c07 import reroot
from c19 import make_print, make_patch

SMALL = c16.variant((64, 1, 1))
MID = c16.variant((128, 2, 2))

# a package with every kind of file, and a later one
def files(root, v):
    if v == 1:
        return reroot([R("/a/f", A + B_), R("/a/g", C_ + B_ + A), L("/a/l", "f" * 40), D("/d"), R("/cfg", b"cc", flags=G.F_CONFIG),
                       File("/dev", kind="chr", rdev=0x103), R("/e", b""), R("/h", rnd(31, 150))], root)
    return reroot([R("/a/f", tweak(A + B_)), R("/a/n", rnd(33, 90) + B_), R("/a/g", C_ + rnd(32, 20) + B_ + A), R("/h", rnd(31, 150) + b"!")], root)


class Sc:
    """one call: a command line, the files it writes, the files it may read"""

    def __init__(self, ctx, name, cmd, outs=(), ins=(), host=None, variant=None, pre=(), sysfiles=()):
        self.ctx, self.name, self.cmd, self.outs, self.ins, self.pre = ctx, name, cmd, list(outs), list(ins), list(pre)
        self.host, self.variant, self.sysfiles = host, variant, list(sysfiles)

    low = False         # with descriptor 0 left to the library

    def ex(self):
        v = self.variant or ("default", ())
        if self.low:
            key = "low/%s/%s" % (v[0], bool(self.host))
            e = self.ctx.cache.get(key)
            if e is None:
                k = dict(dbpath=self.host.db) if self.host else {}
                e = self.ctx.cache[key] = self.ctx.execs[key] = core.Exec(B.build(*v), self.ctx.path("xlow%d" % len(self.ctx.execs)), env={"EXEC_LOW_FD": "1"}, **k)
                os.makedirs(e.scratch, exist_ok=True)
            return e
        return self.host.ex(*v) if self.host else self.ctx.ex(*v)

    def wipe(self):
        for o in self.outs:
            try:
                os.unlink(o)
            except OSError:
                pass

    def run(self, pre=(), keep=False):
        if not keep:
            self.wipe()
        return self.ex().raw(*self.cmd, pre=self.pre + list(pre))

    def results(self):
        return [slurp(o) for o in self.outs]


def names():
    """all scenario names, the cheap and telling ones first"""
    out = []
    for c in range(7):
        out.append("make:std:%d" % c)
    for c in range(7):
        out.append("make:ro:%d" % c)
    for c in range(1, 7):
        out.append("make:payload:%d" % c)
    for c in range(1, 7):
        out.append("make:ropayload:%d" % c)
    out += ["make:id", "make:idro", "make:v1", "make:v2", "make:seq", "make:idseq", "make:noadd", "make:p:rpml", "make:p:rpm", "make:empty", "make:sha", "make:large",
            "make:roid:5", "make:std:default"]
    for c in range(7):
        out.append("apply:std:%d" % c)
    for c in range(7):
        out.append("apply:ro:%d" % c)
    for c in (1, 2, 3, 4, 6):       # no delta can be made for lzip
        out.append("apply:payload:%d" % c)
    out += ["apply:id", "apply:idro", "apply:v1", "apply:v2", "apply:fs", "apply:fs:small", "apply:fs:mid", "apply:std:small", "apply:ro:small", "apply:pre", "apply:sha",
            "apply:large", "apply:empty", "apply:lead"]
    for m in (0, 1, 2):
        out += ["check:delta:%d" % m, "check:seq:%d" % m]
    out += ["check:pre:1", "check:pre:2", "check:old", "check:sha:1"]
    for c in range(7):
        out.append("read:std:%d" % c)
        out.append("read:ro:%d" % c)
    return out


# streams of several of the compressors' own buffers
HUGE = ["make:huge:%d" % c for c in range(1, 7)] + ["apply:huge:%d" % c for c in (1, 2, 3, 4, 6)]

# calls that fail: a scenario, which of its inputs is damaged, and how
FAIL = ["fail/%s/%d/%s" % x for x in [
    ("make:std:1", 0, "cut"), ("make:std:1", 0, "late"), ("make:std:1", 1, "late"), ("make:ro:4", 0, "gone"), ("make:p:rpml", 2, "cut"), ("make:p:rpml", 3, "cut"),
    ("apply:std:1", 0, "cut"), ("apply:std:1", 0, "byte"), ("apply:std:1", 1, "other"), ("apply:ro:2", 1, "late"), ("check:delta:1", 0, "cut"), ("read:std:1", 0, "cut")]]


def failing(ctx, name):
    base, i, how = name.split("/")[1:]
    s = get(ctx, base)
    p = s.ins[int(i)]
    b = slurp(p)
    b = {"cut": b[:len(b) * 2 // 3], "late": b[:-9], "byte": b[:-30] + bytes([b[-30] ^ 1]) + b[-29:], "gone": b"", "other": ctx.cache["sc:ss"].raw}[how]
    q = p + "." + how
    if how != "gone":
        with open(q, "wb") as o:
            o.write(b)
    outs = [o + ".f" for o in s.outs]
    cmd = [x if x is None else x.replace(p, q) for x in s.cmd]
    for o in s.outs:
        cmd = [x if x is None else x.replace(o, o + ".f") for x in cmd]
    t = Sc(ctx, name, tuple(cmd), outs, [q if x == p else x for x in s.ins], host=s.host, pre=s.pre)
    if t.run()["rc"] == OK:
        raise RuntimeError("%s succeeds" % name)
    return t


def host(ctx):
    h = ctx.cache.get("schost")
    if h is None:
        h = ctx.cache["schost"] = Host(ctx, "sch")
        ps = []
        for nm, algo in (("sm", "md5"), ("ss", "sha256"), ("sp", "md5"), ("sx", "md5")):
            b = built(Pkg(name=nm, algo=algo, files=files(h.root + "/" + nm, 1)))
            ps.append(b)
            ctx.cache["sc:" + nm] = b
        h.install(ps)
        for b in ps:
            h.place(b.pkg)
        for i, f in enumerate(ps[2].pkg.files):
            if f.kind == "reg" and f.data and not f.flags:
                c16.prelink(f, n=i)
        for f in ps[3].pkg.files:
            if f.kind == "reg" and f.data and not f.flags:
                with open(f.name, "ab") as o:
                    o.write(b"more than there was" * 10)
    return h


def get(ctx, name):
    s = ctx.cache.get("sc/" + name)
    if s is None:
        s = ctx.cache["sc/" + name] = build(ctx, name)
    return s


def build(ctx, name):
    if name.startswith("fail/"):
        return failing(ctx, name)
    h = host(ctx)
    p = name.split(":")
    d = os.path.join(ctx.dir, "sc-" + name.replace(":", "-"))
    os.makedirs(d, exist_ok=True)
    F = lambda n: os.path.join(d, n)

    def put(n, b):
        with open(F(n), "wb") as o:
            o.write(b)
        return F(n)

    which = "ss" if "sha" in p else "sp" if "pre" in p else "sx" if "longer" in p else "sm"
    old = ctx.cache["sc:" + which]
    nk = dict(name=which, version="2", level=1)
    if name.startswith(("make:payload", "make:ropayload", "apply:payload", "make:roid")):
        nk.update(comp=int(p[2]), level=3)
        if p[0] == "make":
            old = built(Pkg(name=which, files=old.pkg.files, comp=int(p[2]), level=3))
    new = built(Pkg(files=files(h.root + "/" + which, 2), **nk))
    if "large" in p:
        big = rnd(41, 30000)
        old = built(Pkg(name="big", files=[R("/a/big", big), R("/b", rnd(42, 9000))]))
        new = built(Pkg(name="big", version="2", files=[R("/a/big", tweak(big, step=700)), R("/b", rnd(43, 5000) + rnd(42, 9000))], level=1))
    if "huge" in p:
        old = built(Pkg(name="huge", files=[R("/a/big", rnd(41, 9000))]))
        new = built(Pkg(name="huge", version="2", files=[R("/a/big", rnd(44, 135000) + rnd(41, 9000))], comp=int(p[2]) if p[0] == "apply" else 1, level=1))
    if "empty" in p:
        old = built(Pkg(name="nil"))
        new = built(Pkg(name="nil", version="2", level=1))
    po, pn = put("old.rpm", old.raw), put("new.rpm", new.raw)
    out = F("out")

    def opts():
        o = ["t0=%d" % (1 if p[1] in ("ro", "idro", "ropayload", "roid") else 0)]
        k = p[1]
        if k in ("std", "ro") and p[2:] and p[2].isdigit():
            c = int(p[2])
            o += ["k0=%d,%d" % (c, 1 if c else 0), "b0=%d,%d" % ((c + 1) % 7, 1 if (c + 1) % 7 else 0)]
        elif k in ("payload", "ropayload", "roid"):
            o += ["g0"]
        elif k == "huge":
            o += ["k0=%d,1" % int(p[2]), "b0=%d,1" % int(p[2])]
        elif name == "make:std:default":
            return "-"
        else:
            o += ["k0=1,1"]
        if k == "v1": o += ["v0=1"]
        if k == "v2": o += ["v0=2"]
        if k in ("seq", "idseq"): o += ["s0=" + F("seq")]
        if k == "noadd": o += ["n0"]
        if k == "p":
            sts = ["other", "same", "absent", "absent", "absent", "absent", "absent", "patched"]
            o += ["p0=%s|%s" % (put("print", make_print(old.pkg, sts)), put("patch", make_patch(old.pkg, sts, p[2])))]
        return ";".join(o)

    identity = p[1] in ("id", "idro", "idseq", "roid")
    if p[0] == "make":
        outs = [out] + ([F("seq")] if p[1] in ("seq", "idseq") else [])
        ins = [po] + ([] if identity else [pn]) + ([F("print"), F("patch")] if p[1] == "p" else [])
        return Sc(ctx, name, ("M", po, None if identity else pn, out, opts()), outs, ins)
    # a delta to work on
    r = ctx.ex().make(po, None if identity else pn, F("d.drpm"), opts())
    if r["rc"] != OK:
        raise RuntimeError("scenario %s: make %s" % (name, why(r["rc"])))
    dl = F("d.drpm")
    if p[1] == "lead":
        # recorded without a digest of the result
        x = DL.parse(slurp(dl))
        x.tgt_md5 = b"\0" * 16
        put("d.drpm", DL.encode(x))
    if p[0] == "apply":
        if p[1] in ("fs", "pre"):
            v = {"small": SMALL, "mid": MID}.get(p[2] if p[2:] else "", None)
            sysf = [f.name for f in old.pkg.files if f.kind == "reg"]
            return Sc(ctx, name, ("A", None, dl, out), [out], [dl], host=h, variant=v, pre=["K\t1"] if p[1] == "pre" else [], sysfiles=sysf)
        v = SMALL if p[2:] == ["small"] else None
        return Sc(ctx, name, ("A", po, dl, out), [out], [dl, po], variant=v)
    if p[0] == "read":
        return Sc(ctx, name, ("R", dl), [], [dl])
    if p[0] == "check":         # "longer": of files that are longer than recorded
        x = DL.parse(slurp(dl))
        if p[1] == "seq":
            return Sc(ctx, name, ("S", None, old.pkg.nevr + "-" + x.sequence.hex(), p[2]), [], [], host=h)
        if p[1] == "old":
            return Sc(ctx, name, ("S", po, old.pkg.nevr + "-" + x.sequence.hex(), "0"), [], [po])
        return Sc(ctx, name, ("C", dl, p[2]), [], [dl], host=h, pre=["K\t1"] if p[1] == "pre" else [])
    raise RuntimeError(name)


def measure(ck, names_, workers=8):
    """{name: (operations as a string of letters, number of allocations)} of the undisturbed runs"""
    from concurrent.futures import ThreadPoolExecutor
    out = {}

    def part(w):
        ctx = Ctx(ck, w)        # the paths are as long as those of the workers
        try:
            for n in names_[w::workers]:
                s = get(ctx, n)
                s.run()
                r = s.run(pre=["P\t1"])
                out[n] = (r["trace"], r["al"], r["rc"])
        finally:
            ctx.restart()
    with ThreadPoolExecutor(workers) as tp:
        list(tp.map(part, range(workers)))
    for w in range(workers):
        shutil.rmtree(os.path.join(ck.scratch, "w%d" % w), ignore_errors=True)
    return out


RW = "rRFwWG"
LETTERS = dict(o="open", c="create", r="read", R="pread", w="write", W="pwrite", l="seek", m="temporary file", f="fstat", s="stat", O="open stream", C="close stream",
               P="Fopen", F="Fread", G="Fwrite", S="Fseek", T="Ftell", D="Fclose", k="close", Y="fork")


def faults(trace, first=1):
    """single deviations of a run: (k, mode, persistent)"""
    for k in range(first, len(trace) + 1):
        for m in "esz" if trace[k - 1] in RW else "e":
            for p in (0, 1):
                yield k, m, p


def good(ctx, s):
    """the undisturbed call's code and results"""
    g = ctx.cache.get("good/" + s.name)
    if g is None:
        s.run()
        r = s.run()
        g = ctx.cache["good/" + s.name] = (r["rc"], s.results())
    return g
