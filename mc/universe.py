"""Shared alphabets of packages and the round-trip body."""
import hashlib, itertools, os
import rpmgen as G, delta as DL
from rpmgen import Pkg, File, R, D, L
from core import *


def rnd(seed, n):
    """n reproducible, incompressible bytes"""
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b"%d/%d" % (seed, i)).digest()
        i += 1
    return out[:n]


A, B_, C_ = rnd(1, 64), rnd(2, 64), rnd(3, 64)


def tweak(b, at=None, step=None):
    """b with some bytes changed by one: near copies, for the add block"""
    b = bytearray(b)
    for i in ([len(b) // 2] if step is None else range(step // 2, len(b), step)):
        b[i] = (b[i] + 1) & 255
    return bytes(b)


A1 = tweak(A)

FAST = "k0=1,1"          # gzip level 1 delta: cheap


_built = {}


def built(p):
    k = repr(p)
    b = _built.get(k)
    if b is None:
        if len(_built) > 4000:
            _built.clear()
        b = _built[k] = G.build(p)
    return b


def putc(ctx, name, b):
    """write b.raw as a file unless it is there already"""
    if ctx.cache.get(name) is not b:
        ctx.put(name, b.raw)
        ctx.cache[name] = b
    return ctx.path(name)


def why(rc):
    return ERR.get(rc, rc)


def make(ctx, old, new, opts=FAST, ex=None, expect=OK):
    """old/new: Built or None.  Returns the delta's bytes (None unless OK)."""
    ex = ex or ctx.ex()
    po = putc(ctx, "old.rpm", old) if old else None
    pn = putc(ctx, "new.rpm", new) if new else None
    pd = ctx.path("d.drpm")
    r = ex.make(po, pn, pd, opts)
    ctx.count("make")
    if expect is not None and r["rc"] != expect:
        raise Violation("make returned %s, expected %s" % (why(r["rc"]), why(expect)), key="make:%s" % why(r["rc"]), opts=opts)
    return slurp(pd) if r["rc"] == OK else None


def apply(ctx, old, new, ex=None, delta=None, what="apply", tag=""):
    """applies d.drpm (or delta bytes) to old and compares with new.raw"""
    ex = ex or ctx.ex()
    if delta is not None:
        ctx.put("d.drpm", delta)
    po = putc(ctx, "old.rpm", old) if old else None
    pout = ctx.path("out.rpm")
    r = ex.apply(po, ctx.path("d.drpm"), pout)
    ctx.count("apply")
    if r["rc"] != OK:
        raise Violation("%s returned %s%s" % (what, why(r["rc"]), tag), key="%s:%s%s" % (what, why(r["rc"]), tag))
    out = slurp(pout)
    if out != new.raw:
        raise Violation("%s reported OK but the output differs from the new package%s" % (what, tag), key="%s:wrong%s" % (what, tag),
                        out_len=len(out or b""), new_len=len(new.raw))
    return out


def roundtrip(ctx, old, new, opts=FAST, ex=None, tag=""):
    """old or new may be None (identity)"""
    d = make(ctx, old, new, opts, ex)
    apply(ctx, old or new, new or old, ex, tag=tag)
    return d


def limits(l):
    """the library with other limits of its block store: (block size, blocks in core, open files)"""
    return ("b%d-c%d-o%d" % l, ("DRPM_VERIF", "DRPM_VERIF_BLOCK_SIZE=%d" % l[0], "DRPM_VERIF_MAX_CORE_BLOCKS=%d" % l[1],
                                "DRPM_VERIF_MAX_OPEN_FILES=%d" % l[2]))


TIGHT = [(64, 1, 1), (128, 2, 2)]


def roundtrips(ctx, old, new, opts=FAST, tag=""):
    """and with a store of few and small blocks"""
    d = roundtrip(ctx, old, new, opts, tag=tag)
    for l in TIGHT:
        apply(ctx, old or new, new or old, ctx.ex(*limits(l)), tag=tag + " with blocks of %d bytes" % l[0])
    return d


# -- universes ---------------------------------------------------------------

def slot1(full=True):
    n = "/a/f"
    s = [None, R(n, A), R(n, A1), R(n, b""), D(n), L(n, "x"), L(n, "yy/zz"),
         R(n, A, flags=G.F_GHOST, payload=False), R(n, A, flags=G.F_CONFIG), R(n, A + B_)]
    if full:
        s += [File(n, kind="chr", rdev=0x103), File(n, kind="blk", rdev=0x1234), File(n, kind="fifo"),
              R(n, A, flags=G.F_MISSINGOK), R(n, A, verify=G.V_NOMD5), R(n, A, verify=G.V_NOSIZE),
              R(n, A, size=70)]
    return s


def slot2(): return [None, R("/a/g", A), R("/a/g", B_ + b"z"), D("/a/g")]
def slot3(): return [None, R("/b", B_ + A + b"12")]


def kinds_universe(full=True):
    """packages over the file-kind alphabet, in both payload orders"""
    out = []
    for fs in itertools.product(slot1(full), slot2(), slot3()):
        f = [x for x in fs if x is not None]
        np = len(f)
        out.append(f)
        if np >= 2:
            out.append(list(reversed(f)))
    return out


PIECES = {"A": A[:40], "a": tweak(A[:40]), "B": B_[:40], "s": b"\x11\x22\x33"}


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield "".join(w)


def word_bytes(w): return b"".join(PIECES[c] for c in w)


# -- installed packages --------------------------------------------------------
import subprocess


class Host:
    """A scratch 'system': a root directory below ctx.dir and an rpm database only the executor sees."""
    n = 0

    def __init__(self, ctx, tag="h", **exargs):
        self.ctx = ctx
        self.dir = os.path.join(ctx.dir, tag)
        self.root = os.path.join(self.dir, "r")
        self.db = os.path.join(self.dir, "db")
        os.makedirs(self.root, exist_ok=True)
        os.makedirs(self.db, exist_ok=True)
        self.exargs = exargs

    def ex(self, variant="default", defines=(), **k):
        return self.ctx.ex(variant, defines, dbpath=self.db, **dict(self.exargs, **k))

    def install(self, pkgs):
        """enters Built packages into the database (nothing is written to the file system)"""
        fs = []
        for i, b in enumerate(pkgs):
            p = os.path.join(self.dir, "i%d.rpm" % i)
            open(p, "wb").write(b.raw)
            fs.append(p)
        env = dict(os.environ, HOME=self.dir, LC_ALL="C.UTF-8")
        for k in range(0, len(fs), 300):
            r = subprocess.run(["rpm", "--dbpath", self.db, "-i", "--justdb", "--nodeps", "--noscripts", "--notriggers",
                                "--force", "--nosignature", "--nodigest", "--ignorearch", "--ignoreos", "--ignoresize"]
                               + fs[k:k + 300], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode:
                raise RuntimeError("rpm -i: " + r.stdout[-500:])
        for p in fs:
            os.unlink(p)

    def erase(self, names):
        subprocess.run(["rpm", "--dbpath", self.db, "-e", "--justdb", "--nodeps", "--noscripts"] + names,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, HOME=self.dir))

    def place(self, p):
        """puts the package's files on disk, as installing it would"""
        for f in p.files:
            if f.flags & G.F_GHOST:
                continue
            self.put(f)

    def put(self, f):
        assert f.name.startswith(self.root)
        if os.path.lexists(f.name):
            if os.path.isdir(f.name) and not os.path.islink(f.name):
                if f.kind == "dir":
                    return
                shutil.rmtree(f.name)
            else:
                os.unlink(f.name)
        os.makedirs(os.path.dirname(f.name), exist_ok=True)
        if f.kind == "reg":
            with open(f.name, "wb") as h:
                h.write(f.data)
        elif f.kind == "dir":
            os.makedirs(f.name, exist_ok=True)
        elif f.kind == "link":
            os.symlink(f.linkto, f.name)
        elif f.kind == "fifo":
            os.mkfifo(f.name)

    def clear(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root, exist_ok=True)


def search(f, ok, n=100000):
    """the first k for which ok(f(k))"""
    for k in range(n):
        x = f(k)
        if ok(x):
            return x
    raise RuntimeError("nothing found")


def starts_zero(d): return d[0] == 0
