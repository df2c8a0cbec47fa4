"""C13: calls release what they acquire and leave everything but the named outputs alone."""
import importlib
from scen import *
from core import Exec

LEVEL = "fault_enumeration"
TECH = ("every way out of a set of calls on the real code: undisturbed, every argument replaced by each kind of wrong file, every truncation and byte change of the "
        "inputs, every installed file replaced, every output that cannot be written, every single failing file operation; oracle: descriptors and blocks balance, "
        "no temporary file stays, inputs and directories as before")

GARBAGE = bytes((i * 37 + 11) & 255 for i in range(300))


def tree(*roots):
    """{path: (mode, size, mtime, inode, links)} of everything below"""
    out = {}
    st = list(roots)
    while st:
        d = st.pop()
        try:
            it = list(os.scandir(d))
        except OSError:
            continue
        out[d] = os.lstat(d).st_mode
        for e in it:
            x = e.stat(follow_symlinks=False)
            if e.is_dir(follow_symlinks=False):
                st.append(e.path)
            else:
                out[e.path] = (x.st_mode, x.st_size, x.st_mtime_ns, x.st_ino, x.st_nlink)
    return out


def sdir(ctx, s):
    return os.path.join(ctx.dir, "sc-" + s.name.replace(":", "-"))


def observe(ctx, s, cmd, pre=(), outs=None, what="", prep=None):
    """runs one call and looks at everything it may have left or changed"""
    outs = s.outs if outs is None else outs
    roots = [sdir(ctx, s)] + ([s.host.root] if s.host else [])
    files = [x for x in list(s.ins) + [c for c in cmd if isinstance(c, str) and c.startswith(ctx.dir)] if x not in outs and os.path.isfile(x)]
    r = None
    for attempt in (0, 1):
        if prep:
            prep()
        for o in outs:
            if os.path.lexists(o) and not os.path.isdir(o):
                os.unlink(o)
        t0 = tree(*roots)
        c0 = [slurp(f) for f in files]
        r = s.ex().raw(*cmd, pre=list(s.pre) + ["P\t1"] + list(pre))
        t1 = tree(*roots)
        for o in outs:
            t0.pop(o, None)
            t1.pop(o, None)
        if t0 != t1:
            ch = sorted(k for k in set(t0) | set(t1) if t0.get(k) != t1.get(k))
            raise Violation("%s: something else was changed: %s" % (what, ", ".join(os.path.basename(c) for c in ch[:4])), key="changed")
        if c0 != [slurp(f) for f in files]:
            raise Violation("%s: an input was modified" % what, key="input")
        for p in r["paths"]:
            k, f = p.split(":", 1)
            if k == "t" and os.path.lexists(f):
                os.unlink(f)
                raise Violation("%s: temporary file left (%s)" % (what, why(r["rc"])), key="temporary")
            if k == "w" and f not in outs and f not in cmd and not any(isinstance(c, str) and "=" + f in c for c in cmd):
                raise Violation("%s: %s opened for writing" % (what, f), key="opened")
        temps = [p.split(":", 1)[1] for p in r["paths"] if p[:2] == "t:"]
        for p in r["paths"]:
            if p[:2] == "u:" and p[2:] not in temps:
                raise Violation("%s: %s deleted" % (what, p[2:]), key="deleted")
        if r["rc"] not in ERR:
            raise Violation("%s: undocumented code %r" % (what, r["rc"]), key="code")
        if r["fd"] > 0:
            raise Violation("%s: %d descriptors left open (%s)" % (what, r["fd"], why(r["rc"])), key="fd")
        if r["fd"] < 0 or r["bc"]:
            raise Violation("%s: a descriptor closed twice (%s)" % (what, why(r["rc"])), key="close")
        if r.get("changed"):
            raise Violation("%s: the process's %s changed (%s)" % (what, r["changed"], why(r["rc"])), key="process:" + r["changed"])
        if r["live"] <= 0:
            break
        if attempt:                 # (memory a library keeps for good is only taken once)
            raise Violation("%s: %d blocks of memory left (%s)" % (what, r["live"], why(r["rc"])), key="leak")
    ctx.count("calls")
    ctx.outcome((s.name, what, r["rc"]))
    ctx.sample([s.name, what, why(r["rc"])])
    return r


# ---- wrong files in the place of arguments

def wrong(ctx, s, p, kind):
    """a file of the given kind to pass instead of p"""
    raw = slurp(p)
    d = os.path.join(ctx.dir, "wrong")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, kind)
    if kind == "missing":
        return f
    if kind == "dir":
        os.makedirs(f, exist_ok=True)
        return f
    if kind == "below":
        return p + "/x"
    other = {"package": s.ctx.cache["sc:sm"].raw, "header": raw[:raw.find(b"\x8e\xad\xe8", 110) if b"\x8e\xad\xe8" in raw[110:] else 100]}
    b = {"empty": b"", "byte": raw[:1], "garbage": GARBAGE, "magic": raw[:4], "lead": raw[:96], "half": raw[:len(raw) // 2], "short": raw[:-1], "longer": raw + b"x" * 9,
         "rpmmagic": b"\xed\xab\xee\xdb", "drpmmagic": b"drpm", **other}[kind]
    with open(f, "wb") as h:
        h.write(b)
    return f


KINDS = ["missing", "dir", "below", "empty", "byte", "garbage", "magic", "lead", "half", "short", "longer", "rpmmagic", "drpmmagic", "package", "header"]


def with_arg(s, p, f):
    return [f if c == p else c.replace(p, f) if isinstance(c, str) and p in c and "=" in c else c for c in s.cmd]


def b_wrong(ctx, c):
    name, i, kind = c
    s = get(ctx, name)
    p = s.ins[i]
    observe(ctx, s, with_arg(s, p, wrong(ctx, s, p, kind)), what="argument %d: %s" % (i, kind))


def b_plain(ctx, c):
    s = get(ctx, c[0])
    r = observe(ctx, s, s.cmd, what="undisturbed")
    if r["rc"] != good(ctx, s)[0]:
        raise Violation("not the code of the undisturbed call", key="code")


def b_output(ctx, c):
    name, i, kind = c
    s = get(ctx, name)
    p = s.outs[i]
    f = {"dir": sdir(ctx, s), "missing": p + ".no/such", "below": (s.ins or [p])[0] + "/x", "full": "/dev/full", "null": "/dev/null"}[kind]
    if kind == "below" and not s.ins:
        return
    outs = [o for o in s.outs if o != p]
    observe(ctx, s, with_arg(s, p, f), outs=outs, what="output %d: %s" % (i, kind))


# ---- changed bytes

def b_cut(ctx, c):
    name, i, at, how = c
    s = get(ctx, name)
    p = s.ins[i]
    raw = slurp(p)
    if at >= len(raw):          # (the length depends a little on the name of the worker's directory)
        return
    b = raw[:at] if how == "cut" else raw[:at] + bytes([raw[at] ^ how]) + raw[at + 1:]
    f = ctx.put("changed", b)
    observe(ctx, s, with_arg(s, p, f), what="argument %d %s at %d" % (i, "cut" if how == "cut" else "changed by %02x" % how, at))


# ---- installed files replaced

SYS = ["missing", "dir", "empty", "shorter", "longer", "other", "link", "elf", "elf32", "elfshort", "elflong", "elfstr", "elfbig", "unprelinkable"]


def b_sys(ctx, c):
    name, i, kind, k = c
    s = get(ctx, name)
    f = sysfiles(s)[i]
    keep = slurp(f)
    try:
        st = os.lstat(f)
        os.unlink(f)
        n = len(keep)
        e = {"elf": lambda: elf.elf(total=n + 900), "elf32": lambda: elf.elf(is64=False, le=False, total=n + 900), "elfshort": lambda: elf.elf(total=n + 900)[:n + 300],
             "elflong": lambda: elf.elf(soff=10 ** 7, total=n + 900), "elfstr": lambda: elf.elf(strlen=10 ** 8, total=n + 900),
             "elfbig": lambda: elf.elf(snum=60000, ssiz=32767, total=n + 900)}
        if kind == "dir":
            os.mkdir(f)
        elif kind == "link":
            os.symlink("nowhere", f)
        elif kind == "unprelinkable":       # prelinked, but prelink finds nothing to undo
            if os.path.exists(f + ".orig"):
                os.rename(f + ".orig", f + ".kept")
            with open(f, "wb") as h:
                h.write(elf.elf(total=n + 900))
        elif kind != "missing":
            b = {"empty": lambda: b"", "shorter": lambda: keep[:-1], "longer": lambda: keep + b"xx", "other": lambda: bytes(x ^ 255 for x in keep)}
            with open(f, "wb") as h:
                h.write((b.get(kind) or e[kind])())
        for m in ([None] if s.cmd[0] == "A" else ["1", "2"]):
            cmd = list(s.cmd) if m is None else list(s.cmd[:-1]) + [m]
            observe(ctx, s, cmd, pre=["K\t%d" % k], what="installed file %d: %s%s" % (i, kind, ", prelink" if k else ""))
    finally:
        if os.path.isdir(f) and not os.path.islink(f):
            os.rmdir(f)
        elif os.path.lexists(f):
            os.unlink(f)
        with open(f, "wb") as h:
            h.write(keep)
        os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        if os.path.exists(f + ".kept"):
            os.rename(f + ".kept", f + ".orig")
        s.ex().raw("E", pre=["K\t0"])


def sysfiles(s):
    h = s.host
    return sorted(x.name for x in s.ctx.cache["sc:" + ("ss" if "sha" in s.name else "sp" if "pre" in s.name else "sm")].pkg.files
                  if x.kind == "reg" and x.data and not x.flags)


# ---- everything else that is refused

def others(ctx):
    """name -> (scenario, command)"""
    o = ctx.cache.get("others")
    if o is not None:
        return o
    o = {}
    st, ro = get(ctx, "apply:std:1"), get(ctx, "apply:ro:1")
    fs = get(ctx, "apply:fs")
    ck, sq, old = get(ctx, "check:delta:1"), get(ctx, "check:seq:1"), get(ctx, "check:old")
    mk = get(ctx, "make:std:1")
    d = DL.parse(slurp(fs.cmd[2]))

    def variant(nm, **k):
        x = DL.parse(slurp(fs.cmd[2]))
        for a, b in k.items():
            setattr(x, a, b)
        return ctx.put(nm + ".drpm", DL.encode(x))
    o["rpm-only from the filesystem"] = (fs, ("A", None, ro.cmd[2], fs.cmd[3]))
    o["source not installed"] = (fs, ("A", None, variant("noinst", src_nevr=b"absent-1-1"), fs.cmd[3]))
    o["check: not installed"] = (ck, ("C", variant("noinst", src_nevr=b"absent-1-1"), "1"))
    o["check: rpm-only"] = (ck, ("C", ro.cmd[2], "1"))
    o["wrong sequence"] = (fs, ("A", None, variant("wrongseq", sequence=bytes(16) + d.sequence[16:]), fs.cmd[3]))
    o["check: wrong sequence"] = (ck, ("C", variant("wrongseq", sequence=bytes(16) + d.sequence[16:]), "2"))
    o["wrong digest"] = (fs, ("A", None, variant("wrongmd5", tgt_md5=b"\1" * 16), fs.cmd[3]))
    o["wrong package"] = (st, ("A", mk.cmd[2], st.cmd[2], st.cmd[3]))
    o["wrong package, rpm-only"] = (ro, ("A", mk.cmd[2], ro.cmd[2], ro.cmd[3]))
    sqn = sq.cmd[2]
    for i, q in enumerate(["", "-", "x", "x-", "-" + "0" * 32, "absent-1-1-" + sqn.rsplit("-", 1)[1], sqn[:-1], sqn[:-2], sqn + "0", sqn + "00", sqn[:-1] + "g", sqn.rsplit("-", 1)[0] + "-" + "0" * 32,
                           sqn.rsplit("-", 1)[0] + "-" + "0" * 34, sqn + "\1", sqn + "\1\1", sqn.rsplit("-", 1)[0] + "-" + sqn.rsplit("-", 1)[1][:32] + "ff" * 12]):
        for m in "012":
            o["sequence %d, mode %s" % (i, m)] = (sq, ("S", None, q, m))
            o["sequence %d, package, mode %s" % (i, m)] = (old, ("S", old.cmd[1], q, m))
    o["sequence: rpm-only"] = (old, ("S", old.cmd[1], ctx.cache["sc:sm"].pkg.nevr + "-" + DL.parse(slurp(ro.cmd[2])).sequence.hex(), "0"))
    for m in ("0", "3", "-1"):
        o["check: mode " + m] = (ck, ("C", ck.cmd[1], m))
    for v in (1, 2):
        o["rpm-only, version %d" % v] = (mk, ("M", mk.cmd[1], mk.cmd[2], mk.cmd[3], "t0=1;v0=%d" % v))
    for a in range(1, 4):
        x = list(mk.cmd)
        x[a] = None
        o["make: no argument %d" % a] = (mk, x)
        x = list(st.cmd)
        x[a] = None
        o["apply: no argument %d" % a] = (st, x)
    o["make: nothing"] = (mk, ("M", None, None, mk.cmd[3], "-"))
    o["make: packages swapped"] = (mk, ("M", mk.cmd[2], mk.cmd[1], mk.cmd[3], "-"))
    ctx.cache["others"] = o
    return o


def b_other(ctx, c):
    s, cmd = others(ctx)[c[0]]
    observe(ctx, s, list(cmd), what=c[0])


def b_fault(ctx, c):
    n, devs, what = c[0], c[1], c[2]
    s = get(ctx, n)
    observe(ctx, s, s.cmd, pre=[io_fault(k, m, e, p) for k, m, e, p in devs], what=what)


def b_low(ctx, c):
    """descriptor 0 is there for the library to use"""
    n, devs, what = c
    s = get(ctx, n)
    rc, res = good(ctx, s)
    s.low = True
    try:
        r = observe(ctx, s, s.cmd, pre=[io_fault(k, m, 5, p) for k, m, p in devs], what="descriptor 0 free, " + what)
        if not devs and (r["rc"], s.results()) != (rc, res):
            raise Violation("another result when descriptor 0 is free: %s" % why(r["rc"]), key="low")
    finally:
        s.low = False


# ---- along with the malformed inputs of other checks

class Balance(Violation):
    pass


def watch(ex, msg, r):
    """every call another check makes leaves descriptors and memory as they were"""
    if "fd" not in r:
        return
    if r["fd"]:
        raise Balance("%d descriptors left open (%s)" % (r["fd"], why(r["rc"])), key="fd")
    if r.get("bc"):
        raise Balance("a descriptor closed twice (%s)" % why(r["rc"]), key="close")
    if r.get("changed"):
        raise Balance("the process's %s changed (%s)" % (r["changed"], why(r["rc"])), key="process:" + r["changed"])
    if r["live"] > 0:
        r = ex._send(msg)
        if r["live"] > 0:
            raise Balance("%d blocks of memory left (%s)" % (r["live"], why(r["rc"])), key="leak")


class Ride:
    """stands in for another check's Check: its cases are run, only the balance is judged"""

    def __init__(self, ck, tag, thin=1, full=()):
        self.ck, self.tag, self.thin, self.full = ck, tag, thin, full

    def __getattr__(self, a):
        return getattr(self.ck, a)

    def explore(self, name, gen, body, workers=None, budget=None):
        def g():
            step = 1 if name in self.full else self.thin
            return (c for i, c in enumerate(gen()) if i % step == 0)

        def b(ctx, c):
            Exec.watch = watch
            try:
                body(ctx, c)
            except Balance:
                raise
            except (OSError, MemoryError):
                raise
            except Exception:       # that check's business
                pass
            finally:
                Exec.watch = None
            ctx.count("calls")
        self.ck.explore("%s: %s" % (self.tag, name), g, b, workers=workers, budget=budget)

    def finish(self, *a, **k):
        pass


def run(ck, tier):
    th = tier == "thorough"
    N = names()
    B.build("default"), B.build(*SMALL), B.build(*MID)
    T = measure(ck, N + FAIL)
    ctx = Ctx(ck, 0)
    S = {}
    for n in N:
        s = get(ctx, n)
        S[n] = ([len(slurp(p)) for p in s.ins], len(s.outs), len(sysfiles(s)) if s.host and s.cmd[0] != "R" else 0)
    hosted = {n: get(ctx, n).host is not None for n in N + FAIL}
    O = list(others(ctx))
    ctx.restart()
    shutil.rmtree(ctx.dir, ignore_errors=True)

    ck.explore("undisturbed", lambda: ((n,) for n in N + HUGE), b_plain)
    ck.explore("refused", lambda: ((o,) for o in O), b_other)
    ck.explore("wrong files", lambda: ((n, i, k) for n in N for i in range(len(S[n][0])) for k in KINDS), b_wrong)
    ck.explore("unwritable outputs", lambda: ((n, i, k) for n in N for i in range(S[n][1]) for k in ("dir", "missing", "below", "full", "null")), b_output)
    ck.explore("installed files", lambda: ((n, i, x, k) for n in N for i in range(S[n][2]) for x in SYS for k in (0, 1)), b_sys)

    def g_fault():
        for n in N + FAIL:
            t = T[n][0]
            for k, m, p in faults(t):
                yield n, ((k, m, 5, p),), "%s %s, operation %d%s" % (LETTERS[t[k - 1]], dict(e="fails", s="is short", z="ends")[m], k, " and later" if p else "")
    ck.explore("failing operations", g_fault, b_fault)

    def g_low():
        for n in N + FAIL:
            if hosted[n]:       # sqlite takes free low descriptors for good
                continue
            yield n, (), "undisturbed"
            t = T[n][0]
            for k, m, p in faults(t):
                if not p or th:
                    yield n, ((k, m, p),), "%s %d %s" % (LETTERS[t[k - 1]], k, m)
    ck.explore("descriptor 0 free", g_low, b_low)

    base = ["apply:std:1", "apply:ro:1", "apply:v1", "apply:std:4", "apply:ro:5", "apply:std:6", "apply:fs", "apply:id", "apply:idro", "make:std:1", "make:ro:2", "make:idro", "make:id",
            "make:p:rpml", "make:p:rpm", "make:payload:2", "make:payload:4", "make:payload:6", "make:ropayload:5", "check:delta:1", "check:old", "read:std:2", "read:ro:6", "apply:lead"]

    def g_cut():
        for n in base:
            for i, l in enumerate(S[n][0]):
                step = 1 if th or l < 1500 else 3
                for at in range(0, l, step):
                    yield n, i, at, "cut"
                for at in range(0, l, step):
                    for x in (1, 4, 0x20, 0x80, 0xff) if not th else (1, 2, 4, 8, 16, 32, 64, 128, 255):
                        yield n, i, at, x
    ck.explore("changed bytes", g_cut, b_cut, budget=None if th else 300)

    for m in ("c05", "c06", "c07", "c19") + (("c16", "c03", "c09", "c11", "c12") if th else ()):
        importlib.import_module(m).run(Ride(ck, m.upper()), tier)

    # prelinked files, first wanted from every block
    if not th:
        importlib.import_module("c16").run(Ride(ck, "C16", 29, ("prelinked files", "sixty files, shipped limits")), tier)

    def g_pre():
        for w in (5, 7, 10):
            for l in (0, 2):
                for a in range(20 if l == 0 else 11):
                    for b in (None, 0, 5) if th or a % 4 == 1 else (None,):
                        yield w, l, (a,) if b is None else (a, b)

    def b_pre(ctx, c):
        w, l, s = c
        S = ctx.cache.get("src:pre%d" % w)
        if S is None:
            S = ctx.cache["src:pre%d" % w] = c16.Src(ctx, *c16.mk_pre(w)(), tag="pre%d" % w, prelinked=c16.PRE[w])
        bs = c16.LIMITS[l][0]
        n = (len(S.std) + bs - 1) // bs
        cps = tuple((k % n * bs, min(bs, len(S.std) - k % n * bs)) for k in s)

        def call(*pre):
            r = S.run(ctx, c16.LIMITS[l], "fs", cps, good=False, pre=["P\t1"] + list(pre))
            for p in r["paths"]:
                if p[:2] == "t:" and os.path.lexists(p[2:]):
                    os.unlink(p[2:])
                    raise Violation("temporary file left (%s)" % why(r["rc"]), key="temporary")
            if r["fd"] or r["bc"]:
                raise Violation("%d descriptors left open, %d closed twice (%s)" % (r["fd"], r["bc"], why(r["rc"])), key="fd")
            ctx.count("calls")
            return r
        for k, m, p in faults(call()["trace"]):
            if call(io_fault(k, m, 5, p))["live"] > 0 and call(io_fault(k, m, 5, p))["live"] > 0:
                raise Violation("blocks of memory left, operation %d %s" % (k, m), key="leak")
        ctx.outcome(c)
    ck.explore("prelinked files", g_pre, b_pre)

    if th:
        P = [n for n in N if len(T[n][0]) < 90]

        def g_two():
            for n in P:
                t = T[n][0]
                for i in range(1, len(t)):
                    for m in "esz" if t[i - 1] in RW else "e":
                        for j in range(i + 1, len(t) + 1):
                            yield n, ((i, m, 5, 0), (j, "e", 5, 0)), "operations %d and %d" % (i, j)
        ck.explore("pairs of failing operations", g_two, b_fault)

    t = ck.totals
    return ck.finish(dict(evaluations=t["calls"], distinct_nontrivial=len(ck.distinct),
                          rule="a case counts as distinct by scenario, what is done to it and the resulting code",
                          points=sum(len(x[0]) for x in T.values()), scenarios=len(N)))
