"""C15: results depend only on the arguments, not on earlier calls."""
import scen as S
from scen import *
import mutate as M
from mutate import change_field

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of histories of calls (de Bruijn sequences: every pair and every triple of calls, after ever longer histories, and every short "
        "history from a fresh process) and of contents of fresh memory, on the real code; oracle: the code and every output byte of the same call in a fresh process")
NOTE = ("Every call of the alphabet (all kinds of calls, successful, refused, and made to fail half way) is made once in a fresh process for reference; in every history "
        "each call must give the same code and bytes. The contents of memory are varied by AddressSanitizer's fill byte, glibc's perturbation, automatic "
        "initialisation of locals by the compiler, and a build with no sanitizer, where memory is really reused.")


class Call:
    def __init__(self, label, cmd, outs=(), pre=(), keep=False):
        self.label, self.cmd, self.outs, self.pre, self.keep = label, cmd, list(outs), list(pre), keep


def base_names():
    return [n for n in S.names() if not n.endswith((":small", ":mid"))]


FAULTED = ["make:std:1", "make:ro:4", "make:payload:3", "make:id", "make:idro", "make:p:rpml", "make:p:rpm", "make:seq", "make:v1", "apply:std:1", "apply:ro:6", "apply:payload:6",
           "apply:fs", "apply:pre", "apply:idro", "check:delta:1", "check:delta:2", "check:pre:1", "check:seq:1", "check:old", "read:std:4", "read:ro:2"]


def labels():
    """the alphabet"""
    out = base_names()
    out += ["err:" + x for x in ("make:null", "make:noold", "make:nonew", "make:nodir", "make:dir", "make:cutold", "make:cutnew", "make:text", "make:seqdir", "apply:null", "apply:nodelta",
                                 "apply:noold", "apply:nodir", "apply:other", "apply:notinst", "apply:text", "check:no", "check:mode", "check:notinst", "check:text", "seq:bad", "seq:hex",
                                 "seq:notinst", "seq:other", "read:no", "read:text", "read:null", "opts", "opts:bad", "strerror")]
    for k in ("std", "ro"):
        for i in range(4):
            out += ["cut:%s:%d:%s" % (k, i, a) for a in ("apply", "check", "read")]
    for n in FAULTED:
        for f in ("io1", "io2", "al1", "al2", "al3"):
            out.append("fault:%s|%s" % (f, n))
    return out


def build(ctx, label):
    h = host(ctx)
    p = label.split(":")
    if p[0] == "fault":
        how, n = label[6:].split("|")
        s = get(ctx, n)
        io, al = ctx.cache["ops"][n]
        if how[:2] == "io":
            return Call(label, s.cmd, s.outs, s.pre + [io_fault(max(1, io * int(how[2]) // 3), "e")])
        return Call(label, s.cmd, s.outs, s.pre + [al_fault(max(1, al * (2 * int(how[2]) - 1) // 6))])
    if p[0] not in ("err", "cut"):
        s = get(ctx, label)
        cmd = ("RD",) + s.cmd[1:] if s.cmd[0] == "R" else s.cmd
        return Call(label, cmd, s.outs, s.pre)
    std, ro = get(ctx, "apply:std:1"), get(ctx, "apply:ro:4")
    mk = get(ctx, "make:std:1")
    old, new = mk.cmd[1], mk.cmd[2]
    out = ctx.path("c15.out")
    text = ctx.put("c15.text", b"no package at all, and quite a bit of text " * 20)
    if p[0] == "cut":
        b = slurp((std if p[1] == "std" else ro).cmd[2])
        i = (len(b) * 2 // 5, len(b) // 2 + 9, len(b) * 3 // 4, len(b) - 1)[int(p[2])]
        f = ctx.put("c15.cut." + p[1] + p[2], b[:i])
        return dict(apply=Call(label, ("A", old, f, out), [out]), check=Call(label, ("C", f, 1)), read=Call(label, ("RD", f)))[p[3]]
    no = ctx.path("c15.none")
    nodir = ctx.path("c15.none/x")
    ctx.put("c15.cutold", slurp(old)[:-40])
    ctx.put("c15.cutnew", slurp(new)[:-40])
    oth = built(Pkg(name="sm", version="0", files=files(h.root + "/sm", 2)))
    ctx.put("c15.oth", oth.raw)
    ni = built(Pkg(name="nowhere", files=files(h.root + "/sm", 1)))
    ctx.put("c15.ni", ni.raw)
    if not os.path.exists(ctx.path("c15.ni.drpm")):
        r = h.ex().make(ctx.path("c15.ni"), None, ctx.path("c15.ni.drpm"), FAST)
        if r["rc"] != OK:
            raise RuntimeError("c15.ni")
    nid = ctx.path("c15.ni.drpm")
    dl = std.cmd[2]
    seq = get(ctx, "check:seq:1").cmd[2]
    sq = ctx.path("c15.seq")
    T = {
        "make:null": Call(label, ("M", None, None, out, "-"), [out]),
        "make:noold": Call(label, ("M", no, new, out, FAST), [out]),
        "make:nonew": Call(label, ("M", old, no, out, FAST), [out]),
        "make:nodir": Call(label, ("M", old, new, nodir, FAST), [out]),
        "make:dir": Call(label, ("M", ctx.dir, new, out, FAST), [out]),
        "make:cutold": Call(label, ("M", ctx.path("c15.cutold"), new, out, FAST), [out]),
        "make:cutnew": Call(label, ("M", old, ctx.path("c15.cutnew"), out, FAST), [out]),
        "make:text": Call(label, ("M", text, new, out, FAST), [out]),
        "make:seqdir": Call(label, ("M", old, new, out, FAST + ";s0=" + nodir), [out]),
        "apply:null": Call(label, ("A", old, None, out), [out]),
        "apply:nodelta": Call(label, ("A", old, no, out), [out]),
        "apply:noold": Call(label, ("A", no, dl, out), [out]),
        "apply:nodir": Call(label, ("A", old, dl, nodir), [out]),
        "apply:other": Call(label, ("A", ctx.path("c15.oth"), dl, out), [out]),
        "apply:notinst": Call(label, ("A", None, nid, out), [out]),
        "apply:text": Call(label, ("A", old, text, out), [out]),
        "check:no": Call(label, ("C", no, 1)),
        "check:mode": Call(label, ("C", dl, 7)),
        "check:notinst": Call(label, ("C", nid, 1)),
        "check:text": Call(label, ("C", text, 1)),
        "seq:bad": Call(label, ("S", None, "nonsense", 1)),
        "seq:hex": Call(label, ("S", None, seq[:-3] + "xyz", 1)),
        "seq:notinst": Call(label, ("S", None, "nowhere" + seq[2:], 1)),
        "seq:other": Call(label, ("S", ctx.path("c15.oth"), seq, 0)),
        "read:no": Call(label, ("RD", no)),
        "read:text": Call(label, ("RD", text)),
        "read:null": Call(label, ("RN", dl)),
        "opts": Call(label, ("X", old, new, out, "i0;k0=2,1;b0=1,1;s0=%s;m0;i1;c10;d0;m0=.a;m1=.b;x0;x1" % sq), [out, out + ".a", out + ".b", sq]),
        "opts:bad": Call(label, ("X", old, new, out, "iN;i0;k0=9,9;b0=1,77;v0=9;t0=1;v0=1;m0;x0;xN"), [out]),
        "strerror": Call(label, ("E",)),
    }
    return T[label[4:]]


def call(ctx, label):
    c = ctx.cache.get("c15/" + label)
    if c is None:
        if "ops" not in ctx.cache:
            ctx.cache["ops"] = {}
            for n in FAULTED:
                s = get(ctx, n)
                r = s.run(pre=["P\t1"])
                ctx.cache["ops"][n] = (len(r["trace"]), r["al"])
        c = ctx.cache["c15/" + label] = build(ctx, label)
    return c


def result(ex, c, junk=None):
    for o in c.outs:
        if junk is not None and os.path.isdir(os.path.dirname(o)):
            with open(o, "wb") as f:
                f.write(junk)
        elif os.path.lexists(o):
            os.unlink(o)
    r = ex.raw(*c.cmd, pre=c.pre)
    if c.cmd[0] in "ERDX" or "get" in r:
        r = {k: v for k, v in r.items() if k not in ("io", "al", "iof", "alf", "live", "fd", "bc")}
        code = r
    else:
        code = r["rc"]
    return code, [slurp(o) for o in c.outs]


def ref(ctx, label):
    k = "ref/" + label
    if k not in ctx.cache:
        c = call(ctx, label)
        ex = host(ctx).ex()
        ex.stop()
        ctx.cache[k] = result(ex, c)
        ex.stop()
        ctx.count("fresh_process")
    return ctx.cache[k]


def judge(ctx, label, got, key, **info):
    want = ref(ctx, label)
    ctx.count("call")
    if got != want:
        what = "code" if got[0] != want[0] else "output"
        raise Violation("%s gives another %s%s" % (label, what, ": %s instead of %s" % (short(got[0], 150), short(want[0], 150)) if what == "code" else ""),
                        key="%s:%s:%s" % (key, label, what), **info)


def debruijn(k, n):
    """a cyclic sequence with every word of length n over k symbols once (the prefer-largest greedy way would do; this is Lyndon words)"""
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


# contents of memory, and other things that are no arguments: name -> (build, executor settings, output files beforehand)
STACK = ("-ftrivial-auto-var-init=%s",)
MEM = {
    "fill 00": (("default", ()), dict(fill=0), None),
    "fill 01": (("default", ()), dict(fill=1), None),
    "fill 7f": (("default", ()), dict(fill=0x7f), None),
    "fill ff": (("default", ()), dict(fill=0xff), None),
    "locals zero": (("stack0", ("-ftrivial-auto-var-init=zero",)), dict(fill=0xff), None),
    "locals pattern": (("stackp", ("-ftrivial-auto-var-init=pattern",)), dict(fill=0x01), None),
    "plain": (("plain", ()), {}, None),
    "plain perturbed": (("plain", ()), dict(env={"MALLOC_PERTURB_": "85"}), None),
    "plain perturbed, locals pattern": (("plain-p", ("-ftrivial-auto-var-init=pattern", "-O0")), dict(env={"MALLOC_PERTURB_": "170"}), None),
    "plain optimised": (("plain-o", ("-O3",)), dict(env={"MALLOC_PERTURB_": "204"}), None),
    "descriptor 0 free": (("default", ()), dict(env={"EXEC_LOW_FD": "1"}), None),
    "output there": (("default", ()), {}, b"junk" * 30000),
}


def executor(ctx, mem):
    v, k, _ = MEM[mem]
    if "env" in k:      # settings are part of the executor's identity
        key = "ex/" + mem
        if key not in ctx.cache:
            h = host(ctx)
            e = Exec(B.build(*v), os.path.join(ctx.dir, "xm%d" % len(ctx.execs)), env=k["env"], dbpath=h.db)
            os.makedirs(e.scratch, exist_ok=True)
            ctx.execs[mem] = e
            ctx.cache[key] = e
        return ctx.cache[key]
    return host(ctx).ex(*v, **k)


def run(ck, tier):
    th = tier == "thorough"
    L = labels()
    for v, _, _ in MEM.values():
        B.build(*v)

    # 1. every call in a fresh process, over contents of memory
    def g_mem():
        for l in L:
            for m in MEM:
                yield l, m

    def b_mem(ctx, c):
        l, m = c
        cl = call(ctx, l)
        want = ref(ctx, l)
        junk = MEM[m][2]
        if junk is not None and any(o is None for o in want[1]):
            return      # a call that writes nothing there leaves what is there
        ex = executor(ctx, m)
        ex.stop()
        got = result(ex, cl, junk)
        ctx.count("fresh_process")
        ex.stop()
        if junk is not None and want[0] != OK:
            got = (got[0], want[1])
        judge(ctx, l, got, m)
        ctx.outcome(c)
        ctx.sample(c)
    ck.explore("contents of memory", g_mem, b_mem)

    # 2. histories: all pairs of all calls, all triples of a smaller alphabet, in processes that go on
    def chunks(seq, n, over):
        for i in range(0, len(seq) - over, n):
            yield seq[i:i + n + over]

    def g_hist(mem, alpha, n, size):
        seq = debruijn(len(alpha), n)

        def g():
            for j, ch in enumerate(chunks(seq, size, n - 1)):
                yield mem, n, j, ch
        return g

    def b_hist(alpha):
        def body(ctx, c):
            mem, n, j, ch = c
            for i in ch:
                ref(ctx, alpha[i])
            ex = executor(ctx, mem)
            ex.stop()
            for i, x in enumerate(ch):
                l = alpha[x]
                got = result(ex, call(ctx, l))
                judge(ctx, l, got, "after", after=[alpha[y] for y in ch[max(0, i - 3):i]], mem=mem)
            ctx.count("history", len(ch))
            ctx.outcome((mem, n, j))
            ctx.sample([mem, [alpha[x] for x in ch[:4]]])
        return body

    H1 = [l for l in L if not l.startswith(("apply:std:", "apply:ro:", "make:std", "make:ro", "read:", "apply:payload", "make:payload", "make:ropayload")) or l.endswith((":1", ":6"))]
    few = [l for l in L if l in ("make:std:1", "make:ro:6", "make:payload:4", "make:id", "make:idro", "make:p:rpml", "make:v1", "make:seq", "make:large", "apply:std:1", "apply:ro:6", "apply:fs", "apply:pre",
                                 "apply:large", "apply:id", "apply:payload:3", "check:delta:1", "check:seq:1", "check:pre:2", "check:old", "read:std:4", "err:make:cutnew", "err:apply:other", "err:apply:notinst",
                                 "err:seq:hex", "cut:ro:2:apply", "cut:std:1:read", "err:opts", "fault:io2|make:p:rpml", "fault:al2|make:std:1", "fault:io2|apply:fs", "fault:al2|apply:pre",
                                 "fault:io1|apply:ro:6", "fault:al3|apply:fs", "fault:io2|check:pre:1", "fault:al2|make:p:rpm", "fault:al2|read:ro:2")]
    for mem in ("default", "plain"):
        MEM.setdefault("default", (("default", ()), {}, None))
        ck.explore("pairs of calls, " + mem, g_hist(mem, L, 2, 500), b_hist(L))
    for mem in ("plain",) if not th else ("plain", "default"):
        A3 = few if not th else H1
        ck.explore("triples of calls, " + mem, g_hist(mem, A3, 3, 500), b_hist(A3))
    if th:
        A4 = few[::2]
        ck.explore("quadruples of calls", g_hist("plain", A4, 4, 500), b_hist(A4))

    # 3. every short history from a fresh process
    start = [l for l in few if l in ("make:std:1", "make:p:rpml", "make:large", "apply:std:1", "apply:fs", "apply:pre", "apply:large", "check:delta:1", "err:apply:other", "fault:al2|make:std:1",
                                     "fault:io2|apply:fs", "cut:ro:2:apply")]

    def g_fresh():
        for n in (2, 3):
            for h in itertools.product(start if n == 3 else few, repeat=n):
                yield h

    def b_fresh(ctx, h):
        for l in h:
            ref(ctx, l)
        ex = executor(ctx, "plain")
        ex.stop()
        for i, l in enumerate(h):
            judge(ctx, l, result(ex, call(ctx, l)), "fresh history", after=h[:i])
        ex.stop()
        ctx.count("fresh_process")
        ctx.outcome(h)
    ck.explore("fresh histories", g_fresh, b_fresh)

    # 4. the block store: what its limits are must not matter to later calls either
    bl = ["apply:fs:small", "apply:std:small", "apply:ro:small"]

    def g_blocks():
        for n in range(1, 6 if th else 5):
            for h in itertools.product(bl, repeat=n):
                yield h

    def b_blocks(ctx, h):
        want = [good(ctx, get(ctx, l)) for l in h]
        for l in set(h):
            big = good(ctx, get(ctx, {"apply:fs:small": "apply:fs", "apply:std:small": "apply:std:1", "apply:ro:small": "apply:ro:1"}[l]))
            if good(ctx, get(ctx, l))[0] != big[0]:
                raise Violation("%s gives %s" % (l, why(want[0][0])), key="small:" + l)
        for l, w in zip(h, want):
            s = get(ctx, l)
            r = s.run()
            ctx.count("call")
            if (r["rc"], s.results()) != w:
                raise Violation("%s gives another result" % l, key="blocks:" + l, history=h)
        ctx.outcome(h)
    ck.explore("block store", g_blocks, b_blocks)

    # 4b. by whatever name the files are given
    FORMS = ("relative", "here", "dots", "slashes", "directory link", "file links", "hard links", "long")

    def g_forms():
        for n in S.names():
            for f in FORMS:
                yield n, f

    def b_forms(ctx, c):
        n, f = c
        s = get(ctx, n)
        want = good(ctx, s)
        d = os.path.dirname((s.ins + s.outs)[0]) if s.ins + s.outs else None
        if d is None:
            return
        cmd = list(s.cmd)
        if f.endswith("links"):
            for p in s.ins:
                q = os.path.join(ctx.dir, "l" + os.path.basename(p))
                if os.path.lexists(q):
                    os.unlink(q)
                (os.symlink if f[0] == "f" else os.link)(p, q)
                cmd = [x if x is None else x.replace(p, q) for x in cmd]
        else:
            cwd = s.ex().scratch
            if f == "here":
                q = "./h"
                e = os.path.join(cwd, "h")
            else:
                e = os.path.join(ctx.dir, "link")
                q = {"relative": os.path.relpath(d, cwd), "dots": "%s/../%s/." % (d, os.path.basename(d)), "slashes": "//" + d.replace("/", "//")[1:] + "/",
                     "directory link": e, "long": d + "/." * 1500}[f]
            if f in ("here", "directory link"):
                if os.path.lexists(e):
                    os.unlink(e)
                os.symlink(d, e)
            cmd = [x if x is None else x.replace(d, q) for x in cmd]
        s.wipe()
        r = s.ex().raw(*cmd, pre=s.pre)
        ctx.count("call")
        if (r["rc"], s.results()) != want:
            raise Violation("%s gives %s or other files when the files are named otherwise (%s)" % (n, why(r["rc"]), f), key="name:" + f)
        ctx.outcome(c)
    ck.explore("forms of names", g_forms, b_forms)

    # 4c. whatever the process has set up around the call
    AROUND = ("chld", "interrupted", "child", "umask", "errno", "cwd", "locale", "blocked", "env")

    def g_around():
        for n in S.names() + FAIL:
            for f in AROUND:
                yield n, f

    def b_around(ctx, c):
        n, f = c
        s = get(ctx, n)
        want = good(ctx, s)
        s.wipe()
        r = s.ex().raw(*s.cmd, pre=s.pre + ["U\t" + f], limit=30)
        s.ex().raw("E", pre=["U\tnone"])
        ctx.count("call")
        if (r["rc"], s.results()) != want:
            raise Violation("%s gives %s or other files with other surroundings (%s)" % (n, why(r["rc"]), f), key="around:" + f)
        if "zombie" in r:
            raise Violation("%s waits for a child that is not its own" % n, key="around:child")
        ctx.outcome(c)
    ck.explore("surroundings", g_around, b_around)

    # 5. after every malformed input, every kind of call on good ones
    PROBES = ["check:seq:1", "check:delta:1", "apply:std:1", "apply:ro:1", "apply:fs", "read:std:4", "read:ro:2", "make:std:1", "make:ro:4", "make:p:rpml"]
    STEP = 1 if th else 3

    def inputs(ctx, kind):
        """(command) for every malformed input of this kind"""
        mk, st, ro = get(ctx, "make:std:1"), get(ctx, "apply:std:1"), get(ctx, "apply:ro:1")
        old, new, out, bad = mk.cmd[1], mk.cmd[2], ctx.path("c15.out"), ctx.path("c15.bad")
        if kind == "seq":
            s = get(ctx, "check:seq:1").cmd[2]
            for k in range(len(s) + 1):
                yield ("S", None, s[:k], 1), None
                for ch in "0189f-x":
                    yield ("S", None, s[:k] + ch + s[k + 1:], 1), None
                    yield ("S", None, s[:k] + ch + s[k:], 1), None
            for n in (1, 2, 3, 4):
                for t in itertools.product("0189f", repeat=n):
                    yield ("S", None, s + "".join(t), 1), None
            return
        if kind.startswith("delta"):
            cmd = (st if kind.endswith("std") else ro).cmd
            calls = [("A", cmd[1], bad, out), ("RD", bad), ("C", bad, 1)]
            raws = [slurp(cmd[2]), change_field(slurp(cmd[2]), {}, G.NONE)]
            names_ = [n for n, b in DL.stream_fields(DL.parse(raws[1])) if M.is_number(n, len(b))]
            for n in names_:
                for v in (0, 1, 2, 7, 0x7fffffff, 0x80000000, 0xffffffff):
                    for cl in calls:
                        yield cl, change_field(raws[1], {n: v}, G.NONE)
            for r in raws:
                for k in range(0, len(r), STEP):
                    yield calls[k // STEP % 3], r[:k]
                    yield calls[(k // STEP + 1) % 3], r[:k] + bytes([r[k] ^ 0x80]) + r[k + 1:]
                    yield calls[(k // STEP + 2) % 3], r[:k] + b"\xff" + r[k + 1:]
        elif kind == "package":
            for at, src in ((1, old), (2, new)):
                r = slurp(src)
                cl = [["M", old, new, out, FAST], ["M", old, new, out, FAST + ";t0=1"], ["A", bad, st.cmd[2], out], ["S", bad, get(ctx, "check:seq:1").cmd[2], 0]]
                cl[0][at] = cl[1][at] = bad
                for k in range(0, len(r), STEP * 2):
                    for j, v in enumerate((r[:k], r[:k] + bytes([r[k] ^ 0x80]) + r[k + 1:], r[:k] + b"\xff" + r[k + 1:])):
                        yield tuple(cl[(k // STEP + j) % 4]), v
        elif kind == "patch":
            p = dict(x.split("=", 1) for x in get(ctx, "make:p:rpml").cmd[4].split(";") if "=" in x)["p0"].split("|")
            for i in (0, 1):
                r = slurp(p[i])
                q = list(p)
                q[i] = bad
                for k in range(0, len(r)):
                    for v in (r[:k], r[:k] + bytes([r[k] ^ 0x80]) + r[k + 1:], r[:k] + b"\xff" + r[k + 1:], r[:k] + b"\0" + r[k + 1:]):
                        yield ("M", old, new, out, FAST + ";p0=" + "|".join(q)), v

    NCH = 64

    def g_bad():
        for kind in ("seq", "delta:std", "delta:ro", "package", "patch"):
            for i in range(NCH):
                yield kind, i

    def b_bad(ctx, c):
        kind, i = c
        for l in PROBES:
            ref(ctx, l)
        ex = executor(ctx, "plain")
        ex.stop()
        for j, (cmd, data) in enumerate(inputs(ctx, kind)):
            if j % NCH != i:
                continue
            if data is not None:
                ctx.put("c15.bad", data)
            ex.raw(*cmd)
            ctx.count("malformed")
            for l in PROBES:
                judge(ctx, l, result(ex, call(ctx, l)), "after malformed " + kind, after=cmd)
        ex.stop()
        ctx.outcome(c)
    ck.explore("after malformed inputs", g_bad, b_bad)

    t = ck.totals
    return ck.finish(dict(evaluations=t["call"], distinct_nontrivial=len(ck.distinct), fresh_processes=t["fresh_process"],
                          rule="a case counts as distinct by the calls of the history (or the stretch of the de Bruijn sequence) and the contents of memory",
                          alphabet=len(L), triples_over=len(few if not th else H1), contents_of_memory=list(MEM)))
