"""C11: a failing file operation is never reported as success with a wrong result."""
from scen import *

LEVEL = "fault_enumeration"
TECH = ("every single deviation (failure, short count, early end; once or from then on) at every file operation of a set of calls on the real code, and pairs "
        "of them for the shorter calls; oracle: an error, or exactly the undisturbed result")


def truncated(s, res):
    """An identity delta about a package's bytes alone takes the file to end where reading it ends: nothing it looks at says where the payload stops.  An early end
    then cannot be told from a file that ends there, for which the delta made is the right one: it records the digest of just that much of the package."""
    if not s.name.startswith(("make:idro", "make:roid")) or res[0] is None:
        return False
    raw, d = slurp(s.cmd[1]), DL.parse(res[0])
    for i in range(112, len(raw)):
        if hashlib.md5(raw[:i]).digest() == d.tgt_md5:
            cut = s.ctx.put("cut.rpm", raw[:i])
            r = s.ex().raw(*[cut if x == s.cmd[1] else x for x in s.cmd])
            return r["rc"] == OK and s.results() == res
    return False


def body(ctx, name, devs, trace):
    s = get(ctx, name)
    rc0, res0 = good(ctx, s)
    r = s.run(pre=[io_fault(k, m, 5, p) for k, m, p in devs])
    ctx.count("faulted calls")
    k, m, p = devs[0]
    site = "%s of %s" % (dict(e="failing", s="short", z="empty")[m], LETTERS[trace[k - 1]])
    if r["rc"] not in ERR:
        raise Violation("undocumented code %r" % r["rc"], key="code")
    if not r["iof"]:
        raise Violation("the operation numbered %d was not reached: the run is not a function of its arguments" % k, key="unreached")
    if r["rc"] == OK:
        res = s.results()
        if (res != res0 or rc0 != OK) and not truncated(s, res):
            raise Violation("OK with another result than that of the undisturbed call: %s, operation %d of %s" % (site, k, name),
                            key="%s:%s:%s" % (s.cmd[0], trace[k - 1], m))
        ctx.count("tolerated")
    ctx.outcome((name, devs, r["rc"]))
    ctx.sample([name, list(map(list, devs)), why(r["rc"])])
    return r


def run(ck, tier):
    th = tier == "thorough"
    N = names() + FAIL
    B.build("default"), B.build(*SMALL), B.build(*MID)
    T = measure(ck, N)

    def g_one():
        for n in N:
            for f in faults(T[n][0]):
                yield n, f

    def b_one(ctx, c):
        n, f = c
        body(ctx, n, (f,), T[n][0])
        # and the process is none the worse for it
        s = get(ctx, n)
        r = s.run()
        if (r["rc"], s.results()) != good(ctx, s):
            raise Violation("the undisturbed call after it has another result", key="after")
    ck.explore("single deviations", g_one, b_one)

    # outputs that exist already, are longer, or cannot be made; reads of at most n bytes at a time
    def g_old():
        for n in N:
            if n.startswith(("make", "apply")):
                for what in ("longer", "same", "b1", "b7", "b100"):
                    yield n, what

    def b_old(ctx, c):
        n, what = c
        s = get(ctx, n)
        rc0, res0 = good(ctx, s)
        s.wipe()
        if what in ("longer", "same"):
            for o, b in zip(s.outs, res0):
                with open(o, "wb") as f:
                    f.write((b or b"") + b"old content " * (9 if what == "longer" else 0))
            r = s.run(keep=True)
            if (r["rc"], s.results()) != (rc0, res0) and rc0 == OK:
                raise Violation("over an existing file: %s" % why(r["rc"]), key="existing")
        else:
            r = s.run(pre=["B\t%s" % what[1:]])
            s.ex().raw("E", pre=["B\t0"])
            if r["rc"] == OK and s.results() != res0:
                raise Violation("OK with another result when reads return less than asked for", key="short reads")
        ctx.count("calls")
        ctx.outcome((c, r["rc"]))
    ck.explore("existing outputs, small reads", g_old, b_old)

    # every write to a full device
    def g_full():
        for n in N:
            if n.startswith(("make", "apply")):
                yield n,

    def b_full(ctx, c):
        s = get(ctx, c[0])
        rc0, _ = good(ctx, s)
        cmd = [("/dev/full" if x in s.outs else x.replace(s.outs[-1], "/dev/full") if len(s.outs) > 1 and isinstance(x, str) and "s0=" in x else x) for x in s.cmd]
        for i in range(len(cmd)):
            if cmd[i] != s.cmd[i]:
                one = list(s.cmd)
                one[i] = cmd[i]
                r = s.ex().raw(*one, pre=s.pre)
                ctx.count("calls")
                if r["rc"] == OK:
                    raise Violation("OK although the device is full", key="full:%d" % i)
                ctx.outcome((c, i, r["rc"]))
    ck.explore("full device", g_full, b_full)

    # two deviations
    P = [n for n in N if len(T[n][0]) < (60 if not th else 200)]

    def g_two():
        for n in P:
            t = T[n][0]
            for i in range(1, len(t)):
                for m in "esz" if t[i - 1] in RW else "e":
                    for j in range(i + 1, len(t) + 1):
                        for m2 in "esz" if t[j - 1] in RW else "e":
                            yield n, (i, m, 0), (j, m2, 0)

    def b_two(ctx, c):
        body(ctx, c[0], c[1:], T[c[0]][0])
    ck.explore("pairs of deviations", g_two, b_two, budget=None if th else 60)

    t = ck.totals
    ops = collections.Counter(x for n in N for x in T[n][0])
    return ck.finish(dict(evaluations=t["faulted calls"] + t["calls"], distinct_nontrivial=len(ck.distinct),
                          rule="a case counts as distinct by scenario, deviation and resulting code; every one makes an operation of the library deviate",
                          points={LETTERS[k]: v for k, v in ops.items()}, scenarios=len(N)))
