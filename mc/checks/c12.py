"""C12: running out of memory is reported and leaves no damage."""
from scen import *

LEVEL = "fault_enumeration"
TECH = ("every single allocation (and every suffix of allocations) of a set of calls on the real code fails in turn; oracle: an error or exactly the undisturbed "
        "result, no memory error under AddressSanitizer, no block or descriptor left, and the same call afterwards as if nothing had happened")


def balance(r, what):
    if r["fd"]:
        raise Violation("%d descriptors left open after %s" % (r["fd"], what), key="fd")
    if r["live"]:
        raise Violation("%d blocks of memory left after %s" % (r["live"], what), key="leak")


def b_pairs(ctx, c):
    """an allocation, and one after it"""
    name, k, _ = c
    s = get(ctx, name)
    good(ctx, s)
    n = s.run(pre=[al_fault(k)])["al"]
    for k2 in range(k + 1, n + 1):
        body(ctx, (name, k, 0), k2)


def body(ctx, c, k2=0):
    name, k, p = c
    s = get(ctx, name)
    rc0, res0 = good(ctx, s)
    r = s.run(pre=[al_fault(k, p)] + (["L2\t%d" % k2] if k2 else []))
    ctx.count("faulted calls")
    if not r["alf"]:
        raise Violation("allocation %d was not reached: the run is not a function of its arguments" % k, key="unreached")
    if r["rc"] not in ERR:
        raise Violation("undocumented code %r" % r["rc"], key="code")
    if r["rc"] == OK:
        if (rc0, s.results()) != (OK, res0):
            raise Violation("OK with another result than that of the undisturbed call", key="wrong")
        ctx.count("tolerated")
    balance(r, "it (%s)" % why(r["rc"]))
    r2 = s.run()
    if (r2["rc"], s.results()) != (rc0, res0):
        raise Violation("the undisturbed call after it: %s or another result" % why(r2["rc"]), key="after")
    balance(r2, "the undisturbed call after it")
    ctx.outcome((c, k2, r["rc"]))
    ctx.sample([name, k, p, why(r["rc"])])


# sequences of option calls; p and q are names of files that exist, m makes a delta
def sequences(ctx):
    st = ctx.cache.get("seqs")
    if st is None:
        s = get(ctx, "make:p:rpml")
        pq = s.cmd[4].split("p0=")[1].split(";")[0]
        d = ctx.path("o.drpm")
        q = ctx.path("oseq")
        L = ["i0;x0", "i0;s0=%s;x0" % q, "i0;s0=%s;s0=%s1;s0=@N;m0;x0" % (q, q), "i0;p0=%s;m0;x0" % pq, "i0;p0=%s;p0=%s;p0=%s;x0" % (pq, pq, pq), "i0;i1;c10;m1",
             "i0;s0=%s;i1;c10;m1" % q, "i0;p0=%s;t0=0;k0=3,2;i1;c10;m1" % pq, "i0;s0=%s;p0=%s;i1;s1=%sx;c10;m1" % (q, pq, q),
             "i0;s0=%s;p0=%s;i1;p1=%s;c10;d0;m0;m1" % (q, pq, pq), "i0;s0=%s;c00;m0" % q, "i0;p0=%s;d0;m0=2" % pq, "i0;s0=%s;m0;m0" % q,
             "i0;i1;s1=%s;p1=%s;c10;m1" % (q, pq), "i0;v0=1;t0=0;s0=%s;m0;k0=6,1;m0" % q]
        outs = [d, d + "2", q, q + "1", q + "x"]
        st = ctx.cache["seqs"] = (L, [s.cmd[1], s.cmd[2], d], outs)
    return st


def run_seq(ctx, i, pre=()):
    L, args, outs = sequences(ctx)
    for o in outs:
        if os.path.exists(o):
            os.unlink(o)
    r = ctx.ex().opts(*args, L[i], pre=list(pre))
    return r, [slurp(o) for o in outs]


def b_opts(ctx, c):
    i, k, p = c
    g = ctx.cache.get(("goodseq", i))
    if g is None:
        run_seq(ctx, i)
        g = ctx.cache["goodseq", i] = run_seq(ctx, i)
    r, res = run_seq(ctx, i, [al_fault(k, p)])
    ctx.count("faulted calls")
    if not r["alf"]:
        raise Violation("allocation %d was not reached" % k, key="unreached")
    if any(x not in ERR for x in r["rcs"]):
        raise Violation("undocumented code in %r" % r["rcs"], key="code")
    if r["rcs"] == g[0]["rcs"] and res != g[1]:
        raise Violation("no error, but another result: option calls %r" % r["rcs"], key="option wrong")
    balance(r, "the option calls (%r)" % r["rcs"])
    ctx.outcome((c, str(r["rcs"])))


def b_dump(ctx, c):
    name, k, p = c
    s = get(ctx, name)
    g = ctx.cache.get("dump/" + name)
    if g is None:
        ctx.ex().dump(s.cmd[1])
        g = ctx.cache["dump/" + name] = ctx.ex().dump(s.cmd[1])
    r = ctx.ex().dump(s.cmd[1], pre=[al_fault(k, p)])
    ctx.count("faulted calls")
    balance(r, "reading and querying")
    if r["rc"] == OK:
        for t, q in r["get"].items():
            for a, b in zip(q, g["get"][t]):
                if a != b and (a[0] not in ERR or a[0] == OK):
                    raise Violation("tag %s: %r instead of %r" % (t, short(a, 60), short(b, 60)), key="query")
                if a[0] == ARGS and isinstance(a[1], str) and a[1] != "untouched":
                    raise Violation("tag %s: refused but written" % t, key="query written")
    ctx.outcome((c, r["rc"]))


def run(ck, tier):
    th = tier == "thorough"
    N = names() + FAIL + HUGE
    B.build("default"), B.build(*SMALL), B.build(*MID)
    T = measure(ck, N)

    def g_one():
        for n in N:
            for k in range(1, T[n][1] + 1):
                for p in (0, 1):
                    if th or not p or n not in HUGE:
                        yield n, k, p
    ck.explore("allocations of a call", g_one, body)

    ck.explore("pairs of allocations", lambda: (c for c in g_one() if not c[2] and c[0] not in HUGE), b_pairs)

    ctx = Ctx(ck, 0)
    nseq = [run_seq(ctx, i)[0]["al"] for i in range(len(sequences(ctx)[0]))]
    nread = {n: ctx.ex().dump(get(ctx, n).cmd[1])["al"] for n in N if n.startswith("read:")}
    ctx.restart()
    shutil.rmtree(ctx.dir, ignore_errors=True)

    ck.explore("option calls", lambda: ((i, k, p) for i, n in enumerate(nseq) for k in range(1, n + 1) for p in (0, 1)), b_opts)
    ck.explore("queries", lambda: ((n, k, p) for n in nread for k in range(1, nread[n] + 1) for p in (0, 1)), b_dump)

    t = ck.totals
    return ck.finish(dict(evaluations=t["faulted calls"], distinct_nontrivial=len(ck.distinct),
                          rule="a case counts as distinct by scenario, failing allocation and resulting code; in every one an allocation of the library fails",
                          points=sum(x[1] for x in T.values()) + sum(nseq) + sum(nread.values()), scenarios=len(N) + len(nseq) + len(nread)))
