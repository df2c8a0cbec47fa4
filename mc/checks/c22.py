"""C22: calls in several threads do not disturb each other."""
from universe import *
import scen

LEVEL = "model_checking"
TECH = ("stateless exploration of the real code under a controlled scheduler: two calls in two threads, of which one runs at a time; every place for one change of thread, "
        "every two places for a change and a change back, and every order of the accesses to memory that both reach and one writes; oracle: what each call gives alone")
NOTE = ("Threads change at the library's operations on files and streams, at calls of functions that are not reentrant, and at accesses to writable globals or shared objects "
        "that any explored run has seen written. Data races proper (torn or reordered accesses) are not modelled.")

PAR = ("par", ("PAR",))
PAR64 = ("par64", ("PAR",) + tuple(limits((64, 2, 2))[1]))
VARS = (PAR, PAR64)

SCEN = ["make:std:1", "make:ro:4", "make:v1", "make:seq", "make:p:rpml", "make:payload:3", "make:std:6", "make:idro", "apply:std:1", "apply:ro:2", "apply:fs", "apply:pre",
        "apply:payload:4", "check:delta:1", "check:seq:2", "check:pre:1", "check:pre:2", "check:longer:2", "read:std:1"]
SLOW = {"apply:pre", "check:pre:1", "check:pre:2"}
MATES = {"make:std:1", "apply:std:1", "check:delta:1", "read:std:1"}
OPTS = "k0=1,1;b0=2,9;s0=/verif-none/s;v0=2;n0;c01;t0=1;d0"


class Job:
    def __init__(self, name, cmd, s=None, shopts="-", shdelta="-"):
        self.name, self.s, self.shopts, self.shdelta = name, s, shopts, shdelta
        self.outs = s.outs if s else []
        self.pre = s.pre if s else []
        self._cmd = ["@N" if x is None else str(x) for x in cmd]

    def cmd(self, alt):
        c = self._cmd
        if alt:
            for o in self.outs:
                c = [x.replace(o, o + ".b") for x in c]
        return "\2".join(c)

    def files(self, alt):
        return [o + ".b" if alt else o for o in self.outs]


def jobs(ctx):
    J = ctx.cache.get("jobs")
    if J is None:
        J = ctx.cache["jobs"] = {}
        for n in SCEN:
            s = scen.get(ctx, n)
            J[n] = Job(n, s.cmd, s)
        for n in scen.FAIL:
            s = scen.get(ctx, n)
            J[n] = Job(n, s.cmd, s)
        m = scen.get(ctx, "make:std:1")
        J["make, shared options"] = Job("make, shared options", m.cmd[:4] + ("@",), m, shopts="k0=1,1;b0=2,9")
        J["query, shared delta"] = Job("query, shared delta", ("H",), shdelta=scen.get(ctx, "read:std:1").cmd[1])
        J["options"] = Job("options", ("X", m.cmd[1], m.cmd[2], m.cmd[3] + "x", OPTS))
        J["errors"] = Job("errors", ("E",))
    return J


NAMES = SCEN + scen.FAIL + ["make, shared options", "query, shared delta", "options", "errors"]


class Pair:
    def __init__(self, ctx, p, q, var):
        J = jobs(ctx)
        self.ctx, self.j = ctx, (J[p], J[q])
        h = scen.host(ctx)
        self.ex = h.ex(*var)
        self.pre = list(dict.fromkeys(J[p].pre + J[q].pre))
        self.shopts = max(x.shopts for x in self.j)
        self.shdelta = max(x.shdelta for x in self.j)
        self.n = None
        # until no more of the shared memory turns out to be written
        for _ in range(6):
            a = self.go("S", "0:9999999")
            b = self.go("S", "1:9999999")
            if not a["w"] and not b["w"]:
                break
        else:
            raise Violation("runs keep writing to other shared memory")
        self.ref = (self.seen(a, 0), self.seen(b, 1))
        for i, x in enumerate(self.ref):
            if x[0] != self.alone(i):
                raise Violation("%s gives %s, alone %s" % (self.j[i].name, why(x[0]), why(self.alone(i))), key="alone")

    def alone(self, i):
        s = self.j[i].s
        if s is None:
            return OK
        k = "c22/" + s.name
        if k not in self.ctx.cache:
            s.run()
            r = s.run()
            self.ctx.cache[k] = r["rc"], [slurp(o) for o in s.outs]
        rc, files = self.ctx.cache[k]
        if self.j[i]._cmd == ["@N" if x is None else str(x) for x in s.cmd] and [f[0] for f in self.ref[i][2]] != files:
            raise Violation("%s writes other files than alone" % s.name, key="alone")
        return rc

    def go(self, mode, sched):
        for i in 0, 1:
            for f in self.j[i].files(i):
                try:
                    os.unlink(f)
                except OSError:
                    pass
        self.r = self.ex.raw("W", mode, sched, self.shopts, self.shdelta, self.j[0].cmd(0), self.j[1].cmd(1), pre=self.pre)
        self.ctx.count("schedule")
        self.ctx.count("switch points", sum(self.r["n"]))
        return self.r

    def seen(self, r, i):
        fs = []
        for f in self.j[i].files(i):
            b = slurp(f)
            fs.append((b, b is not None and os.stat(f).st_mode))
        return r["rcs"][i], r["txt"][i], fs

    def check(self, mode, sched):
        r = self.go(mode, sched)
        for i in 0, 1:
            got, want = self.seen(r, i), self.ref[i]
            if got != want:
                what = why(got[0]) if got[0] != want[0] else "other answers" if got[1] != want[1] else "other files"
                raise Violation("%s beside %s: %s, alone %s" % (self.j[i].name, self.j[1 - i].name, what, why(want[0])),
                                key="%s:%s" % (self.j[i].name.split(":")[0], what), detail="schedule %s %s\n%s" % (mode, sched, r["tr"]))
        return r


def run(ck, tier):
    th = tier == "thorough"
    ck.case_retries = 4
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as tp:
        list(tp.map(lambda v: B.build(*v), [PAR, PAR64, ("default", ())]))

    def pairs():
        for v in range(2):
            for p in NAMES:
                for q in NAMES:
                    if v and not (p + q).count("apply"):
                        continue
                    if not th and ("fail" in p or "fail" in q) and not (p in MATES or q in MATES or p == q):
                        continue
                    if not th and (p in SLOW) + (q in SLOW) and p != q and not q not in ("apply:std:1", "make:std:1", "check:longer:2"):
                        continue
                    yield v, p, q

    # 1. one change of thread, anywhere
    def b_one(ctx, c):
        v, p, q = c
        P = Pair(ctx, p, q, VARS[v])
        k = 0
        while True:
            r = P.check("S", "0:%d" % k)
            k += 1
            if k > r["n"][0]:
                break
        ctx.outcome((c, k))
        ctx.sample(c)
    ck.explore("one change", pairs, b_one)

    # 2. every order of the accesses to what both reach
    def b_dfs(ctx, c):
        v, p, q = c
        P = Pair(ctx, p, q, VARS[v])
        LIM = 20000 if th else 1500
        todo, n = ["0", "1"], 0
        while todo:
            s = todo.pop()
            r = P.check("C", s)
            n += 1
            t = r["T"]
            if not t.startswith(s):
                raise Violation("the schedule %s of shared accesses cannot be followed: %s" % (s, t), key="schedule")
            for i in range(len(s), len(t)):
                todo.append(t[:i] + "10"[int(t[i])])
            if n > LIM:
                ctx.count("cut off")
                break
        ctx.outcome((c, n))
    ck.explore("orders of shared accesses", pairs, b_dfs)

    # 3. a change and a change back
    def g_two():
        for c in pairs():
            v, p, q = c
            if SLOW & {p, q} or c[0] and not th:
                continue
            if not th and p != q and not (p, q) in QUICK2:
                continue
            for part in range(8):
                yield c + (part,)

    def b_two(ctx, c):
        v, p, q, part = c
        P = Pair(ctx, p, q, VARS[v])
        k = part
        while True:
            j = 0
            while True:
                r = P.check("S", "0:%d,1:%d,0:9999999" % (k, j))
                j += 1
                if j > r["n"][1]:
                    break
            ctx.outcome((c, k, j))
            k += 8
            if k > r["n"][0]:
                break
    QUICK2 = {("make:std:1", "apply:std:1"), ("apply:std:1", "make:std:1"), ("apply:std:1", "read:std:1"), ("apply:ro:2", "apply:std:1"), ("apply:fs", "check:delta:1")}
    ck.explore("a change and a change back", g_two, b_two)

    t = ck.totals
    if t["cut off"]:
        ck.assumptions.append("%d pairs have more orders of shared accesses than were explored" % t["cut off"])
    ck.assumptions.append("the calls interleave at the points the scheduler knows; memory is sequentially consistent")
    return ck.finish(dict(states=len(ck.distinct), transitions=t["switch points"], schedules=t["schedule"], traces_validated_against_impl=t["schedule"]))
