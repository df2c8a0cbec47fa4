"""Explorer framework: executors, worker pool, violations, evidence."""
import collections, hashlib, json, multiprocessing as mp, os, select, shutil, subprocess, sys, tempfile, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
ERR = {0: "OK", 1: "MEMORY", 2: "ARGS", 3: "IO", 4: "FORMAT", 5: "CONFIG", 6: "OTHER", 7: "OVERFLOW",
       8: "PROG", 9: "MISMATCH", 10: "NOINSTALL"}
OK, MEMORY, ARGS, IO, FORMAT, CONFIG, OTHER, OVERFLOW, PROG, MISMATCH, NOINSTALL = range(11)


class Crash(Exception):
    pass


class Hang(Exception):
    pass


class Violation(Exception):
    """The property is broken by the current case.  key identifies the failing input or site."""

    def __init__(self, what, key=None, **info):
        super().__init__(what)
        self.what, self.key, self.info = what, key or what, info


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30:
                return d
    return "/tmp"


class Exec:
    """One executor process."""
    seq = 0
    watch = None    # called with every message and its reply

    def __init__(self, exe, scratch, fill=None, env=None, limit=20, max_alloc_mb=300, dbpath=None):
        self.exe, self.scratch, self.limit = exe, scratch, limit
        self.fill, self.xenv, self.max_alloc = fill, env or {}, max_alloc_mb
        self.dbpath = dbpath or os.path.join(scratch, "db")
        self.home = os.path.join(scratch, "home")
        self.p = None
        self.log = collections.deque(maxlen=40)

    def start(self):
        os.makedirs(self.home, exist_ok=True)
        os.makedirs(self.dbpath, exist_ok=True)
        with open(os.path.join(self.home, ".rpmmacros"), "w") as f:
            f.write("%%_dbpath %s\n%%_keyring fs\n" % self.dbpath)
        Exec.seq += 1
        self.errp = os.path.join(self.scratch, "stderr.%d.%d" % (os.getpid(), Exec.seq))
        asan = ("detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=%d:quarantine_size_mb=8:"
                "abort_on_error=0:exitcode=77:handle_segv=1:detect_stack_use_after_return=0:malloc_context_size=12"
                % self.max_alloc)
        if self.fill is not None:
            asan += ":malloc_fill_byte=%d:max_malloc_fill_size=16777216" % self.fill
        env = dict(os.environ, HOME=self.home, LANG="C.UTF-8", LC_ALL="C.UTF-8", ASAN_OPTIONS=asan, TMPDIR=self.scratch)
        env.update(self.xenv)
        self.errf = open(self.errp, "wb")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=env, cwd=self.scratch, bufsize=0, start_new_session=True)
        self.buf = b""
        self._reply(60)

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.stdout.close()
            except OSError:
                pass
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
            self.errf.close()
            try:
                os.unlink(self.errp)
            except OSError:
                pass
            self.p = None

    def _tail(self):
        try:
            t = open(self.errp, "rb").read().decode("utf-8", "replace")
        except OSError:
            return ""
        i = t.find("ERROR: AddressSanitizer")
        return t[i:i + 3000] if i >= 0 else t[-1500:]

    def _reply(self, limit):
        end = time.time() + limit
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise Hang("no answer within %g s" % limit)
            if select.select([fd], [], [], left)[0]:
                b = os.read(fd, 1 << 16)
                if not b:
                    self.p.wait()
                    raise Crash("exit %s\n%s" % (self.p.returncode, self._tail()))
                self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line.decode("utf-8", "surrogateescape"))

    def _send(self, msg, limit=None):
        self.p.stdin.write(msg.encode("utf-8", "surrogateescape"))
        return self._reply(limit or self.limit)

    def raw(self, *f, pre=(), limit=None):
        if self.p is None:
            self.start()
        msg = "".join(x + "\n" for x in pre) + "\t".join("@N" if x is None else str(x) for x in f) + "\n"
        self.log.append(msg)
        try:
            r = self._send(msg, limit)
            if Exec.watch is not None:
                Exec.watch(self, msg, r)
            return r
        except (Crash, BrokenPipeError) as e:
            if isinstance(e, BrokenPipeError):
                self.p.wait()
                e = Crash("exit %s\n%s" % (self.p.returncode, self._tail()))
            self.stop()
            raise e
        except Hang:
            self.stop()
            raise

    # convenience
    def make(self, old, new, delta, opts="-", **k): return self.raw("M", old, new, delta, opts, **k)
    def apply(self, old, delta, new, **k): return self.raw("A", old, delta, new, **k)
    def check(self, delta, mode, **k): return self.raw("C", delta, mode, **k)
    def checkseq(self, old, seq, mode, **k): return self.raw("S", old, seq, mode, **k)
    def read(self, delta, **k): return self.raw("R", delta, **k)
    def dump(self, delta, **k): return self.raw("RD", delta, **k)
    def opts(self, old, new, delta, toks, **k): return self.raw("X", old, new, delta, toks, **k)


def io_fault(k, mode="e", err=5, persist=0): return "F\t%d\t%s\t%d\t%d" % (k, mode, err, persist)
def al_fault(k, persist=0): return "L\t%d\t%d" % (k, persist)


class Ctx:
    """What a case body gets: an executor, a scratch directory, counters."""

    def __init__(self, ck, wid):
        self.ck, self.wid = ck, wid
        self.dir = os.path.join(ck.scratch, "w%d" % wid)
        os.makedirs(self.dir, exist_ok=True)
        self.execs = {}
        self.counts = collections.Counter()
        self.distinct = set()
        self.cache = {}
        self.samples = []

    def ex(self, variant="default", defines=(), **k):
        key = (variant, tuple(sorted(k.items())))
        e = self.execs.get(key)
        if e is None:
            e = Exec(B.build(variant, defines), os.path.join(self.dir, "x%d" % len(self.execs)), **k)
            os.makedirs(e.scratch, exist_ok=True)
            self.execs[key] = e
        return e

    def restart(self):
        for e in self.execs.values():
            e.stop()

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def count(self, name, n=1): self.counts[name] += n

    def outcome(self, x):
        """records a distinct observed outcome / state"""
        self.distinct.add(x if isinstance(x, (int, str, bytes)) else hashlib.md5(repr(x).encode()).hexdigest()[:16])

    def sample(self, s, every=1):
        if len(self.samples) < 4:
            self.samples.append(s)


def slurp(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


class Check:
    """One property, one run."""
    workers = 8
    case_retries = 1

    def __init__(self, prop, tier, level, technique):
        self.prop, self.tier, self.level, self.technique = prop, tier, level, technique
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.deadline = self.t0 + (720 if tier == "quick" else 4 * 3600)
        self.keep_going = bool(os.environ.get("VERIF_KEEP_GOING"))
        self.only = None
        self.scratch = tempfile.mkdtemp(prefix="dv", dir=scratch_base())
        self.phases = []
        self.violations = []
        self.known = []
        self.totals = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.assumptions = []
        self.capped = []
        self.unreproduced = 0
        self.known_file = json.load(open(os.path.join(VERIF, "known_findings.json")))
        self.extra = {}

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- running cases ----------------------------------------------------
    def _one(self, ctx, body, case):
        try:
            body(ctx, case)
            return None
        except Violation as v:
            return v
        except Crash as e:
            return Violation("crash: " + first_line(str(e)), key="crash:" + crash_site(str(e)), detail=str(e)[:3000])
        except Hang as e:
            return Violation("hang: " + str(e), key="hang")
        except (OSError, MemoryError):
            raise
        except Exception as e:      # the oracle could not make sense of what the library produced
            return Violation("uninterpretable result: %r" % e, key="uninterpretable:%s" % type(e).__name__,
                             detail=traceback.format_exc()[-1500:])

    def _worker(self, wid, nw, name, gen, body, q, deadline, stop):
        ctx = Ctx(self, wid)
        viol = []
        n = done = 0
        capped = False
        err = None
        try:
            for i, case in enumerate(gen()):
                n = i + 1
                if i % nw != wid:
                    continue
                if self.only is not None and i != self.only[1]:
                    continue
                if (deadline and time.time() > deadline) or stop.value:
                    capped = True
                    break
                done += 1
                v = self._one(ctx, body, case)
                if v is not None:
                    # replay before report, in a fresh executor; a hang gets a longer limit
                    ctx.restart()
                    for e in ctx.execs.values():
                        e.limit = 90 if v.key == "hang" else e.limit
                    saved = collections.Counter(ctx.counts)
                    for _ in range(self.case_retries):
                        v2 = self._one(ctx, body, case)
                        if v2 is not None:
                            break
                    ctx.counts = saved
                    if v2 is None:
                        ctx.count("unreproduced")
                        continue
                    for e in ctx.execs.values():
                        e.limit = 20
                    viol.append((i, case, v2.what, v2.key, v2.info))
                    if not self.is_known(v2.key) and not self.keep_going:
                        stop.value = 1
                        break
        except Exception:
            err = traceback.format_exc()
        finally:
            ctx.restart()
        q.put((wid, n, done, dict(ctx.counts), ctx.distinct, ctx.samples, viol, capped, err))

    def is_known(self, key):
        return any(k["property"] == self.prop and k.get("status") == "open" and k["key"] == key
                   for k in self.known_file)

    def explore(self, name, gen, body, workers=None, budget=None):
        """Runs body on every case gen() yields (in every worker alike: gen must be deterministic)."""
        if self.violations and not self.keep_going:
            return
        if self.only is not None and self.only[0] != name:
            return
        t = time.time()
        nw = workers or self.workers
        q = mp.get_context("fork").SimpleQueue()
        stop = mp.get_context("fork").Value("i", 0)
        deadline = min(t + budget, self.deadline) if budget else self.deadline
        ps = []
        for w in range(nw):
            p = mp.get_context("fork").Process(target=self._worker, args=(w, nw, name, gen, body, q, deadline, stop))
            p.start()
            ps.append(p)
        res = []
        while len(res) < nw:
            if not q.empty():
                res.append(q.get())
                continue
            time.sleep(0.01)
            if not any(p.is_alive() for p in ps) and q.empty():
                raise RuntimeError("worker died in phase " + name)
        for p in ps:
            p.join()
        done = 0
        cnt = collections.Counter()
        dist = set()
        for wid, n, d, c, ds, sm, viol, capped, err in sorted(res, key=lambda r: r[0]):
            if err:
                raise RuntimeError(err)
            done += d
            cnt.update(c)
            dist |= ds
            self.samples += [dict(phase=name, case=s) for s in sm[:1]] if len(self.samples) < 12 else []
            for v in viol:
                (self.known if self.is_known(v[3]) else self.violations).append((name,) + tuple(v))
            if capped:
                self.capped.append(name)
        self.unreproduced += cnt.pop("unreproduced", 0)
        self.totals.update(cnt)
        self.totals["cases"] += done
        self.distinct |= {(name, x) for x in dist}
        self.phases.append(dict(phase=name, cases=done, distinct_outcomes=len(dist), wall_s=round(time.time() - t, 1),
                                complete=not any(r[7] for r in res), **cnt))
        print("  %-34s %8d cases %6d outcomes %6.1f s %s" %
              (name, done, len(dist), time.time() - t, dict(cnt)), flush=True)

    # -- result -----------------------------------------------------------
    def finish(self, coverage, rule=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        self.violations.sort(key=lambda v: v[1])
        wall = time.time() - self.t0
        cov = dict(coverage)
        cov["phases"] = self.phases
        cov["exhaustive"] = not self.capped and not self.violations
        cov["samples"] = self.samples[:10] or [str(self.phases[:1])]
        if self.capped:
            cov["capped_phases"] = sorted(set(self.capped))
        if self.unreproduced:
            cov["unreproduced"] = self.unreproduced
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=jsonable)
        keys = set()
        for ph, i, case, what, key, info in self.known:
            if key in keys:
                continue
            keys.add(key)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if self.violations:
            ph, i, case, what, key, info = self.violations[0]
            rp = os.path.join("replays", "%s-%s.json" % (self.prop, hashlib.md5(repr((ph, case)).encode()).hexdigest()[:10]))
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, phase=ph, index=i, case=case, what=what, key=key, info=info),
                          f, indent=1, default=jsonable)
            seen, vs = set(), []
            for v in self.violations:
                if (v[0], v[4]) not in seen:
                    seen.add((v[0], v[4]))
                    vs.append(v)
            for v in vs[:40 if self.keep_going else 5]:
                print("  [%s #%d] %s\n    case: %s\n    %s" %
                      (v[0], v[1], v[3], short(v[2], 300), short(v[5].get("detail") or v[5], 700)))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        print("%s %s: held on everything explored, %.1f s" % (self.prop, self.tier, wall), flush=True)
        return 0


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {"hex": bytes(x[:2000]).hex(), "len": len(x)}
    if isinstance(x, (set, tuple)):
        return list(x)
    return repr(x)


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def first_line(s):
    for l in s.split("\n"):
        if "AddressSanitizer" in l or "runtime error" in l:
            return l.strip()[:200]
    return s.split("\n")[0][:200]


def crash_site(s):
    """innermost frame inside the library, by function name"""
    import re
    kind = re.search(r"AddressSanitizer: ([\w-]+)", s)
    fr = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*/src/(drpm[^:\s]*)", s)
    return "%s:%s" % (kind.group(1) if kind else "exit", fr.group(1) if fr else "?")
