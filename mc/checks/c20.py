"""C20: misuse and failed preconditions are reported with the documented error."""
from universe import *
from c07 import reroot
from dataclasses import replace as dc_replace
from c19 import make_print, make_patch

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of the product of argument conditions (null, missing, of the wrong kind, cut short, of the wrong version, right, ...) over every parameter "
        "of every public call, and of every argument value of the option calls, on the real code; oracle: the set of documented codes of the conditions present")
NOTE = ("Each condition of each argument has one documented code. A call with none of them must succeed; a call with some of them must return the code of one of them. "
        "Which of several conditions is reported first is left open.")

# conditions of a file name that is read -> code (None: none)
NAMES = dict(missing=IO, notdir=IO, toolong=IO, loop=IO, dir=IO, emptyname=IO)
KINDS = dict(empty=FORMAT, text=FORMAT, short=FORMAT, zeros=FORMAT, gz=FORMAT, rpml=FORMAT, lead=FORMAT, cutsig=FORMAT, nohdr=FORMAT, cuthdr=FORMAT)
PKG = dict(NAMES, **KINDS, **dict(nopay=FORMAT, cutpay=FORMAT, lastbyte=FORMAT, std=FORMAT, ro=FORMAT, right=None, link=None))
# a delta
DLT = dict(NAMES, **KINDS, **dict(package=FORMAT, cutstream=FORMAT, half=FORMAT, v0=FORMAT, v4=FORMAT, v9=FORMAT, vA=FORMAT, magic=FORMAT, right=None, link=None))
OUT = dict(null=ARGS, nodir=IO, dir=IO, notdir=IO, toolong=IO, emptyname=IO, full=IO, right=None)
STATES = ("right", "content", "size", "gone", "other", "none")


def cut_points(raw):
    lead, sig, hdr, rest = DL.split_rpm(raw)
    return dict(lead=96, cutsig=96 + len(sig) // 2, nohdr=96 + len(sig), cuthdr=96 + len(sig) + len(hdr) * 2 // 3, nopay=96 + len(sig) + len(hdr),
                cutpay=len(raw) - len(rest) // 2, lastbyte=len(raw) - 1)


class World:
    """all the files, and a system with packages in every state of being installed"""

    def __init__(self, ctx):
        self.ctx = ctx
        h = self.h = Host(ctx)
        self.pk = {}
        inst = []
        for s in STATES:
            fs = reroot([R("/f", A + B_), R("/g", C_ * 3), L("/l", "f"), D("/d")], h.root + "/" + s)
            old = built(Pkg(name="p" + s, files=fs))
            new = built(Pkg(name="p" + s, version="2", level=1, files=[File(fs[0].name, data=A1 + B_ + b"!"), fs[1]]))
            self.pk[s] = (old, new)
            if s == "other":
                inst.append(built(Pkg(name="p" + s, version="0", files=fs)))
            elif s != "none":
                inst.append(old)
            h.place(old.pkg)
            if s == "content":
                h.put(File(fs[0].name, data=tweak(A + B_)))
            if s == "size":
                h.put(File(fs[1].name, data=C_))
            if s == "gone":
                os.unlink(fs[1].name)
        h.install(inst)
        self.ex = h.ex()
        self.d = {}
        for s in STATES:
            old, new = self.pk[s]
            for k, o in (("std", "t0=0;k0=1,1"), ("ro", "t0=1;k0=1,1"), ("id", "t0=0;k0=1,1")):
                put = lambda n, b: ctx.put("%s.%s" % (s, n), b)
                po, pn = put("old", old.raw), put("new", new.raw)
                r = self.ex.make(po, None if k == "id" else pn, ctx.path("%s.%s" % (s, k)), o)
                if r["rc"] != OK:
                    raise RuntimeError("make %s %s: %s" % (s, k, why(r["rc"])))
                self.d[s, k] = slurp(ctx.path("%s.%s" % (s, k)))
        ctx.put("afile", b"x")
        os.makedirs(ctx.path("adir"), exist_ok=True)
        for l, t in (("loop", "loop"),):
            if not os.path.lexists(ctx.path(l)):
                os.symlink(t, ctx.path(l))
        self.common = dict(empty=b"", text=b"just some text, and more of it\n" * 40, short=b"\xed\xab\xee\xdb\x03", zeros=b"\0" * 5000,
                           gz=G.compress(b"some data " * 300, G.GZIP, 9), rpml=make_print(self.pk["right"][0].pkg, ("same",) * 4))

    def file(self, tag, cond, raw, extra={}):
        """the name to pass for a condition of a file whose right content is raw"""
        c = self.ctx
        if cond == "null":
            return None
        if cond in ("missing", "nodir"):
            return c.path("none/x" if cond == "nodir" else "none")
        if cond == "notdir":
            return c.path("afile/x")
        if cond == "toolong":
            return c.path("x" * 300)
        if cond == "loop":
            return c.path("loop")
        if cond == "dir":
            return c.path("adir")
        if cond == "emptyname":
            return ""
        if cond == "full":
            return "/dev/full"
        key = "c20.%s.%s" % (tag, cond)
        if key in c.cache:
            return c.path(key)
        if cond == "link":
            p = self.file(tag, "right", raw)
            if not os.path.lexists(c.path(key)):
                os.symlink(p, c.path(key))
        else:
            if cond == "right":
                b = raw
            elif cond in extra:
                b = extra[cond]
            elif cond in self.common:
                b = self.common[cond]
            else:
                b = raw[:cut_points(raw)[cond]]
            c.put(key, b)
        c.cache[key] = True
        return c.path(key)

    def package(self, s, new, cond):
        return self.file("pkg.%s.%d" % (s, new), cond, self.pk[s][new].raw, dict(std=self.d[s, "std"], ro=self.d[s, "ro"]))

    def delta(self, s, k, cond):
        raw = self.d[s, k]
        ex = {}
        if cond in DLT and cond not in NAMES and cond not in ("right", "link"):
            d = DL.parse(raw)
            if k == "ro":
                n = len(raw)
                ex = dict(lead=raw[:8], cutsig=raw[:11], nohdr=raw[:20], cuthdr=raw[:40])
            ver = {"v0": b"DLT0", "v4": b"DLT4", "v9": b"DLT9", "vA": b"DLTA", "magic": b"DLX3"}
            for n, m in ver.items():
                ex[n] = DL.encode(DL.replace(d, magic=m))
            body = raw if k == "ro" else DL.split_rpm(raw)[3]
            ex.update(package=self.pk[s][0].raw, cutstream=raw[:len(raw) - len(body) * 3 // 4 if k != "ro" else 60], half=raw[:len(raw) - len(body) // 2])
        return self.file("dlt.%s.%s" % (s, k), cond, raw, ex)


def world(ctx):
    w = ctx.cache.get("world")
    if w is None:
        w = ctx.cache["world"] = World(ctx)
    return w


GONE = (IO, MISMATCH, NOINSTALL)    # a needed file is not there: the checks may call it any of these


def flat(want):
    return {y for x in want if x is not None for y in (x if isinstance(x, tuple) else (x,))}


def verdict(ctx, name, conds, rc, want):
    """want: set of codes of the conditions present"""
    ctx.count("call")
    ctx.outcome((name, conds, rc))
    ctx.sample([name, conds, why(rc)])
    if not want and rc != OK:
        raise Violation("%s with %s returned %s" % (name, conds, why(rc)), key="%s:refused:%s" % (name, why(rc)))
    if want and rc not in want:
        raise Violation("%s with %s returned %s, expected %s" % (name, conds, why(rc), " or ".join(why(x) for x in sorted(want))),
                        key="%s:%s:%s" % (name, "+".join(str(c) for c in conds), why(rc)))


def run(ck, tier):
    th = tier == "thorough"
    OPTS = {"-": None, "t0=0;k0=1,1": None, "t0=1;k0=1,1": None, "t0=1;v0=2;k0=1,1": ARGS, "t0=1;v0=1;k0=1,1": ARGS, "s0=nodir": IO, "s0=adir": IO, "p0=missing": IO, "p0=text": FORMAT}

    def g_make():
        for o in ["null"] + list(PKG):
            for n in ["null"] + list(PKG):
                for out in OUT:
                    for op in OPTS if th or "right" in (o, n) or out == "right" else ("-", "t0=1;k0=1,1"):
                        yield o, n, out, op

    def b_make(ctx, c):
        o, n, out, op = c
        w = world(ctx)
        want = {PKG[x] for x in (o, n) if x != "null"} | {OUT[out], OPTS[op]} - {None}
        want -= {None}
        if o == n == "null":
            want.add(ARGS)
        ident = "null" in (o, n)
        ro = op.startswith("t0=1")
        opts = op
        if op[0] == "s":
            opts = "k0=1,1;s0=" + ctx.path("none/x" if op == "s0=nodir" else "adir")
        if op[0] == "p":
            ctx.put("c20.text", w.common["text"])
            pr = ctx.path("none") if op == "p0=missing" else ctx.path("c20.text")
            opts = "k0=1,1;p0=%s|%s" % (pr, pr)
        # a delta about the bytes of one package never looks into its payload; and one between files takes a standard delta, which is a package of sorts, for the old package
        if ro and want <= {FORMAT} and (ident and {o, n} & {"nopay", "cutpay", "lastbyte", "std"} or o == "std" and n in ("right", "link")):
            ctx.count("left_open")
            return
        r = w.ex.make(w.package("right", 0, o), w.package("right", 1, n), w.file("mout", out if out != "right" else "right", b""), opts)
        verdict(ctx, "make", (o, n, out, op), r["rc"], want)
        if not want:
            try:
                DL.parse(slurp(ctx.path("c20.mout.right")))
            except Exception as e:
                raise Violation("make with %s wrote no delta: %r" % (c, e), key="make:nodelta")
    ck.explore("make", g_make, b_make)

    # the bytes that say what a file is: each of them altered, in every role
    def altered(raw, rpm):
        """positions of the identifying bytes of a file, by what they identify"""
        if not rpm:
            return [("rpmonly", i) for i in range(4)]
        lead, sig, hdr, rest = DL.split_rpm(raw)
        r = [("lead", i) for i in range(4)] + [("sigmagic", 96 + i) for i in range(4)] + [("hdrmagic", 96 + len(sig) + i) for i in range(4)]
        return r

    ROLES = ("make old std", "make new std", "make old ro", "make new ro", "make id std", "make id ro", "apply old std", "apply old ro", "seq old",
             "read std", "read ro", "check std", "check ro", "apply std", "apply ro")

    def g_mag():
        for r in ROLES:
            for i in range(12 if not (r.endswith("ro") and r.split()[0] in ("read", "check") or r == "apply ro") else 4):
                for x in range(256) if th else (0x01, 0x02, 0x10, 0x20, 0x80, 0xff, 0xed):
                    yield r, i, x

    def b_mag(ctx, c):
        r, i, x = c
        w = world(ctx)
        act, *kk = r.split()
        old, new = w.pk["right"]
        std, ro = w.d["right", "std"], w.d["right", "ro"]
        k = "ro" if kk[-1] == "ro" else "std"
        isd = act in ("read", "check") or act == "apply" and kk[0] != "old"
        raw = (ro if k == "ro" else std) if isd else (new.raw if kk[0] in ("new",) else old.raw)
        what, at = altered(raw, not (isd and k == "ro"))[i]
        b = bytearray(raw)
        b[at] ^= x
        f = ctx.put("c20.mag", bytes(b))
        P = lambda n: w.package("right", n, "right")
        D_ = lambda: w.delta("right", k, "right")
        out = ctx.path("c20.magout")
        o = "t0=%d;k0=1,1" % (k == "ro")
        if act == "make":
            rc = w.ex.make(P(0) if kk[0] == "new" else f, {"old": P(1), "new": f, "id": None}[kk[0]], out, o)["rc"]
        elif act == "apply":
            rc = w.ex.apply(P(0) if isd else f, f if isd else D_(), out)["rc"]
        elif act == "seq":
            rc = w.ex.checkseq(f, old.pkg.nevr + "-" + DL.parse(std).sequence.hex(), 0)["rc"]
        elif act == "read":
            rc = w.ex.raw("RD", f)["rc"]
        else:
            rc = w.ex.check(f, 1)["rc"]
        ctx.count("call")
        ctx.outcome((r, what, at, x, rc))
        if rc != FORMAT:
            raise Violation("%s with byte %d (%s) of the file altered by %#x: %s" % (r, at, what, x, why(rc)), key="magic:%s:%s" % (r, what))
    ck.explore("identifying bytes", g_mag, b_mag)

    # the files named by options
    PR = dict({k: v for k, v in dict(NAMES, **KINDS).items() if k not in ("rpml", "lead", "cutsig", "nohdr", "cuthdr")},
              **dict(right=None, link=None, package=FORMAT, std=FORMAT, cut4=FORMAT, cuthalf=FORMAT, cutlast=FORMAT, magic=FORMAT, other=ARGS, null=ARGS))
    PA = dict({k: v for k, v in dict(NAMES, **KINDS).items() if k not in ("rpml", "lead", "cutsig", "nohdr", "cuthdr")},
              **dict(right=None, link=None, pkgform=None, cut4=FORMAT, cuthalf=FORMAT, cutlast=FORMAT, magic=FORMAT, other=ARGS, otherpkg=ARGS, pkgcut=FORMAT, null=ARGS))

    def g_patch():
        for pr in PR:
            for pa in PA:
                for sq in ("none", "null") + tuple(OUT):
                    for t in (0, 1):
                        yield pr, pa, sq, t

    def b_patch(ctx, c):
        pr, pa, sq, t = c
        w = world(ctx)
        old, new = w.pk["right"]
        sts = ("other", "patched", "same", "absent")
        oth = w.pk["other"][0].pkg
        mk = lambda b: dict(cut4=b[:4], cuthalf=b[:len(b) // 2], cutlast=b[:-1], magic=b"RPMX" + b[4:])
        pp = make_print(old.pkg, sts)
        ppa = make_patch(old.pkg, sts, "rpml")
        pk = make_patch(old.pkg, sts, "rpm")
        fp = w.file("print", pr, pp, dict(mk(pp), package=old.raw, std=w.d["right", "std"], other=make_print(oth, sts)))
        fa = w.file("patch", pa, ppa, dict(mk(ppa), pkgform=pk, pkgcut=pk[:150], other=make_patch(oth, sts, "rpml"), otherpkg=make_patch(oth, sts, "rpm")))
        out = ctx.path("c20.pout")
        fs = None if sq in ("none", "null") else w.file("pseq", sq, b"")
        N = lambda x: "@N" if x is None else x
        toks = ["i0", "t0=%d" % t, "k0=1,1"]
        want = [OK, OK, OK]
        if sq != "none":
            toks.append("s0=" + N(fs))
            want.append(OK)     # null: no sequence file
        toks.append("p0=%s|%s" % (N(fp), N(fa)))
        given = fp is not None and fa is not None
        want.append(OK if given else ARGS)
        toks += ["m0", "x0"]
        r = w.ex.opts(w.package("right", 0, "right"), w.package("right", 1, "right"), out, ";".join(toks))
        ctx.count("call", len(toks))
        if r["rcs"][:-2] != want or r["rcs"][-1] != OK:
            raise Violation("%s: %s" % (toks, r["rcs"]), key="patch:options")
        w2 = {OUT[sq]} if sq not in ("none", "null") else set()
        if given and not t:
            w2 |= {PR[pr], PA[pa]}
        verdict(ctx, "make with patches", c, r["rcs"][-2], w2 - {None})
    ck.explore("files named by options", g_patch, b_patch)

    def g_apply():
        for k in ("std", "ro", "id"):
            for o in ["null", "otherpkg"] + list(PKG):
                for d in ["null"] + list(DLT):
                    for out in OUT:
                        if th or out in ("right", "null", "nodir") or "right" in (o, d):
                            yield "right", k, o, d, out
            for s in STATES:
                for d in ("right", "missing", "half", "null"):
                    for out in OUT:
                        yield s, k, "null", d, out

    def b_apply(ctx, c):
        s, k, o, d, out = c
        w = world(ctx)
        want = {OUT[out]}
        want.add(ARGS if d == "null" else DLT[d])
        if o == "otherpkg":
            want.add(MISMATCH)
        elif o == "null":
            want.add(ARGS if k == "ro" else {"right": None, "content": MISMATCH, "size": MISMATCH, "gone": IO, "other": NOINSTALL, "none": NOINSTALL}[s])
        else:
            want.add(PKG[o])
            # a package of the right name that is another file altogether may be found to differ, too
            if o in ("std", "nopay", "cutpay", "lastbyte"):
                want.add(MISMATCH)
        want -= {None}
        po = w.package("other", 0, "right") if o == "otherpkg" else w.package(s, 0, o)
        r = w.ex.apply(po, w.delta(s, k, d), w.file("aout", out, b""))
        verdict(ctx, "apply:" + k, (s, o, d, out), r["rc"], want)
        if not want and slurp(ctx.path("c20.aout.right")) != w.pk[s][0 if k == "id" else 1].raw:
            raise Violation("apply with %s: not the new package" % (c,), key="apply:wrong")
    ck.explore("apply", g_apply, b_apply)

    # source packages: their deltas need the old package, whatever is installed
    def g_src():
        for so in (0, 1):
            for sn in (0, 1):
                for s in STATES:
                    for v in (1, 2, 3):
                        for ident in (0, 1):
                            for o in ("null", "right", "otherpkg"):
                                yield so, sn, s, v, ident, o

    def b_src(ctx, c):
        so, sn, s, v, ident, o = c
        w = world(ctx)
        old, new = (built(dc_replace(b.pkg, source=bool(x))) for b, x in zip(w.pk[s], (so, sn)))
        if ident:
            new = old
        po, pn, d, out = ctx.put("src.o", old.raw), ctx.put("src.n", new.raw), ctx.path("src.d"), ctx.path("src.out")
        r = w.ex.make(po, None if ident else pn, d, "v0=%d;k0=1,1" % v)
        verdict(ctx, "make:source", c, r["rc"], set())
        want = {"right": None, "otherpkg": MISMATCH, "null": ARGS if new.pkg.source else
                {"right": None, "content": MISMATCH, "size": MISMATCH, "gone": IO, "other": NOINSTALL, "none": NOINSTALL}[s]}[o]
        r = w.ex.apply({"null": None, "right": po, "otherpkg": w.package("other" if s != "other" else "right", 0, "right")}[o], d, out)
        verdict(ctx, "apply:source", c, r["rc"], {want} - {None})
        if r["rc"] == OK and slurp(out) != new.raw:
            raise Violation("apply: not the new package", key="apply:wrong")
    ck.explore("source packages", g_src, b_src)

    MODES = (-2147483648, -1, 0, 1, 2, 3, 4, 255, 256, 257, 65536, 2147483647)

    def state_code(s, mode):
        return {"right": None, "content": MISMATCH if mode == 1 else None, "size": MISMATCH, "gone": GONE, "other": NOINSTALL, "none": NOINSTALL}[s]

    def g_check():
        for k in ("std", "ro", "id"):
            for s in STATES:
                for d in ["null"] + list(DLT):
                    for m in MODES:
                        yield k, s, d, m

    def b_check(ctx, c):
        k, s, d, m = c
        w = world(ctx)
        want = {ARGS if m not in (1, 2) else None, ARGS if d == "null" else DLT[d]}
        if k == "ro":
            want.add({"other": NOINSTALL, "none": NOINSTALL}.get(s))    # says nothing about files
        else:
            want.add(state_code(s, m))
        want = flat(want)
        r = w.ex.check(w.delta(s, k, d), m)
        verdict(ctx, "check:" + k, (s, d, m), r["rc"], want)
    ck.explore("check", g_check, b_check)

    SEQ = dict(null=ARGS, empty=FORMAT, dash=FORMAT, word=FORMAT, nohex=FORMAT, noseq=FORMAT, odd=FORMAT, nothex=FORMAT, short=FORMAT, space=FORMAT, right=None)

    def g_seq():
        for s in STATES:
            for q in SEQ:
                for o in ["null", "otherpkg"] + list(PKG):
                    for m in MODES:
                        yield s, q, o, m

    def b_seq(ctx, c):
        s, q, o, m = c
        w = world(ctx)
        old = w.pk[s][0].pkg
        hx = DL.parse(w.d[s, "std"]).sequence.hex()
        n = old.nevr
        seq = dict(null=None, empty="", dash="-", word="word", nohex=n, noseq=n + "-", odd=n + "-" + hx[:-1], nothex=n + "-" + hx[:-1] + "g", short=n + "-" + hx[:30], space=n + "-" + hx + " ",
                   right=n + "-" + hx)[q]
        want = {SEQ[q], ARGS if m not in (0, 1, 2) else None}
        if o == "null":
            want.add(NOINSTALL if s in ("other", "none") else state_code(s, m) if m in (1, 2) else None)
        else:
            want.add(ARGS if m != 0 else None)
            want.add(MISMATCH if o == "otherpkg" and s != "other" else PKG.get(o))
            # only what comes before the payload is needed
            if o in ("nopay", "cutpay", "lastbyte", "std") and q == "right" and m == 0:
                ctx.count("left_open")
                return
        want = flat(want)
        po = w.package("other", 0, "right") if o == "otherpkg" else w.package(s, 0, o)
        r = w.ex.checkseq(po, seq, m)
        verdict(ctx, "checkseq", (s, q, o, m), r["rc"], want)
    ck.explore("check sequence", g_seq, b_seq)

    def g_read():
        for k in ("std", "ro", "id"):
            for d in ["null"] + list(DLT):
                for h in (0, 1):
                    yield k, d, h

    def b_read(ctx, c):
        k, d, h = c
        w = world(ctx)
        want = {ARGS if d == "null" else DLT[d], None if h else ARGS} - {None}
        r = w.ex.raw("RD" if h else "RN", w.delta("right", k, d))
        verdict(ctx, "read:" + k, (d, h), r["rc"], want)
        if r["rc"] != OK:
            if h and not r["dn"]:
                raise Violation("read returned %s and left something behind" % why(r["rc"]), key="read:left")
            return
        if any(x != ARGS for x in r["nulls"]):
            raise Violation("getters accept null arguments: %s" % r["nulls"], key="get:null")
        if r["destroy"] != [OK, 1, ARGS]:
            raise Violation("destroy: %s" % r["destroy"], key="destroy")
        for t in ("-1", "19", "1000"):
            if any(x[0] != ARGS for x in r["get"][t]):
                raise Violation("tag %s is accepted: %s" % (t, r["get"][t]), key="get:tag")
    ck.explore("read", g_read, b_read)

    # a file that cannot be opened, created, read or written, whichever and wherever: an I/O error
    import scen as S
    N = [n for n in S.names() if ":pre" not in n]
    T = S.measure(ck, N)
    KIND = "ocrwlmO"

    def g_io():
        for n in N:
            t = T[n][0]
            for k in range(1, len(t) + 1):
                if t[k - 1] in KIND:
                    for err in (5, 13, 28):
                        for p in (0, 1):
                            yield n, k, err, p

    def b_io(ctx, c):
        n, k, err, p = c
        s = S.get(ctx, n)
        r = s.run(pre=[io_fault(k, "e", err, p)])
        ctx.count("call")
        ctx.outcome((n, k, r["rc"]))
        if r["rc"] not in (IO, T[n][2]) or not r["iof"]:
            raise Violation("%s: failing %s, operation %d: %s" % (n, S.LETTERS[T[n][0][k - 1]], k, why(r["rc"])), key="io:%s:%s:%s" % (s.cmd[0], T[n][0][k - 1], why(r["rc"])))
        if r["rc"] == OK and S.good(ctx, s)[1] != s.results():
            raise Violation("%s: OK in spite of a failing %s, operation %d" % (n, S.LETTERS[T[n][0][k - 1]], k), key="io:ok")
    ck.explore("unreadable files", g_io, b_io)

    # option calls: every value of every argument
    def g_opts():
        for k in "tv":
            for lo in range(0, 65536, 4096):
                yield k, lo
        for k in "kb":
            for c in list(range(0, 300)) + [512, 1024, 4096, 32767, 32768, 65535]:
                yield k, c
        yield "null", 0

    def b_opts(ctx, c):
        k, v = c
        if k == "null":
            toks = ["iN", "xN", "x0", "dN", "d0", "cNN", "c0N", "cN0", "c01", "t0=0", "tN=0", "v0=3", "vN=3", "k0=1,1", "kN=1,1", "g0", "gN", "n0", "nN", "b0=1,1", "bN=1,1", "s0=x", "sN=@N", "p0=x|x", "pN=x|x"]
            want = [ARGS] * len(toks)
            toks += ["i0", "c0N", "cN0", "c01", "p0=@N|x", "p0=x|@N", "p0=@N|@N", "s0=@N", "x0", "x0"]
            want += [OK, ARGS, ARGS, ARGS, ARGS, ARGS, ARGS, OK, OK, ARGS]
        elif k in "tv":
            toks, want = ["i0"], [OK]
            for x in range(v, v + 4096):
                toks.append("%s0=%d" % (k, x))
                want.append(OK if x in ((0, 1) if k == "t" else (1, 2, 3)) else ARGS)
        else:
            toks, want = ["i0"], [OK]
            for l in list(range(0, 300)) + [512, 32767, 32768, 65535]:
                toks.append("%s0=%d,%d" % (k, v, l))
                want.append(OK if v <= 6 and l <= 9 else ARGS)
        r = ctx.ex().opts("a", "b", "c", ";".join(toks))
        ctx.count("call", len(toks))
        for t, g, e in zip(toks, r["rcs"], want):
            if g != e:
                raise Violation("%s returned %s, expected %s" % (t, why(g), why(e)), key="opt:%s" % t[0])
        ctx.outcome(c)
    ck.explore("option arguments", g_opts, b_opts)

    def b_err(ctx, c):
        s = ctx.ex().raw("E")["s"]
        und = s[:2] + s[-2:]
        defined = s[2:13]
        if None in s or not all(defined) or len(set(defined)) != 11 or set(und) & set(defined):
            raise Violation("descriptions of codes: %s" % s, key="strerror")
        ctx.outcome(tuple(s))
    ck.explore("descriptions", lambda: iter([0]), b_err)

    t = ck.totals
    return ck.finish(dict(evaluations=t["call"], distinct_nontrivial=len(ck.distinct), left_open=t["left_open"],
                          rule="a case counts as distinct by the call, the conditions of its arguments and the resulting code"))
