"""C21: a delta carries what is new; what the old package has is copied from there."""
from universe import *
from c01 import opkg, npkg

LEVEL = "model_checking"
TECH = ("exhaustive enumeration of arrangements (every old and new word over pieces and fresh content, every pair of positions, every permutation of files, every "
        "spacing of changed bytes) on the real code; each delta is decoded independently and the copied positions of the result compared with what the old data contains")
NOTE = ("The generator knows which runs of the new data the old data holds; the decoded delta says which bytes it copies and which it carries. Runs of 64 bytes and more must be "
        "copied, but for EDGE bytes; changed bytes may be carried or put right by the add block. Delta size beyond that is not judged.")

EDGE = 15       # bytes at the edges of a run that may be carried (the search looks at every 16th position of the old data)
HEAD = 260      # bytes of an archive entry that may be carried where entries differ: its header, name and padding


def copied(d):
    """marks of the positions of the diffed data that are copied"""
    m, k = bytearray(), 0
    for n, l in d.int_copies:
        for _ in range(n):
            m += b"\1" * d.ext_copies[k][1]
            k += 1
        m += bytes(l)
    return m


def diffed(new, ro):
    return (new.header if ro else b"") + new.archive


def carried(d, new, ro):
    m = copied(d)
    data = diffed(new, ro)
    if len(m) != len(data):
        raise Violation("the copies make %d bytes of %d" % (len(m), len(data)), key="length")
    return m, data


def run_copied(ctx, m, at, n, what, allow=EDGE):
    un = n - sum(m[at:at + n])
    if un > allow:
        raise Violation("%d of %d bytes that the old package has are carried by the delta (%s)" % (un, n, what), key="carried:" + what.split()[0])
    ctx.count("run")


KINDS = ("v0=3;n0", "v0=3;b0=1,1", "v0=2;n0", "v0=1;b0=1,1", "t0=1;n0", "t0=1;b0=1,1", "v0=3")


def run(ck, tier):
    th = tier == "thorough"
    NC = ";k0=0,0"

    # 1. words over pieces that the old package may have, and fresh content
    F = {"f": rnd(300, 37), "g": rnd(301, 300)}

    def pieces(L):
        return {c: rnd(310 + i, L) for i, c in enumerate("ABC")}

    def g_w():
        for L in (64, 65, 79, 80, 200, 1000):
            for ow in [w for w in words("ABC", 3) if w and len(set(w)) == len(w)]:
                for nw in words("ABCfg" if th else "ABCf", 3):
                    if nw and (th or L in (64, 79) or len(nw) < 3):
                        for o in KINDS if L != 1000 else KINDS[:2] + KINDS[4:5]:
                            yield L, ow, nw, o

    def b_w(ctx, c):
        L, ow, nw, o = c
        P = dict(pieces(L), **F)
        od, nd = (b"".join(P[x] for x in w) for w in (ow, nw))
        old, new = built(opkg([R("/f", od)])), built(npkg([R("/f", nd)]))
        ro = o[0] == "t"
        d = DL.parse(make(ctx, old, new, o + NC))
        m, data = carried(d, new, ro)
        at = data.index(nd)
        for x in nw:
            if x in ow:
                run_copied(ctx, m, at, len(P[x]), "piece %s" % x)
            at += len(P[x])
        ctx.outcome((L, ow, nw, tuple(d.int_copies), tuple(d.ext_copies)))
        ctx.sample(c)
    ck.explore("words", g_w, b_w)

    # 2. a run at every position modulo 16 of old and new data
    def g_pos():
        for a in range(16):
            for b in range(16):
                for L in (64, 65, 72, 79, 80, 81, 128) if not th else range(64, 130):
                    for o in (KINDS[0], KINDS[1], KINDS[4]):
                        yield a, b, L, o

    def b_pos(ctx, c):
        a, b, L, o = c
        run_ = rnd(320, L)
        od, nd = rnd(321, 100 + a) + run_ + rnd(322, 50), rnd(323, 70 + b) + run_ + rnd(324, 33)
        old, new = built(opkg([R("/f", od)])), built(npkg([R("/f", nd)]))
        d = DL.parse(make(ctx, old, new, o + NC))
        m, data = carried(d, new, o[0] == "t")
        run_copied(ctx, m, data.index(run_), L, "run")
        ctx.outcome((c, tuple(d.int_copies)))
    ck.explore("positions", g_pos, b_pos)

    # 3. files that stay, change, go, come or swap places
    def g_f():
        for n in (1, 2, 3):
            for perm in itertools.permutations(range(n)):
                for st in itertools.product("=tngs", repeat=n):
                    for o in KINDS[:2] + KINDS[4:6] if n < 3 or th else (KINDS[(sum(map(ord, st)) + perm[0]) % 2], KINDS[4]):
                        yield perm, st, o

    def b_f(ctx, c):
        perm, st, o = c
        old_f = [R("/d/file%d" % i, rnd(330 + i, 200 + 77 * i)) for i in range(len(perm))]
        new_f, same = [], []
        for i in perm:
            x = old_f[i]
            if st[i] == "=":
                new_f.append(x)
            elif st[i] == "t":
                new_f.append(File(x.name, data=x.data[:100] + b"new" + x.data[100:]))
            elif st[i] == "n":      # another name
                new_f.append(File(x.name + ".so", data=x.data))
            elif st[i] == "s":      # a second one, of fresh content
                new_f += [x, File(x.name + "2", data=rnd(340 + i, 120))]
            same += {"=": [x.data], "n": [x.data], "s": [x.data], "t": [x.data[:100], x.data[100:]], "g": []}[st[i]]
        if not new_f:
            new_f = [D("/d")]
        old, new = built(opkg(old_f)), built(npkg(new_f))
        d = DL.parse(make(ctx, old, new, o + NC))
        m, data = carried(d, new, o[0] == "t")
        for x in same:
            run_copied(ctx, m, data.index(x), len(x), "content of a file")
        # all that is carried: fresh content and the entries' own bytes
        at = len(new.header) if o[0] == "t" else 0
        fresh = sum({"t": 3, "s": 120}.get(s, 0) for s in st)
        un = len(data) - at - sum(m[at:])
        if un > fresh + HEAD * (len(new_f) + 1):
            raise Violation("%d bytes of the archive are carried, %d are new" % (un, fresh), key="archive")
        ctx.outcome((c, len(d.ext_copies)))
    ck.explore("files", g_f, b_f)

    # 4. scattered changes: the add block puts them right; without it what is between them is copied
    def g_sc():
        for step in (8, 16, 33, 48, 64, 100, 128, 200, 256, 500, 1000):
            for n in (600, 1500, 9000):
                for o in KINDS:
                    yield step, n, o

    def b_sc(ctx, c):
        step, n, o = c
        x = rnd(350, n)
        y = tweak(x, step=step)
        old, new = built(opkg([R("/f", x)])), built(npkg([R("/f", y)]))
        d = DL.parse(make(ctx, old, new, o + NC))
        m, data = carried(d, new, o[0] == "t")
        at = data.index(y)
        if "n0" not in o and step >= 64:
            run_copied(ctx, m, at, n, "all changed at every %d" % step)
            if len(d.add) > 200 + 3 * (n // step) + n // 20:
                raise Violation("the add block takes %d bytes for %d changes" % (len(d.add), n // step), key="add size")
        elif step >= 128:
            run_copied(ctx, m, at, n, "between changes at every %d" % step, allow=(n // step + 1) * (1 + EDGE))
        ctx.outcome((c, len(d.ext_copies), len(d.add)))
    ck.explore("scattered changes", g_sc, b_sc)

    # 5. large packages, in every order of their parts
    BIG = (20000, 65536, 131072, 262144 // 3 + 1, 150000)

    def g_big():
        for n in BIG if th else BIG[:4]:
            for perm in itertools.permutations(range(3)):
                for o in (KINDS[1], KINDS[0], KINDS[4]):
                    yield n, perm, o

    def b_big(ctx, c):
        n, perm, o = c
        P = [rnd(360 + i, n + i) for i in range(3)]
        old = built(opkg([R("/f", b"".join(P))]))
        nd = b"new" * 20 + b"".join(P[i] for i in perm)
        new = built(npkg([R("/f", nd)]))
        d = DL.parse(make(ctx, old, new, o + NC))
        m, data = carried(d, new, o[0] == "t")
        at = data.index(nd) + 60
        for i in perm:
            run_copied(ctx, m, at, n + i, "part of a large file")
            at += n + i
        ctx.outcome((c, len(d.ext_copies)))
    ck.explore("large packages", g_big, b_big)

    # 6. one package alone, and one that is the same but for its release: next to nothing is carried
    def g_id():
        for o in KINDS[:4] + KINDS[6:]:
            for k in range(4):
                yield o, k, 1
        for o in KINDS:
            for k in range(4):
                yield o, k, 0

    def b_id(ctx, c):
        o, k, solo = c
        fs = [[R("/a/f", rnd(370, 500)), R("/b", rnd(371, 3000)), L("/l", "f"), D("/d")], [R("/%d" % i, rnd(372 + i, 150)) for i in range(40)],
              [R("/big", rnd(390, 300000))], [R("/a", rnd(391, 77), flags=G.F_CONFIG), R("/b", rnd(392, 5000))]][k]
        old = built(opkg(fs))
        new = old if solo else built(npkg(fs))
        d = DL.parse(make(ctx, old, None if solo else new, o + NC))
        m, data = carried(d, new, o[0] == "t")
        hdr = len(new.header) if o[0] == "t" else 0
        for f in fs:
            if f.kind == "reg" and not f.flags:
                run_copied(ctx, m, data.index(f.data), len(f.data), "unchanged file")
        un = len(data) - hdr - sum(m[hdr:])
        extra = sum(len(f.data) for f in fs if f.flags & G.F_CONFIG and o[0] != "t")
        if un > HEAD * (len(fs) + 1) + extra:
            raise Violation("%d bytes of an unchanged archive of %d are carried" % (un, len(data) - hdr), key="unchanged")
        ctx.outcome((c, un))
    ck.explore("unchanged packages", g_id, b_id)

    t = ck.totals
    return ck.finish(dict(states=len(ck.distinct), transitions=t["make"], traces_validated_against_impl=t["run"]))
