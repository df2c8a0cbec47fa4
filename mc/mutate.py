"""Malformed inputs: every truncation, extension, byte change and field change of base deltas; and the bases."""
from universe import *
import delta as DL
from dataclasses import replace

EDGE32 = [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 111, 112, 113, 0x7f, 0x80, 0xff, 0x100, 0x3ff, 0x400, 0x401, 0xfff, 0x1000, 0x1001,
          0x7fff, 0x8000, 0xffff, 0x10000, 0xfffff, 0x1000000, 0x0fffffff, 0x10000000, 0x1fffffff, 0x20000000, 0x20000001, 0x3fffffff, 0x40000000,
          0x40000001, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0x80000002, 0xbfffffff, 0xc0000000, 0xfffffff0, 0xfffffffd, 0xfffffffe, 0xffffffff]
FEW32 = [0, 1, 0x20000000, 0x40000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]


def old_pkg(root=""):
    return Pkg(files=[R(root + "/a", A), R(root + "/b", B_ + C_), L(root + "/l", "zz"), R(root + "/cfg", b"cc", flags=G.F_CONFIG)], name="mo")


def new_pkg(root=""):
    return Pkg(files=[R(root + "/a", tweak(A, step=16)), R(root + "/b", B_ + b"+" + C_), L(root + "/l", "zy")], name="mo", version="2", epoch=1, flags="1", level=1)


# name -> options; "id" bases are made from one package
BASES = [("s3", "t0=0;v0=3;k0=0,1"), ("s3x", "t0=0;v0=3;k0=1,1;b0=2,1"), ("s2", "t0=0;v0=2;k0=0,1;n0"), ("s1", "t0=0;v0=1;k0=0,1;b0=1,1"),
         ("r3", "t0=1;v0=3;k0=0,1;b0=1,1"), ("r3x", "t0=1;v0=3;k0=4,1;n0"), ("rid", "t0=1;v0=3;k0=0,1"), ("sid", "t0=0;v0=3;k0=0,1"),
         ("s3bz", "t0=0;v0=3;k0=2,1;b0=4,1"), ("s3lz", "t0=0;v0=3;k0=5,1;n0"), ("s3zs", "t0=0;v0=3;k0=6,1;b0=6,1"), ("s3la", "t0=0;v0=3;k0=3,1;b0=3,1"),
         ("r3zs", "t0=1;v0=3;k0=6,1;b0=5,1"), ("s3b0", "t0=0;v0=3;k0=0,1;b0=0,0")]


def base(ctx, name, root=""):
    """-> (delta bytes, old Built, new Built), made by the library"""
    k = ("mbase", name, root)
    if k not in ctx.cache:
        old, new = built(old_pkg(root)), built(new_pkg(root))
        if name.endswith("id"):
            new = old
            raw = make(ctx, old, None, dict(BASES)[name])
        else:
            raw = make(ctx, old, new, dict(BASES)[name])
        ctx.cache[k] = raw, old, new
    return ctx.cache[k]


_len = {}


def lens():
    """length of every base delta (made once, in the parent)"""
    return _len


def prepare(ck):
    """makes the bases once, to learn their lengths and fields"""
    if _len:
        return
    ctx = Ctx(ck, 99)
    try:
        for n, _ in BASES:
            raw, _, _ = base(ctx, n)
            _len[n] = (len(raw), raw, [f for f, b in DL.stream_fields(DL.parse(raw))], [len(b) for f, b in DL.stream_fields(DL.parse(raw))])
    finally:
        ctx.restart()


def byte_values(b, full):
    if full:
        return [v for v in range(256) if v != b]
    vs = []
    for v in [b ^ (1 << k) for k in range(8)] + [0, 1, 0x7f, 0x80, 0xff, (b + 1) & 255, (b - 1) & 255]:
        if v != b and v not in vs:
            vs.append(v)
    return vs


def encode_fields(d, fields):
    """a delta whose stream is made of these (name, bytes), with the envelope of d"""
    return DL.wrap(d, b"".join(b for _, b in fields))


def change_field(raw, changes, comp=None):
    """changes: {field name: value or bytes}; numbers keep the field's width"""
    d = DL.parse(raw)
    fs = []
    for n, b in DL.stream_fields(d):
        if n in changes:
            v = changes[n]
            b = v if isinstance(v, bytes) else (v % (1 << 8 * len(b))).to_bytes(len(b), "big")
        fs.append((n, b))
    if comp is not None:
        d.comp = comp
    d.comp_level = 1
    return encode_fields(d, fs)


def is_number(name, width):
    return width in (4, 8) and name not in ("src_nevr", "sequence", "int_data", "add_data", "comp_param", "leadsig")
