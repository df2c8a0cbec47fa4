"""Independent reader, writer and applier of delta files, from the format's description."""
import hashlib, struct
from dataclasses import dataclass, field, replace
from typing import List, Tuple, Optional
import rpmgen as G

ALGO_OF = {G.NONE: 0, G.GZIP: 1, G.BZIP2: 2, G.LZMA: 5, G.XZ: 6, G.ZSTD: 7}
COMP_OF = {v: k for k, v in ALGO_OF.items()}


@dataclass
class Delta:
    rpmonly: bool = False
    version: int = 3
    comp: int = G.XZ                # compression of the stream
    comp_level: int = 2
    header: bytes = b""             # standard: target header (payload format "drpm"), with magic
    lead: bytes = b""               # standard: lead in front
    tgt_nevr: bytes = b""           # rpm-only
    add_outer: bytes = b""          # rpm-only: add block, outside the stream
    src_nevr: bytes = b""
    sequence: bytes = b""
    tgt_md5: bytes = b"\0" * 16
    tgt_size: int = 0
    tgt_algo: int = 0               # raw 32-bit: algorithm | level << 8
    comp_param: bytes = b""
    tgt_header_len: int = 0
    offadj: List[Tuple[int, int]] = field(default_factory=list)
    leadsig: bytes = b""
    payfmt_off: int = 0
    int_copies: List[Tuple[int, int]] = field(default_factory=list)
    ext_copies: List[Tuple[int, int]] = field(default_factory=list)
    ext_data_len: int = 0
    add_data: bytes = b""           # standard: add block inside the stream
    int_data: bytes = b""
    magic: Optional[bytes] = None   # stream magic override
    consumed: int = 0

    @property
    def add(self): return self.add_outer if self.rpmonly else self.add_data


class Bad(Exception):
    pass


class Rd:
    def __init__(s, b): s.b, s.p = b, 0

    def take(s, n):
        if s.p + n > len(s.b):
            raise Bad("short stream")
        r = s.b[s.p:s.p + n]; s.p += n
        return r

    def u32(s): return struct.unpack(">I", s.take(4))[0]
    def u64(s): return struct.unpack(">Q", s.take(8))[0]
    def blob(s): return s.take(s.u32())


def sm(v):  # sign-magnitude
    return -(v & 0x7fffffff) if v & 0x80000000 else v


def unsm(v):
    return v if v >= 0 else (-v) | 0x80000000


def header_len(b, p):
    il, dl = struct.unpack(">II", b[p + 8:p + 16])
    return 16 + il * 16 + dl


def split_rpm(raw):
    """-> lead, sig(with padding), header, rest"""
    sl = header_len(raw, 96)
    sl += -sl % 8
    h = 96 + sl
    hl = header_len(raw, h)
    return raw[:96], raw[96:h], raw[h:h + hl], raw[h + hl:]


def header_tags(hdr):
    """-> {tag: (type, offset, count)}, data"""
    il, dl = struct.unpack(">II", hdr[8:16])
    t = {}
    for i in range(il):
        tag, typ, off, cnt = struct.unpack(">IIiI", hdr[16 + 16 * i:32 + 16 * i])
        t[tag] = (typ, off, cnt)
    return t, hdr[16 + 16 * il:]


def parse(raw) -> Delta:
    d = Delta()
    if raw[:4] == b"drpm":
        d.rpmonly = True
        if raw[4:7] != b"DLT":
            raise Bad("magic")
        outer = raw[4:8]
        r = Rd(raw[8:])
        d.tgt_nevr = r.blob().rstrip(b"\0")
        d.add_outer = r.blob()
        rest = r.b[r.p:]
    else:
        d.lead, sig, d.header, rest = split_rpm(raw)
        if d.lead[:4] != b"\xed\xab\xee\xdb":
            raise Bad("lead")
        d.sig = sig
        outer = None
    d.comp = G.detect(rest)
    try:
        plain, d.consumed = G.decompress(rest, d.comp)
    except Exception as e:
        raise Bad("stream: %s" % e)
    d.trailing = rest[d.consumed:] if d.comp != G.NONE else b""
    r = Rd(plain)
    d.magic = r.take(4)
    if d.magic[:3] != b"DLT":
        raise Bad("stream magic")
    if outer is not None and outer != d.magic:
        raise Bad("outer magic")
    d.version = d.magic[3] - 48
    d.src_nevr = r.blob().rstrip(b"\0")
    d.sequence = r.blob()
    d.tgt_md5 = r.take(16)
    if d.version >= 2:
        d.tgt_size = r.u32()
        d.tgt_algo = r.u32()
        d.comp_param = r.blob()
        if d.version >= 3:
            d.tgt_header_len = r.u32()
            n = r.u32()
            a = [r.u32() for _ in range(n)]
            b = [sm(r.u32()) for _ in range(n)]
            d.offadj = list(zip(a, b))
    d.leadsig = r.blob()
    d.payfmt_off = r.u32()
    ni, ne = r.u32(), r.u32()
    a = [r.u32() for _ in range(ni)]
    b = [r.u32() for _ in range(ni)]
    d.int_copies = list(zip(a, b))
    a = [sm(r.u32()) for _ in range(ne)]
    b = [r.u32() for _ in range(ne)]
    d.ext_copies = list(zip(a, b))
    d.ext_data_len = r.u64() if d.version >= 3 else r.u32()
    al = r.u32()
    d.add_data = r.take(al)
    il = r.u64() if d.version >= 3 else r.u32()
    d.int_data = r.take(il)
    if r.p != len(plain):
        raise Bad("trailing data in stream")
    return d


def stream_fields(d):
    """the uncompressed stream as a list of (name, bytes)"""
    u32 = lambda v: struct.pack(">I", v & 0xffffffff)
    big = (lambda v: struct.pack(">Q", v)) if d.version >= 3 else u32
    F = [("magic", d.magic or b"DLT" + bytes([48 + d.version])),
         ("src_nevr_len", u32(len(d.src_nevr) + 1)), ("src_nevr", d.src_nevr + b"\0"),
         ("sequence_len", u32(len(d.sequence))), ("sequence", d.sequence),
         ("tgt_md5", d.tgt_md5)]
    if d.version >= 2:
        F += [("tgt_size", u32(d.tgt_size)), ("tgt_comp", u32(d.tgt_algo)),
              ("comp_param_len", u32(len(d.comp_param))), ("comp_param", d.comp_param)]
        if d.version >= 3:
            F += [("tgt_header_len", u32(d.tgt_header_len)), ("offadj_count", u32(len(d.offadj)))]
            F += [("offadj_a%d" % i, u32(a)) for i, (a, _) in enumerate(d.offadj)]
            F += [("offadj_b%d" % i, u32(unsm(b))) for i, (_, b) in enumerate(d.offadj)]
    F += [("leadsig_len", u32(len(d.leadsig))), ("leadsig", d.leadsig), ("payfmt_off", u32(d.payfmt_off)),
          ("int_count", u32(len(d.int_copies))), ("ext_count", u32(len(d.ext_copies)))]
    F += [("int_a%d" % i, u32(a)) for i, (a, _) in enumerate(d.int_copies)]
    F += [("int_b%d" % i, u32(b)) for i, (_, b) in enumerate(d.int_copies)]
    F += [("ext_a%d" % i, u32(unsm(a))) for i, (a, _) in enumerate(d.ext_copies)]
    F += [("ext_b%d" % i, u32(b)) for i, (_, b) in enumerate(d.ext_copies)]
    F += [("ext_data_len", big(d.ext_data_len)), ("add_data_len", u32(len(d.add_data))), ("add_data", d.add_data),
          ("int_data_len", big(len(d.int_data))), ("int_data", d.int_data)]
    return F


def wrap(d, stream):
    c = G.compress(stream, d.comp, d.comp_level)
    if d.rpmonly:
        return (b"drpm" + (d.magic or b"DLT" + bytes([48 + d.version])) +
                struct.pack(">I", len(d.tgt_nevr) + 1) + d.tgt_nevr + b"\0" +
                struct.pack(">I", len(d.add_outer)) + d.add_outer + c)
    body = d.header + c
    sig = G.HDR_MAGIC + G.hdr_blob([(1000, G.I32, [len(body)]), (1004, G.BIN, hashlib.md5(body).digest())], 62)
    sig += b"\0" * (-len(sig) % 8)
    return d.lead + sig + body


def encode(d):
    return wrap(d, b"".join(b for _, b in stream_fields(d)))


def header_with_payfmt(pkg, fmt):
    """the target header as stored in a standard delta"""
    return G.HDR_MAGIC + G.hdr_blob(G.header_entries(replace(pkg, payload_format=fmt)), 63)


def do_copies(d, ext):
    """carries out the copies on the external data; the uncompressed output"""
    add = G.decompress(d.add)[0] if d.add else None
    out = bytearray()
    pos = ip = ap = ei = 0
    for n, ln in d.int_copies:
        for _ in range(n):
            if ei >= len(d.ext_copies):
                raise Bad("not enough external copies")
            adj, cl = d.ext_copies[ei]; ei += 1
            pos += adj
            if pos < 0 or pos + cl > len(ext):
                raise Bad("external copy out of range")
            chunk = ext[pos:pos + cl]
            if add is not None:
                a = add[ap:ap + cl]
                if len(a) != cl:
                    raise Bad("add block too short")
                ap += cl
                if any(a):
                    chunk = bytes((x + y) & 255 for x, y in zip(chunk, a))
            out += chunk
            pos += cl
        if ip + ln > len(d.int_data):
            raise Bad("internal copy out of range")
        out += d.int_data[ip:ip + ln]; ip += ln
    if ei != len(d.ext_copies):
        raise Bad("unused external copies")
    if ip != len(d.int_data):
        raise Bad("unused internal data")
    if add is not None and ap != len(add):
        raise Bad("unused add data")
    return bytes(out)


def set_payfmt(hdr, fmt):
    """Re-lays out a header with another payload format value (string lengths are equal)."""
    t, data = header_tags(hdr)
    typ, off, cnt = t[1124]
    base = len(hdr) - len(data) + off
    end = hdr.index(b"\0", base)
    assert end - base == len(fmt)
    return hdr[:base] + fmt + hdr[end:]


def apply_(d, old: G.Built, default_level=None):
    """What the new package must be, per the format; returns (header, plain payload) or raises Bad."""
    if d.rpmonly:
        plain = do_copies(d, old.header + old.archive)
        return plain[:d.tgt_header_len], plain[d.tgt_header_len:]
    ext = G.filtered_archive(old.pkg)
    if d.ext_data_len != len(ext):
        raise Bad("ext_data_len %d != %d" % (d.ext_data_len, len(ext)))
    return set_payfmt(d.header, b"cpio"), do_copies(d, ext)
