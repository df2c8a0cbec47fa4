"""Independent writer of small RPM packages (lead, signature, header, newc payload)."""
import bz2, ctypes, ctypes.util, hashlib, lzma, struct, zlib, stat as st
from dataclasses import dataclass, field, replace
from typing import List, Optional

NONE, GZIP, BZIP2, LZMA, XZ, LZIP, ZSTD = range(7)
COMP_NAMES = {NONE: None, GZIP: "gzip", BZIP2: "bzip2", LZMA: "lzma", XZ: "xz", LZIP: "lzip", ZSTD: "zstd"}

# RPMFILE_* / RPMVERIFY_*
F_CONFIG, F_DOC, F_MISSINGOK, F_NOREPLACE, F_GHOST, F_UNPATCHED = 1, 2, 8, 16, 64, 1024
V_ALL = 0xFFFFFFFF
V_NOMD5 = V_ALL & ~1
V_NOSIZE = V_ALL & ~2


class Zstd:
    _l = None

    @classmethod
    def lib(cls):
        if cls._l is None:
            l = ctypes.CDLL("libzstd.so.1")
            l.ZSTD_createCCtx.restype = ctypes.c_void_p
            l.ZSTD_createDCtx.restype = ctypes.c_void_p
            for n in ("ZSTD_freeCCtx", "ZSTD_freeDCtx"):
                getattr(l, n).argtypes = [ctypes.c_void_p]
            l.ZSTD_CCtx_setParameter.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]
            l.ZSTD_compressStream2.restype = ctypes.c_size_t
            l.ZSTD_compressStream2.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
            l.ZSTD_decompressStream.restype = ctypes.c_size_t
            l.ZSTD_decompressStream.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
            l.ZSTD_isError.argtypes = [ctypes.c_size_t]
            cls._l = l
        return cls._l


class ZBuf(ctypes.Structure):
    _fields_ = [("p", ctypes.c_void_p), ("size", ctypes.c_size_t), ("pos", ctypes.c_size_t)]


def zstd_compress(data, level, chunk=8192):
    """Streaming compression with the size not known beforehand, as rpm writes it."""
    l = Zstd.lib()
    c = l.ZSTD_createCCtx()
    l.ZSTD_CCtx_setParameter(c, 100, level)
    out = bytearray()
    ob = ctypes.create_string_buffer(1 << 17)

    def feed(b, mode):
        ib = ctypes.create_string_buffer(b, len(b)) if b else ctypes.create_string_buffer(1)
        i = ZBuf(ctypes.addressof(ib), len(b), 0)
        while True:
            o = ZBuf(ctypes.addressof(ob), len(ob), 0)
            r = l.ZSTD_compressStream2(c, ctypes.byref(o), ctypes.byref(i), mode)
            assert not l.ZSTD_isError(r)
            out.extend(ob.raw[:o.pos])
            if (mode == 0 and i.pos == i.size) or (mode == 2 and r == 0):
                return
    for k in range(0, len(data), chunk):
        feed(data[k:k + chunk], 0)
    feed(b"", 2)
    l.ZSTD_freeCCtx(c)
    return bytes(out)


def zstd_decompress(data):
    """Returns (plain, consumed); raises ValueError."""
    l = Zstd.lib()
    d = l.ZSTD_createDCtx()
    out = bytearray()
    ib = ctypes.create_string_buffer(data, len(data)) if data else ctypes.create_string_buffer(1)
    i = ZBuf(ctypes.addressof(ib), len(data), 0)
    ob = ctypes.create_string_buffer(1 << 17)
    try:
        while True:
            o = ZBuf(ctypes.addressof(ob), len(ob), 0)
            before = i.pos
            r = l.ZSTD_decompressStream(d, ctypes.byref(o), ctypes.byref(i))
            if l.ZSTD_isError(r):
                raise ValueError("zstd error")
            out.extend(ob.raw[:o.pos])
            if r == 0:
                return bytes(out), i.pos
            if i.pos == i.size and o.pos == 0 and i.pos == before:
                raise ValueError("zstd truncated")
    finally:
        l.ZSTD_freeDCtx(d)


def lzip_compress(data, dict_bits=16):
    """One lzip member."""
    filt = [{"id": lzma.FILTER_LZMA1, "dict_size": 1 << dict_bits, "lc": 3, "lp": 0, "pb": 2}]
    raw = lzma.compress(data, format=lzma.FORMAT_RAW, filters=filt)
    body = b"LZIP\x01" + bytes([dict_bits]) + raw
    return body + struct.pack("<IQQ", zlib.crc32(data), len(data), len(body) + 20)


def lzip_decompress(data):
    if data[:4] != b"LZIP":
        raise ValueError("lzip magic")
    ds = data[5]
    size = 1 << (ds & 31)
    size -= (size // 16) * (ds >> 5)
    d = lzma.LZMADecompressor(format=lzma.FORMAT_RAW,
                              filters=[{"id": lzma.FILTER_LZMA1, "dict_size": size, "lc": 3, "lp": 0, "pb": 2}])
    out = d.decompress(data[6:])
    if not d.eof:
        raise ValueError("lzip truncated")
    tail = d.unused_data
    crc, n, m = struct.unpack("<IQQ", tail[:20])
    if crc != zlib.crc32(out) or n != len(out):
        raise ValueError("lzip trailer")
    return out, len(data) - len(tail) + 20


def compress(data, comp, level):
    if comp == NONE:
        return data
    if comp == GZIP:
        c = zlib.compressobj(level, zlib.DEFLATED, 31)
        return c.compress(data) + c.flush()
    if comp == BZIP2:
        return bz2.compress(data, level)
    if comp == LZMA:
        return lzma.compress(data, format=lzma.FORMAT_ALONE, preset=level)
    if comp == XZ:
        return lzma.compress(data, format=lzma.FORMAT_XZ, check=lzma.CHECK_SHA256, preset=level)
    if comp == LZIP:
        return lzip_compress(data)
    if comp == ZSTD:
        return zstd_compress(data, level)
    raise ValueError(comp)


def detect(data):
    if data[:2] == b"\x1f\x8b":
        return GZIP
    if data[:3] == b"BZh":
        return BZIP2
    if data[:6] == b"\xfd7zXZ\x00":
        return XZ
    if data[:5] == b"]\x00\x00\x80\x00" or (data[:3] == b"]\x00\x00" and len(data) > 13):
        return LZMA
    if data[:4] == b"LZIP":
        return LZIP
    if data[:4] == b"\x28\xb5\x2f\xfd":
        return ZSTD
    return NONE


def decompress(data, comp=None):
    """-> (plain, consumed). consumed bytes of the first stream."""
    if comp is None:
        comp = detect(data)
    if comp == NONE:
        return data, len(data)
    if comp == GZIP:
        d = zlib.decompressobj(31)
        out = d.decompress(data)
        if not d.eof:
            raise ValueError("gzip truncated")
        return out, len(data) - len(d.unused_data)
    if comp == BZIP2:
        d = bz2.BZ2Decompressor()
        out = d.decompress(data)
        if not d.eof:
            raise ValueError("bzip2 truncated")
        return out, len(data) - len(d.unused_data)
    if comp in (LZMA, XZ):
        d = lzma.LZMADecompressor(format=lzma.FORMAT_AUTO)
        out = d.decompress(data)
        if not d.eof:
            raise ValueError("lzma truncated")
        return out, len(data) - len(d.unused_data)
    if comp == LZIP:
        return lzip_decompress(data)
    if comp == ZSTD:
        return zstd_decompress(data)
    raise ValueError(comp)


# ---------------------------------------------------------------------------

@dataclass
class File:
    name: str                      # absolute path
    data: bytes = b""
    kind: str = "reg"              # reg dir link blk chr fifo
    perm: int = 0o644
    flags: int = 0
    verify: int = V_ALL
    linkto: str = ""
    rdev: int = 0
    color: int = 0
    payload: bool = True           # present in the archive
    cpio_data: Optional[bytes] = None   # content in the archive, when different (e.g. earlier hard links)
    digest: Optional[str] = None   # overrides the recorded digest
    size: Optional[int] = None     # overrides the recorded size
    ino: int = 0
    nlink: int = 1

    @property
    def mode(self):
        t = {"reg": st.S_IFREG, "dir": st.S_IFDIR, "link": st.S_IFLNK, "blk": st.S_IFBLK,
             "chr": st.S_IFCHR, "fifo": st.S_IFIFO}[self.kind]
        return t | self.perm


def R(name, data=b"", **k):
    return File(name, data, **k)


def D(name, **k):
    return File(name, kind="dir", perm=0o755, **k)


def L(name, to, **k):
    return File(name, kind="link", perm=0o777, linkto=to, **k)


@dataclass
class Pkg:
    files: List[File] = field(default_factory=list)
    name: str = "pkg"
    version: str = "1"
    release: str = "1"
    epoch: Optional[int] = None
    arch: str = "x86_64"
    comp: int = GZIP
    level: int = 9
    flags: Optional[str] = "auto"       # PAYLOADFLAGS; "auto" = the level
    algo: str = "md5"                   # file digests
    source: bool = False
    order: Optional[List[int]] = None   # payload order, indices into files
    colors: bool = False
    summary: str = "s"
    extra: bytes = b""                  # a binary blob in the header, to vary its size
    encoding: bytes = b""               # text at the very end of the header: gives it any length
    sig_md5: bool = True
    sig_extra: bytes = b""
    prefix: str = "./"                  # archive name prefix
    payload: Optional[bytes] = None     # raw archive override
    comp_payload: Optional[bytes] = None
    payload_format: str = "cpio"
    oldstyle: bool = False              # no size/digest entries for the file list at all
    comp_name: Optional[str] = "auto"
    trailing: bytes = b""

    @property
    def nevr(self):
        e = "" if self.epoch is None else "%d:" % self.epoch
        return "%s-%s%s-%s" % (self.name, e, self.version, self.release)


I16, I32, STR, BIN, SARR, I18N = 3, 4, 6, 7, 8, 9
ALIGN = {I16: 2, I32: 4, STR: 1, BIN: 1, SARR: 1, I18N: 1}


def hdr_blob(entries, region):
    """entries: list of (tag, type, value); returns index+data with region (no magic)."""
    entries = sorted(entries, key=lambda e: e[0])
    data = bytearray()
    index = []
    for tag, typ, val in entries:
        a = ALIGN[typ]
        while len(data) % a:
            data.append(0)
        off = len(data)
        if typ == I16:
            cnt = len(val); data += struct.pack(">%dH" % cnt, *val)
        elif typ == I32:
            cnt = len(val); data += struct.pack(">%dI" % cnt, *val)
        elif typ == STR:
            cnt = 1; data += val + b"\0"
        elif typ == BIN:
            cnt = len(val); data += val
        else:
            cnt = len(val)
            for s in val:
                data += s + b"\0"
        index.append((tag, typ, off, cnt))
    il = len(index) + 1
    roff = len(data)
    data += struct.pack(">IIiI", region, BIN, -(il * 16), 16)
    index.insert(0, (region, BIN, roff, 16))
    out = struct.pack(">II", il, len(data))
    for e in index:
        out += struct.pack(">IIII", *e)
    return out + bytes(data)


HDR_MAGIC = bytes([0x8e, 0xad, 0xe8, 1, 0, 0, 0, 0])


def cpio_entry(name, mode, data, ino=0, nlink=1, rdev=(0, 0), filesize=None, namesize=None, mtime=0):
    nm = name.encode() + b"\0"
    fs = len(data) if filesize is None else filesize
    ns = len(nm) if namesize is None else namesize
    h = b"070701" + b"".join(b"%08x" % v for v in
                             (ino, mode, 0, 0, nlink, mtime, fs, 0, 0, rdev[0], rdev[1], ns, 0))
    out = h + nm
    out += b"\0" * (-len(out) % 4)
    out += data + b"\0" * (-len(data) % 4)
    return out


def gmajor(dev): return (dev >> 8) & 0xfff
def gminor(dev): return (dev & 0xff) | ((dev >> 12) & 0xfff00)


def archive(p):
    if p.payload is not None:
        return p.payload
    out = b""
    order = p.order if p.order is not None else range(len(p.files))
    for i in order:
        f = p.files[i]
        if not f.payload:
            continue
        d = f.linkto.encode() if f.kind == "link" else (f.data if f.kind == "reg" else b"")
        if f.cpio_data is not None:
            d = f.cpio_data
        rd = (gmajor(f.rdev), gminor(f.rdev)) if f.kind in ("blk", "chr") else (0, 0)
        nm = p.prefix + f.name.lstrip("/") if p.prefix != "/" else f.name
        out += cpio_entry(nm, f.mode, d, ino=f.ino or i + 1, nlink=f.nlink, rdev=rd, mtime=1000 + i)
    return out + cpio_entry("TRAILER!!!", 0, b"")


def fdigest(p, f):
    if f.digest is not None:
        return f.digest
    if f.kind != "reg" or f.flags & F_GHOST and not f.data:
        return ""
    return (hashlib.md5 if p.algo == "md5" else hashlib.sha256)(f.data).hexdigest()


def header_entries(p, plen=0):
    E = [(100, SARR, [b"C"]),
         (1000, STR, p.name.encode()), (1001, STR, p.version.encode()), (1002, STR, p.release.encode()),
         (1004, I18N, [p.summary.encode()]),
         (1009, I32, [sum(len(f.data) for f in p.files) & 0xffffffff]),
         (1021, STR, b"linux"), (1022, STR, p.arch.encode()),
         (1124, STR, p.payload_format.encode())]
    if p.epoch is not None:
        E.append((1003, I32, [p.epoch]))
    if not p.source:
        E.append((1044, STR, (p.name + "-" + p.version + ".src.rpm").encode()))
    cn = COMP_NAMES[p.comp] if p.comp_name == "auto" else p.comp_name
    if cn:
        E.append((1125, STR, cn.encode()))
    fl = (str(p.level) if p.comp != NONE else None) if p.flags == "auto" else p.flags
    if fl is not None:
        E.append((1126, STR, fl.encode()))
    if p.extra:
        E.append((1005, STR, p.extra))
    if p.encoding:
        E.append((5062, STR, p.encoding))
    if p.files:
        F = p.files
        dirs, didx, base = [], [], []
        for f in F:
            d, b = f.name.rsplit("/", 1)
            d += "/"
            if d not in dirs:
                dirs.append(d)
            didx.append(dirs.index(d)); base.append(b.encode())
        E += [(1028, I32, [(len(f.data) if f.kind == "reg" else (len(f.linkto) if f.kind == "link" else 0))
                           if f.size is None else f.size for f in F]),
              (1030, I16, [f.mode for f in F]),
              (1033, I16, [f.rdev & 0xffff for f in F]),
              (1034, I32, [1000 + i for i in range(len(F))]),
              (1035, SARR, [fdigest(p, f).encode() for f in F]),
              (1036, SARR, [f.linkto.encode() for f in F]),
              (1037, I32, [f.flags for f in F]),
              (1039, SARR, [b"root"] * len(F)), (1040, SARR, [b"root"] * len(F)),
              (1045, I32, [f.verify for f in F]),
              (1095, I32, [1] * len(F)),
              (1096, I32, [f.ino or i + 1 for i, f in enumerate(F)]),
              (1097, SARR, [b""] * len(F)),
              (1116, I32, didx), (1117, SARR, base), (1118, SARR, [d.encode() for d in dirs])]
        if p.colors:
            E.append((1140, I32, [f.color for f in F]))
        if p.algo == "sha256":
            E.append((5011, I32, [8]))
    return E


@dataclass
class Built:
    pkg: Pkg
    raw: bytes          # the file
    lead: bytes
    sig: bytes          # with magic and padding
    header: bytes       # with magic
    payload: bytes      # compressed
    archive: bytes      # plain

    @property
    def leadsig(self): return self.lead + self.sig


def build(p: Pkg) -> Built:
    arch = archive(p)
    pl = (compress(arch, p.comp, p.level) if p.comp_payload is None else p.comp_payload) + p.trailing
    hdr = HDR_MAGIC + hdr_blob(header_entries(p), 63)
    body = hdr + pl
    S = [(1000, I32, [len(body)]), (1007, I32, [len(arch)])]
    if p.sig_md5:
        S.append((1004, BIN, hashlib.md5(body).digest()))
    if p.sig_extra:
        S.append((1008, BIN, p.sig_extra))
    S.append((269, STR, hashlib.sha1(hdr).hexdigest().encode()))
    sig = HDR_MAGIC + hdr_blob(S, 62)
    sig += b"\0" * (-len(sig) % 8)
    lead = bytes([0xed, 0xab, 0xee, 0xdb, 3, 0]) + struct.pack(">HH", 1 if p.source else 0, 1)
    lead += ("%s-%s-%s" % (p.name, p.version, p.release)).encode()[:65].ljust(66, b"\0")
    lead += struct.pack(">HH", 1, 5) + b"\0" * 16
    assert len(lead) == 96
    return Built(p, lead + sig + body, lead, sig, hdr, pl, arch)


# ---------------------------------------------------------------------------
# what a standard delta uses of the old package: the specification

def is_needed(p, f):
    """Is this file, present in the archive, used as old data?  (from the format's documentation)"""
    if f.kind != "reg":
        return True
    cd = f.data if f.cpio_data is None else f.cpio_data
    size = len(f.data) if f.size is None else f.size
    if len(cd) != size:
        return False
    if f.flags & (F_CONFIG | F_MISSINGOK | F_GHOST):
        return False
    if not (f.verify & 1) or not (f.verify & 2):
        return False
    if p.colors and f.color & 3:
        n = f.name.lstrip("/")
        return in_multilib(n)
    return True


def in_multilib(n):
    """coloured files count only in a multilib directory"""
    return "lib/" in n or "lib32/" in n or "lib64/" in n


def used_files(p, skip=()):
    """indices, in payload order, of the files whose data the delta may copy"""
    if p.prefix == "/":         # names in the archive are relative: such entries match no file
        return []
    order = p.order if p.order is not None else range(len(p.files))
    return [i for i in order if p.files[i].payload and is_needed(p, p.files[i]) and i not in skip]


def filtered_archive(p, skip=()):
    out = b""
    offs = []
    for i in used_files(p, skip):
        f = p.files[i]
        d = f.linkto.encode() if f.kind == "link" else (f.data if f.kind == "reg" else b"")
        rd = (gmajor(f.rdev & 0xffff), gminor(f.rdev & 0xffff)) if f.kind in ("blk", "chr") else (0, 0)
        nm = "./" + f.name.lstrip("/")
        e = cpio_entry(nm, f.mode, d, ino=0, nlink=1, rdev=rd)
        offs.append(len(out))
        out += e
    return out + cpio_entry("TRAILER!!!", 0, b"")


def seq_nibbles(idx):
    """run-length / jump encoding of file indices"""
    nib = []

    def num(v):
        ds = []
        while True:
            ds.append(v & 7)
            v >>= 3
            if not v:
                break
        for k, d in enumerate(ds):
            nib.append(d | (8 if k < len(ds) - 1 else 0))
    # runs
    runs = []
    for i in idx:
        if runs and i == runs[-1][0] + runs[-1][1]:
            runs[-1][1] += 1
        else:
            runs.append([i, 1])
    pos = 0
    first = True
    for s, n in runs:
        if first:
            if s != 0:
                num(0); num(s)
            first = False
        elif s > pos:
            num(s - pos)
        else:
            num(0); num(s)
        num(n)
        pos = s + n
    if len(nib) % 2:
        nib.append(0)
    return bytes(nib[i] << 4 | nib[i + 1] for i in range(0, len(nib), 2))


def seq_md5(p, idx):
    m = hashlib.md5()
    for i in idx:
        f = p.files[i]
        size = (len(f.data) if f.size is None else f.size) if f.kind == "reg" else \
            (len(f.linkto) if f.kind == "link" else 0)
        rdev = f.rdev & 0xffff if f.kind in ("blk", "chr") else 0
        m.update(f.name.lstrip("/").encode() + b"\0" + struct.pack(">III", f.mode, size, rdev))
        if f.kind == "link":
            m.update(f.linkto.encode() + b"\0")
        elif f.kind == "reg" and size:
            m.update(bytes.fromhex(fdigest(p, f)))
    return m.digest()


def sequence(p, skip=()):
    idx = used_files(p, skip)
    return seq_md5(p, idx) + seq_nibbles(idx)


def seq_decode(b, nfiles):
    """file indices from the run-length / jump encoding; None when malformed or out of range"""
    nib = [x for c in b for x in (c >> 4, c & 15)]
    nums, cur, sh = [], 0, 0
    for n in nib:
        cur |= (n & 7) << sh
        sh += 3
        if not n & 8:
            nums.append(cur)
            cur = sh = 0
    if sh:
        return None
    out, pos, run, k = [], 0, True, 0
    while k < len(nums):
        v = nums[k]
        k += 1
        if v == 0:
            if k == len(nums):
                break
            pos = nums[k]
            k += 1
            run = True
        elif not run:
            pos += v
            run = True
        else:
            if v > nfiles or pos + v > nfiles or len(out) + v > nfiles:
                return None
            out += range(pos, pos + v)
            pos += v
            run = False
    return out
