"""Writer of lists of package files (rpm prints): from the format as the library reads it."""
import struct
from dataclasses import dataclass


@dataclass
class F:
    name: str
    mode: int
    size: int = 0
    md5: bytes = b""
    rdev: int = 0
    user: int = 0           # length of the user name; 0: none
    group: int = 0
    nbytes: int = 0         # bytes used for the size; 0: as few as do


def string(s):
    b = s.encode() if isinstance(s, str) else s
    return bytes([len(b)]) + b


def name(prev, cur, share=None):
    """cur in terms of prev: shared bytes, rest"""
    n = 0
    while n < min(len(prev), len(cur), 255) and prev[n] == cur[n]:
        n += 1
    if share is not None:
        n = min(n, share)
    r = cur[n:]
    ln = bytes([len(r)]) if len(r) < 255 else b"\xff" + struct.pack(">H", len(r))
    return bytes([n]) + ln + r


def entry(f):
    out = struct.pack(">H", f.mode)
    if f.mode == 0:
        return out
    nb = f.nbytes or max(1, (f.size.bit_length() + 7) // 8)
    u, g = f.user, f.group
    # a name of length u takes u bytes and is coded as u-1; 0 means that there is none
    if u <= 8 and g <= 8 and u != 1 and g != 1:
        num = (max(u - 1, 0) << 5) | (max(g - 1, 0) << 2) | (nb - 1)
    else:
        num = None
    if num is None or num == 0xff:
        out += bytes([0xff, max(u - 1, 0), (max(g - 1, 0) << 2) | (nb - 1)])
    else:
        out += bytes([num])
    if u > 1:
        out += b"u" * u
    if g > 1:
        out += b"g" * g
    t = f.mode & 0o170000
    if t in (0o20000, 0o60000):
        out += struct.pack(">I", f.rdev)
    if t in (0o100000, 0o120000):
        out += f.size.to_bytes(4, "big")[4 - nb:]
        if f.size:
            out += f.md5
    return out


def rpml(nm, evr, files=(), patches=(), unpatched=(), host="build.example.org", time=12345, share=None, end=None, ncount=None, magic=b"RPML"):
    out = magic + string(nm) + string(evr) + string(host) + struct.pack(">I", time) + struct.pack(">H", len(patches))
    prev = b""
    if patches:
        for p in patches:
            out += string(p)
        out += struct.pack(">I", len(unpatched) if ncount is None else ncount)
        for u in unpatched:
            u = u.encode()
            out += name(prev, u, share)
            prev = u
    for f in files:
        n = f.name.encode()
        out += name(prev, n, share) + entry(f)
        prev = n
    return out + (b"\0\0" if end is None else end)
