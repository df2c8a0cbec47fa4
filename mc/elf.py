"""Small ELF files as the prelink program leaves them."""
import struct


def elf(is64=True, le=True, names=(b".gnu.prelink_undo", b".shstrtab"), total=None, stridx=None, strtype=3, snum=None, ssiz=None, soff=None,
        stroff=None, strlen=None, nameoff=None, body=b""):
    e = "<" if le else ">"
    hl, sl = (64, 64) if is64 else (52, 40)
    tab = b"\0"
    offs = [0]
    for n in names:
        offs.append(len(tab))
        tab += n + b"\0"
    if nameoff is not None:
        offs = [0] + [nameoff] * len(names)
    at = hl + len(body)
    so = at + len(tab)
    n = len(names) + 1
    si = n - 1 if stridx is None else stridx
    sects = b""
    for i in range(n):
        t = 0 if i == 0 else strtype if i == si else 1
        o, l = (at if stroff is None else stroff, len(tab) if strlen is None else strlen) if i == si else (0, 0)
        if is64:
            s = struct.pack(e + "IIQQQQIIQQ", offs[i], t, 0, 0, o, l, 0, 0, 1, 0)
        else:
            s = struct.pack(e + "IIIIIIIIII", offs[i], t, 0, 0, o, l, 0, 0, 1, 0)
        sects += s
    so_ = so if soff is None else soff
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if le else 2, 1]) + b"\0" * 9
    tail = (hl, 0, 0, sl if ssiz is None else ssiz, n if snum is None else snum, si)
    if is64:
        h = ident + struct.pack(e + "HHIQQQIHHHHHH", 3, 62, 1, 0, 0, so_, 0, *tail)
    else:
        h = ident + struct.pack(e + "HHIIIIIHHHHHH", 3, 3, 1, 0, 0, so_, 0, *tail)
    out = h + body + tab + sects
    if total is not None:
        out += b"\xee" * (total - len(out))
    return out
