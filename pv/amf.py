"""Independent AMF0 encoder/decoder (values: float, bool, str, dict, list, None, Undefined, Date)."""
import struct


class Undef:
    def __repr__(self):
        return "undefined"


UNDEF = Undef()


class EcmaArray(dict):
    pass


class Date(float):
    pass


class LongStr(str):
    pass


def enc(v):
    if v is UNDEF:
        return b"\x06"
    if v is None:
        return b"\x05"
    if isinstance(v, bool):
        return b"\x01" + (b"\x01" if v else b"\x00")
    if isinstance(v, Date):
        return b"\x0b" + struct.pack(">d", float(v)) + b"\0\0"
    if isinstance(v, (int, float)):
        return b"\x00" + struct.pack(">d", float(v))
    if isinstance(v, (str, bytes)):
        b = v.encode() if isinstance(v, str) else v
        if isinstance(v, LongStr) or len(b) > 65535:
            return b"\x0c" + struct.pack(">I", len(b)) + b
        return b"\x02" + struct.pack(">H", len(b)) + b
    if isinstance(v, EcmaArray):
        return b"\x08" + struct.pack(">I", len(v)) + props(v)
    if isinstance(v, dict):
        return b"\x03" + props(v)
    if isinstance(v, list):
        return b"\x0a" + struct.pack(">I", len(v)) + b"".join(enc(x) for x in v)
    raise TypeError(v)


def props(d):
    out = b""
    for k, v in d.items():
        k = k.encode() if isinstance(k, str) else k
        out += struct.pack(">H", len(k)) + k + enc(v)
    return out + b"\0\0\x09"


def encs(*vs):
    return b"".join(enc(v) for v in vs)


class AmfError(Exception):
    pass


def dec(b, i=0):
    try:
        return _dec(b, i)
    except (struct.error, IndexError) as e:
        raise AmfError(f"truncated AMF at {i}: {e}")


def _need(b, i, n):
    if i + n > len(b):
        raise AmfError(f"truncated AMF at {i}")


def _dec(b, i):
    t = b[i]
    i += 1
    if t == 0:
        _need(b, i, 8)
        return struct.unpack_from(">d", b, i)[0], i + 8
    if t == 1:
        return bool(b[i]), i + 1
    if t == 2:
        n = struct.unpack_from(">H", b, i)[0]
        _need(b, i + 2, n)
        return b[i + 2:i + 2 + n].decode("latin-1"), i + 2 + n
    if t == 3:
        return _props(b, i, {})
    if t == 5:
        return None, i
    if t == 6:
        return UNDEF, i
    if t == 8:
        return _props(b, i + 4, EcmaArray())
    if t == 10:
        n = struct.unpack_from(">I", b, i)[0]
        i += 4
        out = []
        for _ in range(n):
            v, i = dec(b, i)
            out.append(v)
        return out, i
    if t == 11:
        _need(b, i, 10)
        return Date(struct.unpack_from(">d", b, i)[0]), i + 10
    if t == 12:
        n = struct.unpack_from(">I", b, i)[0]
        _need(b, i + 4, n)
        return LongStr(b[i + 4:i + 4 + n].decode("latin-1")), i + 4 + n
    raise AmfError(f"AMF type {t} at {i - 1}")


def _props(b, i, d):
    while True:
        n = struct.unpack_from(">H", b, i)[0]
        i += 2
        if n == 0 and b[i] == 9:
            return d, i + 1
        k = b[i:i + n].decode("latin-1")
        _need(b, i, n)
        v, i = dec(b, i + n)
        d[k] = v


def decs(b):
    out, i = [], 0
    while i < len(b):
        v, i = dec(b, i)
        out.append(v)
    return out
