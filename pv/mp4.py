"""Reads ISO base media files strictly: every box inside its parent, no byte left over."""
import struct

CONTAINERS = {b"moov", b"trak", b"mdia", b"minf", b"dinf", b"stbl", b"mvex", b"moof", b"traf"}


class Mp4Error(Exception):
    pass


class Box:
    def __init__(self, type, at, data):
        self.type, self.at, self.data = type, at, data
        self.kids = []

    @property
    def size(self):
        return len(self.data) + 8

    def __getitem__(self, path):
        b = self
        for t in path.split("/"):
            k = [x for x in b.kids if x.type == t.encode()]
            if len(k) != 1:
                raise Mp4Error(f"{len(k)} {t} boxes in {b.type}")
            b = k[0]
        return b


def boxes(data, at=0, off=0):
    """The boxes that fill data[off:] exactly; at is where data starts in the file."""
    out = []
    while off < len(data):
        if len(data) - off < 8:
            raise Mp4Error(f"{len(data) - off} bytes where a box should start")
        n, t = struct.unpack(">I4s", data[off:off + 8])
        if n < 8 or off + n > len(data):
            raise Mp4Error(f"box {t} of {n} bytes, {len(data) - off} left")
        b = Box(t, at + off, data[off + 8:off + n])
        if t in CONTAINERS:
            b.kids = boxes(b.data, b.at + 8)
        elif t == b"stsd":
            if struct.unpack(">II", b.data[:8]) != (0, 1):
                raise Mp4Error(f"stsd {b.data[:8].hex()}")
            b.kids = boxes(b.data, b.at + 8, 8)
        elif t == b"avc1":
            b.kids = boxes(b.data, b.at + 8, 78)
        elif t == b"mp4a":
            b.kids = boxes(b.data, b.at + 8, 28)
        out.append(b)
        off += n
    return out


def root(data):
    b = Box(b"file", 0, data)
    b.kids = boxes(data)
    return b


def descr(data, tag):
    """Body of a descriptor that starts data, and what follows."""
    if data[0] != tag:
        raise Mp4Error(f"descriptor {data[0]}, not {tag}")
    n, i = 0, 1
    while True:
        n = n << 7 | data[i] & 127
        i += 1
        if not data[i - 1] & 128:
            break
    if i + n > len(data):
        raise Mp4Error(f"descriptor {tag} of {n} bytes, {len(data) - i} left")
    return data[i:i + n], data[i + n:]


def esds_config(data):
    """The audio decoder's configuration in an esds box."""
    es, rest = descr(data[4:], 3)
    if rest:
        raise Mp4Error("bytes after the ES descriptor")
    dec, rest = descr(es[3:], 4)
    if dec[0] != 0x40 or rest != b"\x06\x01\x02":
        raise Mp4Error(f"object type {dec[0]}, SL descriptor {rest.hex()}")
    cfg, rest = descr(dec[13:], 5)
    if rest:
        raise Mp4Error("bytes after the decoder's configuration")
    return cfg


class Fragment:
    """One media segment: styp sidx moof mdat; samples are (time, duration, data, key, composition offset)."""

    def __init__(self, data):
        r = root(data)
        if [b.type for b in r.kids] != [b"styp", b"sidx", b"moof", b"mdat"]:
            raise Mp4Error(f"boxes {[b.type for b in r.kids]}")
        moof, mdat = r["moof"], r["mdat"]
        self.seq = struct.unpack(">II", moof["mfhd"].data)[1]
        s = r["sidx"].data
        (ver, ref, scale, self.earliest, first, _, refs, self.ref_size, self.ref_duration, sap) = struct.unpack(">IIIIIHHIII", s)
        if (ver, ref, scale, refs) != (0, 1, 1000, 1):
            raise Mp4Error(f"sidx {s.hex()}")
        if self.ref_size != moof.size + mdat.size:
            raise Mp4Error(f"sidx says {self.ref_size} bytes, there are {moof.size + mdat.size}")
        fl, track = struct.unpack(">II", moof["traf/tfhd"].data)
        if fl != 0x20000 or track != 1:
            raise Mp4Error(f"tfhd {fl:x} {track}")
        v, self.time = struct.unpack(">II", moof["traf/tfdt"].data)
        if v:
            raise Mp4Error("tfdt version")
        t = moof["traf/trun"].data
        fl, n, off = struct.unpack(">III", t[:12])
        signed = fl >> 24 == 1
        fl &= ~0x01000000
        if fl & ~0xf01 or not fl & 1 or not fl & 0x300:
            raise Mp4Error(f"trun flags {fl:x}")
        per = [x for x in (0x100, 0x200, 0x400, 0x800) if fl & x]
        if len(t) != 12 + 4 * n * len(per):
            raise Mp4Error(f"trun of {len(t)} bytes for {n} samples")
        v = struct.unpack(f">{n * len(per)}I", t[12:])
        if moof.at + off != mdat.at + 8:
            raise Mp4Error(f"data at {moof.at + off}, not {mdat.at + 8}")
        self.samples = []
        at, time = 0, self.time
        for i in range(n):
            x = dict(zip(per, v[i * len(per):]))
            size = x[0x200]
            if at + size > len(mdat.data):
                raise Mp4Error(f"sample {i} ends after the data")
            key = None if 0x400 not in x else {0: True, 0x10000: False}[x[0x400]]
            off = x.get(0x800, 0)
            if signed and off >> 31:
                off -= 1 << 32
            self.samples.append((time & 0xffffffff, x[0x100], mdat.data[at:at + size], key, off))
            at += size
            time += x[0x100]
        if at != len(mdat.data):
            raise Mp4Error(f"{len(mdat.data) - at} bytes behind the last sample")
