"""A strict MPEG-TS reader for the streams the server makes, and what it should have made of FLV frames."""
import struct

from . import rtmp
from .rtmp import AUDIO, VIDEO

DELAY = 63000            # the server's 700 ms
MOD = 1 << 33


class TsError(rtmp.ChunkError):
    pass


def crc32(data):
    crc = 0xffffffff
    for b in data:
        crc ^= b << 24
        for _ in range(8):
            crc = (crc << 1 ^ 0x04c11db7 if crc & 0x80000000 else crc << 1) & 0xffffffff
    return crc


def stamp(b):
    if not (b[0] & 1 and b[2] & 1 and b[4] & 1):
        raise TsError(f"PTS marker bits {b.hex()}")
    return (b[0] >> 1 & 7) << 30 | (b[1] << 8 | b[2]) >> 1 << 15 | (b[3] << 8 | b[4]) >> 1


class Pes:
    def __init__(self, pid, key, pcr):
        self.pid, self.key, self.pcr = pid, key, pcr
        self.buf = bytearray()
        self.at = 0              # packet number of its start

    def head(self):
        b = self.buf
        if len(b) < 9 or b[:3] != b"\0\0\1":
            raise TsError(f"pid {self.pid:#x}: no PES start code: {bytes(b[:12]).hex()}")
        self.sid = b[3]
        self.length = b[4] << 8 | b[5]
        if b[6] & 0xc0 != 0x80:
            raise TsError(f"pid {self.pid:#x}: PES flags {b[6]:#x}")
        n = b[8]
        fl = b[7] >> 6
        if fl not in (2, 3) or n != (5 if fl == 2 else 10):
            raise TsError(f"pid {self.pid:#x}: PES header flags {b[7]:#x} length {n}")
        if b[9] >> 4 != fl or (fl == 3 and b[14] >> 4 != 1):
            raise TsError(f"pid {self.pid:#x}: PTS prefix {b[9] >> 4}")
        self.pts = stamp(b[9:14])
        self.dts = stamp(b[14:19]) if fl == 3 else self.pts
        self.data = bytes(b[9 + n:])
        self.full = not self.length or len(b) - 6 == self.length
        if self.length and len(b) - 6 > self.length:
            raise TsError(f"pid {self.pid:#x}: {len(b) - 6} bytes in a PES packet of {self.length}")
        return self


class Ts:
    """Feed bytes; .pes are the complete PES packets in the order of their ends."""

    def __init__(self):
        self.buf = bytearray()
        self.n = 0
        self.cc = {}
        self.restarts = False     # a counter may start again at 1, with a new publisher
        self.jumps = None         # a list of packets where a counter jumps, if that is allowed
        self.cur = {}
        self.pes = []
        self.streams = None       # pid -> type, from the PMT
        self.pmt_pid = None
        self.npat = self.npmt = 0
        self.npcr = 0
        self.pcrs = []

    def feed(self, data):
        self.buf += data
        while len(self.buf) >= 188:
            self._packet(bytes(self.buf[:188]))
            del self.buf[:188]

    def close(self, partial=False):
        """The end; with partial it may be in the middle of a packet or frame."""
        if self.buf and not partial:
            raise TsError(f"{len(self.buf)} bytes after the last packet")
        for p in list(self.cur.values()):
            if p:
                try:
                    self._done(p, partial)
                except TsError:
                    if not partial:
                        raise
        self.cur = {}
        return self

    def _done(self, p, partial=False):
        p.head()
        if not p.full:
            if partial:
                return
            raise TsError(f"pid {p.pid:#x}: PES packet of {p.length} has {len(p.buf) - 6} bytes")
        if partial and not p.length:
            return
        self.pes.append(p)

    def _packet(self, b):
        self.n += 1
        if b[0] != 0x47:
            raise TsError(f"packet {self.n}: no sync byte: {b[:8].hex()}")
        pid = (b[1] & 0x1f) << 8 | b[2]
        if b[1] & 0x80 or b[3] & 0xc0:
            raise TsError(f"packet {self.n}: error or scrambling flags {b[:4].hex()}")
        pusi = b[1] & 0x40
        afc = b[3] >> 4 & 3
        p = 4
        key = pcr = None
        if afc & 2:
            n = b[4]
            if n > 183 or (afc == 3 and n > 182):
                raise TsError(f"packet {self.n}: adaptation field of {n}")
            if n:
                key = bool(b[5] & 0x40)
                if b[5] & 0x10:
                    pcr = int.from_bytes(b[6:10], "big") << 1 | b[10] >> 7
                    self.pcrs.append((pid, pcr))
                used = 1 + (6 if b[5] & 0x10 else 0)
                if any(x != 0xff for x in b[5 + used:5 + n]):
                    raise TsError(f"packet {self.n}: stuffing {b[5 + used:5 + n].hex()[:40]}")
            p = 5 + n
        if not afc & 1:
            raise TsError(f"packet {self.n}: no payload")
        if pid == 0 or pid == self.pmt_pid:
            self._section(pid, b[p:], pusi)
            return
        cc = b[3] & 15
        if pid in self.cc and cc != (self.cc[pid] + 1) & 15 and not (self.restarts and cc == 1 and pusi):
            if self.jumps is not None and pusi:
                self.jumps.append(self.n)
            else:
                raise TsError(f"packet {self.n}: pid {pid:#x} continuity counter {cc} after {self.cc[pid]}")
        self.cc[pid] = cc
        if self.streams is None:
            raise TsError(f"packet {self.n}: pid {pid:#x} before the PAT and PMT")
        if pid not in self.streams:
            raise TsError(f"packet {self.n}: pid {pid:#x} is not in the PMT {self.streams}")
        if pusi:
            if self.cur.get(pid):
                self._done(self.cur[pid])
            self.cur[pid] = Pes(pid, bool(key), pcr)
            self.cur[pid].at = self.n
        elif self.cur.get(pid) is None:
            raise TsError(f"packet {self.n}: pid {pid:#x} continues nothing")
        self.cur[pid].buf += b[p:]
        q = self.cur[pid]
        if len(q.buf) >= 6:
            ln = q.buf[4] << 8 | q.buf[5]
            if ln and len(q.buf) - 6 >= ln:
                self._done(q)
                self.cur[pid] = None

    def _section(self, pid, b, pusi):
        if not pusi:
            raise TsError(f"packet {self.n}: continued section on pid {pid:#x}")
        b = b[1 + b[0]:]
        n = (b[1] & 15) << 8 | b[2]
        s = b[:3 + n]
        if len(s) != 3 + n or crc32(s):
            raise TsError(f"packet {self.n}: bad CRC in the section of pid {pid:#x}: {s.hex()}")
        if any(x != 0xff for x in b[3 + n:]):
            raise TsError(f"packet {self.n}: stuffing after the section of pid {pid:#x}")
        if pid == 0:
            if s[0] != 0 or n != 13:
                raise TsError(f"packet {self.n}: PAT {s.hex()}")
            self.pmt_pid = (s[10] & 0x1f) << 8 | s[11]
            self.npat += 1
            return
        if s[0] != 2:
            raise TsError(f"packet {self.n}: PMT {s.hex()}")
        self.pcr_pid = (s[8] & 0x1f) << 8 | s[9]
        q = 12 + ((s[10] & 15) << 8 | s[11])
        st = {}
        while q < len(s) - 4:
            st[(s[q + 1] & 0x1f) << 8 | s[q + 2]] = s[q]
            q += 5 + ((s[q + 3] & 15) << 8 | s[q + 4])
        if q != len(s) - 4:
            raise TsError(f"packet {self.n}: PMT {s.hex()}")
        self.streams = st
        self.npmt += 1


def parse(data, partial=False):
    t = Ts()
    t.feed(data)
    return t.close(partial)


def nals(data):
    """The NAL units of an Annex B byte string."""
    if not data.startswith((b"\0\0\1", b"\0\0\0\1")):
        raise TsError(f"no Annex B start code: {data[:12].hex()}")
    out = []
    at = data.find(b"\0\0\1") + 3
    while True:
        e = data.find(b"\0\0\1", at)
        n = data[at:e] if e >= 0 else data[at:]
        n = n.rstrip(b"\0")
        if n:
            out.append(n)
        if e < 0:
            return out
        at = e + 3


def adts(data):
    """[(object type, rate index, channels, payload)]"""
    out = []
    while data:
        if len(data) < 7 or data[0] != 0xff or data[1] & 0xf6 != 0xf0:
            raise TsError(f"no ADTS header: {data[:12].hex()}")
        n = (data[3] & 3) << 11 | data[4] << 3 | data[5] >> 5
        if n < 7 or n > len(data):
            raise TsError(f"ADTS frame of {n} bytes, {len(data)} left")
        if data[6] & 3 or not data[1] & 1:
            raise TsError(f"ADTS frames {data[6] & 3} crc {data[1] & 1}")
        out.append(((data[2] >> 6) + 1, data[2] >> 2 & 15, (data[2] & 1) << 2 | data[3] >> 6, data[7:n]))
        data = data[n:]
    return out


def sets_of(body, hevc):
    """The parameter sets of a sequence header body."""
    out = []
    if not hevc:
        b = body[5:]
        q = 5
        for mask in (31, 255):
            k = b[q] & mask
            q += 1
            for _ in range(k):
                n = b[q] << 8 | b[q + 1]
                out.append(b[q + 2:q + 2 + n])
                q += 2 + n
        return out
    b = body[5:]
    q = 23
    for _ in range(b[22]):
        k = b[q + 1] << 8 | b[q + 2]
        q += 3
        for _ in range(k):
            n = b[q] << 8 | b[q + 1]
            out.append(b[q + 2:q + 2 + n])
            q += 2 + n
    return out


class VFrame:
    def __init__(self, ts, body, hdr):
        hevc = body[0] & 15 == 12
        self.hevc = hevc
        self.ts = ts
        self.key = body[0] >> 4 == 1
        self.cts = int.from_bytes(body[2:5], "big", signed=True)
        self.dts = (ts * 90 + DELAY) % MOD
        self.pts = (ts * 90 + self.cts * 90 + DELAY) % MOD
        self.nals = []
        q = 5
        while q + 4 <= len(body):
            n = int.from_bytes(body[q:q + 4], "big")
            self.nals.append(body[q + 4:q + 4 + n])
            q += 4 + n
        self.slices = [n for n in self.nals if not is_set(n, hevc)]
        self.sets = sets_of(hdr, hevc) if hdr else []

    def irap(self):
        return any((16 <= n[0] >> 1 & 63 <= 23) if self.hevc else n[0] & 31 == 5 for n in self.slices)


class AFrame:
    def __init__(self, ts, body, hdr):
        self.ts = ts
        self.data = body[2:]
        c = hdr[2:] if hdr else b"\0\0"
        obj = c[0] >> 3
        self.conf = (2 if obj > 4 else obj, (c[0] << 1 & 15) | c[1] >> 7, c[1] >> 3 & 15)


def is_set(n, hevc):
    """Parameter sets and access unit delimiters."""
    return 32 <= n[0] >> 1 & 63 <= 35 if hevc else 7 <= n[0] & 31 <= 9


def published(sent):
    """The frames of a publisher's log that belong into MPEG-TS: [VFrame], [AFrame]."""
    v, a, h = [], [], {}
    for t, ts, b in sent:
        if len(b) < 2:
            continue
        if t == VIDEO and b[0] & 15 in (7, 12):
            if b[1] == 0:
                h[VIDEO] = b
            elif b[1] == 1 and VIDEO in h:
                v.append(VFrame(ts, b, h[VIDEO]))
        elif t == AUDIO and b[0] >> 4 == 10:
            if b[1] == 0:
                h[AUDIO] = b
            elif AUDIO in h:
                a.append(AFrame(ts, b, h[AUDIO]))
    return v, a


def near(a, b, tol):
    d = (a - b) % MOD
    return min(d, MOD - d) <= tol


class Reader:
    """Compares PES packets with published frames; .v and .a are the index ranges found."""

    def __init__(self, name, v, a, fail, sync=2, delay=300, pcr=None):
        self.name, self.V, self.A, self.fail, self.pcr = name, v, a, fail, pcr
        self.sync, self.delay = sync, delay
        self.vi = {}
        for i, f in enumerate(v):
            if f.slices:
                self.vi.setdefault((f.slices[0], f.ts), i)
        self.vslice = {}
        for i, f in enumerate(v):
            if f.slices:
                self.vslice.setdefault(f.slices[0], i)
        self.ai = {}
        for i, f in enumerate(a):
            self.ai.setdefault(f.data, i)
        self.v = None
        self.a = None
        self.npes = 0

    def video(self, p):
        """The index of the frame."""
        ns = nals(p.data)
        hevc = self.V[0].hevc if self.V else False
        sl = [n for n in ns if not is_set(n, hevc)]
        if not sl:
            return self.fail("a video packet without a frame", f"{self.name}: {p.data[:60].hex()}")
        i = self.vslice.get(sl[0])
        if i is None:
            return self.fail("a frame that was never published", f"{self.name}: {sl[0][:60].hex()} pts={p.pts}")
        f = self.V[i]
        if sl != f.slices:
            return self.fail("a frame changed", f"{self.name}: frame {i} ts={f.ts}: "
                             f"{[n[:12] for n in sl]} {[len(n) for n in sl]} published {[len(n) for n in f.slices]}")
        if (p.pts, p.dts) != (f.pts, f.dts):
            return self.fail("timestamp changed", f"{self.name}: frame {i} ts={f.ts} cts={f.cts} has pts={p.pts} "
                             f"dts={p.dts}, expected {f.pts} {f.dts}")
        if p.key != f.key:
            return self.fail("random access flag", f"{self.name}: frame {i} ts={f.ts} key={f.key} flagged {p.key}")
        if p.pcr is not None and p.pcr != ((f.ts * 90 + self.pcr) % MOD if self.pcr is not None else
                                            (f.ts * 90) % MOD if f.ts * 90 >= DELAY else 0):
            return self.fail("clock reference", f"{self.name}: frame {i} ts={f.ts} pcr={p.pcr}")
        if f.irap():
            first = next(k for k, n in enumerate(ns)
                         if ((16 <= n[0] >> 1 & 63 <= 23) if hevc else n[0] & 31 == 5))
            for s in f.sets:
                if s not in ns[:first]:
                    return self.fail("a key frame without its parameter sets",
                                     f"{self.name}: frame {i} ts={f.ts}: {[n[:4].hex() for n in ns]} needs {s.hex()}")
        return i

    def audio(self, p):
        """The index range of the frames."""
        fs = adts(p.data)
        i = self.ai.get(fs[0][3]) if fs else None
        if i is None:
            return self.fail("an audio frame that was never published", f"{self.name}: {p.data[:60].hex()}")
        if not near(p.pts, (self.A[i].ts * 90 + DELAY) % MOD, self.sync * 90):
            return self.fail("audio timestamp changed", f"{self.name}: frame {i} ts={self.A[i].ts} has pts={p.pts}, "
                             f"expected {(self.A[i].ts * 90 + DELAY) % MOD}")
        for k, (obj, rate, ch, d) in enumerate(fs):
            if i + k >= len(self.A) or d != self.A[i + k].data:
                j = self.ai.get(d)
                return self.fail("audio frames missing or out of order" if j is not None else "an audio frame that was never published",
                                 f"{self.name}: frame {i}+{k} is {j}, {d[:30].hex()}")
            f = self.A[i + k]
            if (obj, rate, ch) != f.conf:
                return self.fail("audio configuration", f"{self.name}: frame {i + k} {(obj, rate, ch)} published {f.conf}")
        span = (self.A[i + len(fs) - 1].ts - self.A[i].ts) & 0xffffffff
        if span > self.delay + 100:
            return self.fail("audio held back too long", f"{self.name}: {span} ms in one packet")
        return i, i + len(fs)

    def add(self, p):
        self.npes += 1
        if p.sid == 0xe0:
            i = self.video(p)
            if i is None:
                return
            if self.v is not None and i != self.v[1]:
                self.fail("video frames missing" if i > self.v[1] else "video frames repeated or out of order",
                          f"{self.name}: frame {i} ts={self.V[i].ts} after {self.v[1] - 1}")
            self.v = (self.v[0] if self.v else i, i + 1)
        elif p.sid == 0xc0:
            r = self.audio(p)
            if r is None:
                return
            if self.a is not None and r[0] != self.a[1]:
                self.fail("audio frames missing" if r[0] > self.a[1] else "audio frames repeated or out of order",
                          f"{self.name}: frame {r[0]} after {self.a[1] - 1}")
            self.a = (self.a[0] if self.a else r[0], r[1])
        else:
            self.fail("an unknown stream id", f"{self.name}: {p.sid:#x}")
