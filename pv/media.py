"""Makes media: H.264/H.265/AAC/MP3 frames in FLV tag bodies, every frame with a unique id in it."""
import struct

from . import amf

SPS = bytes.fromhex("6764001facd9405005bb011000000300100000030320f1831960")      # 1280x720
PPS = bytes.fromhex("68ebe3cb22c0")
SPS_BASE = bytes.fromhex("6742c01edb02804 0f60110000003000100000300288f162e48".replace(" ", ""))

# HEVC parameter sets (from an x265 stream)
VPS_H = bytes.fromhex("40010c01ffff01600000030090000003000003005dba0240")
SPS_H = bytes.fromhex("420101016000000300900000030000030 05da00280802d165b a4a4c2f0168080000003008000000f04".replace(" ", ""))
PPS_H = bytes.fromhex("4401c172b46240")


def avc_config(sps=SPS, pps=PPS, length_size=4):
    return (bytes([1, sps[1], sps[2], sps[3], 0xfc | (length_size - 1), 0xe1]) + struct.pack(">H", len(sps)) + sps
            + b"\x01" + struct.pack(">H", len(pps)) + pps)


def avc_header(sps=SPS, pps=PPS):
    return b"\x17\x00\0\0\0" + avc_config(sps, pps)


def hevc_config(vps=VPS_H, sps=SPS_H, pps=PPS_H):
    h = bytes([1, 0x01, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 0x5d, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f, 3])
    for t, n in ((32, vps), (33, sps), (34, pps)):
        h += bytes([0x80 | t, 0, 1]) + struct.pack(">H", len(n)) + n
    return h


def hevc_header():
    return b"\x1c\x00\0\0\0" + hevc_config()


def aac_config(rate_index=4, channels=2, obj=2):
    return bytes([obj << 3 | rate_index >> 1, (rate_index & 1) << 7 | channels << 3])


def aac_header(rate_index=4, channels=2, obj=2):
    return b"\xaf\x00" + aac_config(rate_index, channels, obj)


def payload(uid, size, rng):
    """size bytes, no start codes in them, that carry uid."""
    tag = b"<%08d>" % uid
    if size <= len(tag):
        return tag
    fill = bytes(rng.randrange(1, 256) for _ in range(min(size - len(tag), 64)))
    fill = (fill * (size // len(fill) + 1))[:size - len(tag)] if fill else b""
    return tag + fill


def nal(typ, uid, size, rng, hevc=False):
    h = bytes([typ << 1, 1]) if hevc else bytes([typ])
    return h + payload(uid, size, rng)


def avc_frame(uid, key, rng, size=300, cts=0, nals=1, codec=7):
    hevc = codec == 12
    out = bytes([(0x10 if key else 0x20) | codec, 1]) + cts.to_bytes(3, "big", signed=True)
    for i in range(nals):
        t = (19 if key else 1) if hevc else (0x65 if key else 0x41)
        n = nal(t, uid if i == 0 else uid + i * 1000000 % 100000000, size, rng, hevc)
        out += struct.pack(">I", len(n)) + n
    return out


def aac_frame(uid, rng, size=100):
    return b"\xaf\x01" + payload(uid, size, rng)


def mp3_frame(uid, rng, size=100):
    return b"\x2f\xff\xfb\x90\x64" + payload(uid, size, rng)


def meta(**kw):
    d = dict(width=1280.0, height=720.0, framerate=25.0, videodatarate=2500.0, videocodecid=7.0,
             audiodatarate=128.0, audiosamplerate=44100.0, audiosamplesize=16.0, stereo=True, audiocodecid=10.0,
             encoder="pv")
    d.update(kw)
    return amf.encs("@setDataFrame", "onMetaData", amf.EcmaArray(d))


def rich_avc_frame(uid, key, rng, size=300, cts=0, codec=7, sets=None):
    """A frame of several NAL units: delimiter, parameter sets, SEI and slices, some of them."""
    hevc = codec == 12
    out = bytes([(0x10 if key else 0x20) | codec, 1]) + cts.to_bytes(3, "big", signed=True)
    u = []
    if not hevc and rng.random() < 0.3:
        u.append(b"\x09\xf0")
    if rng.random() < 0.3:
        u += ([VPS_H, SPS_H, PPS_H] if hevc else list(sets or (SPS, PPS))) if key else []
    if not hevc and rng.random() < 0.4:
        u.append(b"\x06" + payload(uid, rng.randrange(12, 60), rng))
    t = (19 if key else 1) if hevc else (0x65 if key else 0x41)
    for i in range(rng.choice((1, 1, 2, 4))):
        u.append(nal(t, uid, max(size // (i + 1), 12), rng, hevc) + b"%d" % i)
    for n in u:
        out += struct.pack(">I", len(n)) + n
    return out


class Gen:
    """An interleaved stream: list of (type, ts, body, info) in the order to send."""

    def __init__(self, rng, start=0, fps=25, gop=25, audio=True, video=True, codec=7, asize=(20, 300),
                 vsize=(50, 2000), bframes=False, base=0, adelta=23, header=True, mp3=False, rich=False):
        self.rich = rich
        self.rng, self.fps, self.gop = rng, fps, gop
        self.audio, self.video, self.codec = audio, video, codec
        self.asize, self.vsize, self.bframes = asize, vsize, bframes
        self.uid = base
        self.nv = self.na = 0
        self.start = start
        self.adelta = adelta
        self.mp3 = mp3
        self.header = header

    def headers(self, ts=None):
        ts = self.start if ts is None else ts
        out = []
        if self.video and self.header:
            out.append((9, ts, avc_header() if self.codec == 7 else hevc_header(), "vh"))
        if self.audio and self.header and not self.mp3:
            out.append((8, ts, aac_header(), "ah"))
        return out

    def until(self, ms):
        """The frames with timestamps below start + ms not given out yet, in timestamp order."""
        out = []
        while True:
            tv = self.nv * 1000 // self.fps if self.video else 1 << 60
            ta = self.na * self.adelta if self.audio else 1 << 60
            if min(tv, ta) >= ms:
                return out
            self.uid += 1
            if tv <= ta:
                key = self.nv % self.gop == 0
                cts = self.rng.choice((0, 40, 80) + ((-40, -1000) if self.rich else ())) if self.bframes and not key else 0
                mk = rich_avc_frame if self.rich else avc_frame
                body = mk(self.uid, key, self.rng, self.rng.randint(*self.vsize), cts, codec=self.codec)
                out.append((9, self.start + tv, body, "key" if key else "inter"))
                self.nv += 1
            else:
                f = mp3_frame if self.mp3 else aac_frame
                out.append((8, self.start + ta, f(self.uid, self.rng, self.rng.randint(*self.asize)), "a"))
                self.na += 1
