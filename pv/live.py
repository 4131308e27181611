"""Publishers that record what they sent, and oracles over what subscribers received."""
import asyncio
import re
import struct

from . import media, rtmp
from .check import Violation
from .rtmp import AUDIO, VIDEO, AMF0_META, Msg

UID = re.compile(rb"<(\d{8})>")


def uid(data):
    m = UID.search(data)
    return int(m[1]) if m else None


def is_header(type, data):
    """An AAC, AVC or HEVC sequence header."""
    if type == AUDIO:
        return len(data) > 1 and data[0] >> 4 == 10 and data[1] == 0
    if type == VIDEO:
        return len(data) > 1 and data[0] & 15 in (7, 12) and data[1] == 0
    return False


def is_key(type, data):
    return type == VIDEO and data[:1] and data[0] >> 4 == 1 and not is_header(type, data)


class Pub:
    """A publisher and the list of (type, ts, body) it sent."""

    def __init__(self, c, gen=None):
        self.c, self.gen = c, gen
        self.sent = []
        self.at = 0

    @classmethod
    async def start(cls, port, app, name, gen=None, want="NetStream.Publish.Start", **kw):
        c = await rtmp.publisher(port, app, name, **kw)
        if want and c.result != want:
            raise rtmp.RtmpError(f"publish {app}/{name}: {c.result}")
        p = cls(c, gen)
        p.app = app
        return p

    def one(self, type, ts, body):
        ts &= 0xffffffff
        self.sent.append((type, ts, body))
        self.c.av(type, ts, body)

    def meta(self, **kw):
        self.c.av(AMF0_META, 0, media.meta(**kw))

    def headers(self, ts=None):
        for t, ts, body, _ in self.gen.headers(ts):
            self.one(t, ts, body)

    def run(self, ms):
        """The frames up to ms after the start of the stream."""
        for t, ts, body, _ in self.gen.until(ms):
            self.one(t, ts, body)
        self.at = ms

    async def paced(self, ms, step=40, speed=1.0):
        """The frames up to ms, paced."""
        while self.at < ms:
            self.run(min(ms, self.at + step))
            await self.c.drain()
            await asyncio.sleep(step / 1000 / speed)

    async def close(self, **kw):
        await self.c.close(**kw)


async def sync(c):
    """Everything c sent before has been processed when this returns."""
    keep = getattr(c, "msid", None)
    await c.create_stream()
    c.msid = keep


def frames(sent):
    return [x for x in sent if not is_header(x[0], x[2])]


def short(x):
    return f"({x[0]} ts={x[1]} len={len(x[2])} uid={uid(x[2])})"


def diff(want, got):
    """Where two lists of (type, ts, body) first differ, or None."""
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return f"#{i}: sent {short(a)} received {short(b)}"
    if len(want) != len(got):
        x = want[len(got)] if len(want) > len(got) else got[len(want)]
        return f"{len(want)} sent, {len(got)} received, first {'missing' if len(want) > len(got) else 'extra'} {short(x)}"
    return None


def got(c):
    """What a subscriber received as (type, ts, body): audio and video."""
    return [(m.type, m.ts, m.data) for m in c.msgs if m.type in (AUDIO, VIDEO)]


def dechunk_expect_headers(name, sent, received, key="header"):
    """Every received frame is preceded by the sequence header that preceded it at the publisher."""
    by = {}
    cur = {}
    for t, ts, b in sent:
        if is_header(t, b):
            cur[t] = b
        else:
            by.setdefault((t, b), cur.get(t))
    have = {}
    n = 0
    for t, ts, b in received:
        if is_header(t, b):
            have[t] = b
        elif (t, b) in by and by[t, b] is not None:
            n += 1
            if have.get(t) != by[t, b]:
                raise Violation(f"{key}: a frame without the sequence header it needs",
                                f"{name}: {short((t, ts, b))} had {have.get(t) and have[t][:20].hex()} "
                                f"needs {by[t, b][:20].hex()}")
    return n


def contiguous(name, sent, received, ts=True, key="delivery", first=None):
    """The received frames are consecutive ones of those sent; the index range in frames(sent)."""
    s, r = frames(sent), frames(received)
    if not r:
        return None
    pos = {}
    for i, (t, _, b) in enumerate(s):
        if (t, b) in pos:
            pos[t, b] = None     # not unique, cannot anchor
        else:
            pos[t, b] = i
    p = pos.get((r[0][0], r[0][2]), -1)
    if p == -1:
        raise Violation(f"{key}: a frame that was never published", f"{name}: {short(r[0])} {r[0][2][:60].hex()}")
    if p is None:
        return None
    for j, (t, rts, b) in enumerate(r):
        if p + j >= len(s):
            raise Violation(f"{key}: more frames than were published", f"{name}: {short(r[j])}")
        if (t, b) != (s[p + j][0], s[p + j][2]):
            q = pos.get((t, b), -1)
            what = ("a frame that was never published" if q == -1 else "frames repeated or out of order"
                    if q is not None and q < p + j else "frames missing")
            raise Violation(f"{key}: {what}", f"{name}: received #{j} {short(r[j])} expected {short(s[p + j])} "
                            f"({p}+{j} of {len(s)})")
        if ts and rts != s[p + j][1]:
            raise Violation(f"{key}: timestamp changed", f"{name}: {short(s[p + j])} received with ts={rts}")
    return p, p + len(r)


def expect(fr, j, mode="key"):
    """The frames (out of the publisher's, without headers) that a subscriber who joined at index j receives."""
    if mode == "all":
        return fr[j:]
    k = next((i for i in range(j, len(fr)) if is_key(fr[i][0], fr[i][2])), len(fr))
    if mode == "interleave":
        return fr[k:]
    if mode == "wait_video":
        return fr[k:]
    return [f for i, f in enumerate(fr) if i >= j and (f[0] == AUDIO or i >= k)]


def first_expected(fr, j, mode):
    e = expect(fr, j, mode)
    if not e:
        return len(fr)
    for i in range(j, len(fr)):
        if fr[i] is e[0]:
            return i


def judge(name, fr, rec, hi, mode="key", whole=True, key="delivery", lo=0, ts=True):
    """rec: what a subscriber received, without headers, who had joined when fr[:hi] had been sent.

    With whole, everything up to the last frame must be there."""
    rec = [x for x in rec if x[2] and not is_header(x[0], x[2])]
    late = first_expected(fr, min(hi, len(fr)), mode)
    if not rec:
        if whole and late < len(fr):
            raise Violation(f"{key}: nothing was delivered", f"{name}: joined at {hi} of {len(fr)} frames")
        return 0
    pos = {(t, b): i for i, (t, _, b) in enumerate(fr)}
    p = pos.get((rec[0][0], rec[0][2]))
    if p is None:
        raise Violation(f"{key}: a frame that was never published", f"{name}: first {short(rec[0])} {rec[0][2][:60].hex()}")
    if p > late:
        raise Violation(f"{key}: the first frames are missing", f"{name}: joined at {hi}, due from {late}, got from {p}")
    if p < lo:
        raise Violation(f"{key}: frames from before the start", f"{name}: from {p}, expected from {lo}")
    e = expect(fr, p, mode)
    for i, (a, b) in enumerate(zip(e, rec)):
        if (a[0], a[2]) != (b[0], b[2]):
            q = pos.get((b[0], b[2]))
            what = ("a frame that was never published" if q is None else
                    "frames repeated or out of order" if q < pos[a[0], a[2]] else "frames missing")
            raise Violation(f"{key}: {what}", f"{name}: #{i} expected {short(a)} received {short(b)} (joined at {p}/{hi})")
        if ts and a[1] != b[1]:
            raise Violation(f"{key}: timestamp changed", f"{name}: {short(a)} received with ts={b[1]}")
    if len(rec) > len(e):
        raise Violation(f"{key}: more frames than were published", f"{name}: {short(rec[len(e)])}")
    if whole and len(rec) < len(e):
        raise Violation(f"{key}: the last frames are missing", f"{name}: {len(rec)} of {len(e)}, first {short(e[len(rec)])}")
    return len(rec)


async def until_last(c, pub, timeout=20):
    """Wait until the subscriber has the publisher's last frame."""
    t, ts, b = pub.sent[-1]
    await c.wait(lambda m: m.type == t and m.data == b, timeout)
