"""Live RTMP: every subscriber gets its stream, and only it, in order and complete."""
import asyncio

from pv import live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, AMF0_META

ID = "D01"
TITLE = "Live subscribers get every frame of their stream, in order, and nothing else"
STATEMENT = """A subscriber of a live stream receives, unchanged and in publishing order with the publisher's timestamps, every
audio frame published after it joined and every video frame from the first key frame after it joined (from the first
frame where waiting for key frames is off), preceded by the stream's metadata and by the sequence headers the frames
depend on. It never receives a frame of another stream, application or earlier publisher, or one while paused, and this
goes for any number of streams and subscribers joining, pausing, leaving and returning at any time."""
OVER = ("schedules", "histories", "inputs", "configurations")
QUANT = """All interleavings of publishing, joining, pausing and leaving over any number of streams with any names and
codecs; subscribers that read fast enough for the output queue not to fill."""
WHY = "No existing test publishes or plays; the property is about all joins and interleavings, not one recorded session."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_live_module.c", "modules/nginx-rtmp-module/ngx_live.c",
         "modules/nginx-rtmp-module/ngx_rtmp_codec_module.c", "modules/nginx-rtmp-module/ngx_rtmp_shared_module.c"]
MECH = [("fan-out of a frame", "ngx_rtmp_live_av"), ("stream lookup", "ngx_live_create_stream and ngx_live_find_stream in ngx_live.c"),
        ("joining", "ngx_rtmp_live_join"), ("sequence headers kept", "ngx_rtmp_codec_av"), ("frame reference counts", "ngx_rtmp_shared_free_frame")]
TECHNIQUE = "offline log checker comparing publishers' and subscribers' message logs (exactly-once, order, isolation), under ASan"
NOTE = """Held on the generated schedules with uniquely marked frames; slow subscribers are D05, cached starts D02, other
protocols D03 and D04."""
RULE = ("A case is one subscription (join to leave, pause or end of the publisher) whose received frames were compared with "
        "the publisher's; non-trivial when at least one frame was delivered; distinct by mode, stream format and the "
        "positions of joining and leaving.")

CONF = """
worker_processes 1;
events { worker_connections 4096; }
rtmp { server { listen %(port)d; out_queue 4096; chunk_size %(chunk)d;
    application key { live on; }
    application all { live on; wait_key off; }
    application interleave { live on; interleave on; }
    application wait_video { live on; wait_video on; }
    application notify { live on; publish_notify on; play_restart on; }
} }
"""
MODES = {"notify": "key"}
FORMATS = ("avc+aac", "hevc+aac", "aac", "avc", "avc+mp3", "raw", "bframes", "reheader")


def gen(rng, fmt, base):
    start = rng.choice((0, 0, 0, 1000, 0xfffff0, 0x7ffffff0, 0xfffffff0))
    kw = dict(start=start, fps=rng.choice((10, 25, 30, 60)), gop=rng.choice((1, 5, 12, 30)), base=base,
              vsize=rng.choice(((20, 100), (50, 2000), (3000, 12000))), asize=rng.choice(((20, 60), (20, 300))))
    if rng.random() < 0.08:
        kw.update(vsize=(60000, 90000), fps=10)
    if fmt == "hevc+aac":
        kw["codec"] = 12
    elif fmt == "aac":
        kw["video"] = False
    elif fmt == "avc":
        kw["audio"] = False
    elif fmt == "avc+mp3":
        kw["mp3"] = True
    elif fmt == "raw":
        kw["header"] = False
    elif fmt == "bframes":
        kw["bframes"] = True
    return media.Gen(rng, **kw)


class Sub:
    """One subscriber and the stretches it was subscribed for."""

    def __init__(self, c, name, hi):
        self.c, self.name = c, name
        self.parts = []          # [first message, hi, first message after it, whole]
        self.cur = [0, hi]

    @classmethod
    async def start(cls, port, app, name, pub=None):
        c = await rtmp.player(port, app, name)
        await live.sync(c)
        return cls(c, f"{app}/{name}", len(live.frames(pub.sent)) if pub else 0)

    async def pause(self, on, pub):
        c = self.c
        n = len(c.msgs)
        c.command("pause", 0.0, None, on, 1.0, msid=c.msid, csid=8)
        await c.drain()
        want = "NetStream.Pause.Notify" if on else "NetStream.Unpause.Notify"

        def is_status(m):
            v = c.is_cmd(m, "onStatus")
            return v and isinstance(v[3], dict) and v[3].get("code") == want

        await c.wait(is_status, 20, n)
        at = next(i for i in range(n, len(c.msgs)) if is_status(c.msgs[i]))
        if on:
            self.parts.append((*self.cur, at, False))
            self.gap = at
        else:
            bad = [m for m in c.msgs[self.gap:at] if m.type in (AUDIO, VIDEO)]
            if bad:
                raise Violation("pause: frames while paused", f"{self.name}: {len(bad)} frames, first {bad[0]!r}")
            await live.sync(c)
            self.cur = [at, len(live.frames(pub.sent))]

    def end(self, whole):
        self.parts.append((*self.cur, len(self.c.msgs), whole))

    def judge(self, c, pub, mode, fmt):
        fr = live.frames(pub.sent)
        allrec = live.got(self.c)
        live.dechunk_expect_headers(self.name, pub.sent, [x for x in allrec if x[2]])
        for a, hi, b, whole in self.parts:
            rec = [(m.type, m.ts, m.data) for m in self.c.msgs[a:b] if m.type in (AUDIO, VIDEO)]
            n = live.judge(self.name, fr, rec, hi, mode, whole)
            c.case((mode, fmt, hi, n, whole), dict(stream=self.name, format=fmt, joined_at=hi, delivered=n, of=len(fr)),
                   n > 0)
            c.saw("frames compared", n)
            c.saw("subscriptions judged")
            if whole:
                c.saw("subscriptions followed to the last frame")
        if pub.metas:
            rec = [m for m in self.c.msgs if m.type in (AUDIO, VIDEO, AMF0_META) and m.data]
            if rec and rec[0].type != AMF0_META:
                raise Violation("metadata: frames before the metadata", f"{self.name}: {rec[0]!r}")
            c.saw("metadata seen first")


async def mix(c, rng, chunk, nstream, nsub, ms):
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, chunk=chunk), wait_ports=[port]).start()
    # the same names in several applications, and names that are prefixes of each other
    names = ["s", "s1", "s11", "S1", "a-long-name" * 8, "x%20y", "q.flv", "s\u00e9"]
    streams = []
    apps = ["key", "all", "interleave", "wait_video", "notify"]
    for i in range(nstream):
        fmt = FORMATS[(i + rng.randrange(2)) % len(FORMATS)]
        app = apps[i % len(apps)]
        if fmt == "aac" and app in ("interleave", "wait_video"):
            fmt = "avc+aac"
        name = names[(i // len(apps)) % len(names)] if rng.random() < 0.7 else f"n{i}"
        if any(s[:2] == (app, name) for s in streams):
            name = f"n{i}"
        streams.append((app, name, fmt, gen(rng, fmt, (i + 1) * 100000)))

    async def stream(app, name, fmt, g):
        r = __import__("random").Random(f"{app}{name}{rng.random()}")
        mode = MODES.get(app, app)
        subs, done = [], []
        for _ in range(r.randrange(0, nsub)):
            subs.append(await Sub.start(port, app, name))
        pub = await live.Pub.start(port, app, name + r.choice(("", "?a=b", "?x=1&y=%41")), g, chunk=r.choice((None, 4096, 200)))
        pub.metas = r.random() < 0.8
        if pub.metas:
            pub.meta()
        pub.headers()
        events = sorted((r.randrange(ms), r.choice(("join", "join", "leave", "pause"))) for _ in range(nsub * 2))
        paused = []
        changed = ms // 2 if fmt == "reheader" else None
        while pub.at < ms:
            pub.run(min(ms, pub.at + r.choice((10, 40, 100))))
            if changed and pub.at > changed:
                changed = None
                ts = g.start + pub.at & 0xffffffff
                pub.one(VIDEO, ts, media.avc_header(sps=media.SPS_BASE))
                pub.one(AUDIO, ts, media.aac_header(3))
            await pub.c.drain()
            await asyncio.sleep(r.choice((0, 0.002, 0.005)))
            while events and events[0][0] <= pub.at:
                _, e = events.pop(0)
                if e == "join":
                    subs.append(await Sub.start(port, app, name, pub))
                elif e == "leave" and subs:
                    s = subs.pop(r.randrange(len(subs)))
                    if s not in paused:
                        s.end(False)
                    await s.c.close(abort=r.random() < 0.3)
                    done.append(s)
                elif e == "pause" and subs:
                    s = r.choice(subs)
                    if s in paused:
                        paused.remove(s)
                        await s.pause(False, pub)
                    else:
                        paused.append(s)
                        await s.pause(True, pub)
        # a key frame and an audio frame at the end, so that everybody is due something
        g.nv += -g.nv % g.gop
        pub.run(max(ms, g.nv * 1000 // g.fps) + 100)
        await pub.c.drain()
        for s in subs:
            if s in paused:
                await live.sync(pub.c)
                await live.sync(s.c)
                s.cur = [len(s.c.msgs), len(live.frames(pub.sent))]
                continue
            try:
                await live.until_last(s.c, pub, 20)
            except (asyncio.TimeoutError, rtmp.Closed):
                if s.c.error:
                    raise
            s.end(True)
        for s in subs + done:
            s.judge(c, pub, mode, fmt)
        for s in subs:
            await s.c.close()
        await pub.close()

    await asyncio.gather(*(stream(*s) for s in streams))
    c.saw("streams", len(streams))


async def returning(c, rng):
    """Subscribers stay while publishers come and go, with other formats each time."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, chunk=4096), wait_ports=[port]).start()
    for app in ("key", "all", "notify"):
        s = [await Sub.start(port, app, "r") for _ in range(3)]
        for k in range(5):
            fmt = rng.choice(("avc+aac", "hevc+aac", "avc+mp3", "aac", "avc"))
            g = gen(rng, fmt, (k + 1) * 10000)
            at = [len(x.c.msgs) for x in s]
            pub = await live.Pub.start(port, app, "r", g)
            pub.metas = False
            if rng.random() < 0.7:
                pub.meta(encoder=f"e{k}")
                pub.metas = True
            pub.headers()
            await pub.paced(rng.randrange(200, 1500), speed=50)
            # a late key frame so that the end is due to all
            g.nv += -g.nv % g.gop
            pub.run(max(pub.at, g.nv * 1000 // g.fps) + 100)
            await pub.c.drain()
            for x, a in zip(s, at):
                try:
                    await live.until_last(x.c, pub, 20)
                except asyncio.TimeoutError:
                    pass
                fr = live.frames(pub.sent)
                rec = [(m.type, m.ts, m.data) for m in x.c.msgs[a:] if m.type in (AUDIO, VIDEO)]
                live.dechunk_expect_headers(f"{app}/r#{k}", pub.sent, [z for z in rec if z[2]], "republish")
                n = live.judge(f"{app}/r#{k}", fr, rec, 0, MODES.get(app, app), True, "republish")
                if pub.metas and not any(m.type == AMF0_META and b"onMetaData" in m.data for m in x.c.msgs[a:]):
                    raise Violation("republish: the new publisher's metadata was not delivered", f"{app} #{k}")
                c.case((app, k, fmt, n), dict(app=app, publisher=k, format=fmt, delivered=n))
                c.saw("frames compared", n)
                c.saw("publishers followed")
            if rng.random() < 0.5:
                await pub.c.drain()
                pub.c.command("deleteStream", 0.0, None, float(pub.c.msid))
                await pub.c.drain()
                await asyncio.sleep(0.05)
            await pub.close(abort=rng.random() < 0.5)
            await asyncio.sleep(0.1)
        for x in s:
            await x.c.close()


async def isolation(c, rng):
    """Streams whose names are close to each other do not mix, and other applications do not hear of them."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, chunk=4096), wait_ports=[port]).start()
    words = ["x", "X", "xx", "x1", "1x", "x_", "x.", "y", "x-", "xy", "yx", "x" * 63, "x" * 64, "x" * 200, "x" * 199 + "y", "10", "1", "01"]
    subs, pubs = [], []
    for app in ("all", "key"):
        for w in words:
            subs.append((app, w, await rtmp.player(port, app, w)))
    for _, _, s in subs:
        await live.sync(s)
    base = 0
    for app in ("all", "key"):
        for w in words:
            if rng.random() < 0.3:
                continue
            base += 100
            p = await live.Pub.start(port, app, w, media.Gen(rng, base=base, vsize=(50, 200)))
            p.headers()
            pubs.append((app, w, p))
    for k in range(10):
        for _, _, p in pubs:
            p.run(40 * (k + 1))
            await p.c.drain()
    for _, _, p in pubs:
        await live.sync(p.c)
    byname = {(a, w): p for a, w, p in pubs}
    for app, w, s in subs:
        p = byname.get((app, w))
        if p:
            await live.until_last(s, p, 20)
        else:
            await live.sync(s)
        fr = live.frames(p.sent) if p else []
        n = live.judge(f"{app}/{w}", fr, live.got(s), 0, app, True, "isolation")
        c.case(("iso", app, w, n > 0), None)
        c.saw("frames compared", n)
    for x in [s for _, _, s in subs]:
        await x.close()
    for _, _, p in pubs:
        await p.close()
    c.case("isolation", dict(streams=len(pubs), subscribers=len(subs)))


def scenarios(c):
    for r in range(c.pick(3, 12)):
        yield Scenario(f"mix#{r}", mix, chunk=c.rng.choice((128, 1000, 4096, 60000)), nstream=c.pick(15, 20), nsub=c.pick(5, 7), ms=c.pick(2500, 6000))
        yield Scenario(f"returning#{r}", returning)
    yield Scenario("isolation", isolation)
