"""HTTP MPEG-TS: the response is a well-formed transport stream with exactly the live stream's frames."""
import asyncio

from pv import http, live, media, rtmp, ts
from pv.check import Scenario, Violation
from pv.nginx import free_ports

ID = "D04"
TITLE = "HTTP MPEG-TS responses are well-formed TS with exactly the stream's frames"
STATEMENT = """A GET of a live stream's MPEG-TS URL is answered with 188-byte packets, tables with correct checksums first, continuity
counters without a gap while a publisher stays, and complete elementary packets. From the cached key frame it starts at, it carries every H.264 or
H.265 frame with its NAL units and its decoding and presentation times as published and the parameter sets in force before
each key frame, and every AAC frame unchanged and in order in ADTS form with its time. It never holds frames of other
streams, whenever publishers and players start, stop or change."""
OVER = ("schedules", "inputs", "configurations")
QUANT = """All frame sizes, NAL unit structures, timestamps (wrap-around included), composition offsets and codec header
changes, and all interleavings of publishing, joining and leaving; players that read fast enough."""
WHY = "No existing test asks for a transport stream; packet boundaries and stuffing depend on every frame size."
FILES = ["modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c", "modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c",
         "modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c", "modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c"]
MECH = [("packets from a frame", "ngx_mpegts_live_shared_append_chain"), ("Annex B from FLV", "ngx_mpegts_live_h264_handler and ngx_mpegts_live_h265_handler"),
        ("ADTS and audio collection", "ngx_mpegts_live_aac_handler"), ("cache and hand-out", "ngx_mpegts_gop_send"), ("tables", "ngx_rtmp_mpegts_gen_pmt")]
TECHNIQUE = "strict online TS demultiplexer and offline comparison with the publisher's log, under ASan and UBSan"
NOTE = "Held on the generated streams; streams need mpegts_cache_time (without it the module sends nothing) and video (audio alone is not muxed)."
RULE = ("A case is one transport stream response that was demultiplexed and compared with the publisher's frames; non-trivial "
        "when at least one frame was in it; distinct by format, join and leave positions.")

CONF = """
worker_processes 1;
events { worker_connections 4096; }
rtmp { server { listen %(port)d; out_queue %(queue)d; chunk_size 4096; merge_frame %(merge)d;
    application ts { live on; mpegts_cache_time 2s; }
    application all { live on; mpegts_cache_time 1s; mpegts_send_all on; mpegts_audio_delay 100ms; }
    application fixed { live on; mpegts_cache_time 1s; }
} }
http { access_log off;
    server { listen %(http)d;
        location / { ts_live %(port)d; }
        location /alias { ts_live %(port)d app=fixed; }
    } }
"""


def conf(rng, **kw):
    d = dict(queue=4096, merge=rng.choice((1, 4, 32)))
    d.update(kw)
    return CONF % d


def fail(key, text):
    raise Violation("ts: " + key, text)


def compare(name, sent, s, delay, sync=2):
    v, a = ts.published(sent)
    r = ts.Reader(name, v, a, fail, sync=sync, delay=delay)
    for p in s.ts.pes:
        r.add(p)
    return v, a, r


FMT = ("avc+aac", "hevc+aac", "avc", "rich", "hrich", "bframes", "avc+mp3", "wrap", "reheader", "big", "tiny")


def gen(rng, fmt, base):
    kw = dict(base=base, fps=rng.choice((10, 25, 50)), gop=rng.choice((1, 5, 12, 30)),
              vsize=rng.choice(((20, 400), (50, 2000), (3000, 12000))), asize=(20, 400), start=rng.choice((0, 0, 500, 100000)))
    if fmt in ("hevc+aac", "hrich"):
        kw["codec"] = 12
    if fmt == "avc":
        kw["audio"] = False
    if fmt == "avc+mp3":
        kw["mp3"] = True
    if fmt in ("rich", "hrich"):
        kw.update(rich=True, bframes=True)
    if fmt == "bframes":
        kw["bframes"] = True
    if fmt == "wrap":
        kw["start"] = 95443717 - rng.choice((1000, 0))      # 2^33 / 90
    if fmt == "big":
        kw.update(vsize=(60000, 70000), asize=(300, 1800), gop=10, fps=10)
    if fmt == "tiny":
        kw.update(vsize=(8, 200), asize=(8, 200))
    return media.Gen(rng, **kw)


SPS2 = media.SPS[:-1] + b"\x11\x22"


async def mix(c, rng, nstream, ms, delay):
    port, hport = free_ports(2)
    c.nginx(conf(rng, port=port, http=hport), wait_ports=[port, hport]).start()

    async def stream(i):
        fmt = FMT[i % len(FMT)]
        app = ("ts", "all", "fixed")[i // len(FMT) % 3]
        name = f"n{i}"
        g = gen(rng, fmt, (i + 1) * 100000)
        path = f"/alias/{name}.ts" if app == "fixed" else f"/{app}/{name}.ts"
        pub = None
        done = []

        async def join():
            s = await http.TsPlayer(hport, path + rng.choice(("", "?x=1")), version=rng.choice(("1.1", "1.0"))).open()
            await http.barrier(port, "ts")
            return [s, *((len(x) for x in ts.published(pub.sent)) if pub else (0, 0))]

        subs = [await join() for _ in range(rng.randrange(3))]
        pub = await live.Pub.start(port, app, name, g)
        pub.headers()
        joins = sorted(rng.randrange(ms) for _ in range(3))
        leaves = sorted(rng.randrange(ms) for _ in range(2))
        rehead = fmt == "reheader"
        while pub.at < ms:
            pub.run(pub.at + rng.choice((10, 40, 100)))
            await pub.c.drain()
            await asyncio.sleep(rng.choice((0, 0.002)))
            if rehead and pub.at > ms // 2:
                rehead = False
                pub.one(9, pub.sent[-1][1], media.avc_header(SPS2))
                pub.one(8, pub.sent[-1][1], media.aac_header(3, 1))
                g.nv += -g.nv % g.gop         # a new key frame with the new parameters
            while joins and joins[0] <= pub.at:
                joins.pop(0)
                await live.sync(pub.c)
                subs.append(await join())
            while leaves and leaves[0] <= pub.at:
                leaves.pop(0)
                if subs:
                    s = subs.pop(rng.randrange(len(subs)))
                    await s[0].close(abort=rng.random() < 0.5)
                    done.append((s, False))
        g.nv += -g.nv % g.gop
        pub.run(max(ms, g.nv * 1000 // g.fps) + 200)
        await live.sync(pub.c)
        v, a = ts.published(pub.sent)
        last = v[-1].slices[0] if v else b""
        for s in subs:
            def there(h):
                return any(last in p.data for p in h.ts.pes[-4:]) or \
                    any(last in bytes(p.buf) for p in h.ts.cur.values() if p)
            try:
                await s[0].wait(there, 10)
            except (asyncio.TimeoutError, rtmp.RtmpError):
                pass
            done.append((s, True))
        await asyncio.sleep(0.05)
        for (s, hv, ha), whole in done:
            nm = f"{s.path} {fmt} joined at {hv}/{ha} of {len(v)}/{len(a)}"
            if isinstance(s.error, ts.TsError):
                fail("malformed", f"{nm}: {s.error}")
            if whole and s.error:
                fail("the response ended", f"{nm}: {s.error!r}")
            if s.status not in (200, None):
                fail("refused", f"{nm}: {s.status}")
            try:
                s.ts.close(partial=not whole)
            except ts.TsError as e:
                fail("malformed", f"{nm}: {e}")
            V, A, r = compare(nm, pub.sent, s, 100 if app == "all" else 300)
            if r.npes:
                types = sorted(s.ts.streams.values())
                want = sorted([0x24 if g.codec == 12 else 0x1b] + ([3] if g.mp3 else [0x0f] if g.audio else []))
                if types != want and not (g.mp3 and types == want[1:]):     # MP3 is not muxed
                    fail("program map", f"{nm}: {types}, expected {want}")
                if s.ts.npat != 1 or s.ts.npmt != 1:
                    fail("tables repeated", f"{nm}: {s.ts.npat} {s.ts.npmt}")
            if whole:
                if not r.v:
                    fail("nothing was delivered", nm)
                k = next((i for i in range(min(hv, len(V) - 1), len(V)) if V[i].key), len(V))
                if r.v[0] > k or not V[r.v[0]].key:
                    fail("the first frames are missing", f"{nm}: from {r.v[0]}, due from {k}")
                # what one_off_send leaves back is sent at the pace of the stream
                held = g.gop * 1000 // g.fps + (2000 if app == "ts" else 1000)
                lag = held if app != "all" and hv and held >= 2900 else 0
                if r.v[1] != len(V) and V[-1].ts - V[r.v[1] - 1].ts > lag:
                    fail("the last frames are missing", f"{nm}: up to {r.v[1]}")
                if A:
                    lim = delay + 100 + lag
                    if not r.a:
                        fail("no audio was delivered", nm)
                    if (A[-1].ts - A[r.a[1] - 1].ts) & 0xffffffff > lim:
                        fail("the last audio frames are missing", f"{nm}: up to {r.a[1]} of {len(A)}")
                    f0 = V[r.v[0]].ts
                    if ((A[r.a[0]].ts - f0) & 0xffffffff) < 0x80000000 and ((A[r.a[0]].ts - f0) & 0xffffffff) > lim + 1000 // g.fps:
                        fail("the first audio frames are missing", f"{nm}: from {r.a[0]} ts={A[r.a[0]].ts}, video from {f0}")
            c.case((app, fmt, hv, r.v, r.a, whole), dict(url=s.path, format=fmt, joined_at=hv, video=r.v, audio=r.a,
                                                         packets=s.ts.n), r.npes > 0)
            c.saw("TS packets parsed", s.ts.n)
            c.saw("elementary packets compared", r.npes)
        for s in subs:
            await s[0].close()
        await pub.close()

    await asyncio.gather(*(stream(i) for i in range(nstream)))


async def restart(c, rng, n):
    """Publishers come and go, also right after their first frames; players stay."""
    port, hport = free_ports(2)
    c.nginx(conf(rng, port=port, http=hport), wait_ports=[port, hport]).start()
    base = [0]

    async def one(k):
        name = f"r{k}"
        subs = [await http.TsPlayer(hport, f"/ts/{name}.ts").open() for _ in range(2)]
        for s in subs:
            s.ts.restarts = True
        await http.barrier(port, "ts")
        logs = []
        last = None
        fmt = rng.choice(("avc+aac", "avc", "bframes", "hevc+aac"))
        for _ in range(rng.choice((2, 3, 5))):
            base[0] += 100000
            g = gen(rng, fmt, base[0])
            g.start = (logs[-1].sent[-1][1] + 100) if logs and logs[-1].sent else 0
            if last:
                await last.close(abort=rng.random() < 0.5)
            for _ in range(100):
                cc = await rtmp.publisher(port, "ts", name)
                if cc.result == "NetStream.Publish.Start":
                    break
                await cc.close()
                await asyncio.sleep(0.01)
            p = live.Pub(cc, g)
            p.headers()
            p.run(rng.choice((1, 50, 300, 3000)))
            if rng.random() < 0.5:
                await p.c.drain()
                await live.sync(p.c)
            last = p
            logs.append(p)
        await live.sync(last.c)
        await last.close()
        await asyncio.sleep(0.05)
        for s in subs:
            nm = f"{s.path} after {len(logs)} publishers"
            if s.error:
                fail("malformed" if isinstance(s.error, ts.TsError) else "the response ended", f"{nm}: {s.error!r}")
            try:
                s.ts.close(partial=True)
            except ts.TsError as e:
                fail("malformed", f"{nm}: {e}")
            sent = [x for p in logs for x in p.sent]
            v, a = ts.published(sent)
            r = ts.Reader(nm, v, a, fail)
            at = 0
            for p in s.ts.pes:
                if p.sid == 0xe0:
                    i = r.video(p)
                    if i < at:
                        fail("video frames repeated or out of order", f"{nm}: {i} after {at - 1}")
                    at = i + 1
                else:
                    r.audio(p)
            c.case(("restart", len(logs), len(s.ts.pes), at), dict(publishers=len(logs), packets=len(s.ts.pes)), bool(s.ts.pes))
            await s.close()

    for _ in range(n):
        await asyncio.gather(*(one(f"{_}.{k}") for k in range(8)))


def scenarios(c):
    for r in range(c.pick(3, 12)):
        yield Scenario(f"mix#{r}", mix, nstream=len(FMT) * 3, ms=c.pick(3000, 10000), delay=300)
    yield Scenario("restart", restart, n=c.pick(4, 20))
