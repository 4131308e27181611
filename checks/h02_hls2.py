"""HLS from memory: every session's playlists and segments give exactly the stream."""
import asyncio
import re

from pv import http, live, media, rtmp, state, ts
from pv.check import Scenario, Violation
from pv.nginx import free_ports

ID = "H02"
TITLE = "In-memory HLS sessions list and deliver every segment whole and gapless"
STATEMENT = """A GET of a live stream's in-memory HLS URL is answered with a playlist that leads to a session of its own; every playlist of a session is
complete and numbers its segments without a gap or step back, with a listed segment never changing.
Every listed segment can be fetched, again and at the same time by several clients and while newer ones are made, with the announced length: a well-formed transport stream with
tables first, and consecutive segments of a session together carry from a key frame on every frame of the stream exactly once, unchanged and with its times.
Sessions of other streams, unknown sessions and segments get errors, other players of the stream nothing of it, and nothing is kept when a session ends."""
OVER = ("schedules", "inputs", "configurations")
QUANT = """All frame sizes and timestamps, all interleavings of publishing, of sessions starting, being fetched from at any pace, being abandoned and timing out, and
of FLV, TS and RTMP players of the same streams; sequence of segments judged while one publisher stays."""
WHY = "No existing test fetches a segment; segments share frames with other players and outlive them."
FILES = ["modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c", "modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c",
         "modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c"]
MECH = [("segments", "ngx_hls_live_update_fragment, ngx_hls_live_open_fragment"), ("playlist", "ngx_hls_live_update_playlist"),
        ("finding a segment", "ngx_hls_live_find_frag"), ("sending it", "ngx_hls_http_write_handler"),
        ("session and request", "ngx_hls_http_m3u8_handler, ngx_hls_http_cleanup, ngx_hls_live_close_stream")]
TECHNIQUE = "polling HLS clients with a strict playlist parser and TS demultiplexer compared with the publisher's log, under ASan and UBSan"
NOTE = "Held on the generated streams and the moments the clients looked at. Segments are cut at hls2_max_fragment wherever that is, by design."
HARNESS = True
RULE = ("A case is one HLS session whose playlists and segments were all parsed and compared with the publisher's frames; non-trivial with two "
        "segments; distinct by stream format, segment boundaries and what was fetched.")

CONF = """
worker_processes 1;
events { worker_connections 4096; }
rtmp { server { listen %(port)d; out_queue 4096; chunk_size 4096; merge_frame %(merge)d;
    application mem { live on; cache_time 1s; mpegts_cache_time 3s; hls2memory on; hls2_fragment 500ms; hls2_max_fragment 900ms; hls2_playlist_length 2s; }
    application base { live on; mpegts_cache_time 3s; hls2 on; hls2_fragment 1s; hls2_max_fragment 1500ms; hls2_playlist_length 4s;
        hls2_base_url http://h/x/; hls2_minfrags 1; }
} }
http { access_log off; keepalive_timeout 5s;
    server { listen %(http)d; listen [::1]:%(http)d; %(sndbuf)s
        location / { hls2_live %(port)d; }
        location /alias { hls2_live %(port)d app=mem; }
        location /flv { flv_live %(port)d app=mem; }
        location /ts { ts_live %(port)d app=mem; }
        location = /stat { sys_stat; }
    } }
"""
APPS = dict(mem=dict(frag=500, max=900, list=2000, base="", min=2), base=dict(frag=1000, max=1500, list=4000, base="http://h/x/", min=1))


def fail(key, text):
    raise Violation("hls2: " + key, text)


async def get(port, path, **kw):
    kw.setdefault("headers", {"Connection": "close"})
    h = await http.Http(port, path, **kw).open()
    return h


async def fetch(port, path, timeout=20, **kw):
    h = await get(port, path, **kw)
    await h.finish(timeout)
    await h.close()
    return h


class Session:
    def __init__(self, c, hport, path, app, name, host="127.0.0.1"):
        self.c, self.hport, self.path, self.opt, self.name, self.host = c, hport, path, APPS[app], name, host
        self.dir = path[:path.rindex("/") + 1]
        self.seen = {}      # id -> (duration, uri)
        self.data = {}      # id -> bytes
        self.first = -1
        self.sid = None

    async def master(self):
        h = await fetch(self.hport, self.path + "?a=1", host=self.host)
        if h.status != 200:
            fail("master playlist refused", f"{self.path}: {h.status} {h.error}")
        m = re.fullmatch(r"#EXTM3U\n#EXT-X-STREAM-INF:BANDWIDTH=1,AVERAGE-BANDWIDTH=1\nhttp://([^/]+)(/[^?\n]+)\?session=([^&\n]+)&a=1\n",
                         h.body.decode("latin-1"))
        if not m or m[1] != self.host or m[2] != self.path:
            fail("master playlist", f"{self.path}: {bytes(h.body)!r}")
        self.sid = m[3]
        self.url = f"{self.path}?session={self.sid}&a=1"
        return self

    async def poll(self, timeout=20):
        h = await fetch(self.hport, self.url, timeout, host=self.host)
        if h.status != 200 or h.error:
            return h
        self.playlist(bytes(h.body))
        return h

    def playlist(self, data):
        self.c.saw("playlists parsed")
        nm = f"{self.path} {data!r}"
        o = self.opt
        m = re.match(rb"#EXTM3U\n#EXT-X-VERSION:3\n#EXT-X-MEDIA-SEQUENCE:(\d+)\n#EXT-X-TARGETDURATION:(\d+)\n", data)
        if not m:
            fail("playlist header", nm)
        seq, target = int(m[1]), int(m[2])
        body = data[m.end():].decode()
        n = 0
        while body:
            e = re.match(r"(#EXT-X-DISCONTINUITY\n)?#EXTINF:(\d+\.\d{3}),\n(\S+)-(\d+)\.ts\?session=(\S+?)&slot=(\d+)\n", body)
            if not e:
                fail("playlist entry", nm)
            if e[3] != o["base"] + self.name or e[5] != self.sid or e[6] != "0":
                fail("playlist entry", nm)
            i = int(e[4])
            if i != seq + n:
                fail("segments are not numbered one after the other", nm)
            if round(float(e[2]) - 1e-9) > target:
                fail("a segment longer than the target duration", nm)
            if i in self.seen and self.seen[i][0] != float(e[2]):
                fail("a listed segment changed", f"{nm}: was {self.seen[i]}")
            if self.seen and i not in self.seen and i < max(self.seen):
                fail("the media sequence went back", f"{nm}: {i} after {max(self.seen)}")
            self.seen.setdefault(i, (float(e[2]), f"{self.name}-{i}.ts?session={self.sid}&slot=0"))
            body = body[e.end():]
            n += 1
        if seq < self.first:
            fail("the media sequence went back", f"{nm}: {seq} after {self.first}")
        self.first = seq
        if n < o["min"] or n > o["list"] // o["frag"]:
            fail("playlist length", nm)
        self.now = (seq, seq + n)

    async def segment(self, i, slow=False, dir=None):
        h = await get(self.hport, (dir or self.dir) + self.seen[i][1], host=self.host, rcvbuf=4096 if slow else None)
        if slow:
            await asyncio.sleep(0.3)
        await h.finish(20)
        await h.close()
        return self.segment_done(i, h)

    def segment_done(self, i, h):
        nm = f"{h.path}"
        if h.status != 200:
            fail("a listed segment is refused", f"{nm}: {h.status} {h.error}, playlist {self.now}")
        if h.error:
            fail("a segment ends early", f"{nm}: {h.error!r} {h.received} of {h.headers.get('content-length')}")
        if "content-length" not in h.headers:
            fail("a segment without a length", nm)
        b = bytes(h.body)
        if i in self.data and self.data[i] != b:
            fail("a listed segment changed", f"{nm}: {len(b)} bytes, was {len(self.data[i])}")
        if i in self.data:
            self.c.saw("segments fetched again")
        self.data[i] = b
        self.c.saw("segments fetched")
        return b


FMT = ("avc+aac", "hevc+aac", "avc", "rich", "bframes", "big", "jump", "wrap")


def gen(rng, fmt, base):
    kw = dict(base=base, fps=rng.choice((10, 25)), gop=rng.choice((5, 12)), vsize=rng.choice(((20, 400), (3000, 9000))), asize=(20, 400),
              start=rng.choice((0, 500, 100000)))
    if fmt == "hevc+aac":
        kw["codec"] = 12
    if fmt == "avc":
        kw["audio"] = False
    if fmt == "rich":
        kw.update(rich=True, bframes=True)
    if fmt == "bframes":
        kw["bframes"] = True
    if fmt == "big":
        kw.update(vsize=(60000, 90000), fps=10, gop=5)
    if fmt == "wrap":
        kw["start"] = 95443717 - 2000
    return media.Gen(rng, **kw)


def judge(c, s, fmt, pub, g, whole):
    """The segments of a session against the publisher's log."""
    nm0 = f"{s.path} {fmt} session {s.sid}"
    v, a = ts.published(pub.sent)
    ids = sorted(s.data)
    r = None
    cc = {}
    prev = None
    spans = {}
    for i in ids:
        nm = f"{nm0} segment {i}"
        if prev is None or i != prev + 1:       # some were not fetched
            c.saw("gaps in what was fetched", prev is not None)
            r = ts.Reader(nm, v, a, fail, delay=300)
            cc = {}
        prev = i
        t = ts.Ts()
        t.cc = dict(cc)
        try:
            t.feed(s.data[i])
            t.close()
        except ts.TsError as e:
            fail("malformed segment", f"{nm}: {e}")
        cc = dict(t.cc)
        if t.npat != 1 or t.npmt != 1:
            fail("tables", f"{nm}: {t.npat} PAT, {t.npmt} PMT")
        want = sorted([0x24 if g.codec == 12 else 0x1b] + ([0x0f] if g.audio else []))
        if sorted(t.streams.values()) != want:
            fail("program map", f"{nm}: {t.streams}")
        v0, a0 = r.v, r.a
        r.name = nm
        for p in t.pes:
            r.add(p)
        c.saw("elementary packets compared", len(t.pes))
        if not t.pes:
            fail("a segment without frames", nm)
        n0 = v0[1] if v0 else r.v and r.v[0]
        spans[i] = (n0, r.v[1]) if r.v and r.v[1] > n0 else None
        if i == 0 and not (min(t.pes, key=lambda p: p.at).sid == 0xe0 and v[r.v[0]].key):
            fail("the first segment does not start with a key frame", f"{nm}: {r.v}")
        if spans[i] and fmt not in ("jump", "rich"):
            x, y = spans[i]
            d = (v[y - 1].ts - v[x].ts) / 1000
            if abs(s.seen[i][0] - d) > 0.5:
                fail("segment duration", f"{nm}: {s.seen[i][0]}, frames say {d}")
            if s.seen[i][0] > s.opt["max"] / 1000 + 0.0011:
                fail("segment longer than the maximum", f"{nm}: {s.seen[i][0]}")
    if min(s.seen) == 0 and 0 not in s.data and whole:
        raise rtmp.RtmpError(f"{nm0}: segment 0 was not fetched")
    c.case((fmt, len(ids), tuple(spans.values())), dict(url=s.path, format=fmt, segments=len(ids), video=[spans[i] for i in ids][:12]), len(ids) >= 2)


async def mix(c, rng, nstream, ms):
    """Streams with HLS sessions and other players joining and leaving."""
    port, hport = free_ports(2)
    c.nginx(CONF % dict(port=port, http=hport, merge=rng.choice((1, 8)), sndbuf=rng.choice(("", "sendfile off; output_buffers 2 4k;"))),
            wait_ports=[port, hport]).start()

    async def stream(i):
        fmt = FMT[i % len(FMT)]
        app = ("mem", "base")[i // len(FMT) % 2]
        name = rng.choice((f"n{i}", f"n{i}-x", f"a-{i}-7"))
        g = gen(rng, fmt, (i + 1) * 100000)
        path = f"/alias/{name}.m3u8" if app == "mem" and rng.random() < 0.3 else f"/{app}/{name}.m3u8"
        stop = asyncio.Event()
        sess = []
        flv = []

        async def client(early):
            s = await Session(c, hport, path, app, name).master()
            sess.append(s)
            slow = s.slow = rng.random() < 0.3
            first = True
            while not stop.is_set() or first:
                h = await s.poll()
                if h.status != 200 or h.error:
                    fail("playlist refused", f"{s.url}: {h.status} {h.error}")
                first = False
                jobs = []
                for k in range(*s.now):
                    if k not in s.data:
                        jobs += [s.segment(k, slow)] + ([s.segment(k)] if rng.random() < 0.3 else [])
                    elif rng.random() < 0.1:
                        jobs.append(s.segment(k))
                if rng.random() < 0.1:      # one that goes away at once
                    x = await get(hport, s.dir + s.seen[max(s.seen)][1])
                    await x.close(abort=True)
                await asyncio.gather(*jobs)
                await asyncio.sleep(rng.choice((0.01, 0.03)))

        async def other():
            p = await http.FlvPlayer(hport, f"/flv/{name}.flv").open()
            t = await http.TsPlayer(hport, f"/ts/{name}.ts").open()
            flv.append((p, t))

        tasks = [asyncio.create_task(client(True)) for _ in range(rng.randrange(2))]
        if app == "mem":
            await other()
        await asyncio.sleep(0.05)
        pub = await live.Pub.start(port, app, name, g)
        pub.headers()
        g.nv = 0
        fr = [(t, x, b) for t, x, b, _ in g.until(ms)]
        if fmt == "jump":
            at = rng.randrange(len(fr) // 3, 2 * len(fr) // 3)
            fr = fr[:at] + [(t, x + 60000, b) for t, x, b in fr[at:]]
        joins = sorted(rng.randrange(len(fr) * 2 // 3) for _ in range(2))
        k = 0
        while k < len(fr):
            for f in fr[k:k + 4]:
                pub.one(*f)
            k += 4
            await pub.c.drain()
            await asyncio.sleep(0.02)
            while joins and joins[0] <= k:
                joins.pop(0)
                tasks.append(asyncio.create_task(client(False)))
            for t in tasks:
                if t.done():
                    t.result()
        await live.sync(pub.c)
        await asyncio.sleep(0.2)
        stop.set()
        await asyncio.gather(*tasks)
        for s in sess:
            judge(c, s, fmt, pub, g, not s.slow)
        for p, t in flv:
            if p.ended:
                fail("an FLV player was ended", f"{p.path} {fmt}: {p.status} {p.error!r}")
            if t.error:
                fail("a TS player was ended", f"{t.path} {fmt}: {t.status} {t.error!r}")
            if not p.msgs:
                fail("an FLV player got nothing", p.path)
            c.saw("FLV players beside sessions")
            await p.close()
            await t.close()
        await pub.close()

    await asyncio.gather(*(stream(i) for i in range(nstream)))


ODD = """
worker_processes 1;
events { worker_connections 4096; }
rtmp { server { listen %(port)d; out_queue 4096; chunk_size 4096;
    application tiny { live on; cache_time 1s; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_max_fragment 300ms; hls2_playlist_length 1s;
        hls2_minfrags 2; %(notify)s }
    application noidle { live on; idle_streams off; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_playlist_length 600ms; }
    application noidlen { live on; idle_streams off; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_playlist_length 600ms; %(notify)s }
    application off { live on; mpegts_cache_time 1s; }
    application denied { live on; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_playlist_length 600ms; deny play all; }
    application refused { live on; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_playlist_length 600ms; %(refuse)s }
} }
http { access_log off; keepalive_timeout 5s;
    server { listen %(http)d; listen [::1]:%(http)d; output_buffers 2 8k;
        location / { hls2_live %(port)d; }
        location /flv { flv_live %(port)d app=tiny; }
        location = /unit { pv_unit; }
        location = /stat { sys_stat; }
        location /control { rtmp_control all; }
    } }
"""
APPS["tiny"] = dict(frag=200, max=300, list=1000, base="", min=2)


class Feed:
    """A publisher that goes on at its own pace until it is closed."""

    def __init__(self, rng, port, app, name, i, size=(100, 3000)):
        self.rng, self.port, self.app, self.name = rng, port, app, name
        self.g = media.Gen(rng, base=(i + 1) * 100000, fps=25, gop=5, vsize=size, asize=(20, 200))
        self.task = None

    async def start(self):
        self.pub = await live.Pub.start(self.port, self.app, self.name, self.g)
        self.pub.headers()
        self.g.nv = 0
        self.task = asyncio.create_task(self.run())
        return self

    async def run(self):
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        for t, x, b, _ in self.g.until(600000):
            while (loop.time() - t0) * 1000 < x - self.g.start:
                await self.pub.c.drain()
                await asyncio.sleep(0.02)
            self.pub.one(t, x, b)

    async def close(self):
        self.task.cancel()
        await self.pub.close()


async def raw(port, text, host="127.0.0.1", timeout=10):
    """All that comes back on one connection."""
    rd, wr = await asyncio.open_connection(host, port)
    try:
        wr.write(text)
        return await asyncio.wait_for(rd.read(), timeout)
    finally:
        wr.close()


async def odd_waiting(c, rng, hport, feed):
    """Several requests wait for the first playlist of the same session, others give up."""
    s = await Session(c, hport, f"/tiny/{feed.name}.m3u8", "tiny", feed.name).master()
    n = rng.choice((2, 3, 5))
    hs = []
    loop = asyncio.get_running_loop()
    t0 = loop.time()
    for _ in range(n):
        hs.append(await get(hport, s.url))
        await asyncio.sleep(0.05)
    gone = rng.sample(range(n), rng.randrange(n))
    for k in gone:
        await hs[k].close(abort=rng.random() < 0.5)
    await asyncio.sleep(0.1)
    await feed.start()
    for k in range(n):
        if k in gone:
            continue
        try:
            await hs[k].finish(5)
        except asyncio.TimeoutError:
            fail("a request waiting for the first playlist is never answered", f"{s.url}: request {k} of {n}, given up {gone}")
        if hs[k].status == 410 and loop.time() - t0 > 1.9:
            c.saw("sessions that timed out before a playlist")      # the machine was slow
            continue
        if hs[k].status != 200 or hs[k].error:
            fail("a request waiting for the first playlist is refused", f"{s.url}: request {k} of {n}, given up {gone}: {hs[k].status} {hs[k].error}")
        s.playlist(bytes(hs[k].body))
        await hs[k].close()
    c.saw("requests that waited", n - len(gone))
    await asyncio.sleep(0.5)
    t0 = loop.time()
    h = await s.poll()
    if h.status == 410 and loop.time() - t0 > 1.9:
        c.saw("sessions that timed out before a playlist")
    elif h.status != 200:
        fail("playlist refused", f"{s.url}: {h.status} {h.error}")


async def odd_ids(c, rng, hport, feed, other):
    s = await Session(c, hport, f"/tiny/{feed.name}.m3u8", "tiny", feed.name).master()
    s2 = await Session(c, hport, f"/tiny/{other.name}.m3u8", "tiny", other.name).master()
    await feed.start()
    await other.start()
    await s2.poll()
    for r in range(4):
        h = await s.poll()
        if h.status != 200:
            fail("playlist refused", f"{s.url}: {h.status} {h.error}")
        lo, hi = s.now
        early = {}
        for k in range(lo, hi + 3):
            h = await fetch(hport, f"{s.dir}{s.name}-{k}.ts?session={s.sid}&slot=0")
            if h.status == 200 and h.error:
                fail("a segment ends early", f"{h.path}: {h.error!r} {h.received} of {h.headers.get('content-length')}")
            if h.status == 200:
                if k in s.data and s.data[k] != bytes(h.body):
                    fail("a listed segment changed", h.path)
                s.data[k] = bytes(h.body)
            elif k < hi and h.status != 404:
                fail("a listed segment is refused", f"{h.path}: {h.status}")
        for k in (hi + 40, -1, 4294967296 + lo, 99999999999999999999, "", "x", lo + (1 << 31), 18446744073709551616 + lo):
            h = await fetch(hport, f"{s.dir}{s.name}-{k}.ts?session={s.sid}&slot=0")
            if h.status == 200:
                fail("an unknown segment is served", f"{h.path}: playlist {s.now}")
        for u in (f"{s.dir}{s.name}-{lo}.ts?session=none", f"{s.dir}{s.name}-{lo}.ts", f"{s.dir}{s.name}-{lo}.ts?session=",
                  f"{s.dir}{s2.name}-{lo}.ts?session={s.sid}", f"{s.dir}{s.name}-{lo}.ts?session={s2.sid}",
                  f"{s.dir}nosuch-{lo}.ts?session={s.sid}", f"/noidle/{s.name}-{lo}.ts?session={s.sid}",
                  f"{s.dir}{s.name}-{lo}.ts?session={s.sid[:-1]}", f"{s.dir}{s.name}-{lo}.ts?session={s.sid}x"):
            h = await fetch(hport, u)
            if h.status == 200:
                fail("a segment of another session is served", f"{h.path}")
            c.saw("requests for what is not there")
        await asyncio.sleep(0.15)
    # what was served before being listed must be what is listed
    for r in range(3):
        await s.poll()
        for k in range(*s.now):
            await s.segment(k)
        await asyncio.sleep(0.1)


async def odd_slow(c, rng, hport, feed):
    """Segments read slowly while the session gets new ones, times out, or its stream ends."""
    await feed.start()
    s = await Session(c, hport, f"/tiny/{feed.name}.m3u8", "tiny", feed.name).master()
    await s.poll()
    loop = asyncio.get_running_loop()
    last = loop.time()
    for r in range(4):
        if loop.time() - last > 1.5:    # it may have ended since; its identity would start over
            s = await Session(c, hport, f"/tiny/{feed.name}.m3u8", "tiny", feed.name).master()
        await s.poll()
        hs = []
        last = loop.time()
        for k in range(*s.now):
            h = await get(hport, s.dir + s.seen[k][1], rcvbuf=4096)
            h.k = k
            hs.append(h)
        if r == 0:
            a, b = s.now
            for k in range(a, b):
                h = await fetch(hport, s.dir + s.seen[k][1])
                if h.status == 200:
                    s.segment_done(k, h)
        for h in hs[::2]:
            h.task.cancel()         # reads nothing
        await asyncio.sleep(rng.choice((0.1, 1.2)) if r < 3 else 8)
        for h in hs[1::2]:
            try:
                await h.finish(20)
            except asyncio.TimeoutError:
                fail("a segment is not sent to its end", f"{h.path}: {h.received} of {h.headers.get('content-length')}")
            if h.status == 200:
                s.segment_done(h.k, h)
        for h in hs:
            await h.close(abort=rng.random() < 0.5)
        c.saw("slow downloads", len(hs))
    h = await fetch(hport, s.dir + s.seen[max(s.seen)][1])
    if h.status == 200:
        fail("a session that was left is kept", f"{h.path} after 8 s without a request, timeout 3000 ms")


async def odd_requests(c, rng, hport, feed):
    await feed.start()
    long = "n" * 300
    for host in ("[::1]", "127.0.0.1"):
        s = await Session(c, hport, f"/tiny/{feed.name}.m3u8", "tiny", feed.name).master()
        if host == "[::1]":
            b = await raw(hport, f"GET {s.url} HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n".encode(), "::1")
            if not b.startswith(b"HTTP/1.1 200"):
                fail("playlist refused", f"{s.url} over IPv6: {b[:200]!r}")
            s.playlist(b.partition(b"\r\n\r\n")[2])
            await s.segment(s.now[0])
        await s.poll()
        for path in (s.path, s.url, s.dir + s.seen[s.now[0]][1]):
            b = await raw(hport, f"HEAD {path} HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n".encode())
            head, _, body = b.partition(b"\r\n\r\n")
            if not head.startswith((b"HTTP/1.1 200", b"HTTP/1.1 404")) or body:
                fail("the answer to a HEAD request has a body", f"{path}: {head[:60]!r} {len(body)} bytes")
        # one connection, many requests
        rd, wr = await asyncio.open_connection("127.0.0.1", hport)
        for k in range(20):
            path = rng.choice((s.path, s.url, s.url, s.dir + s.seen[max(s.seen)][1]))
            wr.write(f"GET {path} HTTP/1.1\r\nHost: h\r\n\r\n".encode())
            head = await asyncio.wait_for(rd.readuntil(b"\r\n\r\n"), 10)
            n = int(re.search(rb"(?i)content-length: (\d+)", head)[1])
            body = await asyncio.wait_for(rd.readexactly(n), 10)
            if not head.startswith((b"HTTP/1.1 200", b"HTTP/1.1 404")):
                fail("a request on a used connection", f"{path}: {head!r}")
            if path == s.url and head.startswith(b"HTTP/1.1 200"):
                s.playlist(body)
            c.saw("requests on a used connection")
        wr.close()
    for u in (f"/tiny/{long}.m3u8", f"/tiny/{long}.m3u8?session=abc", f"/tiny/{feed.name}.m3u8?session={'s' * 300}",
              f"/tiny/{feed.name}.m3u8?session={'s' * 255}", f"/tiny/{'n' * 254}.m3u8?session=a", f"/tiny/{feed.name}.m3u8?session=b&x={'a' * 2000}",
              f"/tiny/{feed.name}.m3u8?x={'a' * 3000}", f"/tiny/{'n' * 600}-1.ts?session=a", "/tiny/.m3u8?session=1", "/tiny/-1.ts?session=1", "/.m3u8",
              "/a.ts", "/tiny/a.ts?session=1", "/tiny//x.m3u8?session=2", "/nope/x.m3u8?session=3", "/" + "a" * 300 + "/x.m3u8?session=4",
              f"/tiny/{feed.name}.m3u8?session=5&flashver={'f' * 300}", f"/tiny/{feed.name}.m3u8?location=/zz", f"/tiny/{feed.name}.m3u8?session=%00%ff",
              f"/noidle/{feed.name}.m3u8?session=6", "/tiny/a%2f..%2fb.m3u8?session=7", f"/tiny/{feed.name}.m3u8?session=8&slot=-1", "/x", "/tiny/m3u8",
              "/ts", "/tiny/x.flv"):
        for m in ("GET", "HEAD", "POST"):
            try:
                await raw(hport, f"{m} {u} HTTP/1.1\r\nHost: {rng.choice(('h', '127.0.0.1', 'a' * 200))}\r\nConnection: close\r\n\r\n".encode("latin-1"), timeout=0.7)
            except asyncio.TimeoutError:
                pass
            c.saw("odd requests")
    for h in ("", "Host:\r\n", "Host: h\r\n"):
        for v in ("1.0", "1.1"):
            await raw(hport, f"GET /tiny/{feed.name}.m3u8 HTTP/{v}\r\n{h}Connection: close\r\n\r\n".encode())


async def odd_refused(c, rng, hport, feed):
    """Sessions that are not admitted, or are dropped."""
    await feed.start()
    # no such stream, hls2 off, access rules, a refusing or failing notification
    for k in range(3):
        for app in ("noidle", "noidlen", "off", "denied", "refused", "nosuch"):
            hs = [await get(hport, f"/{app}/n{k}.m3u8?session=r{k}") for _ in range(rng.choice((1, 2)))]
            if rng.random() < 0.3:
                await hs[0].close(abort=True)
                hs.pop(0)
            for h in hs:
                try:
                    await h.finish(4)
                except asyncio.TimeoutError:
                    fail("a session that cannot be is never refused", h.path)
                if h.status == 200:
                    fail("a session that cannot be is served", h.path)
                await h.close()
            c.saw("sessions refused", len(hs))
    for k in range(3):
        s = await Session(c, hport, f"/tiny/{feed.name}.m3u8", "tiny", feed.name).master()
        h = await get(hport, s.url)
        if k:
            await h.finish(5)
        await fetch(hport, f"/control/drop/subscriber?srv=default&app=tiny&name={feed.name}")
        try:
            await h.finish(5)
        except asyncio.TimeoutError:
            fail("a request of a dropped session is never answered", h.path)
        await h.close()


async def odd_end(c, rng, hport, feed):
    """The stream ends or is restarted while playlists and segments are being fetched."""
    await feed.start()
    ss = [await Session(c, hport, f"/tiny/{feed.name}.m3u8", "tiny", feed.name).master() for _ in range(3)]
    for s in ss:
        await s.poll()
    flv = await http.FlvPlayer(hport, f"/flv/{feed.name}.flv").open()
    hs = [await get(hport, s.dir + s.seen[max(s.seen)][1], rcvbuf=4096) for s in ss]
    await feed.close()
    wait = [await get(hport, f"/tiny/{feed.name}.m3u8?session=late{k}") for k in range(2)]
    await asyncio.sleep(0.3)
    for h in hs:
        await h.finish(10)
        if h.error:
            fail("a segment ends early", f"{h.path} after the publisher left: {h.error!r} {h.received} of {h.headers.get('content-length')}")
    await asyncio.sleep(rng.choice((0.1, 3.5)))
    await feed.start()
    await asyncio.sleep(1.2)
    for h in wait:
        await h.close()
    await flv.close()
    for s in ss:
        h = await get(hport, s.url)
        await asyncio.sleep(0.05)
        await h.close()
    c.saw("streams that ended under sessions")


async def odd(c, rng, parts):
    port, hport, nport = free_ports(3)
    async def answer(rd, wr):
        try:
            req = await rd.readuntil(b"\r\n\r\n")
            a = rng.choice(("403 Forbidden", "500 Err", "", "hang")) if b" /q" in req else "200 OK"
            if a == "hang":
                await asyncio.sleep(1.5)
            elif a:
                wr.write(f"HTTP/1.1 {a}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".encode())
                await wr.drain()
        except (OSError, asyncio.IncompleteReadError):
            pass
        wr.close()
    server = await asyncio.start_server(answer, "127.0.0.1", nport)
    play = (f"on_play http://127.0.0.1:{nport}/%s stage=start,update,done update=1s timeout=%s args=a=$name&p=$page_url&t=$tc_url&f=$flashver&r=$args&ra=$remote_addr&rp=$remote_port&sa=$server_addr&sp=$server_port&s=$scheme;")
    notify = play % ("p", "8s") if rng.random() < 0.7 else ""
    inst = c.nginx(ODD % dict(port=port, http=hport, notify=notify, refuse=play % ("q", "1s")), harness=True, wait_ports=[port, hport])
    inst.start()

    h = await fetch(hport, "/tiny/warm.m3u8?a=1")
    s0 = await state.get(hport)
    feeds = [Feed(rng, port, "tiny", f"o{i}", i, (100, 3000) if i != 3 else (20000, 30000)) for i in range(8)]
    jobs = dict(waiting=lambda: odd_waiting(c, rng, hport, feeds[0]), ids=lambda: odd_ids(c, rng, hport, feeds[1], feeds[2]),
                slow=lambda: odd_slow(c, rng, hport, feeds[3]), requests=lambda: odd_requests(c, rng, hport, feeds[4]),
                end=lambda: odd_end(c, rng, hport, feeds[5]), waiting2=lambda: odd_waiting(c, rng, hport, feeds[6]),
                refused=lambda: odd_refused(c, rng, hport, feeds[7]))
    await asyncio.gather(*(jobs[k]() for k in parts))
    for f in feeds:
        if f.task:
            await f.close()
    await asyncio.sleep(6)
    h = await fetch(hport, "/stat")
    if h.status != 200:
        fail("state not told", f"{h.status} {h.error}")
    s1 = await state.get(hport)
    if state.diff(s0, s1):
        fail("something is kept after all sessions ended", f"{state.diff(s0, s1)}")
    c.saw("resource balances", len(s1))
    c.case(("odd", parts), dict(parts=parts, state=s1), True)
    server.close()


QUEUES = """
worker_processes 1;
events { worker_connections 1024; }
rtmp {
    server { listen %(small)d; serverid small; out_queue %(q)d; chunk_size 4096;
        application small { live on; mpegts_cache_time 100ms; hls2 on; hls2_fragment 500ms; hls2_max_fragment 900ms; hls2_playlist_length 2s; } }
    server { listen %(large)d; serverid large; out_queue 4096; chunk_size 4096;
        application large { live on; mpegts_cache_time 1s; hls2 on; hls2_fragment 500ms; hls2_max_fragment 900ms; hls2_playlist_length 2s; } }
}
http { access_log off; server { listen %(http)d; location /small { hls2_live %(small)d; } location /large { hls2_live %(large)d; }
    location /control { rtmp_control all; } } }
"""
APPS["small"] = APPS["large"] = APPS["mem"]


async def queues(c, rng, rounds):
    """Segments with more frames than the queue has places, and servers with queues of different sizes."""
    small, large, hport = free_ports(3)
    q = rng.choice((16, 20, 24))
    c.nginx(QUEUES % dict(small=small, large=large, http=hport, q=q), wait_ports=[small, large, hport]).start()
    n = 0
    for r in range(rounds):
        for app in ("small", "large"):
            port = small if app == "small" else large
            n += 1
            name = f"q{n}"
            g = media.Gen(rng, base=n * 100000, fps=25 if app == "small" else rng.choice((250, 500)), gop=3 if app == "small" else 40, vsize=(20, 300), asize=(20, 200))
            pub = await live.Pub.start(port, app, name, g)
            pub.headers()
            g.nv = 0
            s = await Session(c, hport, f"/{app}/{name}.m3u8", app, name).master()
            first = asyncio.create_task(s.poll())
            fr = [(t, x, b) for t, x, b, _ in g.until(5000)]
            step = 4 if app == "small" else 24
            for k in range(0, len(fr), step):
                for f in fr[k:k + step]:
                    pub.one(*f)
                await pub.c.drain()
                await asyncio.sleep(0.01)
                if first.done():
                    h = first.result() if k % 5 else await s.poll()
                    if h.status != 200 or h.error:
                        fail("playlist refused", f"{s.url}: {h.status} {h.error}")
                    for i in range(*s.now):
                        if i not in s.data:
                            await s.segment(i)
            await live.sync(pub.c)
            await first
            await s.poll()
            for i in range(*s.now):
                if i not in s.data:
                    await s.segment(i)
            judge(c, s, "avc+aac", pub, g, False)
            c.saw(f"segments with queues of {"16 to 24" if app == 'small' else 4096}", len(s.data))
            await fetch(hport, f"/control/drop/subscriber?srv={app}&app={app}&name={name}")
            await pub.close()


PARTS = ("waiting", "ids", "slow", "requests", "end", "waiting2", "refused")


def scenarios(c):
    for r in range(c.pick(1, 4)):
        yield Scenario(f"odd#{r}", odd, parts=PARTS)
    for r in range(c.pick(1, 4)):
        yield Scenario(f"queues#{r}", queues, rounds=c.pick(2, 4))
    for r in range(c.pick(2, 8)):
        yield Scenario(f"mix#{r}", mix, nstream=len(FMT) * 2, ms=c.pick(8000, 20000))
