"""HTTP-FLV: the response body is a well-formed FLV stream with exactly the live stream's frames."""
import asyncio

from pv import http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, AMF0_META
from checks.d01_live import gen
from checks.d02_gop import cached, judge_start, judge_rest

ID = "D03"
TITLE = "HTTP-FLV responses are well-formed FLV with exactly the live stream's frames"
STATEMENT = """A GET of a live stream's FLV URL is answered with status 200, the FLV content type and one FLV header followed by
well-formed tags with consistent sizes, which carry the metadata, the sequence headers and then the same frames in the
same order and with the same timestamps that an RTMP subscriber joining at that time receives, with or without a GOP
cache. Requests for other names or applications never get these frames, and a request that names no stream is refused."""
OVER = ("schedules", "inputs", "configurations")
QUANT = """All join and leave times, stream names and query strings, codecs, frame sizes and chunk sizes, for any number of
concurrent HTTP players next to RTMP ones."""
WHY = "No existing test requests a live stream over HTTP; well-formedness must hold for every cut of the stream into buffers."
FILES = ["modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c", "modules/nginx-rtmp-module/ngx_rtmp_shared_module.c",
         "modules/nginx-rtmp-module/ngx_rtmp_live_module.c", "modules/nginx-rtmp-module/ngx_rtmp_gop_module.c"]
MECH = [("tags from frames", "ngx_http_flv_live_prepare_out_chain"), ("sending", "ngx_http_flv_live_write_handler"),
        ("merging frames into one write", "ngx_rtmp_prepare_merge_frame"), ("URL to application and stream", "ngx_http_flv_live_parse_url")]
TECHNIQUE = "strict online FLV reader and offline log comparison with the publisher's messages, under ASan"
NOTE = "Held on the generated streams and players; chunked and unchunked (HTTP/1.0) responses, slow readers only in D05."
RULE = ("A case is one HTTP-FLV response whose bytes were parsed strictly and whose frames were compared with the publisher's; "
        "non-trivial when at least one frame was delivered; distinct by application, format, join and leave positions.")

CONF = """
worker_processes 1;
events { worker_connections 4096; }
rtmp { server { listen %(port)d; out_queue 2048; chunk_size %(chunk)d;
    application key { live on; }
    application all { live on; wait_key off; merge_frame 1; }
    application gop { live on; cache_time 2s; send_all on; merge_frame %(merge)d; }
    application fixed { live on; cache_time 1s; send_all on; }
} }
http { access_log off;
    server { listen %(http)d;
        location / { flv_live %(port)d; }
        location /alias { flv_live %(port)d app=fixed; }
        location /aonly { flv_live %(port)d video=0; }
        location /vonly { flv_live %(port)d audio=0; }
    } }
"""


async def mix(c, rng, chunk, merge, nstream, ms):
    port, hport = free_ports(2)
    inst = c.nginx(CONF % dict(port=port, http=hport, chunk=chunk, merge=merge), wait_ports=[port, hport]).start()

    async def stream(i):
        app = ("key", "all", "gop", "gop", "fixed")[i % 5]
        fmt = ("avc+aac", "hevc+aac", "aac", "avc", "avc+mp3", "raw", "bframes")[(i + i // 5) % 7]
        name = ("x", f"n{i}", "q.x", "long" * 30)[i // 5 % 4] + ("" if i < 20 and i % 5 != 3 else str(i))
        g = gen(rng, fmt, (i + 1) * 100000)
        if app in ("gop", "fixed"):
            g.start = rng.choice((0, 5000, 0xfffff0))

        def path():
            p = f"/{app}/{name}" if app != "fixed" else rng.choice((f"/alias/{name}", f"/aonly/{name}", f"/vonly/{name}"))
            if p.startswith(("/aonly", "/vonly")):
                return p + ".flv?app=fixed"
            return p + rng.choice((".flv", ".flv?a=b&c=d", "", ".flv?app=" + app))

        async def join():
            lo = len(cached(pub.sent)) if pub else 0
            s = await http.FlvPlayer(hport, path(), version=rng.choice(("1.1", "1.1", "1.0"))).open()
            await http.barrier(port)
            return [s, lo, len(live.frames(pub.sent)) if pub else 0, len(cached(pub.sent)) if pub else 0]

        pub = None
        subs = [await join() for _ in range(rng.randrange(3))]
        pub = await live.Pub.start(port, app, name, g, chunk=rng.choice((None, 4096)))
        metas = rng.random() < 0.8
        if metas:
            pub.meta()
        pub.headers()
        joins = sorted(rng.randrange(ms) for _ in range(3))
        leaves = sorted(rng.randrange(ms) for _ in range(2))
        done = []
        while pub.at < ms:
            pub.run(pub.at + rng.choice((10, 40, 100)))
            await pub.c.drain()
            await asyncio.sleep(rng.choice((0, 0.002, 0.004)))
            while joins and joins[0] <= pub.at:
                joins.pop(0)
                await live.sync(pub.c)
                subs.append(await join())
            while leaves and leaves[0] <= pub.at:
                leaves.pop(0)
                if subs:
                    s = subs.pop(rng.randrange(len(subs)))
                    await s[0].close(abort=rng.random() < 0.5)
                    done.append((s, False))
        g.nv += -g.nv % g.gop
        pub.run(max(ms, g.nv * 1000 // g.fps) + 200)
        await pub.c.drain()
        await live.sync(pub.c)
        for s in subs:
            if app in ("key", "all"):
                t, ts, b = pub.sent[-1]
                try:
                    await s[0].wait_msg(lambda m: m.type == t and m.data == b, 20)
                except (asyncio.TimeoutError, http.HttpError):
                    pass
            done.append((s, True))
        await asyncio.sleep(0.05)
        for (s, lo, hi, chi), whole in done:
            if isinstance(s.error, http.FlvError):
                raise Violation("flv: malformed", f"{s.path}: {s.error} after {len(s.flv.tags)} tags {fmt}")
            if whole and s.error:
                raise Violation("flv: the response ended", f"{s.path}: {s.error!r} {s.status}")
            if s.status is None:
                c.case((app, "none"), None, False)
                continue
            if s.status != 200:
                raise Violation("flv: refused", f"{s.path}: {s.status}")
            if s.headers.get("content-type") != "video/x-flv":
                raise Violation("flv: content type", f"{s.path}: {s.headers}")
            want = 4 if s.path.startswith("/aonly") else 1 if s.path.startswith("/vonly") else 5
            if s.flv.flags is not None and s.flv.flags != want:
                raise Violation("flv: header flags", f"{s.path}: {s.flv.flags}, configured {want}")
            nm = f"{s.path} {fmt}"
            allrec = live.got(s)
            live.dechunk_expect_headers(nm, pub.sent, [x for x in allrec if x[2]], "flv")
            rec = [x for x in live.frames(allrec) if x[2]]
            if app in ("key", "all"):
                n = live.judge(nm, live.frames(pub.sent), rec, hi, app, whole, "flv")
            else:
                fr = cached(pub.sent)
                n = len(rec)
                if rec:
                    p = judge_start(nm, fr, rec, lo, max(chi + 3, 3), 2000 if app == "gop" else 1000)
                    judge_rest(nm, fr, rec, p, 5 if whole else len(fr))
                elif whole:
                    raise Violation("flv: nothing was delivered", nm)
            if metas:
                m = next((m for m in s.flv.tags if m.data), None)
                if m and m.type != AMF0_META:
                    raise Violation("flv: frames before the metadata", f"{nm}: {m!r}")
            c.case((app, fmt, hi, n, whole), dict(url=s.path, format=fmt, joined_at=hi, frames=n, bytes=s.received), n > 0)
            c.saw("tags parsed", len(s.flv.tags))
            c.saw("frames compared", n)
        for s in subs:
            await s[0].close()
        await pub.close()

    await asyncio.gather(*(stream(i) for i in range(nstream)))


async def others(c, rng):
    """Other names get nothing; requests without a stream are refused."""
    port, hport = free_ports(2)
    inst = c.nginx(CONF % dict(port=port, http=hport, chunk=4096, merge=32), wait_ports=[port, hport]).start()
    g = media.Gen(rng)
    pub = await live.Pub.start(port, "all", "x", g)
    pub.headers()
    good = await http.FlvPlayer(hport, "/all/x.flv").open()
    bad = []
    for p in ("/all/y.flv", "/key/x.flv", "/all/xx.flv", "/gop/x.flv", "/all/X.flv", "/alias/x.flv", "/all/x2.flv", "/all/x/x2.flv",
              "/all/" + "x" * 64 + ".flv", "/x/all.flv"):
        bad.append(await http.FlvPlayer(hport, p).open())
    await http.barrier(port)
    await pub.paced(2000, speed=10)
    await good.wait_msg(lambda m: live.uid(m.data) == g.uid, 20)
    for b in bad:
        if b.flv.tags:
            raise Violation("flv: frames of another stream", f"{b.path}: {b.flv.tags[0]!r}")
        c.case(("bad", b.path), dict(url=b.path, status=b.status))
        await b.close()
    for p in ("/", "/all", "/all/", "/.flv", "//.flv", "/all/.flv"):
        h = await http.Http(hport, p).open()
        try:
            await h.finish(3)
            if h.status == 200:
                raise Violation("flv: a request without a stream was served", f"{p}: {h.status}")
        except asyncio.TimeoutError:
            if h.body:
                raise Violation("flv: a request without a stream was served", f"{p}: {bytes(h.body[:60])!r}")
        c.case(("none", p), dict(url=p, status=h.status))
        await h.close()
    await good.close()
    await pub.close()


def scenarios(c):
    for r in range(c.pick(5, 20)):
        yield Scenario(f"mix#{r}", mix, chunk=c.rng.choice((128, 1000, 4096, 60000)), merge=c.rng.choice((1, 2, 32)),
                       nstream=20, ms=c.pick(3000, 10000))
    yield Scenario("others", others)
