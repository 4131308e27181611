"""Whatever came and went, nothing stays behind in the worker."""
import asyncio
import json
import os
import random
import socket
import struct

from pv import amf, http, live, media, rtmp, state
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, Msg

ID = "L01"
TITLE = "Sessions, requests and streams give back everything they took when they end"
STATEMENT = """When no session or request is left, a worker holds no more connections, file descriptors, timers, streams, shared frames, buffers and pools
than when it started, whatever sessions of all protocols, relays, recordings, notifications and control requests came, failed or were broken off before.
Repeating any sequence of operations that ends in that state does not make the worker's memory grow without bound."""
OVER = ("histories", "schedules", "faults")
QUANT = """All sequences of sessions, requests, refusals and failures of publishers, players (RTMP, HTTP-FLV, HTTP-TS, in-memory HLS), relays in both directions,
recorders, playlists on disk, notifications, control and state requests; all points where a connection is broken off."""
WHY = "Tests end before a leak of a buffer or a stream per session shows."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_init.c", "modules/nginx-rtmp-module/ngx_live.c", "modules/nginx-rtmp-module/ngx_rtmp_shared_module.c",
         "modules/nginx-rtmp-module/ngx_rtmp_live_module.c", "modules/nginx-rtmp-module/ngx_rtmp_gop_module.c", "modules/nginx-rtmp-module/ngx_live_relay.c",
         "modules/nginx-rtmp-module/ngx_netcall.c", "modules/nginx-client-module/ngx_client.c", "modules/nginx-toolkit-module/src/ngx_rbuf.c"]
MECH = [("end of a session", "ngx_rtmp_finalize_session, ngx_rtmp_close_session, ngx_rtmp_finalize_fake_session"), ("streams", "ngx_live_create_stream, ngx_live_delete_stream"),
        ("frames and buffers", "ngx_rtmp_shared_free_frame, ngx_put_chainbufs"), ("clients", "ngx_client_close")]
TECHNIQUE = "balance of the modules' own counters and of the heap (as the sanitizer counts it) around mixed and repeated workloads"
NOTE = "The heap is judged by its growth over repeated equal operations; what is kept for reuse after a peak of load is not a leak."
HARNESS = True
RULE = ("A case is one operation repeated in a worker of its own, or one mixed workload; non-trivial when the worker returned to its first state "
        "after the operations took effect; distinct by operation and outcome.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp { relay_reconnect 200ms; server { listen %(port)d; out_queue 1024; chunk_size 4096; timeout 3s; ping 2s; ping_timeout 2s;
    application plain { live on; cache_time 1s; mpegts_cache_time 1s; wait_key off; }
    application direct { live on; }
    application noidle { live on; idle_streams off; cache_time 1s; }
    application hls { live on; hls on; hls_path {dir}/hls; hls_fragment 200ms; hls_playlist_length 1s; }
    application dash { live on; dash on; dash_path {dir}/dash; dash_fragment 200ms; dash_playlist_length 1s; }
    application rec { live on; record all; record_path {dir}/rec; record_unique on; recorder man { record all manual; record_path {dir}/rec; record_suffix -m.flv; } }
    application lrec { live on; mpegts_cache_time 1s; live_record on; live_record_path {dir}/lrec; }
    application mem { live on; cache_time 1s; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_max_fragment 300ms; hls2_playlist_length 600ms; }
    application push { live on; cache_time 1s; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_max_fragment 300ms; hls2_playlist_length 600ms; push rtmp://127.0.0.1:%(port)d app=direct; push rtmp://127.0.0.1:%(dead)d; }
    application pull { live on; cache_time 1s; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_max_fragment 300ms; hls2_playlist_length 600ms; pull rtmp://127.0.0.1:%(port)d app=plain; }
    application deadpull { live on; cache_time 1s; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_max_fragment 300ms; hls2_playlist_length 600ms; pull rtmp://127.0.0.1:%(dead)d app=plain; }
    application hpull { live on; cache_time 1s; mpegts_cache_time 1s; hls2 on; hls2_fragment 200ms; hls2_max_fragment 300ms; hls2_playlist_length 600ms; pull http://127.0.0.1:%(flv)d app=plain; }
    application note { live on; cache_time 1s; on_publish http://127.0.0.1:%(note)d/p stage=start,update,done timeout=1s update=300ms;
        on_play http://127.0.0.1:%(note)d/q stage=start,update,done timeout=1s update=300ms; on_stream http://127.0.0.1:%(note)d/s stage=start,done;
        on_meta http://127.0.0.1:%(note)d/m; }
    application deny { live on; deny publish all; deny play all; }
} }
http { access_log off; client_header_timeout 3s; keepalive_timeout 3s; lingering_close off;
    server { listen %(http)d;
        location / { hls2_live %(port)d; }
        location = /sys { sys_stat; }
        location = /stat { rtmp_stat all; }
        location /control { rtmp_control all; }
        location = /unit { pv_unit; }
    }
    server { listen %(flv)d; location / { flv_live %(port)d; } }
    server { listen %(ts)d; location / { ts_live %(port)d; } } }
"""


def fail(key, text):
    raise Violation("left over: " + key, text)


class Env:
    def __init__(self, c, rng):
        self.c, self.rng = c, rng
        self.port, self.http, self.dead, self.note, self.flv, self.ts = free_ports(6)
        self.answers = ["200 OK"]
        self.n = 0
        self.held = []

    async def start(self):
        self.server = await asyncio.start_server(self.answer, "127.0.0.1", self.note)
        inst = self.c.nginx(CONF % dict(port=self.port, http=self.http, dead=self.dead, note=self.note, flv=self.flv, ts=self.ts), harness=True, wait_ports=[self.port, self.http])
        for d in ("hls", "dash", "rec", "lrec"):
            os.makedirs(f"{inst.dir}/{d}", exist_ok=True)
            os.chmod(f"{inst.dir}/{d}", 0o777)
        inst.start()
        self.inst = inst
        return self

    async def answer(self, rd, wr):
        """The notify server."""
        try:
            await rd.readuntil(b"\r\n\r\n")
            a = self.rng.choice(self.answers)
            self.n += 1
            if a == "hang":
                await asyncio.sleep(3)
            elif a == "half":
                wr.write(b"HTTP/1.1 200 OK\r\nContent-Le")
            elif a != "close":
                wr.write(f"HTTP/1.1 {a}\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok".encode())
                await wr.drain()
        except (OSError, asyncio.IncompleteReadError):
            pass
        wr.close()

    async def stop(self):
        self.server.close()

    def get(self, path, **kw):
        kw.setdefault("headers", {"Connection": "close"})
        return http.Http(self.http, path, **kw).open()

    async def fetch(self, path, **kw):
        h = await self.get(path, **kw)
        try:
            await h.finish(5)
        finally:
            await h.close()
        return h

    async def pub(self, app, name, ms=500, rng=None, **kw):
        g = media.Gen(rng or random.Random(1), fps=25, gop=5, vsize=(100, 2000), asize=(20, 200), **kw)
        p = await live.Pub.start(self.port, app, name, g, want=None)
        p.ok = p.c.result == "NetStream.Publish.Start"
        if p.ok:
            p.meta(width=1)
            p.headers()
            p.run(ms)
            await p.c.drain()
        return p

    async def fed(self, waiting):
        """Wait for something while the publisher that stays sends whole GOPs: what is cached is sent with the next frame."""
        t = asyncio.ensure_future(waiting)
        while True:
            p = self.held[0]
            p.run(p.at + 200)
            await p.c.drain()
            if (await asyncio.wait([t], timeout=0.05))[0]:
                return t.result()

    async def hold(self, app="plain", name="held"):
        """A publisher that stays."""
        p = await self.pub(app, name, 1000)
        await live.sync(p.c)
        self.held.append(p)


# Each operation leaves nothing behind.

async def op_publish(e, app="plain"):
    p = await e.pub(app, "s")
    await live.sync(p.c)
    await p.close()


async def op_publish_abort(e):
    p = await e.pub("plain", "s")
    p.c.raw(b"".join(rtmp.Mux().message(Msg(VIDEO, 0, 1, b"\x17\x01" + bytes(5000), csid=6)))[:700])
    await p.c.drain()
    await p.c.close(abort=True)


async def op_publish_delete(e):
    p = await e.pub("plain", "s")
    p.c.command("deleteStream", 0, None, p.c.msid)
    await asyncio.sleep(0.02)
    await p.c.close()


async def refused(*what):
    for x in what:
        try:
            x = await x
            await asyncio.sleep(0.01)
            await x.close()
        except rtmp.Closed:
            pass


async def op_taken(e):
    await refused(e.pub("plain", "held"))


async def op_deny(e):
    await refused(e.pub("deny", "s"), rtmp.player(e.port, "deny", "held"))


async def op_noidle(e):
    await refused(rtmp.player(e.port, "noidle", "nothing"))
    for u in ("noidle/x", "nosuch/x", "x"):
        for p, t in ((e.flv, ".flv"), (e.ts, ".ts"), (e.http, ".m3u8?session=1")):
            h = await http.Http(p, "/" + u + t).open()
            await asyncio.sleep(0.02)
            await h.close()


async def op_connects(e):
    for k in range(4):
        c = rtmp.Client(port=e.port)
        if k == 0:
            await c.open(handshake=False)
        elif k == 1:
            await c.open(handshake=False)
            c.raw(b"\x03" + bytes(700))
            await c.drain()
        else:
            await c.open()
            if k == 3:
                e.n += 1
                try:
                    await c.connect("plain" if e.n % 2 else "nosuch")
                except rtmp.Closed:
                    pass
        await c.close(abort=k % 2)


async def op_junk(e):
    c = rtmp.Client(port=e.port)
    await c.open()
    await c.connect("plain")
    for m in (Msg(20, 0, 0, b"\x02\x00\x07unknown\x00" + bytes(9), csid=3), Msg(18, 0, 0, b"\x02\x00\x0a@setData", csid=3), Msg(17, 0, 0, b"\x00\x02\x00", csid=3),
              Msg(4, 0, 0, b"\x00\x06\x00\x00\x00\x01", csid=2), Msg(3, 0, 0, b"\x00\x00\x00\x01", csid=2), Msg(99, 0, 0, b"x" * 300, csid=9), Msg(22, 0, 0, bytes(50), csid=9)):
        c.send(m)
    await c.drain()
    await asyncio.sleep(0.05)
    await c.close()


async def op_play(e):
    c = await rtmp.player(e.port, "plain", "held")
    await e.fed(c.wait(lambda m: m.type == VIDEO, 5))
    await c.close()


async def op_play_abort(e):
    c = await rtmp.player(e.port, "plain", "held")
    await c.close(abort=True)


async def op_play_idle(e):
    c = await rtmp.player(e.port, "plain", "nobody")
    await c.close()
    c = await http.FlvPlayer(e.flv, "/plain/nobody.flv").open()
    await c.close()
    c = await http.TsPlayer(e.ts, "/plain/nobody.ts").open()
    await c.close(abort=True)


async def op_play_first(e):
    """Players before and after the publisher, leaving before and after it."""
    cs = [await rtmp.player(e.port, "plain", "s"), await http.FlvPlayer(e.flv, "/plain/s.flv").open(), await http.TsPlayer(e.ts, "/plain/s.ts").open()]
    p = await e.pub("plain", "s")
    cs += [await rtmp.player(e.port, "plain", "s"), await http.FlvPlayer(e.flv, "/plain/s.flv").open(), await http.TsPlayer(e.ts, "/plain/s.ts").open()]
    await live.sync(p.c)
    for k in cs[::2]:
        await k.close(abort=True)
    p.run(700)
    await live.sync(p.c)
    await p.close()
    for k in cs[1::2]:
        await k.close()


async def op_pause(e):
    p = await e.pub("plain", "s")
    c = await rtmp.player(e.port, "plain", "s")
    await live.sync(c)
    c.command("pause", 0, None, True, 0, msid=c.msid)
    await live.sync(c)
    p.run(900)
    await live.sync(p.c)
    c.command("pause", 0, None, False, 0, msid=c.msid)
    await live.sync(c)
    await c.close()
    await p.close()


async def op_flv(e):
    c = await http.FlvPlayer(e.flv, "/plain/held.flv").open()
    await e.fed(c.wait(lambda h: h.received, 5))
    await c.close()


async def op_ts(e):
    c = await http.TsPlayer(e.ts, "/plain/held.ts").open()
    await e.fed(c.wait(lambda h: h.received, 5))
    await c.close(abort=True)


async def op_early(e):
    """Players that leave right after their request; they are gone long before any timeout."""
    for port, ext in ((e.flv, "flv"), (e.ts, "ts")):
        for k in (0, 1):
            x = socket.create_connection(("127.0.0.1", port))
            x.sendall(b"GET /plain/early.%s HTTP/1.1\r\nHost: a\r\n\r\n" % ext.encode())
            if k:
                x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            x.close()


async def op_slow(e):
    p = await e.pub("plain", "s", 100)
    cs = [await rtmp.player(e.port, "plain", "s"), await http.FlvPlayer(e.flv, "/plain/s.flv", rcvbuf=4096).open(), await http.TsPlayer(e.ts, "/plain/s.ts", rcvbuf=4096).open()]
    for c in cs:
        c.task.cancel()
    for k in range(300):
        p.one(VIDEO, 1000 + k * 10, b"\x27\x01\0\0\0" + (20000).to_bytes(4, "big") + b"\x41" + bytes(19999))
        await p.c.drain()
    await live.sync(p.c)
    for c in cs:
        await c.close(abort=True)
    await p.close()


async def op_hls(e):
    await op_publish(e, "hls")


async def op_dash(e):
    await op_publish(e, "dash")


async def op_rec(e):
    p = await e.pub("rec", "s")
    await live.sync(p.c)
    for u in ("start", "stop", "start"):
        await e.fetch(f"/control/record/{u}?srv=default&app=rec&name=s&rec=man")
    p.run(800)
    await live.sync(p.c)
    await p.close()


async def op_lrec(e):
    await op_publish(e, "lrec")


async def op_hls2(e):
    p = await e.pub("mem", "s", 300)
    h = await e.fetch("/mem/s.m3u8")
    url = h.body.decode().split("\n")[2]
    url = url[url.index("/mem/"):]
    h = await e.get(url)
    for k in range(6):
        p.run(500 + k * 200)
        await live.sync(p.c)
    await h.finish(5)
    await h.close()
    seg = [x for x in h.body.decode().split("\n") if ".ts" in x]
    if not seg:
        raise rtmp.RtmpError(f"no segment: {h.status} {bytes(h.body)!r}")
    for s in seg:
        await e.fetch("/mem/" + s)
    h = await e.get("/mem/" + seg[-1], rcvbuf=4096)
    await h.close(abort=True)
    await p.close()
    await asyncio.sleep(2.5)


async def op_push(e):
    p = await e.pub("push", "s")
    c = await rtmp.player(e.port, "direct", "s")
    for k in range(8):
        p.run(600 + k * 100)
        await live.sync(p.c)
        await asyncio.sleep(0.05)
    await p.close()
    await c.close()


async def op_pull(e, app="pull", u="held"):
    c = await rtmp.player(e.port, app, u)
    if app == "pull":
        await e.fed(c.wait(lambda m: m.type == VIDEO, 5))
    else:
        await asyncio.sleep(0.3)
    await c.close()
    h = await http.FlvPlayer(e.flv, f"/{app}/{u}.flv").open()
    if app != "deadpull":
        await e.fed(h.wait(lambda h: h.received, 5))
    await h.close(abort=True)


async def op_hpull(e):
    await op_pull(e, "hpull")


async def op_deadpull(e):
    await op_pull(e, "deadpull")


async def op_note(e):
    e.answers = ["200 OK"]
    p = await e.pub("note", "s")
    c = await rtmp.player(e.port, "note", "s")
    h = await http.FlvPlayer(e.flv, "/note/s.flv").open()
    p.meta(width=2)
    await asyncio.sleep(0.5)
    await c.close()
    await h.close()
    await p.close()


async def op_note_bad(e):
    for a in ("403 Forbidden", "500 Err", "302 Found", "close", "half", "hang"):
        e.answers = [a]

        async def one():
            try:
                p = await e.pub("note", "b" + a[:3])
                await p.close()
            except (rtmp.RtmpError, OSError, asyncio.TimeoutError):
                pass

        async def two():
            try:
                c = await rtmp.player(e.port, "note", "s")
                await asyncio.sleep(0.1)
                await c.close(abort=True)
            except (rtmp.RtmpError, OSError, asyncio.TimeoutError):
                pass

        async def three():
            h = await http.FlvPlayer(e.flv, "/note/s.flv").open()
            await asyncio.sleep(0.1)
            await h.close()
        await asyncio.gather(one(), two(), three())
    await asyncio.sleep(0.3)


async def op_note_leave(e):
    """Clients that go away while the answer is awaited."""
    e.answers = ["hang"]
    c = rtmp.Client(port=e.port)
    await c.open()
    await c.connect("note")
    await c.create_stream()
    c.command("publish", 0, None, "l", "live", msid=1)
    await c.drain()
    d = rtmp.Client(port=e.port)
    await d.open()
    await d.connect("note")
    await d.create_stream()
    d.command("play", 0, None, "l", msid=1)
    await d.drain()
    h = await http.FlvPlayer(e.flv, "/note/l.flv").open()
    t = await http.TsPlayer(e.ts, "/note/l.ts").open()
    await asyncio.sleep(0.1)
    for x in (c, d, h, t):
        await x.close(abort=True)
    await asyncio.sleep(0.1)


async def op_state(e):
    for u in ("/sys", "/stat", "/stat?app=plain", "/stat?x=1"):
        h = await e.fetch(u)
        if h.status != 200 and "?" not in u:
            raise rtmp.RtmpError(f"{u}: {h.status}")


async def op_control(e):
    p = await e.pub("plain", "s")
    c = await rtmp.player(e.port, "plain", "s")
    h = await http.FlvPlayer(e.flv, "/plain/s.flv").open()
    await live.sync(c)
    for u in ("/control/drop/client?srv=none", "/control/x", "/control/record/start?srv=default&app=plain&name=none&rec=x", "/control/drop/client?srv=default&app=plain&name=zz",
              "/control/redirect/client?srv=default&app=plain&name=s", "/control/drop/subscriber?srv=default&app=plain&name=s", "/control/drop/publisher?srv=default&app=plain&name=s"):
        await e.fetch(u)
    await asyncio.sleep(0.05)
    await c.close()
    await h.close()
    await p.close()


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
PEAKS = ("slow",)     # keeps what the highest load needed
HELD = {"taken": "plain", "play": "plain", "play_abort": "plain", "flv": "plain", "ts": "plain", "pull": "plain", "hpull": "plain"}


SOON = {"early": 2.5}     # what is given back before any timeout


async def settle(e, s0, timeout=12):
    """The state, once it is that of before."""
    loop = asyncio.get_running_loop()
    end = loop.time() + timeout
    while True:
        s = await state.get(e.http)
        d = state.diff(s0, s)
        if not d or loop.time() > end:
            return s, d
        await asyncio.sleep(0.1)


async def steady(c, rng, ops, warm, batches, per):
    ops = [k for k in ops if k in os.environ.get("L01_OPS", " ".join(ops)).split()]
    sem = asyncio.Semaphore(8)

    async def one(name):
        try:
            await run(name)
        except (rtmp.RtmpError, OSError, asyncio.TimeoutError) as x:
            raise rtmp.RtmpError(f"operation {name}: {x!r}") from x

    async def run(name):
        async with sem:
            e = await Env(c, random.Random(rng.random())).start()

            async def batch(n):
                if name in HELD:
                    await e.hold(HELD[name])
                for _ in range(n):
                    await OPS[name](e)
                while e.held:
                    await e.held.pop().close()

            slow = name in ("hls2", "note_bad", "slow")
            n = max(2, per // 3) if slow else per
            s0 = await state.get(e.http)
            await batch(1)
            s0, _ = await settle(e, s0)         # what the first of its kind leaves is not judged
            heaps = []
            for k in range(batches + 1):
                await batch(warm if k == 0 and not slow else n)
                s, d = await settle(e, s0, SOON.get(name, 12))
                if d:
                    fail(name, f"after {name} {n} times: {d}")
                heaps.append(s["heap"])
            grow = [b - a for a, b in zip(heaps, heaps[1:])]
            c.saw("operations repeated", n * batches + warm)
            c.saw("states compared", batches)
            if heaps[0] == 0:
                raise rtmp.RtmpError("the heap is not counted")
            more = 0
            while all(g >= n * 8 for g in grow) and more < 4 and name not in PEAKS:
                more += 1       # or is it what a higher peak of load left for reuse?
                await batch(n)
                s, d = await settle(e, s0)
                heaps.append(s["heap"])
                grow.append(heaps[-1] - heaps[-2])
            if more == 4 and grow[-1] >= n * 8:
                fail(f"{name} memory", f"{name}: the heap grew by {grow} bytes in {batches} batches of {n}: {heaps}")
            c.case(("steady", name, tuple(g > 0 for g in grow)), dict(operation=name, times=n * batches, heap=heaps), True)
            await e.stop()
            e.inst.stop()

    res = await asyncio.gather(*(one(k) for k in ops), return_exceptions=True)
    for x in res:
        if isinstance(x, Violation):
            c.fail(x.key, x.text)
    for x in res:
        if isinstance(x, BaseException) and not isinstance(x, Violation):
            raise x


async def mixed(c, rng, seconds, actors):
    e = await Env(c, rng).start()
    await op_publish(e)
    await e.fetch("/sys")
    await asyncio.sleep(0.5)
    s0 = await state.get(e.http)
    e.answers = ["200 OK"] * 6 + ["403 Forbidden", "302 Found", "close", "half", "hang"]
    loop = asyncio.get_running_loop()
    end = loop.time() + seconds
    apps = ("plain", "direct", "noidle", "hls", "dash", "rec", "lrec", "mem", "push", "pull", "hpull", "deadpull", "note", "plain", "push", "note", "mem")
    apps = tuple(os.environ.get("L01_APPS", " ".join(apps)).split())
    done = {}

    async def act():
        app, name = rng.choice(apps), rng.choice("abc")
        kind = rng.choice(os.environ.get("L01_KINDS", "pub pub play play flv ts hls2 control conn state").split())
        if kind == "pub":
            p = await e.pub(app, name, rng.choice((0, 100, 600)), random.Random(rng.random()))
            t = p.at
            for _ in range(rng.randrange(12)):
                if not p.ok or p.c.closed:
                    break
                t += rng.choice((40, 200))
                p.run(t)
                await p.c.drain()
                await asyncio.sleep(rng.choice((0, 0.05, 0.2)))
            if rng.random() < 0.3 and p.ok:
                p.c.raw(b"".join(rtmp.Mux().message(Msg(AUDIO, 0, 1, b"\xaf\x01" + bytes(9000), csid=5)))[:rng.randrange(1, 4000)])
                await p.c.drain()
            await p.c.close(abort=rng.random() < 0.4)
        elif kind == "play":
            x = await rtmp.player(e.port, app, name)
            if rng.random() < 0.3:
                x.task.cancel()
            await asyncio.sleep(rng.choice((0, 0.1, 1)))
            if rng.random() < 0.3:
                x.command("deleteStream", 0, None, x.msid)
            await x.close(abort=rng.random() < 0.4)
        elif kind in ("flv", "ts"):
            x = await (http.FlvPlayer if kind == "flv" else http.TsPlayer)(e.flv if kind == "flv" else e.ts, f"/{app}/{name}.{kind}", rcvbuf=rng.choice((None, 4096))).open()
            if rng.random() < 0.3:
                x.task.cancel()
            await asyncio.sleep(rng.choice((0, 0.1, 1)))
            await x.close(abort=rng.random() < 0.4)
        elif kind == "hls2":
            sid = rng.choice(("", "?session=x", f"?session={rng.randrange(5)}"))
            app = rng.choice([a for a in apps if a in ("mem", "push", "pull", "deadpull", "hpull")] or ["mem"])
            x = await e.get(f"/{app}/{name}.m3u8{sid}")
            await asyncio.sleep(rng.choice((0, 0.3, 1)))
            seg = [u for u in x.body.decode().split("\n") if ".ts" in u]
            await x.close(abort=rng.random() < 0.4)
            for u in seg:
                y = await e.get(f"/{app}/" + u, rcvbuf=rng.choice((None, 4096)))
                await asyncio.sleep(rng.choice((0, 0.1)))
                await y.close(abort=rng.random() < 0.4)
        elif kind == "control":
            u = rng.choice(("drop/publisher", "drop/subscriber", "drop/client", "record/start", "record/stop", "pause/client", "resume/client"))
            app = "rec" if u.startswith("record") else app
            await e.fetch(f"/control/{u}?srv=default&app={app}&name={name}&rec=man")
        elif kind == "conn":
            await op_connects(e)
        else:
            await op_state(e)
        done[kind] = done.get(kind, 0) + 1

    async def actor():
        while loop.time() < end:
            try:
                await asyncio.wait_for(act(), 8)
            except (rtmp.RtmpError, OSError, asyncio.TimeoutError, asyncio.IncompleteReadError):
                c.saw("operations that failed")
            c.saw("operations mixed")

    await asyncio.gather(*(actor() for _ in range(actors)))
    s, d = await settle(e, s0, 25)
    if d:
        h = await e.fetch("/sys")
        fail("a mixed workload", f"after {done}: {d}; {json.loads(h.body).get('live_stream')}")
    c.saw("states compared")
    c.case(("mixed", tuple(sorted(done))), dict(done=done, state=s), True)
    await e.stop()


def scenarios(c):
    names = sorted(OPS)
    yield Scenario("steady", steady, ops=tuple(names), warm=4, batches=c.pick(3, 6), per=c.pick(4, 12))
    for r in range(c.pick(1, 6)):
        yield Scenario(f"mixed#{r}", mixed, seconds=c.pick(10, 40), actors=30)
