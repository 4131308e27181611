"""Limits on connections, message sizes, chunk streams and idle time, and nothing refused below them."""
import asyncio
import os
import re
import struct
import time

from pv import live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, AMF0_META, Client, Msg

ID = "A02"
TITLE = "Limits on connections, message size, chunk streams and idle time hold exactly"
STATEMENT = """No more RTMP clients than the configured maximum are connected at a time over all workers, and after any history of
connections, however they ended, exactly that many can connect again. A message or chunk stream beyond its configured maximum ends the session it
came on, and anything up to the maximum is delivered. A session that stalls in the handshake, stops reading, leaves a ping unanswered
or stops publishing is ended after the configured time, and one that keeps going is not."""
OVER = ("histories", "inputs")
QUANT = "Every sequence of connections and their ends over any number of workers, every message length, every pattern of silence."
WHY = "Counts that leak or wrap, and timers, show only after long histories and real waiting, which no existing test has."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_limit_module.c", "modules/nginx-rtmp-module/ngx_rtmp_handler.c",
         "modules/nginx-rtmp-module/ngx_rtmp_handshake.c", "modules/nginx-rtmp-module/ngx_rtmp_live_module.c",
         "modules/nginx-rtmp-module/ngx_rtmp_init.c"]
MECH = [("connection count", "ngx_rtmp_limit_connect, ngx_rtmp_limit_disconnect"), ("message and chunk stream limits", "ngx_rtmp_recv"),
        ("ping", "ngx_rtmp_ping"), ("idle publishers", "ngx_rtmp_live_idle"), ("stuck readers", "ngx_rtmp_send")]
TECHNIQUE = "stress workload of churning and stalling clients with an online checker of counts, deliveries and times of closing"
NOTE = """Held on the histories run. Workers that die are not covered (their connections stay counted); upper bounds of times
allow for a loaded machine."""
RULE = ("A case is one round of churn after which the number of clients that fit was compared with the limit, one message or chunk "
        "stream at a limit, or one session whose time of closing was checked; distinct by history and value.")


# --- connections
async def try_connect(port, held, deep, name):
    """A connected client, or None if the server turned it away."""
    c = Client("127.0.0.1", port, name)
    try:
        await c.open(handshake=deep > 0)
        if deep == 0:
            # the server reads nothing from a connection it does not want
            try:
                await asyncio.wait_for(c.rd.read(1), 0.25)
                return None
            except asyncio.TimeoutError:
                return c
        if deep > 1:
            await c.connect("live")
            await c.create_stream()
        if deep == 3:
            await c.publish(name)
        elif deep == 4:
            await c.play(name)
            await live.sync(c)
        return c
    except (rtmp.Closed, ConnectionError, asyncio.IncompleteReadError):
        await c.close(abort=True)
        return None


async def connections(c, rng, workers, limit, rounds):
    port = free_ports(1)[0]
    inst = c.nginx(f"worker_processes {workers};\nevents {{ worker_connections 512; }}\nrtmp {{ max_connections {limit};\n"
                   f"server {{ listen {port}{' reuseport' if workers > 1 and rng.random() < 0.5 else ''};"
                   " application live { live on; } } }\n", wait_ports=[port]).start()
    held = {}
    n = 0

    async def fill():
        """Connect until the server refuses; the count must come out as the limit."""
        nonlocal n
        end = time.monotonic() + 15
        refused = 0
        while True:
            n += 1
            k = await try_connect(port, held, rng.choice((1, 1, 2, 3, 4)), f"c{n}")
            if k:
                held[n] = k
                refused = 0
                if len(held) > limit:
                    raise Violation("connections: more clients than the limit", f"{len(held)} connected, limit {limit}")
                continue
            c.saw("connections refused at the limit")
            if len(held) == limit:
                refused += 1
                if refused == 3:
                    return
            elif time.monotonic() > end:
                raise Violation("connections: fewer clients fit than the limit",
                                f"{len(held)} connected, limit {limit}, after {n} connections")
            else:
                await asyncio.sleep(0.02)   # the server may not have noticed yet that others left

    async def leave(k):
        how = rng.choice(("close", "abort", "bad"))
        if how == "bad":
            k.raw(rng.randbytes(50))
            await k.drain()
            await asyncio.sleep(0.01)
        await k.close(abort=how == "abort")
        c.saw(f"left: {how}")

    async def burst():
        """Many connections at once beyond the limit: those let in never exceed it."""
        nonlocal n
        names = list(range(n + 1, n + 1 + 2 * limit))
        n += 2 * limit
        rs = await asyncio.gather(*(try_connect(port, held, rng.choice((1, 2)), f"c{i}") for i in names))
        for i, k in zip(names, rs):
            if k:
                held[i] = k
        alive = {i: k for i, k in held.items() if not k.closed}
        if len(alive) > limit:
            await asyncio.sleep(0.3)
            m = sum(not k.closed for k in alive.values())
            if m > limit:
                raise Violation("connections: more clients than the limit", f"{m} connected at once, limit {limit}")
        await asyncio.sleep(0.1)
        c.saw("bursts beyond the limit")

    async def half():
        """Connections that never complete the handshake count, and stop counting when they end."""
        for _ in range(rng.randrange(1, 4)):
            k = await try_connect(port, held, 0, "half")
            if k:
                if rng.random() < 0.5:
                    k.raw(b"\3" + bytes(rng.randrange(0, 1600)))
                    await asyncio.sleep(0.01)
                await k.close(abort=rng.random() < 0.5)
                c.saw("connections ended in the handshake")

    for r in range(rounds):
        await fill()
        c.case((workers, limit, r, n), dict(workers=workers, limit=limit, connections_so_far=n) if r == 1 else None)
        for i in rng.sample(sorted(held), rng.randrange(1, limit + 1)):
            await leave(held.pop(i))
        for i in [i for i, k in held.items() if k.closed]:
            raise Violation("connections: a connected client was dropped", f"{held[i].name}: {held[i].error}")
        for _ in range(rng.randrange(3)):
            await (half if rng.random() < 0.5 else burst)()
        for i in [i for i, k in held.items() if k.closed]:
            held.pop(i)
    for k in held.values():
        await k.close()


# --- messages and chunk streams
async def messages(c, rng, n):
    port = free_ports(1)[0]
    limit = rng.choice((300, 1000, 4096, 65536, 1 << 20))
    streams = rng.choice((8, 32, 64, 65, 320, 1000))
    inst = c.nginx("worker_processes 1;\nevents { worker_connections 512; }\nrtmp { server { "
                   f"listen {port}; max_message {limit}; max_streams {max(streams, 10)}; application live {{ live on; wait_key off; }} }} }}\n",
                   wait_ports=[port]).start()
    streams = max(streams, 10)
    for i in range(n):
        p = await live.Pub.start(port, "live", f"s{i}", chunk=rng.choice((None, 128, 1000, 70000)))
        s = await rtmp.player(port, "live", f"s{i}")
        await live.sync(s)
        k = rng.choice(("len", "len", "csid"))
        if k == "len":
            size = rng.choice((limit - 1, limit, limit, limit + 1, limit + rng.randrange(2, 200), rng.randrange(1, limit)))
            csid = 6
        else:
            size = min(limit, 200)
            csid = rng.choice((streams - 1, streams, streams + 1, streams - 2, streams + rng.randrange(2, 50), rng.randrange(3, streams)))
            csid = max(3, csid)
        body = b"\x27\1\0\0\0" + rng.randbytes(max(0, size - 5))
        body = body[:size]
        ok = size <= limit and csid < streams
        m = Msg(VIDEO, 40, p.c.msid, body, csid)
        p.c.send(Msg(VIDEO, 0, p.c.msid, media.avc_frame(i + 1, True, rng, 50), 6))
        if ok or rng.random() < 0.5:
            p.c.send(m)
        else:
            # the announcement of the message is enough
            p.c.raw(p.c.mux.message(m)[0][:40])
        await p.c.drain()
        what = f"{k}: message of {size} (limit {limit}) on chunk stream {csid} (limit {streams})"
        if ok:
            if size > 5:
                try:
                    await s.wait(lambda x: x.type == VIDEO and x.data == body, 15)
                except asyncio.TimeoutError:
                    raise Violation("messages: one within the limits was not delivered", what)
            await live.sync(p.c)
        else:
            try:
                await live.sync(p.c)
                raise Violation("messages: one beyond the limits did not end its session", what)
            except asyncio.TimeoutError:
                raise Violation("messages: one beyond the limits did not end its session", what)
            except rtmp.Closed:
                pass
            if any(x.type == VIDEO and x.ts == 40 for x in s.msgs):
                raise Violation("messages: one beyond the limits was delivered", what)
        c.case((limit, streams, k, size, csid), dict(message=size, limit=limit, csid=csid, streams=streams, ended=not ok)
               if i < 2 else None, abs(size - limit) < 3 or abs(csid - streams) < 3)
        c.saw("messages within the limits delivered" if ok else "sessions ended by a message beyond the limits")
        await p.close()
        await s.close()


# --- time
SLACK = 12.0


class Clock:
    def __init__(self, c, what, lo, hi):
        self.c, self.what, self.lo, self.hi = c, what, lo, hi
        self.t0 = time.monotonic()

    def done(self):
        t = time.monotonic() - self.t0
        if t < self.lo - 0.1:
            raise Violation(f"time: {self.what} ended too early", f"after {t:.2f} s, allowed from {self.lo:.2f} s")
        self.c.case((self.what, self.lo), dict(what=self.what, closed_after=round(t, 2), earliest=self.lo), True)
        self.c.saw(f"ended in time: {self.what}")


async def closing(k, timeout):
    end = time.monotonic() + timeout
    while not k.closed:
        if time.monotonic() > end:
            return False
        await asyncio.sleep(0.02)
    return True


async def times(c, rng, n):
    """Stalled sessions are ended in time, busy ones beside them stay."""
    port, port2 = free_ports(2)
    T = rng.choice((0.8, 1.2, 2.0))            # timeout
    ping, pto = rng.choice(((0.7, 1.0), (1.0, 1.5), (1.5, 0.8)))
    idle = rng.choice((0.6, 1.0, 1.7))
    ms = lambda x: f"{int(x * 1000)}ms"
    conf = "worker_processes 1;\nevents { worker_connections 512; }\nrtmp {\n"
    conf += (f"server {{ listen {port}; timeout {ms(T)}; ping 0; out_queue 4096; application live {{ live on; wait_key off; }}\n"
             f" application idle {{ live on; idle_streams on; drop_idle_publisher {ms(idle)}; }} }}\n")
    conf += f"server {{ listen {port2}; ping {ms(ping)}; ping_timeout {ms(pto)}; application live {{ live on; idle_streams on; }} }}\n}}\n"
    inst = c.nginx(conf, wait_ports=[port, port2]).start()

    async def handshake(i):
        k = Client("127.0.0.1", port, f"hs{i}")
        await k.open(handshake=False)
        part = rng.choice((1, 2, 700, 1536, 1537, 2000, 3072))
        k.raw((b"\3" + bytes(8) + os.urandom(1528) + bytes(1536))[:part])
        await k.drain()
        clk = Clock(c, "a session stalled in the handshake", T, T + SLACK)
        try:
            while await asyncio.wait_for(k.rd.read(4096), T + SLACK):
                pass
        except asyncio.TimeoutError:
            raise Violation("time: a session stalled in the handshake was not ended", f"{T + SLACK} s after {part} bytes, timeout {T}")
        except ConnectionError:
            pass
        clk.done()
        await k.close()

    async def slow_handshake():
        """Parts that come within the timeout of each other complete it."""
        k = Client("127.0.0.1", port, "slow hs")
        await k.open(handshake=False)
        hs = b"\3" + bytes(8) + os.urandom(1528)
        at = 0
        try:
            for j in range(5):
                nx = len(hs) if j == 4 else at + rng.randrange(1, 380)
                k.raw(hs[at:nx])
                at = nx
                await k.drain()
                await asyncio.sleep(T * 0.45)
            s = await asyncio.wait_for(k.rd.readexactly(3073), 10)
        except (asyncio.IncompleteReadError, ConnectionError):
            raise Violation("time: a session was ended in a handshake that went on", f"timeout {T}")
        c.case(("slow handshake", T), None, True)
        c.saw("slow handshakes completed")
        await k.close()

    async def silent():
        """A connected session that sends nothing is not ended where ping is off."""
        k = await rtmp.player(port, "idle", "nothing")
        await live.sync(k)
        await asyncio.sleep(3 * max(T, idle))
        if k.closed:
            raise Violation("time: a silent player was ended", f"timeout {T}, ping off")
        await live.sync(k)
        c.case(("silent player", T), None, True)
        c.saw("silent players that stay")
        await k.close()

    async def reader():
        """A player that stops reading is ended, its stream and another player are not harmed."""
        p = await live.Pub.start(port, "live", "big", gen=media.Gen(rng, fps=25, gop=25, vsize=(30000, 60000)), chunk=60000)
        good = await rtmp.player(port, "live", "big")
        await live.sync(good)
        k = await Client("127.0.0.1", port, "stuck").open(rcvbuf=8192)
        await k.connect("live")
        await k.create_stream()
        await k.play("big")
        await live.sync(k)
        k.paused = asyncio.Event()
        p.headers()
        stop = False
        got0 = len(good.msgs)

        async def feed():
            while not stop:
                p.run(p.at + 40)
                await p.c.drain()
                await asyncio.sleep(0.01)

        t = asyncio.create_task(feed())
        clk = Clock(c, "a session that stopped reading", T, 60)
        log = lambda: re.search(r"\*\d+ client timed out", open(inst.log, errors="replace").read())
        end = time.monotonic() + 40
        try:
            while not log():
                if time.monotonic() > end:
                    raise Violation("time: a session that stopped reading was not ended", f"40 s, timeout {T}, {p.at} ms published")
                await asyncio.sleep(0.1)
        finally:
            stop = True
            await t
        clk.done()
        k.paused.set()
        if not await closing(k, 20):
            raise Violation("time: a session that stopped reading was not closed", f"timeout {T}")
        await live.sync(p.c)
        await live.until_last(good, p)
        if good.closed or p.c.closed:
            raise Violation("time: a session was ended for another that stopped reading", "")
        await p.close()
        await good.close()

    async def pings(i):
        """No answer to a ping ends the session; an answer or any data keeps it."""
        kind = rng.choice(("dead", "pong", "data", "late"))
        k = await rtmp.player(port2, "live", f"quiet{i}")
        await live.sync(k)
        k.pong = kind in ("pong",)
        clk = Clock(c, "a session that left a ping unanswered", ping + pto, ping + pto + SLACK)
        n0 = sum(m.type == rtmp.USER and m.data[:2] == b"\0\6" for m in k.msgs)
        if kind == "dead":
            if not await closing(k, clk.hi):
                raise Violation("time: a session that left a ping unanswered was not ended",
                                f"{clk.hi:.1f} s, ping {ping}, timeout {pto}")
            clk.done()
        else:
            end = time.monotonic() + 3 * (ping + pto)
            while time.monotonic() < end:
                await asyncio.sleep(min(ping, pto) * 0.4)
                if kind == "data":
                    k.send(Msg(rtmp.ACK, 0, 0, struct.pack(">I", k.demux.nbytes), 2))
                    await k.drain()
                elif kind == "late":
                    # answers each ping, some time later
                    seen = [m for m in k.msgs if m.type == rtmp.USER and m.data[:2] == b"\0\6"]
                    for m in seen[n0:]:
                        k.send(Msg(rtmp.USER, 0, 0, b"\0\7" + m.data[2:6], 2))
                    n0 = len(seen)
                if k.closed:
                    raise Violation(f"time: a session that goes on ({kind}) was ended by the ping", f"ping {ping}, timeout {pto}")
            npings = sum(m.type == rtmp.USER and m.data[:2] == b"\0\6" for m in k.msgs)
            if kind != "data" and npings < 2:
                raise Violation("time: a silent session was not pinged", f"{npings} pings in {3 * (ping + pto):.1f} s, ping {ping}")
            c.case(("ping", kind, ping, pto), None, True)
            c.saw(f"sessions kept by the ping: {kind}")
            c.saw("pings", npings)
        await k.close()

    async def idle_pub(i):
        kind = rng.choice(("stop", "stop", "go", "audio"))
        p = await live.Pub.start(port, "idle", f"i{i}", gen=media.Gen(rng, fps=25, gop=25, vsize=(50, 300)))
        s = await rtmp.player(port, "idle", f"i{i}")
        p.headers()
        p.run(rng.randrange(40, 400))
        await p.c.drain()
        if kind == "stop":
            await live.sync(p.c)
            clk = Clock(c, "a publisher that stopped sending", idle, idle + SLACK)
            clk.t0 -= 0.2
            while not p.c.closed and time.monotonic() - clk.t0 < idle + SLACK:
                # commands are no media
                p.c.send(Msg(rtmp.ACK, 0, 0, bytes(4), 2))
                await asyncio.sleep(idle * 0.3)
            if not p.c.closed:
                raise Violation("time: a publisher that stopped sending was not ended", f"{idle + SLACK} s, limit {idle}")
            clk.lo -= 0.2
            clk.done()
            if s.closed:
                raise Violation("time: a player was ended with an idle publisher", "")
        else:
            end = time.monotonic() + 4 * idle
            while time.monotonic() < end:
                await asyncio.sleep(idle * 0.4)
                if kind == "audio":
                    p.at += 40
                    p.c.av(AUDIO, p.at, b"\xaf\1" + rng.randbytes(20))
                else:
                    p.run(p.at + 40)
                await p.c.drain()
                if p.c.closed:
                    raise Violation(f"time: a publisher that goes on ({kind}) was ended", f"limit {idle}")
            c.case(("idle", kind, idle), None, True)
            c.saw(f"publishers kept: {kind}")
        await p.close()
        await s.close()

    jobs = [handshake(i) for i in range(3)] + [slow_handshake(), silent(), reader()]
    jobs += [pings(i) for i in range(6)] + [idle_pub(i) for i in range(6)]
    await asyncio.gather(*jobs)


def scenarios(c):
    for i in range(c.pick(5, 30)):
        w = (1, 2, 4)[i % 3]
        yield Scenario(f"connections#{i}", connections, workers=w, limit=(3, 7, 12, 1, 20)[i % 5], rounds=c.pick(6, 12))
    for i in range(c.pick(3, 16)):
        yield Scenario(f"messages#{i}", messages, n=25)
    for i in range(c.pick(2, 12)):
        yield Scenario(f"times#{i}", times, n=1)
