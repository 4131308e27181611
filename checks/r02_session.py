"""Handshake, acknowledgements and pings."""
import asyncio
import hashlib
import hmac
import os
import random
import struct

from pv import amf, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import ACK, AMF0_CMD, AUDIO, USER, VIDEO, WIN_ACK, Demux, Msg

ID = "R02"
TITLE = "Handshakes succeed however cut, windows are acknowledged, dead peers found"
STATEMENT = """Every client whose handshake follows the plain or the signed form gets the matching answer, with correct signatures, however its bytes are cut, delayed or sent ahead;
the server's own relay sessions sign and answer likewise, and a peer that announces another version or stops in the middle is ended in time.
Once a client has announced a window, each acknowledgement states the exact number of bytes received and none is overdue.
A silent peer that answers no ping is ended when the configured times have passed, and one that answers or sends is not."""
OVER = ("inputs", "schedules", "histories")
QUANT = "All handshake contents of both forms, all cuts of the byte stream, all window sizes and amounts of data, all times at which peers stop."
WHY = "The tests use one library's handshake, sent at once, and announce no window."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_handshake.c", "modules/nginx-rtmp-module/ngx_rtmp_handler.c", "modules/nginx-rtmp-module/ngx_rtmp_receive.c",
         "modules/nginx-rtmp-module/ngx_rtmp_init.c", "modules/nginx-rtmp-module/ngx_rtmp_send.c"]
MECH = [("handshake", "ngx_rtmp_handshake_recv, ngx_rtmp_handshake_send, ngx_rtmp_find_digest, ngx_rtmp_write_digest"),
        ("acknowledgement", "ngx_rtmp_recv, ngx_rtmp_send_ack"), ("ping", "ngx_rtmp_ping, ngx_rtmp_reset_ping, ngx_rtmp_user_message_handler")]
TECHNIQUE = "independent implementation of both handshakes on both sides; online checkers of acknowledgement numbers and of the times at which peers are ended"
NOTE = "The response of a relay session to a plain handshake is not judged; the 32-bit wrap of the byte counter is not reached."
RULE = ("A case is one handshake, one acknowledgement window or one ping history that was judged; non-trivial when it was cut, signed or had a deadline; distinct by form, cuts and amounts.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp { 
  server { listen %(port)d; chunk_size 4096; ack_window %(window)d; timeout 1500ms; ping 60s;
    application live { live on; wait_key off; }
    application push { live on; push rtmp://127.0.0.1:%(peer)d app=x; } }
  server { listen %(pport)d; chunk_size 4096; ping 600ms; ping_timeout 500ms;
    application live { live on; wait_key off; } }
}
"""
SUF = bytes.fromhex("F0EEC24A8068BEE82E00D0D1029E7E576EEC5D2D29806FAB93B8E636CFEB31AE")
SRV = b"Genuine Adobe Flash Media Server 001"
CLI = b"Genuine Adobe Flash Player 001"


def fail(key, text):
    raise Violation("session: " + key, text)


def mac(key, data):
    return hmac.new(key, data, hashlib.sha256).digest()


def sign(b, base, key):
    """b: 1536 bytes; the digest for the scheme at base is put into it."""
    off = sum(b[base:base + 4]) % 728 + base + 4
    d = mac(key, b[:off] + b[off + 32:])
    return b[:off] + d + b[off + 32:], d


def find(b, key):
    for base in (772, 8):
        off = sum(b[base:base + 4]) % 728 + base + 4
        if mac(key, b[:off] + b[off + 32:]) == b[off:off + 32]:
            return b[off:off + 32]
    return None


def cuts(rng, n, k):
    """Sizes of the pieces of n bytes."""
    at = sorted(set(rng.choice((1, 1535, 1536, 1537, 1538, 3071, 3072, 3073, 3074, rng.randrange(1, n))) for _ in range(k)) & set(range(1, n)))
    return [b - a for a, b in zip([0] + at, at + [n])]


async def trickle(rng, wr, data, k):
    i = 0
    pieces = cuts(rng, len(data), k)
    for n in pieces:
        wr.write(data[i:i + n])
        i += n
        await wr.drain()
        await asyncio.sleep(rng.choice((0, 0, 0.001, 0.01)))
    return tuple(pieces)


class World:
    def __init__(self, c, rng, window=5000000):
        self.c, self.rng = c, rng
        self.port, self.pport, self.peer = free_ports(3)
        self.inst = c.nginx(CONF % dict(port=self.port, pport=self.pport, peer=self.peer, window=window), debug=os.environ.get("R02_DEBUG", "info"), wait_ports=[self.port])
        self.inst.start()


def rnd(rng, n):
    return rng.randbytes(n)


async def handshakes(c, rng, n):
    w = World(c, rng)
    connect = amf.encs("connect", 1.0, dict(app="live", tcUrl="rtmp://127.0.0.1/live"))
    mux = rtmp.Mux()
    first = b"".join(mux.message(Msg(AMF0_CMD, 0, 0, connect, 3)))

    async def one(k):
        rng = random.Random((w.inst.dir, k, c.seed).__repr__())
        form = rng.choice(("plain", "plain", "signed8", "signed772", "broken", "version0"))
        c1 = rnd(rng, 4) + (b"\0\0\0\0" if form in ("plain",) else rng.choice((bytes([rng.randrange(1, 256), 0, rng.randrange(256), 2]), bytes([0, 0, rng.randrange(256), 2]), bytes([0, 9, 0, 0]), bytes([1, 0, 0, 0]))) if form != "version0" else b"\0\0\0\0") + rnd(rng, 1528)
        if rng.random() < 0.2:
            # extreme positions of the digest
            v = rng.choice((b"\0\0\0\0", b"\xff\xff\xff\xff", b"\xb5\xb6\xb6\xb6", b"\xb6\xb6\xb6\xb6", b"\xff\xff\xd9\0"))
            base = 772 if form == "signed772" else 8
            c1 = c1[:base] + v + c1[base + 4:]
        dig = None
        if form.startswith("signed"):
            c1, dig = sign(c1, int(form[6:]), CLI)
            if form == "signed8" and find(c1, CLI) != dig:
                return
        rd, wr = await asyncio.open_connection("127.0.0.1", w.port)
        ahead = rng.choice((0, 0, 0, 1, 2))
        c2 = rnd(rng, 1536)
        data = b"\x03" + c1
        rest = c2 + first
        if ahead == 1:
            data, rest = data + c2[:rng.choice((1, 100, 1536))], None
            rest = c2[len(data) - 1537:] + first
        elif ahead == 2:
            data, rest = data + c2 + first, b""
        try:
            pieces = await trickle(rng, wr, data, rng.choice((0, 0, 1, 3, 10)))
            try:
                a = await asyncio.wait_for(rd.readexactly(3073), 10)
            except asyncio.IncompleteReadError as e:
                fail("a valid handshake was refused", f"{form} in {pieces}: {len(e.partial)} bytes of the answer")
            except asyncio.TimeoutError:
                fail("a valid handshake was not answered", f"{form} in {pieces}, {ahead}")
            s1, s2 = a[1:1537], a[1537:]
            if a[0] != 3:
                fail("wrong version in the answer", f"{a[0]}")
            d = find(s1, SRV)
            if d is None:
                fail("the answer's first part is not signed correctly", f"{form}: {s1[:16].hex()}")
            if dig:
                key = mac(SRV + SUF, dig)
                if mac(key, s2[:-32]) != s2[-32:]:
                    fail("the answer to a signed handshake is not signed correctly", f"{form} in {pieces}")
            elif s2 != c1:
                fail("the answer to a plain handshake is not what the client sent", f"{form} in {pieces}: first difference at {next(i for i in range(1536) if s2[i] != c1[i])}")
            if rest:
                pieces += await trickle(rng, wr, rest, rng.choice((0, 1, 4)))
            dm = Demux()
            ok = False
            try:
                while not ok:
                    x = await asyncio.wait_for(rd.read(65536), 10)
                    if not x:
                        fail("the session after a valid handshake was ended", f"{form} in {pieces}, ahead {ahead}")
                    for m in dm.feed(x):
                        v = rtmp.Client.is_cmd(m, "_result")
                        ok = ok or bool(v)
            except asyncio.TimeoutError:
                fail("the first command after the handshake was not answered", f"{form} in {pieces}, ahead {ahead}")
            c.saw(f"handshakes {form}")
            c.case((form, pieces, ahead), dict(form=form, pieces=list(pieces)[:8]) if k < 3 else None, len(pieces) > 1 or dig is not None)
        finally:
            wr.close()

    async def bad(k):
        """Another version, or an end in the middle."""
        rng = random.Random((w.inst.dir, k, c.seed).__repr__())
        rd, wr = await asyncio.open_connection("127.0.0.1", w.port)
        t0 = asyncio.get_running_loop().time()
        if k % 2:
            wr.write(bytes([rng.choice((0, 1, 2, 4, 6, 31, 32, 255))]) + rnd(rng, 1536))
            x = await asyncio.wait_for(rd.read(10), 10)
            if x:
                fail("another version was answered", repr(x))
            c.saw("handshakes of other versions")
        else:
            n = rng.choice((0, 1, 1000, 1536, 1537, 2000, 3072))
            wr.write((b"\x03" + rnd(rng, 3072))[:n])
            try:
                while True:
                    x = await asyncio.wait_for(rd.read(10000), 8)
                    if not x:
                        break
            except asyncio.TimeoutError:
                fail("a handshake that stopped in the middle is not ended", f"after {n} bytes")
            dt = asyncio.get_running_loop().time() - t0
            if dt < 1.3:
                fail("a slow handshake was ended too early", f"after {n} bytes, {dt:.2f} s of 1.5 s")
            c.saw("handshakes that stopped")
        c.case(("bad", k), None, True)
        wr.close()
    for i in range(0, n, 20):
        await asyncio.gather(*(one(k) for k in range(i, i + 20)))
    await asyncio.gather(*(bad(k) for k in range(14)))


async def relays(c, rng, n):
    """The server as a client: its signature, its answer to ours, and its first command."""
    w = World(c, rng)
    got = asyncio.Queue()

    async def peer(rd, wr):
        rng = random.Random((len(c.samples), id(rd)).__repr__())
        try:
            a = await asyncio.wait_for(rd.readexactly(1537), 10)
            form = w.form
            c1 = a[1:]
            d = find(c1, CLI)
            s1 = rnd(rng, 4) + (b"\0\0\0\0" if form == "plain" else b"\x04\5\0\1") + rnd(rng, 1528)
            dig = None
            if form.startswith("signed"):
                s1, dig = sign(s1, int(form[6:]), SRV)
                if find(s1, SRV) != dig:
                    s1, dig = sign(s1[:776] + b"\1" + s1[777:], int(form[6:]), SRV)
            s2 = c1
            if form.startswith("signed") and d:
                s2 = rnd(rng, 1504)
                s2 += mac(mac(SRV + SUF, d), s2)
            pieces = await trickle(rng, wr, b"\x03" + s1 + s2, rng.choice((0, 1, 4, 10)))
            c2 = await asyncio.wait_for(rd.readexactly(1536), 10)
            dm = Demux()
            first = None
            while not first:
                x = await asyncio.wait_for(rd.read(65536), 10)
                if not x:
                    break
                for m in dm.feed(x):
                    v = rtmp.Client.is_cmd(m)
                    first = first or (v and v[0])
            ok2 = dig is None or mac(mac(CLI + SUF, dig), c2[:-32]) == c2[-32:]
            await got.put((form, pieces, a[0], d is not None, ok2, first))
        except (OSError, asyncio.IncompleteReadError, asyncio.TimeoutError) as e:
            await got.put((w.form, (), 0, False, False, repr(e)))
        wr.close()
    srv = await asyncio.start_server(peer, "127.0.0.1", w.peer)
    for k in range(n):
        w.form = rng.choice(("plain", "signed8", "signed772", "broken"))
        p = await rtmp.publisher(w.port, "push", f"p{k}")
        p.av(VIDEO, 0, media.avc_header())
        await p.drain()
        form, pieces, ver, sig, ok2, first = await asyncio.wait_for(got.get(), 30)
        if ver != 3 or not sig:
            fail("a relay's handshake is not signed correctly", f"{form}: version {ver} {first}")
        if not ok2:
            fail("a relay's answer to a signed handshake is not signed correctly", f"{form} in {pieces}")
        if first != "connect":
            fail("a relay session does not go on after the handshake", f"{form} in {pieces}: {first!r}")
        c.saw("relay handshakes")
        c.case(("relay", form, pieces), dict(form=form) if k == 0 else None, True)
        await p.close()
        while not got.empty():
            got.get_nowait()
    srv.close()


async def acks(c, rng, n):
    window = rng.choice((100000, 2500000, 5000000))
    w = World(c, rng, window)
    for k in range(n):
        # tx counts what follows the handshake
        x = await rtmp.publisher(w.port, "live", f"a{k}")
        if x.window != window:
            fail("wrong window announced", f"{x.window} of {window}")
        y = await rtmp.player(w.port, "live", f"a{k}")
        y.auto_ack = False
        size = rng.choice((1, 100, 1000, 5000, 70000, 300000))
        x.auto_ack = False
        before = x.tx
        x.send(Msg(WIN_ACK, 0, 0, struct.pack(">I", size), 2))
        x.set_chunk_size(65536)
        ts = 0
        for _ in range(rng.choice((5, 40))):
            for _ in range(rng.choice((1, 5))):
                ts += 10
                x.av(rng.choice((VIDEO, AUDIO)), ts, b"\x27\1\0\0\0" + rnd(rng, rng.choice((10, 200, 3000, 40000))) if rng.random() < 0.7 else b"\xaf\1" + rnd(rng, 50))
            if rng.random() < 0.4:
                await x.drain()
                await asyncio.sleep(rng.choice((0, 0.001, 0.005)))
            if rng.random() < 0.1:
                size = rng.choice((50, 1000, 20000, 300000))
                x.send(Msg(WIN_ACK, 0, 0, struct.pack(">I", size), 2))
        # everything is received
        await live.sync(x)
        await live.sync(x)
        await asyncio.sleep(0.02)
        tot = x.tx
        last = 0
        for v, sent in x.acks:
            if v > sent:
                fail("an acknowledgement of bytes never sent", f"{v} of {sent}")
            if v <= last:
                fail("acknowledgements do not increase", f"{v} after {last}")
            last = v
        if tot - last >= size + 200 and tot - before > size:
            # the last commands' own bytes may be the missing ones
            fail("a window was not acknowledged", f"{tot} bytes sent, {last} acknowledged, window {size}; {x.acks[-3:]}")
        # exact: what is acknowledged ends where a read ended; send a known amount and look
        x.send(Msg(WIN_ACK, 0, 0, struct.pack(">I", 1), 2))
        for _ in range(5):
            await x.drain()
            await asyncio.sleep(0.02)
            x.av(AUDIO, ts, b"\xaf\1" + rnd(rng, rng.choice((20, 400))))
            await x.drain()
            for _ in range(200):
                if x.acks and x.acks[-1][0] == x.tx:
                    break
                await asyncio.sleep(0.01)
            else:
                fail("an acknowledgement does not state the bytes received", f"{x.tx} bytes sent, acknowledged {[a for a, _ in x.acks[-4:]]}")
            c.saw("exact acknowledgements")
        if y.acks:
            fail("an acknowledgement without a window", f"{y.acks[:2]}")
        c.saw("acknowledgements", len(x.acks))
        c.case(("ack", size, tot), dict(window=size, bytes=tot, acks=len(x.acks)) if k < 2 else None, bool(x.acks))
        await x.close()
        await y.close()


async def pings(c, rng, n):
    w = World(c, rng)
    loop = asyncio.get_running_loop()

    async def one(k):
        kind = ("silent", "answers", "sends", "late", "asks")[k % 5]
        await asyncio.sleep(k * 0.03)
        name = f"g{k}"
        x = await (rtmp.publisher if kind == "sends" or k % 2 else rtmp.player)(w.pport, "live", name)
        x.pong = kind in ("answers", "asks")
        await live.sync(x)
        t0 = loop.time()
        end = t0 + 4
        ts = 0
        asked = []
        pinged = 0
        while loop.time() < end and not x.closed:
            await asyncio.sleep(0.1)
            if kind == "sends" and x.msid:
                ts += 100
                x.av(AUDIO, ts, b"\xaf\1" + rnd(rng, 10))
                await x.drain()
            if kind == "asks":
                v = rng.randrange(1 << 32)
                asked.append(v)
                x.send(Msg(USER, 0, 0, b"\0\6" + struct.pack(">I", v), 2))
                await x.drain()
            if kind == "late" and loop.time() - t0 > 1.9:
                x.pong = False
            elif kind == "late":
                x.pong = True
        life = loop.time() - t0
        nping = sum(m.type == USER and m.data[:2] == b"\0\6" for m in x.msgs)
        if kind in ("answers", "sends", "asks"):
            if x.closed:
                fail("a live peer was ended", f"{kind}: after {life:.2f} s, {nping} pings, {x.error!r}")
            if kind == "answers" and not 3 <= nping <= 7:
                fail("wrong number of pings", f"{nping} in 4 s of one in 600 ms")
        else:
            lo, hi = (1.0, 2.6) if kind == "silent" else (2.3, 4.0)
            if not x.closed:
                fail("a dead peer was not ended", f"{kind}: after {life:.2f} s, {nping} pings")
            if life < lo:
                fail("a peer was ended before its time", f"{kind}: after {life:.2f} s, {nping} pings")
            if life > hi + c.slack if hasattr(c, "slack") else life > hi:
                fail("a dead peer was ended late", f"{kind}: after {life:.2f} s")
        if asked:
            for _ in range(100):
                got = [struct.unpack(">I", m.data[2:6])[0] for m in x.msgs if m.type == USER and m.data[:2] == b"\0\7"]
                if got == asked:
                    break
                await asyncio.sleep(0.02)
            else:
                fail("pings are not answered", f"asked {len(asked)}, answers {len(got)}; {got[:3]} {asked[:3]}")
        c.saw(f"ping histories {kind}")
        c.case(("ping", kind, k), dict(kind=kind, lived=round(life, 2), pings=nping) if k < 5 else None, True)
        await x.close()
    await asyncio.gather(*(one(k) for k in range(n)))


def scenarios(c):
    for r in range(c.pick(2, 10)):
        yield Scenario(f"handshakes#{r}", handshakes, n=c.pick(200, 800))
    yield Scenario("relays", relays, n=c.pick(30, 150))
    for r in range(c.pick(2, 10)):
        yield Scenario(f"acks#{r}", acks, n=c.pick(8, 30))
    for r in range(c.pick(1, 6)):
        yield Scenario(f"pings#{r}", pings, n=c.pick(20, 40))
