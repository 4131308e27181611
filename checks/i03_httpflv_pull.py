"""Pulling a stream over HTTP-FLV."""
import asyncio

from checks import i02_relay as i02
from pv import http, origin, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports

ID = "I03"
TITLE = "A stream pulled over HTTP-FLV reaches the players whatever the server does"
STATEMENT = """While a stream that is pulled over HTTP-FLV has players and no local publisher, exactly one request for it, with the configured names, is open at one of the pull's servers, replaced soon after it fails or stays unanswered.
However the response is chunked and split, players get its frames from a key frame on, each once, in order and unchanged with their headers; when it breaks off, carries what is no FLV, or has an error status, nothing but complete frames was passed on.
No request outlives the last player."""
OVER = ("inputs", "schedules", "faults")
QUANT = "Every way a response is chunked, split, ended or corrupted, every failure of the servers, and every order of players coming and going."
WHY = "HTTP relays have no test; the parser keeps its state across arbitrary splits of the response."
FILES = ["modules/nginx-rtmp-module/ngx_live_relay_httpflv.c", "modules/nginx-client-module/ngx_http_client.c",
         "modules/nginx-client-module/ngx_client.c", "modules/nginx-rtmp-module/ngx_live_relay_simple.c"]
MECH = [("request", "ngx_live_relay_httpflv_send_request"), ("response", "ngx_live_relay_httpflv_recv, ngx_http_client_read_body"),
        ("FLV parser", "ngx_live_relay_httpflv_parse"), ("end", "ngx_live_relay_httpflv_cleanup")]
TECHNIQUE = "random walks with scripted HTTP servers, responses cut and corrupted at random places, online and offline checkers of players' streams, under ASan"
NOTE = "Servers are this check's own; one worker process; a response status other than 200 ends the players (by design)."
RULE = ("A case is one player's stream from one response judged, or one corrupt response survived; non-trivial when it carried frames; "
        "distinct by player, parameters, frames, corruption and how it ended.")


class HttpPull(i02.Pull):
    def asked(self, peer):
        par = self.r.par
        args = par.get("pargs", self.args)
        want = f"GET /{par.get('app', self.app)}/{par.get('name', self.name)}{'?' + args if args else ''} HTTP/1.1"
        if peer.request != want:
            self.fail("names: another request", f"{peer.request!r}, expected {want!r}")
        hd = {"host": par.get("domain", "127.0.0.1"), "user-agent": par.get("user_agent", ("LNX 9,0,124,2", "")),
              "referer": par.get("referer", (self.connect.get("pageUrl", ""), ""))}
        for k, v in hd.items():
            g = peer.headers.get(k, "")
            if g != v if isinstance(v, str) else g not in v:
                self.fail("names: another header", f"{k}: {g!r}, expected {v!r}")
        self.c.case(("names", want, hd["host"]), dict(kind="names", request=want), False)


async def pull(c, rng, steps):
    port, hport, *ps = free_ports(6)
    r = i02.Relay(rng, ps[:rng.choice((1, 2, 3))], i02.params(rng), "http")
    c.nginx(i02.conf(rng, port, hport, r.directive("pull")), wait_ports=[port, hport]).start()
    await i02.run(HttpPull(c, rng, port, hport, [r], "a"), steps)


async def status(c, rng):
    """An error status ends the players."""
    port, hport, p1 = free_ports(3)
    o = origin.HttpOrigin(p1)
    await o.up()
    c.nginx(i02.conf(rng, port, hport, f"pull http://127.0.0.1:{p1};"), wait_ports=[port, hport]).start()
    try:
        for st in (400, 403, 404, 500, 503, rng.randrange(402, 510)):
            o.script = f"status:{st}"
            s = await rtmp.player(port, "a", "s")
            f = await http.FlvPlayer(hport, "/a/s").open() if rng.random() < 0.5 else None
            for _ in range(300):
                if s.closed and (not f or f.ended):
                    break
                await asyncio.sleep(0.05)
            else:
                raise Violation("players of a refused stream are kept", f"{st}")
            await s.close()
            if f:
                await f.close()
            for _ in range(300):
                if not o.open():
                    break
                await asyncio.sleep(0.05)
            else:
                raise Violation("the connection of a refused stream is kept", f"{st}")
            c.case(("status", st), dict(kind="status", status=st), True)
            c.saw("error statuses")
    finally:
        await o.down()


class Broken(HttpPull):
    """The response turns into something that is no FLV."""

    async def walk(self, steps):
        rng = self.rng
        o = self.r.origins[0]
        await o.up()
        for _ in range(rng.choice((1, 2))):
            await self.play()
        for _ in range(steps):
            await self.flow()
            p = self.now()
            if not p:
                continue
            p.run(p.at + 200)
            frame = p.gen.until(p.at + 40)
            kind = rng.choice(("type", "size", "prev", "cut", "chunk", "bits", "header"))
            peer = p.c
            t, ts, b = (frame or [(8, p.at, b"\xaf\x01zz", "a")])[0][:3]
            tag = bytes([t]) + len(b).to_bytes(3, "big") + (ts & 0xffffff).to_bytes(3, "big") + bytes([ts >> 24 & 255]) + b"\0\0\0" + b
            end = (len(b) + 11).to_bytes(4, "big")
            if kind == "type":
                peer.body(bytes([rng.choice((0, 1, 5, 7, 10, 17, 19, 20, 255))]) + tag[1:] + end)
            elif kind == "size":
                peer.body(tag[:1] + b"\xff\xff\xff" + tag[4:] + end)
            elif kind == "prev":
                p.sent.append((t, ts, b))
                peer.body(tag + (len(b) + 12).to_bytes(4, "big"))
            elif kind == "cut":
                peer.body((tag + end)[:rng.randrange(1, len(tag))])
            elif kind == "chunk":
                peer.wr.write(rng.choice((b"xyz\r\n", b"-5\r\n", b"ffffffffffffffffff\r\n", b"5\r\nabcdefgh", b"\r\n\r\n")))
            elif kind == "header":
                peer.body(b"FLV\1\5\0\0\0\x09\0\0\0\0")
            else:
                x = bytearray(tag + end)
                for _ in range(rng.randrange(1, 6)):
                    x[rng.randrange(8)] ^= 1 << rng.randrange(8)
                peer.body(bytes(x))
            p.c.closing = True
            await p.c.drain()
            self.log.append(f"broken: {kind}")
            await asyncio.sleep(rng.choice((0, 0.05)))
            await peer.close(rng.random() < 0.5)
            for _ in range(300):
                if not peer in self.r.open():
                    break
                await asyncio.sleep(0.02)
            self.c.saw("broken responses")
            self.c.case(("broken", kind, o.chunked), dict(kind="broken", how=kind), True)
        await self.settle()
        for s in list(self.players):
            self.judge(s, False)
        while self.players:
            await self.part()

    def judge(self, s, whole):
        # what was broken off may have passed as a frame only if it was a complete tag
        known = {(t, b) for p in self.sources for t, _, b in p.sent}
        keep = [m for m in s.msgs if m.type not in (8, 9) or (m.type, m.data) in known]
        odd = len(s.msgs) - len(keep)
        self.c.saw("odd frames passed on", odd)
        s2 = type("S", (), dict(msgs=keep, kind=s.kind, had=s.had))
        super().judge(s2, whole)


async def broken(c, rng, steps):
    port, hport, p1 = free_ports(3)
    r = i02.Relay(rng, [p1], {}, "http")
    c.nginx(i02.conf(rng, port, hport, r.directive("pull")), wait_ports=[port, hport]).start()
    await i02.run(Broken(c, rng, port, hport, [r], "a"), steps)


def scenarios(c):
    for i in range(c.pick(6, 40)):
        yield Scenario(f"pull#{i}", pull, steps=c.pick(25, 60))
    for i in range(c.pick(4, 20)):
        yield Scenario(f"broken#{i}", broken, steps=c.pick(12, 40))
    for i in range(c.pick(1, 4)):
        yield Scenario(f"status#{i}", status)
