"""Push and pull: what is relayed to and from other servers, while those come and go."""
import asyncio

from pv import http, live, media, origin, rtmp
from pv.check import Inconclusive, Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO

ID = "I02"
TITLE = "Push and pull keep a stream flowing between servers that fail and return"
STATEMENT = """While a stream is published, each configured push holds exactly one connection publishing it, under the configured names, at one of its servers; while a stream to pull has players and no publisher,
exactly one connection plays it from one of the pull's servers. A connection that fails or hangs is soon replaced, going through the backup servers, a server's refusal of the stream ends the local client, and no connection outlives the publisher or the last player.
Every connection carries the stream from a key frame on, each frame once, in order and unchanged with its headers."""
OVER = ("schedules", "histories", "faults")
QUANT = "Every configuration of pushes and pulls, every failure of the remote servers at any stage, and every order of publishers and players coming and going."
WHY = "Relaying has no test; what happens depends on where and when the remote server fails."
FILES = ["modules/nginx-rtmp-module/ngx_live_relay.c", "modules/nginx-rtmp-module/ngx_live_relay_simple.c",
         "modules/nginx-rtmp-module/ngx_live_relay_rtmp.c", "modules/nginx-rtmp-module/ngx_rtmp_handshake.c"]
MECH = [("push and pull", "ngx_live_relay_simple_push, ngx_live_relay_simple_pull"),
        ("retry and backup", "ngx_live_relay_simple_relay, ngx_live_relay_create"),
        ("end", "ngx_live_relay_close_stream, ngx_live_relay_pull_close"),
        ("what is asked of the server", "ngx_live_relay_rtmp_send_connect, ngx_live_relay_rtmp_send_publish, ngx_live_relay_rtmp_send_play"),
        ("refusal passed on", "ngx_live_relay_rtmp_status_error")]
TECHNIQUE = "random walks with scripted remote servers that fail and hang at any stage, online and offline checkers of the relayed streams, under ASan"
NOTE = "Remote servers are this check's own; one worker process; RTMP only (HTTP-FLV: I03); the reconnect times are shortened to 0.05–0.8 s."
RULE = ("A case is one relay connection's stream judged at its far end, or one request's names compared; non-trivial when it carried frames; "
        "distinct by direction, parameters, frames and how it ended.")

SOON = 15
STAGES = ("accept", "handshake", "connect", "create", "stream")


def params(rng):
    out = {}
    if rng.random() < 0.4:
        out["app"] = rng.choice(("other", "a/b", "x"))
    if rng.random() < 0.4:
        out["name"] = rng.choice(("n", "renamed-stream", "st.flv"))
    if rng.random() < 0.4:
        out["pargs"] = rng.choice(("k=v", "a=1&b=2"))
    if rng.random() < 0.4:
        out["domain"] = rng.choice(("cdn.example.com", "d"))
    if rng.random() < 0.3:
        out["referer"] = "http://ref.example/p"
    if rng.random() < 0.3:
        out["user_agent"] = "agent/1.0"
    return out


class Relay:
    """One push or the pull with its servers."""

    def __init__(self, rng, urls, par, kind="rtmp"):
        self.par, self.kind = par, kind
        self.origins = [origin.RtmpOrigin(p, chunk_size=rng.choice((128, 4096, 60000)), version=rng.choice((0, 0x01020304))) if kind == "rtmp"
                        else origin.HttpOrigin(p, chunked=rng.random() < 0.5, rng=rng if rng.random() < 0.5 else None) for p in urls]
        self.checked = 0

    def directive(self, name):
        scheme = "rtmp" if self.kind == "rtmp" else "http"
        return (name + " " + " ".join(f"{scheme}://127.0.0.1:{o.port}" for o in self.origins) + " "
                + " ".join(f'"{k}={v}"' for k, v in self.par.items()) + ";")

    def live(self):
        return [p for o in self.origins for p in o.live()]

    def open(self):
        return [p for o in self.origins for p in o.open()]

    def peers(self):
        return [p for o in self.origins for p in o.peers]

    def works(self):
        return any(o.server and o.script == "ok" for o in self.origins)


class Walk:
    def __init__(self, c, rng, port, hport, relays, app):
        self.c, self.rng, self.port, self.hport, self.relays, self.app = c, rng, port, hport, relays, app
        self.name = rng.choice(("s", "live-1", "a.b"))
        self.args = rng.choice(("", "", "t=1", "u=x&v=y"))
        self.cargs = rng.choice(("", "", "c=9"))
        self.connect = rng.choice(({}, dict(pageUrl="http://page/", swfUrl="http://swf/x.swf")))
        self.log = []

    def fail(self, key, text=""):
        raise Violation(key, f"{text}\n{[r.directive('relay') for r in self.relays]}\n" + "\n".join(self.log[-50:]))

    def disturb(self, r, o=None):
        """Something happens to one of the servers; a coroutine."""
        return self._disturb(r, o or self.rng.choice(r.origins))

    async def _disturb(self, r, o):
        rng = self.rng
        a = rng.choice(("down", "abort", "drop", "reset", "script", "script", "ok", "ok"))
        stages = STAGES if r.kind == "rtmp" else ("accept", "request", "header")
        if a in ("down", "abort"):
            await o.down(a == "abort")
        elif a in ("drop", "reset"):
            for p in o.open():
                if a == "drop" and r.kind == "http" and rng.random() < 0.5 and p.finish():
                    continue
                p.aborted = a == "reset"
                await p.close(a == "reset")
        elif a == "script":
            await o.up()
            o.script = rng.choice(("close@", "abort@", "hang@")) + rng.choice(stages)
            if r.kind == "http" and rng.random() < 0.4:
                o.script = "junk:" + rng.choice(sorted(origin.JUNK))
            if o.script == "hang@header":        # an answered request may be silent for ever
                o.script = "hang@request"
            # a server that answered has not failed: it is asked again at once
            o.once = o.script in ("close@header", "abort@header", "junk:length", "junk:empty", "junk:chunked")
            if rng.random() < 0.5:
                for p in o.open():
                    await p.close()
        else:
            o.script = "ok"
            await o.up()
        self.log.append(f"server {o.port}: {a} {o.script} {'up' if o.server else 'down'}")
        self.c.saw("disturbances")

    async def repair(self, r):
        if not r.works():
            o = self.rng.choice(r.origins)
            o.script = "ok"
            await o.up()
            self.log.append(f"server {o.port}: repaired")

    def names(self, r, p, verb):
        """What is asked of the server."""
        par = r.par
        app = par.get("app", self.app)
        want = dict(app=app + ("?" + self.cargs if self.cargs else ""), tcUrl=f"rtmp://{par.get('domain', '127.0.0.1')}/{app}",
                    flashVer=par.get("user_agent", "LNX 9,0,124,2"), pageUrl=par.get("referer", self.connect.get("pageUrl", "")),
                    swfUrl=self.connect.get("swfUrl", ""))
        for k, v in want.items():
            if p.connect_args.get(k) != v and not (k == "flashVer" and verb == "play" and p.connect_args.get(k) == ""):
                self.fail("names: connect says something else", f"{k}: {p.connect_args.get(k)!r}, expected {v!r}")
        args = par.get("pargs", self.args)
        name = par.get("name", self.name) + ("?" + args if args else "")
        if p.mode != verb or p.stream != name:
            self.fail("names: another stream", f"{p.mode} {p.stream!r}, expected {verb} {name!r}")
        self.c.case(("names", verb, tuple(want.values()), name), dict(kind="names", verb=verb, app=want["app"], name=name), False)

    async def none_left(self, what):
        for _ in range(SOON * 20):
            if not any(r.open() for r in self.relays):
                return
            await asyncio.sleep(0.05)
        self.fail(what, str([(p.origin.port, p.mode) for r in self.relays for p in r.open()]))


class Push(Walk):
    pub = None
    serial = 0

    async def publish(self):
        self.serial += 1
        self.log.append("publish")
        gen = media.Gen(self.rng, start=self.rng.choice((0, 7000, 16777000)), gop=self.rng.choice((4, 10)), vsize=(20, 900), base=self.serial * 100000)
        nm = self.name + ("?" + self.args if self.args else "")
        self.pub = await live.Pub.start(self.port, self.app + ("?" + self.cargs if self.cargs else ""), nm, gen,
                                        tcurl=f"rtmp://127.0.0.1:{self.port}/{self.app}", **self.connect)
        self.pub.headers()
        for r in self.relays:
            r.old = set(r.peers())

    async def flow(self):
        p = self.pub
        if not p:
            return await asyncio.sleep(self.rng.choice((0, 0.1)))
        for r in self.relays:
            await self.repair(r)
        start = len(p.sent)
        new = set()
        for i in range(SOON * 30):
            if p.c.closed:
                self.fail("the publisher was ended", str(p.c.error))
            p.run(p.at + self.rng.randrange(20, 90))
            await p.c.drain()
            new.update((t, b) for t, _, b in p.sent[start:] if t == VIDEO)
            start = len(p.sent)
            left = [r for r in self.relays if len(r.live()) != 1 or not any((m.type, m.data) in new for m in r.live()[0].msgs[-30:])]
            if not left and i:
                for r in self.relays:
                    self.names(r, r.live()[0], "publish")
                    if len(r.open()) != 1:
                        self.fail("several connections for one push", str([(x.origin.port, x.mode) for x in r.open()]))
                return
            await asyncio.sleep(0.03)
        self.fail("a push does not flow", str([(r.directive("push"), [(x.origin.port, x.mode, x.script) for x in r.open()]) for r in left]))

    async def unpublish(self):
        p = self.pub
        self.log.append("unpublish")
        await self.flow()
        t, _, b = p.sent[-1]
        for _ in range(SOON * 20):
            if all(any(m.type == t and m.data == b for m in x.msgs[-50:]) for r in self.relays for x in r.live()):
                break
            await asyncio.sleep(0.05)
        else:
            self.fail("the last frames are not pushed", "")
        for r in self.relays:
            for x in r.live():
                x.whole = True
        await p.close(abort=self.rng.random() < 0.3)
        await self.none_left("a push outlives the publisher")
        fr = live.frames(p.sent)
        for r in self.relays:
            for x in r.peers():
                if not x.mode or x in r.old:
                    continue
                rec = [(m.type, m.ts, m.data) for m in x.msgs if m.type in (AUDIO, VIDEO) and m.data]
                nm = f"push to {x.origin.port}"
                try:
                    live.dechunk_expect_headers(nm, p.sent, rec)
                    n = live.judge(nm, fr, rec, len(fr), whole=getattr(x, "whole", False))
                except Violation as v:
                    self.fail(v.key, v.text)
                self.c.saw("frames pushed", n)
                self.c.case(("push", len(r.origins), tuple(sorted(r.par)), n), dict(kind="push", frames=n, whole=getattr(x, "whole", False)), n > 0)
        self.pub = None

    async def walk(self, steps):
        for r in self.relays:
            for o in r.origins:
                if self.rng.random() < 0.7:
                    await o.up()
        for _ in range(steps):
            a = self.rng.choice(("flow", "disturb", "disturb", "disturb", "pub"))
            if a == "flow":
                await self.flow()
            elif a == "disturb":
                await self.disturb(self.rng.choice(self.relays))
            elif self.pub:
                await self.unpublish()
            else:
                await self.publish()
            if self.rng.random() < 0.5:
                await self.flow()
        if not self.pub:
            await self.publish()
        await self.unpublish()


class Pull(Walk):
    """One pull, its players, and a local publisher now and then."""

    def __init__(self, *a):
        super().__init__(*a)
        self.r = self.relays[0]
        self.players = []
        self.sources = []        # all who were heard: peers and local publishers
        self.local = None
        for o in self.r.origins:
            o.on_play = self.on_play

    def source(self):
        self.serial = getattr(self, "serial", 0) + 1
        return media.Gen(self.rng, start=self.rng.choice((0, 7000)), gop=self.rng.choice((4, 10)), vsize=(20, 900), base=self.serial * 100000)

    def on_play(self, peer):
        p = live.Pub(peer, self.source())
        peer.pub = p
        p.headers()
        self.sources.append(p)

    async def play(self):
        kind = self.rng.choice(("rtmp", "flv"))
        self.log.append(f"play {kind}")
        nm = self.name + ("?" + self.args if self.args else "")
        if kind == "flv" and not self.cargs and not self.connect:
            s = await http.FlvPlayer(self.hport, f"/{self.app}/{nm}", headers={"User-Agent": "LNX 9,0,124,2"}).open()
            s.kind = "flv"
            await http.barrier(self.port, self.app)
        else:
            s = await rtmp.player(self.port, self.app + ("?" + self.cargs if self.cargs else ""), nm,
                                  tcurl=f"rtmp://127.0.0.1:{self.port}/{self.app}", **self.connect)
            await live.sync(s)
            s.kind = "rtmp"
        s.had = {p: len(live.frames(p.sent)) for p in self.sources}
        self.players.append(s)

    async def part(self, s=None):
        s = s or self.rng.choice(self.players)
        self.log.append(f"stop {s.kind}")
        self.players.remove(s)
        self.judge(s, False)
        await s.close(abort=self.rng.random() < 0.5)
        if not self.players:
            await self.none_left("a pull outlives its last player")

    def now(self):
        if self.local:
            return self.local
        v = self.r.live()
        return v[0].pub if len(v) == 1 else None

    async def flow(self):
        if not self.players and not self.local:
            return await asyncio.sleep(self.rng.choice((0, 0.1)))
        if not self.local:
            await self.repair(self.r)
        src = None
        for i in range(SOON * 30):
            for s in self.players:
                if s.closed if s.kind == "rtmp" else s.ended:
                    self.fail("a player was ended", f"{s.kind}: {s.error}")
            p = self.now()
            if p is not src:
                src, start, new = p, p and len(p.sent), set()
            if p:
                p.run(p.at + self.rng.randrange(20, 90))
                await p.c.drain()
                new.update((t, b) for t, _, b in p.sent[start:] if t == VIDEO)
                start = len(p.sent)
                left = [s for s in self.players if not any((m.type, m.data) in new for m in s.msgs[-30:])]
                if not left and i and p is self.now():
                    n = len(self.r.open())
                    if n != (0 if self.local else 1):
                        self.fail("several connections for one pull" if n else "no pull", str([(x.origin.port, x.mode) for x in self.r.open()]))
                    if not self.local:
                        self.asked(p.c)
                    return
            await asyncio.sleep(0.03)
        self.fail("players do not get the stream", f"local={bool(self.local)} {[(x.origin.port, x.mode, x.script) for x in self.r.open()]} "
                  f"{[(s.kind, len(s.msgs)) for s in self.players]}")

    def asked(self, peer):
        self.names(self.r, peer, "play")

    def judge(self, s, whole):
        rec = [(m.type, m.ts, m.data) for m in s.msgs if m.type in (AUDIO, VIDEO) and m.data]
        at = {}
        for k, p in enumerate(self.sources):
            for t, _, b in live.frames(p.sent):
                at[t, b] = k
        parts = []
        for x in rec:
            k = None if live.is_header(x[0], x[2]) else at.get((x[0], x[2]))
            if not live.is_header(x[0], x[2]) and k is None:
                self.fail("a frame that was never published", live.short(x))
            if k is not None and (not parts or parts[-1][0] != k):
                parts.append((k, []))
            if k is not None:
                parts[-1][1].append(x)
        if [k for k, _ in parts] != sorted({k for k, _ in parts}):
            self.fail("frames of different connections mixed", str([(k, len(v)) for k, v in parts]))
        try:
            live.dechunk_expect_headers(s.kind, [x for p in self.sources for x in p.sent], rec)
            for k, v in parts:
                p = self.sources[k]
                fr = live.frames(p.sent)
                last = k == len(self.sources) - 1
                w = whole and (last or getattr(p, "graceful", False))
                n = live.judge(f"{s.kind} source {k}", fr, v, s.had.get(p, 0) if p in s.had else 0, whole=w)
                self.c.saw("frames pulled", n)
                self.c.case((type(self).__name__, s.kind, len(self.r.origins), tuple(sorted(self.r.par)), n, w),
                            dict(kind="pull", player=s.kind, frames=n, whole=w), n > 0)
        except Violation as v:
            self.fail(v.key, v.text)

    async def settle(self):
        """All players have the last frame of the source."""
        await self.flow()
        p = self.now()
        if not p:
            return
        t, _, b = p.sent[-1]
        for _ in range(SOON * 20):
            if self.now() is not p:
                return
            if all(any(m.type == t and m.data == b for m in s.msgs[-50:]) for s in self.players):
                return
            await asyncio.sleep(0.05)
        self.fail("the last frames are not delivered", "")

    async def walk(self, steps):
        rng = self.rng
        for o in self.r.origins:
            if rng.random() < 0.7:
                await o.up()
        for _ in range(steps):
            acts = ["disturb"] * 4 + ["flow"] + ["play"] * (len(self.players) < 4) * 2 + ["part"] * bool(self.players)
            acts += ["graceful"] * bool(self.players and not self.local) + ["all"] * bool(self.players)
            acts += ["unlocal"] * 2 * bool(self.local) + ["local"] * 2 * (not self.players and not self.local)
            a = rng.choice(acts)
            if a == "disturb":
                await self.disturb(self.r)
            elif a == "flow":
                await self.flow()
            elif a == "play":
                await self.play()
            elif a == "part":
                await self.part()
            elif a == "all":
                while self.players:
                    await self.part()
            elif a == "graceful":
                # the server ends the stream after all has been sent
                await self.flow()
                p = self.now()
                if p and not self.local:
                    p.run(p.at + 500)
                    await p.c.drain()
                    p.graceful = True
                    self.log.append("the server ends the stream")
                    await p.c.close()
                    self.c.saw("streams ended by the server")
            elif a == "local":
                self.log.append("publish here")
                nm = self.name + ("?" + self.args if self.args else "")
                self.local = await live.Pub.start(self.port, self.app + ("?" + self.cargs if self.cargs else ""), nm, self.source(),
                                                  tcurl=f"rtmp://127.0.0.1:{self.port}/{self.app}", **self.connect)
                self.local.headers()
                self.sources.append(self.local)
                self.c.saw("local publishers")
            elif a == "unlocal":
                self.log.append("unpublish here")
                await self.settle()
                self.local.graceful = True
                await self.local.close()
                self.local = None
            if rng.random() < 0.5:
                await self.flow()
        if not self.players:
            await self.play()
        await self.settle()
        for s in list(self.players):
            self.judge(s, True)
        while self.players:
            await self.part()
        if self.local:
            await self.local.close()
        await self.none_left("a pull outlives its last player")


def conf(rng, port, hport, inner):
    return (f"worker_processes 1;\nevents {{ worker_connections 512; }}\n"
            f"rtmp {{ server {{ listen {port}; out_queue 1024; fix_timestamp 0; relay_reconnect {rng.choice((300, 800))}ms; failed_reconnect 50ms; "
            f"chunk_size {rng.choice((128, 4096))}; application a {{ live on; {inner} }} }} }}\n"
            f"http {{ access_log off; server {{ listen {hport}; location / {{ flv_live {port}; }} }} }}\n")


async def push(c, rng, steps):
    port, hport, *ps = free_ports(8)
    relays = []
    for _ in range(rng.choice((1, 2, 3))):
        n = rng.choice((1, 2)) if len(ps) > 1 else 1
        relays.append(Relay(rng, [ps.pop() for _ in range(n)], params(rng)))
    c.nginx(conf(rng, port, hport, " ".join(r.directive("push") for r in relays)), wait_ports=[port, hport]).start()
    await run(Push(c, rng, port, hport, relays, "a"), steps)


async def run(w, steps):
    try:
        await w.walk(steps)
    except (rtmp.RtmpError, asyncio.TimeoutError, ConnectionError) as e:
        w.fail("the server ended a session or does not answer", repr(e))
    finally:
        for r in w.relays:
            for o in r.origins:
                await o.down()


async def pull(c, rng, steps):
    port, hport, *ps = free_ports(6)
    r = Relay(rng, ps[:rng.choice((1, 2, 3))], params(rng))
    c.nginx(conf(rng, port, hport, r.directive("pull")), wait_ports=[port, hport]).start()
    await run(Pull(c, rng, port, hport, [r], "a"), steps)


async def refuse(c, rng):
    """A server refuses the stream: the local clients are ended, and nobody tries again for them."""
    port, hport, p1 = free_ports(3)
    o = origin.RtmpOrigin(p1)
    await o.up()
    way = rng.choice(("push", "pull"))
    c.nginx(conf(rng, port, hport, f"{way} rtmp://127.0.0.1:{p1};"), wait_ports=[port, hport]).start()
    try:
        for code in ("NetStream.Publish.BadName", "NetStream.Stream.Forbidden", "NetStream.Play.StreamNotFound", "NetStream.Relay.ServerError"):
            o.script = "error:" + code
            if way == "push":
                s = await rtmp.publisher(port, "a", "s")
            else:
                s = await rtmp.player(port, "a", "s")
            for _ in range(300):
                if s.closed:
                    break
                await asyncio.sleep(0.05)
            else:
                raise Violation("a client of a refused stream is kept", f"{way} {code}")
            await s.close()
            for _ in range(300):
                if not o.open():
                    break
                await asyncio.sleep(0.05)
            else:
                raise Violation("the connection of a refused stream is kept", f"{way} {code}")
            c.case(("refuse", way, code), dict(kind="refuse", way=way, code=code), True)
            c.saw("refusals")
    finally:
        await o.down()


def scenarios(c):
    for i in range(c.pick(5, 40)):
        yield Scenario(f"push#{i}", push, steps=c.pick(25, 60))
    for i in range(c.pick(5, 40)):
        yield Scenario(f"pull#{i}", pull, steps=c.pick(25, 60))
    for i in range(c.pick(2, 6)):
        yield Scenario(f"refuse#{i}", refuse)
