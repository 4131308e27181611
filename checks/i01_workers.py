"""Several worker processes: a stream reaches its players whatever workers they and its publisher are connected to."""
import asyncio
import json
import os
import signal

from pv import http, live, media, rtmp
from pv.check import Inconclusive, Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO

ID = "I01"
TITLE = "A stream is the same stream in every worker process"
STATEMENT = """With several worker processes, a player connected to any worker gets the stream of a publisher connected to any worker:
soon after both are there, and from then on every frame exactly once, in order and unchanged with the sequence headers it needs, as long as both stay,
whoever else comes, goes or plays, in whatever order and through however many changes of publisher. A second publisher of the stream is ended,
whichever worker it is in, and when a worker dies the streams go on in and between the others and, once it is replaced, in it."""
OVER = ("schedules", "histories", "faults")
QUANT = "Every assignment of publishers and players to workers, every order of their coming and going, and every worker that dies."
WHY = "No existing test runs more than one worker with streams; ownership of a stream moves between workers with the history."
FILES = ["modules/nginx-rtmp-module/ngx_live_relay_inner.c", "modules/nginx-rtmp-module/ngx_live_relay.c",
         "modules/nginx-rtmp-module/ngx_live_relay_rtmp.c", "modules/nginx-multiport-module/ngx_stream_zone_module.c",
         "modules/nginx-multiport-module/ngx_multiport.c", "modules/nginx-rtmp-module/ngx_live.c"]
MECH = [("owner of a stream", "ngx_stream_zone_insert_stream, ngx_stream_zone_delete_stream"),
        ("pull from and push to the owner", "ngx_live_relay_inner_pull, ngx_live_relay_inner_push"),
        ("end and retry", "ngx_live_relay_close_stream, ngx_live_relay_inner_pull_close"),
        ("sockets of one worker", "ngx_multiport_get_port"), ("dead workers", "ngx_stream_zone_clear")]
TECHNIQUE = "random walks of publishers and players over workers with killed workers, offline checker of every player's log per publisher, under ASan"
NOTE = """Held on the histories generated, with one publisher heard at a time (publishers of different priorities in different workers are not covered),
and a stream zone just big enough for the streams that exist."""
RULE = ("A case is one player during one publisher's time whose frames were judged; non-trivial when they were in different workers; "
        "distinct by workers, protocol, mode and frames received.")

SOON = 25


class Player:
    pass


def config(rng, nw, port, hport, base, hbase, zone):
    return (f"worker_processes {nw};\nstream_zone buckets={rng.choice((1, 2, 64))} streams={zone};\n"
            f"events {{ worker_connections 512; multi_listen {base} {port}; multi_listen unix:{{dir}}/r.sock {port}; multi_listen {hbase} {hport}; }}\n"
            f"rtmp {{ server {{ listen {port}; out_queue 1024; fix_timestamp 0; chunk_size {rng.choice((128, 4096))}; rtmp_auto_pull on; "
            f"rtmp_auto_pull_port unix:{{dir}}/r.sock; relay_reconnect 500ms; application key {{ live on; }} "
            f"application gop {{ live on; cache_time 400ms; send_all on; }} }} }}\n"
            f"http {{ access_log off; server {{ listen {hport}; location / {{ flv_live {port}; }} location /sys {{ sys_stat; }} }} }}\n")


async def ready(inst, base, nw):
    """Every worker answers at its own port; their pids."""
    for n in range(nw):
        for _ in range(400):
            try:
                c = await rtmp.Client("127.0.0.1", base + n, "ready").open()
                await c.connect("key")
                await c.close()
                break
            except (OSError, rtmp.RtmpError):
                await asyncio.sleep(0.05)
        else:
            raise Inconclusive(f"worker {n} does not answer")


class Stream:
    """One stream with its random walk."""

    def __init__(self, c, rng, inst, base, hbase, nw, app, name, num):
        self.c, self.rng, self.inst, self.base, self.hbase, self.nw, self.app, self.name = c, rng, inst, base, hbase, nw, app, name
        self.num = num
        self.pub = None
        self.players = []
        self.log = []
        self.serial = 0
        self.joining = None

    def fail(self, key, text=""):
        raise Violation(key, f"{self.app}/{self.name}: {text}\n" + "\n".join(self.log[-60:]))

    async def states(self):
        """(worker, client) of this stream everywhere."""
        out = []
        for n in range(self.nw):
            j = json.loads((await http.get(self.hbase + n, "/sys"))[2])
            for srv in j["live_stream"]["server_array"]:
                for st in srv["stream_array"]:
                    if st["name"].endswith(f"/{self.app}/{self.name}"):
                        out += [(n, x) for x in st["client_array"]] or [(n, None)]
        return out

    async def gone(self, what, pred):
        """Wait until no worker shows what pred holds for."""
        for _ in range(SOON * 20):
            s = [x for x in await self.states() if pred(x[1])]
            if not s:
                return
            await asyncio.sleep(0.05)
        self.fail(what, str(s))

    # what players may have been through
    def epoch(self, s, joined=False):
        self.close_epoch(s)
        s.epochs.append(dict(pub=self.pub, same=bool(s.epochs and s.epochs[-1]["pub"] is self.pub), a=len(s.msgs) if not joined else 0, joined=joined, whole=True))

    def close_epoch(self, s):
        if s.epochs and "b" not in s.epochs[-1]:
            e = s.epochs[-1]
            e.update(b=len(s.msgs), n=len(live.frames(e["pub"].sent)) if e["pub"] else 0)

    async def publish(self, w):
        self.serial += 1
        gen = media.Gen(self.rng, start=self.rng.choice((0, 0, 5000)), gop=self.rng.choice((4, 8)), vsize=(20, 400),
                        base=self.num * 10000000 + self.serial * 10000)
        self.log.append(f"publish {self.serial} at {w}")
        p = await live.Pub.start(self.base + w, self.app, self.name, gen)
        p.w, p.i = w, self.serial
        p.headers()
        self.pub = p
        for s in self.players:
            self.epoch(s)
        self.c.saw("publishers")

    async def unpublish(self):
        p = self.pub
        how = self.rng.choice(("close", "abort", "deleteStream"))
        self.log.append(f"unpublish {p.i} {how}")
        await self.flow()
        await self.caught_up()
        if how == "deleteStream":
            p.c.command("deleteStream", 0.0, None, 1.0)
            await live.sync(p.c)
        for s in self.players:
            self.close_epoch(s)
        self.pub = None
        for s in self.players:
            self.epoch(s)
        await p.close(abort=how == "abort")
        await self.gone("a publisher that left is still there", lambda x: x and x["publishing"] and not x["relay"])

    async def play(self, w):
        kind = self.rng.choice(("rtmp", "flv"))
        self.log.append(f"play {kind} at {w}")
        if kind == "flv":
            s = await http.FlvPlayer(self.hbase + w, f"/{self.app}/{self.name}").open()
        else:
            s = await rtmp.player(self.base + w, self.app, self.name)
        s.kind, s.w, s.epochs = kind, w, []
        self.epoch(s, True)
        self.players.append(s)
        self.c.saw("players")

    async def part(self):
        s = self.players.pop(self.rng.randrange(len(self.players)))
        self.log.append(f"stop {s.kind} at {s.w}")
        if self.pub:
            s.epochs[-1]["whole"] = False
        self.close_epoch(s)
        self.judge(s)
        await s.close(abort=self.rng.random() < 0.5)

    async def intrude(self, w):
        """Another publisher of the same stream."""
        self.log.append(f"intrude at {w}")
        try:
            q = await rtmp.publisher(self.base + w, self.app, self.name)
        except rtmp.Closed:
            q = None
        if q:
            if not q.result.startswith("error"):
                for _ in range(SOON * 20):
                    if q.closed:
                        break
                    await asyncio.sleep(0.05)
                else:
                    self.fail("a second publisher in another worker is kept", f"at {w}, the first at {self.pub.w}")
            await q.close()
        self.c.saw("second publishers ended")
        for s in self.players:
            if s.w == w != self.pub.w:
                s.epochs[-1]["whole"] = False
                self.epoch(s)

    def over(self, s):
        return s.closed if s.kind == "rtmp" else s.ended

    async def flow(self):
        """The stream goes on until all players have frames newer than now."""
        p = self.pub
        if not p:
            await asyncio.sleep(self.rng.choice((0, 0.02, 0.2)))
            return
        mark = None
        for i in range(SOON * 30):
            if p.c.closed:
                self.fail("the publisher was ended", str(p.c.error))
            p.run(p.at + self.rng.randrange(20, 90))
            await p.c.drain()
            if mark is None:
                mark = len(p.sent)      # frames sent from now on
                new = set()
            new.update((t, b) for t, _, b in p.sent[mark:] if t == VIDEO)
            mark = len(p.sent)
            left = []
            for s in self.players:
                if self.over(s):
                    self.fail("a player was ended", f"{s.kind} at {s.w}: {s.error}")
                if not any((m.type, m.data) in new for m in s.msgs[max(s.epochs[-1]["a"], len(s.msgs) - 20):]):
                    left.append(s)
            if not left and i:
                return
            await asyncio.sleep(0.03)
        self.fail("a player does not get the stream", f"publisher at {p.w}, players "
                  + ", ".join(f"{s.kind} at {s.w}{' NOT' if s in left else ''}" for s in self.players)
                  + f"\n{[(w, x and {k: x[k] for k in ('publishing', 'relay', 'interprocess', 'active')}) for w, x in await self.states()]}")

    async def caught_up(self):
        """All players have the last frame."""
        p = self.pub
        t, _, b = p.sent[-1]
        for _ in range(SOON * 30):
            left = [s for s in self.players if not any(m.type == t and m.data == b for m in s.msgs[-300:])]
            if not left:
                return
            await asyncio.sleep(0.03)
        self.fail("the last frames did not arrive", f"publisher at {p.w}, {[(s.kind, s.w) for s in left]}")

    def delivery(self, nm, sent, fr, same):
        def one(fr):
            if self.app == "key":
                live.judge(nm, sent, fr, len(sent), whole=False)
            else:
                live.contiguous(nm, sent, fr)
        try:
            return one(fr)
        except Violation:
            if not same:
                raise
        # already there, and possibly interrupted once
        i = 0
        at = {(t, b): k for k, (t, _, b) in enumerate(sent)}
        while i < len(fr) and at.get((fr[i][0], fr[i][2])) is not None and at[fr[i][0], fr[i][2]] == at[fr[0][0], fr[0][2]] + i:
            i += 1
        for k in range(i, 0, -1):
            try:
                return one(fr[k:])
            except Violation:
                pass
        one(fr)

    def judge(self, s):
        rec = [(m.type, m.ts, m.data) for m in s.msgs]
        for k, e in enumerate(s.epochs):
            part = [x for x in rec[e["a"]:e["b"]] if x[0] in (AUDIO, VIDEO) and x[2]]
            fr = [x for x in part if not live.is_header(x[0], x[2])]
            p = e["pub"]
            nm = f"{s.kind} at {s.w}, part {k}, publisher {p and (p.i, p.w)}"
            if p is None:
                if fr:
                    self.fail("frames while there is no publisher", f"{nm}: {live.short(fr[0])}")
                continue
            self.c.case((self.app, s.kind, s.w, p.w, len(fr), e["n"]), dict(app=self.app, proto=s.kind, player_at=s.w, publisher_at=p.w, frames=len(fr)),
                        bool(fr) and s.w != p.w)
            if not fr:
                continue
            self.c.saw("frames judged", len(fr))
            try:
                live.dechunk_expect_headers(nm, p.sent, [x for x in rec[:e["a"]] if live.is_header(x[0], x[2])] * e.get("same", 0) + part)
                self.delivery(nm, live.frames(p.sent)[:e["n"]], fr, e["same"])
            except Violation as v:
                self.fail(v.key, v.text)
            if e["whole"] and fr[-1][2] != live.frames(p.sent)[:e["n"]][-1][2]:
                self.fail("the last frames are missing", nm)

    async def walk(self, steps):
        r = self.rng
        try:
            for _ in range(steps):
                w = r.randrange(self.nw)
                acts = ["flow"] * 2
                acts += ["unpublish"] * 2 if self.pub else ["publish"] * 4
                acts += ["play"] * 3 if len(self.players) < 6 else []
                acts += ["part"] * (2 if len(self.players) < 4 else 4) if self.players else []
                if self.pub and r.random() < 0.3:
                    acts.append("intrude")
                a = r.choice(acts)
                if a == "publish":
                    await self.publish(w)
                elif a == "play":
                    await self.play(w)
                elif a == "intrude":
                    await self.intrude(w)
                elif a != "flow":
                    await getattr(self, a)()
                if r.random() < 0.75 or a == "intrude":
                    await self.flow()
            await self.end()
        except (rtmp.RtmpError, asyncio.TimeoutError, ConnectionError) as e:
            self.fail("the server ended a session or does not answer", repr(e))

    async def end(self):
        if self.pub:
            await self.flow()
            await self.unpublish()
        for s in self.players:
            self.close_epoch(s)
            self.judge(s)
            await s.close()
        self.players = []
        await self.gone("a stream without publisher and players is still there", lambda x: True)


async def run(c, rng, steps, nw):
    port, hport = free_ports(2)
    base, hbase = bases(nw)
    inst = c.nginx(config(rng, nw, port, hport, base, hbase, 4), wait_ports=[port, hport]).start()
    await ready(inst, base, nw)
    for k in range(2):
        await asyncio.gather(*(Stream(c, __import__("random").Random(rng.random()), inst, base, hbase, nw, ("key", "gop")[i % 2], f"s{k}{i}", i + 1).walk(steps)
                               for i in range(4)))


def bases(nw):
    """Two rows of free ports for the workers."""
    import socket
    while True:
        out = []
        for _ in range(2):
            b, = free_ports(1)
            try:
                for n in range(8):
                    with socket.socket() as s:
                        s.bind(("127.0.0.1", b + n))
                out.append(b)
            except OSError:
                break
        if len(out) == 2 and abs(out[0] - out[1]) > 10:
            return out


async def die(c, rng, nw):
    """A worker is killed; those of the others go on, and it comes back."""
    port, hport = free_ports(2)
    base, hbase = bases(nw)
    inst = c.nginx(config(rng, nw, port, hport, base, hbase, 8), wait_ports=[port, hport]).start()
    inst.killed = True
    await ready(inst, base, nw)
    sts = [Stream(c, rng, inst, base, hbase, nw, ("key", "gop")[i % 2], f"s{i}", i + 1) for i in range(3)]
    for st in sts:
        order = ["pub"] + ["play"] * rng.randrange(2, 4)
        rng.shuffle(order)
        for o in order:
            w = rng.randrange(nw)
            await (st.publish(w) if o == "pub" else st.play(w))
    for round in range(3):
        for st in sts:
            if not st.pub:
                await st.publish(rng.randrange(nw))
            while len(st.players) < 3:
                await st.play(rng.randrange(nw))
            await st.flow()
        v = rng.randrange(nw)
        pid = json.loads((await http.get(hbase + v, "/sys"))[2])["ngx_pid"]
        os.kill(pid, signal.SIGKILL)
        for _ in range(400):
            try:
                if json.loads((await http.get(hbase + v, "/sys"))[2])["ngx_pid"] != pid:
                    break
            except (OSError, rtmp.RtmpError, ValueError, asyncio.IncompleteReadError):
                pass
            await asyncio.sleep(0.05)
        else:
            raise Violation("a worker that died was not replaced", f"worker {v}")
        c.saw("workers killed")
        for st in sts:
            st.log.append(f"kill {v}")
            for s in list(st.players):
                if st.pub and (s.w != st.pub.w or s.w == v):
                    s.epochs[-1]["whole"] = False
                if s.w == v:
                    st.players.remove(s)
                    st.close_epoch(s)
                    st.judge(s)
                    await s.close()
            if st.pub and st.pub.w == v:
                await st.pub.close()
                st.pub = None
                await st.gone("a publisher that died is still there", lambda x: x and x["publishing"] and not x["relay"])
            for s in st.players:
                if not st.pub or s.w != st.pub.w:
                    st.epoch(s)
        for st in sts:
            await st.flow()
    for st in sts:
        await st.end()


def scenarios(c):
    for i in range(c.pick(5, 40)):
        yield Scenario(f"walk#{i}", run, steps=c.pick(25, 60), nw=(3, 2, 4)[i % 3])
    for i in range(c.pick(3, 24)):
        yield Scenario(f"die#{i}", die, nw=(3, 2, 4)[i % 3])
