"""Several publishers of one stream: refusal, priorities, takeover and return."""
import asyncio
import glob
import os

from pv import http, live, media, rtmp, ts
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO

ID = "D06"
TITLE = "A stream is what exactly one publisher sends: the one of the highest priority"
STATEMENT = """A second publisher of a stream is refused unless it states another priority, and nothing it sends reaches subscribers, segments or
recordings of the stream. Of several admitted publishers only the one of the highest priority is heard; when it leaves, or one of a higher
priority comes, subscribers go on with the new one from a key frame of it (its audio may come earlier), preceded by its own sequence headers,
with nothing of it missing from there, and coming and going of lower ones disturbs nothing."""
OVER = ("schedules", "histories", "configurations")
QUANT = "Every sequence of publishers and subscribers coming and going in every order and moment, with and without a cache."
WHY = "No existing test publishes; takeovers depend on who is there, who has sent what and where in a group of pictures it happens."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_live_module.c", "modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c",
         "modules/nginx-rtmp-module/ngx_rtmp_gop_module.c", "modules/nginx-rtmp-module/ngx_live.c"]
MECH = [("admission", "ngx_rtmp_live_join"), ("the one heard", "ngx_rtmp_live_av"), ("takeover", "ngx_rtmp_live_close_stream"),
        ("takeover in a cache", "ngx_rtmp_gop_send")]
TECHNIQUE = "random histories of publishers and subscribers under ASan, offline checker of every subscriber's log per reign of a publisher"
NOTE = """Held on the generated histories."""
RULE = ("A case is one subscriber during the reign of one publisher, whose frames, headers and start were judged; non-trivial when another "
        "publisher was there or had been; distinct by mode, who reigned and what was received.")


def adts_of(i):
    return media.aac_header(3 + i % 5, 1 + i % 2)


def sps_of(i):
    return media.avc_header(b"\x67\x64\x00\x1f\xac\xd9\x40\x50\x05\xbb\x01\x10\x00\x00\x03\x00" + bytes([16 + i % 200]))


class P:
    """A publisher."""

    def __init__(self, i, pri, rng):
        self.i, self.pri = i, pri
        self.gen = media.Gen(rng, start=rng.choice((0, 0, 7000, 100000)), gop=rng.choice((3, 5, 10)), vsize=(20, 600), base=(i + 1) * 100000)
        self.refused = False


async def run(c, rng, mode, steps):
    port, hport = free_ports(2)
    conf = ("worker_processes 1;\nevents { worker_connections 1024; }\n"
            f"rtmp {{ server {{ listen {port}; out_queue 1024; chunk_size 4096; fix_timestamp 0; "
            f"application key {{ live on; }} application all {{ live on; wait_key off; }} "
            f"application off {{ live on; idle_streams off; }} "
            f"application gop {{ live on; cache_time 500ms; }} application gopall {{ live on; cache_time 500ms; send_all on; }} "
            f"}} }}\nhttp {{ access_log off; server {{ listen {hport}; location / {{ flv_live {port}; }} }} }}\n")
    inst = c.nginx(conf, wait_ports=[port, hport]).start()
    app, name = mode, "s"
    pubs, refused, players, past = [], [], [], []
    serial = 0
    reign = None             # the publisher heard
    log = []

    def begin(s, joined):
        s.epochs.append(dict(who=reign, a=len(s.msgs), fa=len(live.frames(reign.pub.sent)) if reign else 0, n=len(pubs), joined=joined))

    def end(s):
        e = s.epochs[-1]
        if "b" not in e:
            e.update(b=len(s.msgs), fb=len(live.frames(e["who"].pub.sent)) if e["who"] else 0)

    def top():
        return max(pubs, key=lambda p: p.pri, default=None)

    async def settle():
        for p in pubs + refused:
            await live.sync(p.pub.c)
        await http.barrier(port, app)
        for s in players:
            if s.kind == "rtmp" and not s.closed:
                await live.sync(s)
        n = -1
        while n != sum(len(s.msgs) for s in players):
            n = sum(len(s.msgs) for s in players)
            await asyncio.sleep(0.03)

    def new_reign():
        nonlocal reign
        t = top()
        if t is not reign:
            reign = t
            log.append(f"reign {t and (t.i, t.pri)}")
            for s in players:
                end(s)
                begin(s, False)

    async def publish():
        nonlocal serial
        pri = rng.choice((0, 1, 2, 7, 10, 12, 257, 65537, 99999) + tuple(q.pri for q in pubs) * 3)
        p = P(serial, pri, rng)
        serial += 1
        arg = rng.choice(("", "?pubpri=0", "?x=1&pubpri=junk", "?x=2")) if pri == 0 else rng.choice((f"?pubpri={pri}", f"?a=b&pubpri={pri}&c=d"))
        dup = any(q.pri == pri for q in pubs)
        cl = await rtmp.Client("127.0.0.1", port, f"pub{p.i}").open()
        await cl.connect(app)
        await cl.create_stream()
        log.append(f"publish {p.i} {name}{arg}")
        r = await cl.publish(name + arg)
        p.pub = live.Pub(cl, p.gen)
        want = "error:NetStream.Publish.BadName" if dup else "NetStream.Publish.Start"
        if r != want:
            raise Violation("publish: a second publisher of a priority was not refused" if dup else
                            "publish: a publisher was refused", f"got {r}\n" + "\n".join(log))
        if dup:
            p.refused = True
            refused.append(p)
            c.saw("publishers refused")
        else:
            pubs.append(p)
            c.saw("publishers admitted")
        new_reign()
        if rng.random() < 0.2:
            p.pub.meta(encoder=f"pub{p.i}")
        p.pub.one(VIDEO, p.gen.start, sps_of(p.i))
        p.pub.one(AUDIO, p.gen.start, adts_of(p.i))

    async def leave():
        who = rng.choice(pubs + refused)
        how = rng.choice(("close", "abort", "deleteStream", "closeStream"))
        log.append(f"leave {who.i} {how}")
        if how == "deleteStream":
            who.pub.c.command("deleteStream", 0.0, None, 1.0)
            await live.sync(who.pub.c)
        elif how == "closeStream":
            who.pub.c.command("closeStream", 0.0, None, msid=1)
            await live.sync(who.pub.c)
        await who.pub.close(abort=how == "abort")
        if not who.refused:
            past.append(who)
        (refused if who.refused else pubs).remove(who)
        await http.barrier(port, app)
        await asyncio.sleep(0.02)
        if app == "off" and not pubs:
            for s in list(players):
                try:
                    await asyncio.wait_for(ended(s), 10)
                except asyncio.TimeoutError:
                    raise Violation("idle_streams: a subscriber of a stream without publisher was kept", f"{s.kind}\n" + "\n".join(log))
                end(s)
                players.remove(s)
                await s.close()
                done.append(s)
        new_reign()

    async def ended(s):
        while not (s.closed if s.kind == "rtmp" else s.ended):
            await asyncio.sleep(0.02)

    done = []

    async def play():
        kind = rng.choice(("rtmp", "flv"))
        log.append(f"play {kind}")
        if app == "off" and not pubs:
            s = await rtmp.player(port, app, name)
            s.kind = "rtmp"
            try:
                await asyncio.wait_for(ended(s), 10)
            except asyncio.TimeoutError:
                raise Violation("idle_streams: a subscriber of a stream that does not exist was kept", "\n".join(log))
            await s.close()
            return
        if kind == "flv":
            s = await http.FlvPlayer(hport, f"/{app}/{name}").open()
            await http.barrier(port, app)
        else:
            s = await rtmp.player(port, app, name)
            await live.sync(s)
        s.kind = kind
        s.epochs = []
        begin(s, True)
        s.epochs[0]["a"] = 0
        players.append(s)

    async def stream():
        ms = rng.randrange(1, 400)
        for p in pubs + refused:
            p.pub.run(p.pub.at + ms)
            await p.pub.c.drain()

    async def part():
        s = players.pop(rng.randrange(len(players)))
        log.append(f"stop {s.kind}")
        end(s)
        await s.close(abort=rng.random() < 0.5)
        done.append(s)

    for _ in range(steps):
        acts = [publish] * 2 + [stream] * 6 + [play] * (2 if len(players) < 8 else 0)
        acts += [leave] * (2 if pubs or refused else 0) + [part] * (1 if len(players) > 3 else 0)
        a = rng.choice(acts)
        try:
            await a()
            for s in players:
                if s.closed if s.kind == "rtmp" else s.ended:
                    raise Violation("a subscriber was ended", f"{s.kind}: {s.error}\n" + "\n".join(log))
            await settle()
            for p in pubs + refused:
                if p.pub.c.closed:
                    raise Violation("a publisher was ended", f"{p.i} {p.pri} refused {p.refused}: {p.pub.c.error}\n" + "\n".join(log))
        except (rtmp.Closed, asyncio.TimeoutError) as e:
            raise Violation("the server ended a session or does not answer", f"{e!r}\n" + "\n".join(log[-30:]))
    for s in players:
        end(s)
    for s in players + done:
        judge(c, app, s, log)
    for s in players:
        await s.close()
    for p in pubs + refused:
        await p.pub.close()


def judge(c, app, s, log):
    rec = [(m.type, m.ts, m.data) for m in s.msgs]
    hist = "\n".join(log)
    for k, e in enumerate(s.epochs):
        who, fa, fb, n = e["who"], e["fa"], e["fb"], e["n"]
        part = [x for x in rec[e["a"]:e["b"]] if x[0] in (AUDIO, VIDEO) and x[2]]
        fr = [x for x in part if not live.is_header(x[0], x[2])]
        nm = f"{s.kind} {app}, reign {k} of {who and (who.i, who.pri)}"
        if who is None:
            if fr:
                raise Violation("frames while there is no publisher", f"{nm}: {live.short(fr[0])}\n{hist}")
            continue
        own = live.frames(who.pub.sent)
        for x in fr:
            u = live.uid(x[2])
            if u is None or u // 100000 != who.i + 1:
                raise Violation("frames of a publisher that is not the one to be heard", f"{nm}: {live.short(x)}\n{hist}")
        if not fr:
            if fb - fa > 100 and app != "off":
                raise Violation("takeover: nothing came of the new publisher", f"{nm}: {fa}..{fb}\n{hist}")
            c.case((app, s.kind, "none", who.pri, n), None, False)
            continue
        live.dechunk_expect_headers(nm, who.pub.sent, part, "takeover")
        pos = {(t, d): i for i, (t, _, d) in enumerate(own)}
        idx = [pos[x[0], x[2]] for x in fr]
        for x, i in zip(fr, idx):
            if own[i][1] != x[1]:
                raise Violation("timestamp changed", f"{nm}: {live.short(own[i])} received with ts={x[1]}\n{hist}")
        if app in ("key", "off", "all"):
            want = live.expect(own[fa:fb], 0, "all" if app == "all" else "key")
            got = [own[i] for i in idx]
            if idx[0] < fa:
                raise Violation("frames from before the reign", f"{nm}: #{idx[0]} < {fa}\n{hist}")
            if got != want:
                j = next(i for i, (x, y) in enumerate(zip(got + [None], want + [None])) if x != y)
                raise Violation("takeover: frames missing or repeated", f"{nm}: #{j} received {live.short(got[j]) if j < len(got) else None} "
                                f"expected {live.short(want[j]) if j < len(want) else None}, reign from {fa}\n{hist}")
        else:
            if any(y - x != 1 for x, y in zip(idx, idx[1:])):
                j = next(j for j, (x, y) in enumerate(zip(idx, idx[1:])) if y - x != 1)
                v = [i for i in idx if own[i][0] == VIDEO]
                raise Violation("takeover: frames missing or repeated", f"{nm}: {idx[j]} then {idx[j + 1]} ({live.short(own[idx[j]])})\n{hist}")
            if idx[-1] < fb - (10 if app == "gopall" else 90):
                raise Violation("takeover: the last frames are missing", f"{nm}: #{idx[-1]} of {fb}\n{hist}")
            v = next((i for i in idx if own[i][0] == VIDEO), None)
            if v is not None and not live.is_key(own[v][0], own[v][2]) :
                raise Violation("takeover: video does not start with a key frame", f"{nm}: {live.short(own[v])}\n{hist}")
        c.case((app, s.kind, k, who.pri, tuple(idx)), dict(mode=app, proto=s.kind, reign=k, priority=who.pri, publishers=n, frames=len(idx)),
               n > 1 or k > 0)
        c.saw("frames judged", len(idx))
        if k:
            c.saw("takeovers with frames")


async def files(c, rng, nrefused):
    """A recording and segments while others try to publish the same stream."""
    port, = free_ports(1)
    inst = c.nginx(f"worker_processes 1;\nevents {{ worker_connections 1024; }}\nrtmp {{ server {{ listen {port}; "
                   "application a { live on; record all; record_path {dir}/rec; hls on; hls_path {dir}/hls; hls_fragment 1s; hls_playlist_length 1h; } } }\n",
                   wait_ports=[port])
    for d in ("rec", "hls"):
        os.makedirs(f"{inst.dir}/{d}")
        os.chmod(f"{inst.dir}/{d}", 0o777)
    inst.start()
    gen = media.Gen(rng, gop=10, vsize=(20, 600), base=100000)
    p = await live.Pub.start(port, "a", "s", gen=gen)
    p.headers()
    p.run(rng.choice((40, 500)))
    for i in range(nrefused):
        q = await live.Pub.start(port, "a", "s", gen=media.Gen(rng, gop=4, vsize=(20, 300), base=(i + 2) * 100000), want=None)
        if q.c.result != "error:NetStream.Publish.BadName":
            raise Violation("publish: a second publisher of a priority was not refused", f"{q.c.result}")
        q.headers()
        for _ in range(5):
            q.run(q.at + rng.randrange(40, 1500))
            p.run(p.at + rng.randrange(40, 900))
        await live.sync(q.c)
        await live.sync(p.c)
        if rng.random() < 0.7:
            await q.close(abort=rng.random() < 0.5)
            await http.barrier(port, "a")
        c.saw("publishers refused")
    p.run(p.at + 1500)
    await live.sync(p.c)
    p.c.command("deleteStream", 0.0, None, 1.0)
    await live.sync(p.c)
    await p.close()
    await http.barrier(port, "a")
    fs = glob.glob(f"{inst.dir}/rec/*")
    if len(fs) != 1:
        raise Violation("refused: it made a recording", f"{fs}")
    f = http.Flv()
    f.feed(open(fs[0], "rb").read())
    rec = [(m.type, m.ts, m.data) for m in f.tags if m.type in (AUDIO, VIDEO)]
    if f.buf:
        raise Violation("refused: the recording of the stream is damaged", f"{len(f.buf)} bytes after the last tag")
    d = live.diff([x[::2] for x in live.frames(p.sent)], [x[::2] for x in live.frames(rec)])
    if d:
        raise Violation("refused: the recording of the stream is damaged", d)
    n = 0
    last = -1
    segs = sorted(glob.glob(f"{inst.dir}/hls/*.ts"), key=lambda f: int(f[:-3].rpartition("-")[2]))
    for f in segs:
        for s in ts.parse(open(f, "rb").read()).pes:
            for u in live.UID.findall(s.data):
                if int(u) // 100000 != 1:
                    raise Violation("refused: its media is in the segments of the stream", f"{f}: {u}")
                n += 1
    if not n:
        raise Violation("refused: no segments of the stream", str(segs))
    c.case(("files", nrefused, len(rec)), None, True)
    c.saw("recorded frames compared", len(rec))
    c.saw("frames in segments", n)


def scenarios(c):
    for i in range(c.pick(10, 100)):
        yield Scenario(f"change#{i}", run, mode=("key", "gop", "all", "gopall", "off")[i % 5], steps=c.pick(60, 120))
    for i in range(c.pick(2, 10)):
        yield Scenario(f"files#{i}", files, nrefused=rng3(c))


def rng3(c):
    return c.rng.randrange(1, 4)
