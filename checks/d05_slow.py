"""Subscribers that read slowly, stop reading or vanish: what they get, and that nobody else notices."""
import asyncio

from pv import http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.live import short
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, Client

ID = "D05"
TITLE = "A slow subscriber harms only itself, and what it gets is whole and in order"
STATEMENT = """However slowly a subscriber of a live stream reads, over RTMP or HTTP-FLV, with or without a GOP cache, every other
subscriber of the stream receives it without loss or delay, the publisher is not held up, and the server keeps no more than its
output queue for it. What the slow one receives is a selection of the published frames, each whole and unchanged, in order, without repetition,
after the sequence headers they need, and once it reads again it gets the
frames published from then on, unless it was ended because a new sequence header found no room in its queue."""
OVER = ("schedules", "inputs")
QUANT = "Every reading pattern of any number of subscribers, every queue size, frame size, cache setting and stream."
WHY = "No existing test has a subscriber that does not keep up; queues then overflow at points that depend on timing."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_handler.c", "modules/nginx-rtmp-module/ngx_rtmp_live_module.c",
         "modules/nginx-rtmp-module/ngx_rtmp_gop_module.c", "modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c"]
MECH = [("output queue", "ngx_rtmp_send_message"), ("dropping in direct mode", "ngx_rtmp_live_av"),
        ("position in the cache", "ngx_rtmp_gop_send"), ("writing", "ngx_rtmp_send")]
TECHNIQUE = "stress with subscribers of many reading patterns beside steady ones, offline checker of order, wholeness and backlog"
NOTE = """Held on the reading patterns generated. Without a cache, a subscriber whose queue has no room for a new sequence header is ended, by design; MPEG-TS players that fall behind are not judged."""
RULE = ("A case is one slow subscriber whose frames were compared with the published ones; non-trivial when it missed frames or "
        "was behind; distinct by configuration, pattern and what it received.")


def selection(name, sent, rec, key="slow", fix=0):
    """rec is a selection of sent in order, each frame once; returns the indices.

    fix: the longest gap of time, in audio or in video, that a subscriber is to see (fix_timestamp); 0: time is not changed."""
    headers = {}
    for t, ts, b in sent:
        headers.setdefault((t, b), []).append(ts)
    clock = {}                      # type -> [(published, delivered)] of the last message, all it may have been
    fr = live.frames(sent)
    pos = {(t, b): i for i, (t, _, b) in enumerate(fr)}
    at = -1
    idx = []
    for x in rec:
        if not x[2]:
            continue
        if fix:
            was = headers.get((x[0], x[2]), [])
            ok = []
            for ts in was:
                for pub, out in clock.get(x[0], [(ts, ts)]):
                    if (out + ts - pub if abs(ts - pub) <= fix else out) == x[1]:
                        ok.append((ts, x[1]))
            if was and not ok:
                raise Violation(f"{key}: time runs differently", f"{name}: {short(x)} published at {was}, "
                                f"the one before (published, received) at {clock.get(x[0])}, gaps over {fix} closed")
            clock[x[0]] = ok
        if live.is_header(x[0], x[2]):
            continue
        i = pos.get((x[0], x[2]))
        if i is None:
            raise Violation(f"{key}: a frame that was never published", f"{name}: {short(x)} {x[2][:60].hex()} after #{at}")
        if i <= at:
            raise Violation(f"{key}: frames repeated or out of order", f"{name}: {short(x)} is #{i}, came after #{at}")
        if not fix and fr[i][1] != x[1]:
            raise Violation(f"{key}: timestamp changed", f"{name}: {short(fr[i])} received with ts={x[1]}")
        at = i
        idx.append(i)
    live.dechunk_expect_headers(name, sent, rec, key)
    return fr, idx


async def run(c, rng, mode, nslow, nframes):
    port, hport = free_ports(2)
    # a cache needs room for the cache time and two groups of pictures
    queue = rng.choice((32, 64, 128, 256) if mode == "direct" else (256, 400))
    ctime = rng.choice((500, 1000, 2000))
    cache = {"direct": "", "cache": f"cache_time {ctime}ms;", "cached": f"cache_time {ctime}ms; send_all off;",
             "low": f"cache_time {ctime}ms; low_latency on;"}[mode]
    fix = rng.choice((0, 600, 1500, 10000)) if mode in ("cache", "cached") else 0
    if cache:
        cache += f" fix_timestamp {fix}ms;" if fix != 10000 else ""
    merge = rng.choice(("", "merge_frame 8;", "merge_frame 2;"))
    chunk = rng.choice((512, 4096, 65536))
    sync = rng.choice(("", "sync 10ms;", "sync off;"))
    conf = ("worker_processes 1;\nevents { worker_connections 1024; }\n"
            f"rtmp {{ server {{ listen {port}; out_queue {queue}; chunk_size {chunk}; {merge} timeout 120s; "
            f"application live {{ live on; {'wait_key off;' if mode == 'direct' and rng.random() < 0.5 else ''} {cache} {sync} }} }} }}\n"
            f"http {{ access_log off; server {{ listen {hport}; location / {{ flv_live {port}; }} }} }}\n")
    inst = c.nginx(conf, wait_ports=[port, hport]).start()
    size = rng.choice(((20000, 40000), (3000, 90000), (50000, 70000)))
    gop = rng.choice((5, 12, 30) if mode == "direct" else (5, 12))
    g = media.Gen(rng, fps=25, gop=gop, vsize=size, start=100000 if fix else 0, base=rng.randrange(1, 9) * 1000000)
    p = await live.Pub.start(port, "live", "s", gen=g, chunk=65536)
    p.headers()
    p.run(200)
    await live.sync(p.c)

    async def steady(kind):
        if kind == "flv":
            s = await http.FlvPlayer(hport, "/live/s").open()
            await http.barrier(port, "live")
        else:
            s = await rtmp.player(port, "live", "s")
            await live.sync(s)
        return kind, s, len(live.frames(p.sent))

    good = [await steady(k) for k in ("rtmp", "rtmp", "flv")]

    async def slow(i):
        kind = rng.choice(("rtmp", "rtmp", "flv"))
        if kind == "flv":
            s = await http.FlvPlayer(hport, "/live/s", rcvbuf=8192).open()
            await http.barrier(port, "live")
        else:
            s = Client("127.0.0.1", port, f"slow{i}")
            await s.open(rcvbuf=8192)
            await s.connect("live")
            await s.create_stream()
            await s.play("s")
            await live.sync(s)
        s.kind = kind
        s.paused = asyncio.Event()
        s.how = rng.choice(("stop", "stop", "burst", "trickle", "vanish"))
        s.marks = []
        return s

    slows = [await slow(i) for i in range(nslow)]
    stop = asyncio.Event()
    rated = len(p.sent)

    async def reading(s):
        if s.how == "stop":
            return
        while not stop.is_set():
            on, off = {"burst": (0.03, 0.4), "trickle": (0.001, 0.02), "vanish": (0.01, 0.3)}[s.how]
            await asyncio.sleep(rng.uniform(0, off))
            if s.how == "vanish" and rng.random() < 0.3:
                return await s.close(abort=True)
            s.paused.set()
            await asyncio.sleep(rng.uniform(0, on))
            s.paused.clear()

    readers = [asyncio.create_task(reading(s)) for s in slows]
    held = 0
    loop = asyncio.get_running_loop()

    async def follow():
        """The steady subscribers have each frame at once, and the publisher is read from."""
        nonlocal held
        await p.c.drain()
        t = loop.time()
        for kind, s, hi in good:
            try:
                ty, _, b = p.sent[-1]
                f = s.wait if kind == "rtmp" else s.wait_msg
                await f(lambda m: m.type == ty and m.data == b, 20, max(0, len(s.msgs) - 20))
            except asyncio.TimeoutError:
                raise Violation("steady: a subscriber beside slow ones did not get a frame",
                                f"{kind}: {len(s.msgs)} messages, sent {len(p.sent)}\n{conf}")
            except (rtmp.Closed, rtmp.RtmpError) as e:
                raise Violation("steady: a subscriber beside slow ones was ended", f"{kind}: {e}\n{conf}")
        held = max(held, loop.time() - t)

    change = rng.randrange(nframes // 2, nframes) if rng.random() < (0.9 if mode == "direct" else 0.5) else None
    changed = None
    turn = False
    while len(live.frames(p.sent)) < nframes:
        if fix and rng.random() < 0.01:
            g.start -= rng.randrange(1, 500)        # its clock steps back
            c.saw("backward steps of time")
        p.run(p.at + 40)
        if change and len(p.sent) > change:
            changed = len(live.frames(p.sent))
            change = changed + rng.randrange(30, 300) if mode != "direct" else None
            turn = not turn
            which = rng.choice(("video", "audio", "audio", "both"))
            if which != "audio":
                p.one(VIDEO, p.sent[-1][1], media.avc_header(b"\x67\x64\x00\x1f\xac\xd9\x40\x50\x05\xbb\x01\x10\x00\x00\x03\x00\x10") if turn else media.avc_header())
            if which != "video":
                p.one(AUDIO, p.sent[-1][1], media.aac_header(3, 1) if turn else media.aac_header())
            await follow()
            while g.nv % g.gop:
                p.run(p.at + 40)
                await follow()
        await follow()
    stop.set()
    await asyncio.gather(*readers)
    total = len(live.frames(p.sent))
    # they read again
    for s in slows:
        if s.how != "vanish":
            s.paused.set()

    async def quiet(s):
        n = -1
        while n != len(s.msgs):
            n = len(s.msgs)
            await asyncio.sleep(0.25)

    await asyncio.gather(*(quiet(s) for s in slows))
    # and follow the stream from then on
    while g.nv % g.gop:
        p.run(p.at + 40)
        await follow()
    mark = len(live.frames(p.sent))
    # frames in the cache at most, by which a subscriber may stay behind
    behind = 40 if mode == "direct" else int((ctime + 3 * gop * 40) * 70 / 1000) + 40
    while len(live.frames(p.sent)) < mark + behind + gop * 4:
        p.run(p.at + 40)
        await follow()
        await asyncio.sleep(0.002)
    await live.sync(p.c)
    await asyncio.gather(*(quiet(s) for s in slows))
    for kind, s, hi in good:
        live.judge(f"steady {kind}", live.frames(p.sent), [(m.type, m.ts, m.data) for m in s.msgs if m.type in (AUDIO, VIDEO)],
                   hi, "all" if "wait_key off" in conf else "key", key="steady")
        c.saw("frames delivered to steady subscribers", len(s.msgs))
    for s in slows:
        name = f"{s.kind} {s.how} {mode} queue {queue} fix {fix}"
        err = s.error
        cut = s.closed if s.kind == "rtmp" else s.ended or err is not None
        if cut and mode == "direct" and changed is not None and s.how != "vanish":
            # a sequence header that finds no room in the queue ends the subscriber
            rec = [(m.type, m.ts, m.data) for m in s.msgs if m.type in (AUDIO, VIDEO)]
            if selection(name, p.sent, rec)[1][-1:] < [changed]:
                c.case((mode, s.kind, s.how, queue, len(rec)), None, False)
                c.saw("slow subscribers ended for a new sequence header")
                continue
        if cut and s.how != "vanish":
            raise Violation("slow: the subscriber was cut off or got garbage", f"{name}: {err!r}\n{conf}")
        rec = [(m.type, m.ts, m.data) for m in s.msgs if m.type in (AUDIO, VIDEO)]
        fr, idx = selection(name, p.sent, rec, fix=fix)
        missed = (idx[-1] - idx[0] + 1 - len(idx)) if idx else 0
        if s.how != "vanish":
            avg = sum(len(b) for _, _, b in fr) / len(fr)
            late = [i for i in idx if i >= mark]
            n = len(fr) - mark
            if not late:
                raise Violation("slow: nothing came after the subscriber read again",
                                f"{name}: the last of {len(idx)} is #{idx[-1] if idx else None} of {len(fr)}, reading from #{mark}\n{conf}")
            if len(fr) - 1 - late[-1] > behind:
                raise Violation("slow: the subscriber does not catch up", f"{name}: #{late[-1]} of {len(fr)}, read again at #{mark}")
            # frames in order up to the last one: from a point on there is no gap
            gaps = sum(b - a > 1 for a, b in zip(late, late[1:]))
            if gaps > 1 and mode != "low":
                raise Violation("slow: gaps while the subscriber keeps up", f"{name}: {gaps} gaps in {late}")
        if s.how == "stop":
            back = [i for i in idx if i < total]
            bound = queue * max(1, 1) + 8_000_000 / avg
            if len(back) > bound + 50:
                raise Violation("slow: the server kept more than its output queue",
                                f"{name}: {len(back)} frames of {avg:.0f} bytes kept, {total} published")
        c.case((mode, s.kind, s.how, queue, tuple(idx)), dict(mode=mode, proto=s.kind, reading=s.how, queue=queue,
               received=len(idx), of=len(fr), missed=missed) if missed else None, missed > 0)
        c.saw(f"slow subscribers judged ({s.how})")
        c.saw("frames slow subscribers missed", missed)
        c.saw("frames slow subscribers got", len(idx))
        await s.close(abort=True)
    for kind, s, hi in good:
        await s.close()
    c.saw("longest wait of a steady subscriber, ms", 0)
    c.observed["longest wait of a steady subscriber, ms"] = max(c.observed["longest wait of a steady subscriber, ms"], round(held * 1000))
    await p.close()


def scenarios(c):
    for i in range(c.pick(12, 60)):
        yield Scenario(f"slow#{i}", run, mode=("direct", "cache", "cached", "low")[i % 4], nslow=6, nframes=c.pick(1000, 2500))
