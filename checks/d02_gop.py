"""GOP cache: a late subscriber starts at once, on a key frame, with what it needs, and loses nothing after."""
import asyncio

from pv import live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, AMF0_META

ID = "D02"
TITLE = "Late subscribers of a cached stream start on a key frame and miss nothing after"
STATEMENT = """With a GOP cache configured, a subscriber that joins a running stream receives without waiting for the next key
frame the stream's metadata, the sequence headers in force, and the cached frames starting at a key frame: the newest
one that is at least the cache time old, or the oldest there is. From there it gets every frame in publishing order,
unchanged, without gap, repetition or reordering, while the publisher goes on and when another publisher takes over;
only when the cache is not to be sent at once (send_all off) may it skip ahead to a later key frame."""
OVER = ("schedules", "histories", "inputs", "configurations")
QUANT = """All join times relative to the publisher's frames, all GOP lengths, cache times and codecs, any number of
subscribers, and streams much longer than the cache; timestamps that advance by less than the fix_timestamp setting."""
WHY = "No existing test plays a stream; the cache is a ring buffer whose corner cases depend on when subscribers join."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_gop_module.c", "modules/nginx-rtmp-module/ngx_rtmp_live_module.c"]
MECH = [("caching and trimming", "ngx_rtmp_gop_cache and ngx_rtmp_gop_reset_gop"), ("the first burst", "ngx_rtmp_gop_send_gop"),
        ("frame by frame", "ngx_rtmp_gop_send"), ("timestamps", "ngx_rtmp_gop_link_frame")]
TECHNIQUE = "offline log checker with a reference model of the cache over publishers' and subscribers' message logs, under ASan"
NOTE = """Held on the generated streams and join times; low_latency and zero_start are run but only judged for
well-formedness and order."""
RULE = ("A case is one subscriber of a cached stream whose start, order, completeness, headers and timestamps were judged; "
        "non-trivial when it joined after the first frame; distinct by configuration, format, join index and start index.")

CONF = """
worker_processes 1;
events { worker_connections 4096; }
rtmp { server { listen %(port)d; out_queue %(queue)d; chunk_size 4096;
    application c500 { live on; cache_time 500ms; }
    application c500a { live on; cache_time 500ms; send_all on; }
    application c2000 { live on; cache_time 2s; }
    application c2000a { live on; cache_time 2s; send_all on; }
    application ll { live on; cache_time 1s; send_all on; low_latency on; }
} }
"""
APPS = {"c500": (500, False), "c500a": (500, True), "c2000": (2000, False), "c2000a": (2000, True)}


def cached(sent):
    """The frames that pass through the cache: no video before the first key frame."""
    out, key = [], False
    for f in sent:
        if live.is_header(f[0], f[2]):
            continue
        if f[0] == VIDEO and not key:
            if not live.is_key(f[0], f[2]):
                continue
            key = True
        out.append(f)
    return out


def start_of(fr, now, cache):
    """Where a subscriber starts that joins when fr[:now] have been cached."""
    keys = [i for i in range(now) if live.is_key(fr[i][0], fr[i][2])]
    if not keys:
        if now == 0:
            return {0}
        last = fr[now - 1][1]
        i = 0
        while i < now - 1 and last - fr[i][1] > cache:
            i += 1
        return {max(i - 1, 0), i, i + 1}
    # trimmed when a video frame comes: the last video frame decides
    v = max(i for i in range(now) if fr[i][0] == VIDEO)
    s = keys[0]
    for k in keys:
        if fr[v][1] - fr[k][1] >= cache:
            s = k
    # audio cached before the first key frame goes with the first GOP
    return {s} | start_of(fr, s, cache) if s == keys[0] else {s}


def judge_start(name, fr, rec, lo, hi, cache):
    """The index rec starts at, which must be the cache's start for some number of frames in lo..hi."""
    pos = {(t, b): i for i, (t, _, b) in enumerate(fr)}
    p = pos.get((rec[0][0], rec[0][2]))
    if p is None:
        raise Violation("gop: a frame that was never cached", f"{name}: {live.short(rec[0])}")
    ok = set()
    for n in range(lo, min(hi, len(fr)) + 1):
        ok |= start_of(fr, n, cache)
    hasvideo = any(f[0] == VIDEO for f in fr[:hi])
    if hasvideo and fr[p][0] == AUDIO and p != 0 and lo > 0 and not (ok & {p}):
        raise Violation("gop: does not start on a key frame", f"{name}: starts with {live.short(rec[0])} index {p}, due {sorted(ok)}")
    if p not in ok:
        raise Violation("gop: starts at the wrong frame",
                        f"{name}: joined at {lo}..{hi}, starts at {p} {live.short(fr[p])}, due {sorted(ok)} "
                        f"{[live.short(fr[i]) for i in sorted(ok)[:3] if i < len(fr)]}")
    return p


def judge_rest(name, fr, rec, p, lag, jumps=0):
    """jumps: how often it may skip ahead to a key frame (what it had still to get has left the cache)."""
    pos = {(t, d): j for j, (t, _, d) in enumerate(fr)}
    p0 = p
    for i, b in enumerate(rec):
        if jumps and p + i < len(fr) and fr[p + i][2] != b[2] and live.is_key(b[0], b[2]) and pos.get((b[0], b[2]), 0) > p + i:
            jumps -= 1
            p = pos[b[0], b[2]] - i
        if p + i >= len(fr):
            raise Violation("gop: more frames than were published", f"{name}: {live.short(b)}")
        a = fr[p + i]
        if (a[0], a[2]) != (b[0], b[2]):
            q = pos.get((b[0], b[2]))
            what = ("a frame that was never cached" if q is None else "frames repeated or out of order" if q < p + i else "frames missing")
            raise Violation(f"gop: {what}", f"{name}: #{i} expected {live.short(a)} received {live.short(b)} (start {p})")
        if a[1] != b[1]:
            raise Violation("gop: timestamp changed", f"{name}: {live.short(a)} received with ts={b[1]}")
    if len(fr) - (p + len(rec)) > lag:
        raise Violation("gop: falls behind or stops", f"{name}: start {p}, {len(rec)} received of {len(fr)}, allowed lag {lag}")


def gen(rng, fmt, base):
    kw = dict(start=rng.choice((0, 0, 77, 0xfffff0, 0x20000000)), fps=rng.choice((10, 25, 30)), gop=rng.choice((3, 10, 25, 40)),
              base=base, vsize=(30, 600), asize=(20, 100))
    if fmt == "hevc":
        kw["codec"] = 12
    elif fmt == "aac":
        kw["video"] = False
    elif fmt == "avc":
        kw["audio"] = False
    elif fmt == "mp3":
        kw["mp3"] = True
    return media.Gen(rng, **kw)


async def late(c, rng, queue, nstream, ms):
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, queue=queue), wait_ports=[port]).start()

    async def stream(i):
        app = list(APPS)[i % 4]
        cache, all_ = APPS[app]
        fmt = ("avc+aac", "hevc", "aac", "avc", "mp3", "reheader")[(i // 4 + i) % 6]
        g = gen(rng, fmt, (i + 1) * 100000)
        g.nv = rng.choice((0, 0, 2, 7)) if fmt in ("avc", "avc+aac", "hevc") else 0       # sometimes not a key frame first
        name = f"s{i}"
        early = await rtmp.player(port, app, name)
        await live.sync(early)
        pub = await live.Pub.start(port, app, name, g)
        pub.meta()
        pub.headers()
        subs = [(early, 0, 0, -1)]
        joins = sorted(rng.randrange(50, ms - 200) for _ in range(5))
        nkey = 0
        while pub.at < ms:
            to = pub.at + rng.choice((20, 60, 130))
            for t, ts, body, what in g.until(to):
                if fmt == "reheader" and what == "key" and nkey % 2 == 0:
                    pub.one(VIDEO, ts, media.avc_header(sps=rng.choice((media.SPS, media.SPS_BASE))))
                if fmt == "reheader" and rng.random() < 0.02:
                    pub.one(AUDIO, ts, media.aac_header(rng.choice((3, 4, 5))))
                nkey += what == "key"
                pub.one(t, ts, body)
            pub.at = to
            await pub.c.drain()
            if joins and joins[0] <= pub.at:
                joins.pop(0)
                if rng.random() < 0.5:
                    await live.sync(pub.c)
                lo = len(cached(pub.sent)) if rng.random() < 0 else None
                await live.sync(pub.c)
                lo = len(cached(pub.sent))
                s = await rtmp.player(port, app, name)
                await live.sync(s)
                n = len(pub.sent)
                # two more frames at most are needed for the burst
                for _ in range(2):
                    while True:
                        got = False
                        g_at = pub.at
                        pub.at += 5
                        for t, ts, body, what in g.until(pub.at):
                            pub.one(t, ts, body)
                            got = True
                        if got:
                            break
                await pub.c.drain()
                await live.sync(pub.c)
                hi = len(cached(pub.sent))
                await live.sync(s)
                fr = cached(pub.sent)
                rec = live.frames(live.got(s))
                if lo > 0 and not rec:
                    raise Violation("gop: nothing was sent at once", f"{app}/{name} {fmt}: {lo} frames cached")
                p = judge_start(f"{app}/{name} {fmt}", fr, rec, lo, hi, cache) if rec else hi
                e = [f for f in fr[p:lo] if all_ or f[1] - fr[p][1] < cache]
                if len(rec) < len(e):
                    raise Violation("gop: the first burst is not complete",
                                    f"{app}/{name} {fmt}: start {p}, {len(rec)} frames at once, {len(e)} due of {lo}")
                subs.append((s, lo, hi, hi - p - len(rec)))
                c.saw("first bursts judged")
                c.saw("frames in first bursts", len(rec))
            if rng.random() < 0.3:
                await asyncio.sleep(0.001)
        await live.sync(pub.c)
        fr = cached(pub.sent)
        nheader = sum(live.is_header(f[0], f[2]) for f in pub.sent)        # each takes a place among the frames it lags behind
        for s, lo, hi, lag in subs:
            await live.sync(s)
            await asyncio.sleep(0)
            allrec = live.got(s)
            rec = live.frames(allrec)
            nm = f"{app}/{name} {fmt} join {lo}"
            live.dechunk_expect_headers(nm, pub.sent, allrec, "gop")
            p = judge_start(nm, fr, rec, lo, max(hi, 3), cache)
            judge_rest(nm, fr, rec, p, max(lag, 0) + 4 + nheader, 0 if all_ else 2)
            first = next((m for m in s.msgs if m.type in (AUDIO, VIDEO, AMF0_META)), None)
            if first and first.type != AMF0_META:
                raise Violation("gop: frames before the metadata", f"{nm}: {first!r}")
            c.case((app, fmt, lo, p, len(rec)), dict(app=app, format=fmt, joined_at=lo, started_at=p, received=len(rec), cached=len(fr)), lo > 0)
            c.saw("frames compared", len(rec))
            await s.close()
        await pub.close()

    await asyncio.gather(*(stream(i) for i in range(nstream)))


async def takeover(c, rng):
    """The subscribers stay, the publisher is replaced."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, queue=512), wait_ports=[port]).start()
    for app in ("c500", "c2000a"):
        cache, all_ = APPS[app]
        subs = []
        for k in range(6):
            subs.append(await rtmp.player(port, app, "t"))
            await live.sync(subs[-1])
            fmt = rng.choice(("avc+aac", "hevc", "avc", "aac", "mp3"))
            g = gen(rng, fmt, (k + 1) * 10000)
            g.start = 0          # no jumps beyond fix_timestamp
            at = [len(s.msgs) for s in subs]
            pub = await live.Pub.start(port, app, "t", g)
            pub.meta()
            if rng.random() < 0.5 and fmt in ("avc+aac", "avc"):
                pub.one(VIDEO, g.start, media.avc_header(sps=media.SPS_BASE))
                pub.one(AUDIO, g.start, media.aac_header(3))
            else:
                pub.headers()
            while pub.at < 6000:
                pub.run(pub.at + rng.choice((10, 40, 200)))
                await pub.c.drain()
                if rng.random() < 0.2:
                    await asyncio.sleep(0.001)
            await live.sync(pub.c)
            fr = cached(pub.sent)
            for i, (s, a) in enumerate(zip(subs, at)):
                await live.sync(s)
                allrec = [(m.type, m.ts, m.data) for m in s.msgs[a:] if m.type in (AUDIO, VIDEO)]
                nm = f"{app}/t#{k} sub {i} {fmt}"
                live.dechunk_expect_headers(nm, pub.sent, allrec, "takeover")
                rec = live.frames(allrec)
                if not rec:
                    raise Violation("takeover: nothing was delivered", nm)
                p = {(t, b): j for j, (t, _, b) in enumerate(fr)}.get((rec[0][0], rec[0][2]))
                if p is None:
                    raise Violation("takeover: a frame of another publisher", f"{nm}: {live.short(rec[0])}")
                if p > 0 and not any(f[0] == VIDEO for f in fr[:p]) and fr[p][0] == VIDEO:
                    p = p
                judge_rest(nm, fr, rec, p, 8, 0 if all_ else 2)
                if p > 0:
                    raise Violation("takeover: the first frames are missing", f"{nm}: starts at {p}")
                c.case(("takeover", app, k, i, fmt, len(rec)), dict(app=app, publisher=k, format=fmt, received=len(rec)))
                c.saw("frames compared", len(rec))
            await pub.close(abort=rng.random() < 0.5)
            await asyncio.sleep(0.1)
        for s in subs:
            await s.close()


async def lowlatency(c, rng):
    """low_latency: order is kept, and every GOP sent starts with its key frame."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, queue=512), wait_ports=[port]).start()
    g = media.Gen(rng, fps=25, gop=10, vsize=(100, 3000))
    pub = await live.Pub.start(port, "ll", "x", g)
    pub.meta()
    pub.headers()
    subs = []
    while pub.at < 8000:
        pub.run(pub.at + 40)
        await pub.c.drain()
        if rng.random() < 0.05:
            subs.append(await rtmp.player(port, "ll", "x"))
        await asyncio.sleep(0.001)
    await live.sync(pub.c)
    fr = cached(pub.sent)
    pos = {(t, b): j for j, (t, _, b) in enumerate(fr)}
    for s in subs:
        await live.sync(s)
        rec = live.frames(live.got(s))
        prev = None
        for b in rec:
            q = pos.get((b[0], b[2]))
            if q is None:
                raise Violation("low latency: a frame that was never cached", live.short(b))
            if prev is not None and q != prev + 1:
                if q <= prev:
                    raise Violation("low latency: frames repeated or out of order", f"{prev} then {q}")
                if not live.is_key(b[0], b[2]):
                    raise Violation("low latency: a jump that does not land on a key frame", f"{prev} then {q} {live.short(b)}")
            prev = q
        c.case(("ll", len(rec)), None, len(rec) > 0)
        c.saw("frames compared", len(rec))
        await s.close()
    await pub.close()


def scenarios(c):
    for r in range(c.pick(3, 12)):
        yield Scenario(f"late#{r}", late, queue=c.rng.choice((512, 700, 1024)), nstream=c.pick(24, 24), ms=c.pick(9000, 30000))
        yield Scenario(f"takeover#{r}", takeover)
    yield Scenario("lowlatency", lowlatency)
