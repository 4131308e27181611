"""FLV recording: the files hold exactly what the recorder was told to record."""
import asyncio
import glob
import os
import random
import re
import struct

from pv import http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, USER, Msg

ID = "H04"
TITLE = "FLV recordings hold exactly the frames the recorder selects"
STATEMENT = """Every recorder writes a well-formed FLV file with exactly the published frames it selects (all, audio, video, key frames),
unchanged and in order from the first frame that can be decoded, with the codec headers they need, timestamps counted from the file's first frame, and
header flags that tell what is in it; read at any moment it is a prefix of that. Splitting by interval loses no frame, appending
goes on after the last frame in time, size and frame limits hold, and control requests start and stop manual recorders as asked. When a write fails the recording
ends, and neither the publisher, its viewers nor any other connection notices."""
OVER = ("inputs", "schedules", "configurations", "faults")
QUANT = """All frame sizes and timestamps, recorder settings, moments of starting, stopping, publishing again and looking, names of streams,
and points at which writing fails."""
WHY = "No existing test records anything; which frame is written depends on every frame before it and on every recorder's state."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_record_module.c", "modules/nginx-rtmp-module/ngx_rtmp_control_module.c"]
MECH = [("which frames are written", "ngx_rtmp_record_node_av"), ("tags", "ngx_rtmp_record_write_frame"), ("append and open", "ngx_rtmp_record_node_open"),
        ("header flags, end", "ngx_rtmp_record_node_close"), ("file names", "ngx_rtmp_record_make_path")]
TECHNIQUE = "model of every recorder over the publisher's log, strict FLV reader online and afterwards, injected write failures, under ASan and UBSan"
NOTE = "Held on the generated streams and the moments looked at."
RULE = ("A case is one recorded file that was parsed and compared with the recorder's model; non-trivial with at least one frame; "
        "distinct by recorder, format and length.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp { server { listen %(port)d; chunk_size 4096;
    application rec { live on; record all; record_path {dir}/rec;
        recorder a { record audio; record_path {dir}/a; }
        recorder v { record video; record_path {dir}/v; record_suffix .video; }
        recorder k { record keyframes; record_path {dir}/k; }
        recorder ak { record audio keyframes; record_path {dir}/ak; record_lock on; }
        recorder m { record all manual; record_path {dir}/m; }
        recorder mf { record all; record_max_frames 17; record_path {dir}/mf; record_unique on; }
        recorder ms { record all; record_max_size 20K; record_path {dir}/ms; }
        recorder n { record all; record_path {dir}/n; record_notify on; }
    }
    application app { live on; record all; record_append on; record_path {dir}/app; }
    application int { live on; record all; record_interval 1500ms; record_unique on; record_path {dir}/int; }
} }
http { access_log off; server { listen %(http)d; location /control { rtmp_control all; } location / { flv_live %(port)d; } } }
"""
DIRS = "rec a v k ak m mf ms n app int".split()


def fail(key, text):
    raise Violation("record: " + key, text)


def selected(flags, t, b):
    if t == AUDIO:
        return "a" in flags
    return "v" in flags or ("k" in flags and b[0] >> 4 == 1)


def model(sent, flags, shift=0):
    """What a recorder that was open before sent writes: [(type, ts, body)], headers included where they were frames."""
    out, epoch, hdr, key = [], None, {}, False
    for t, ts, b in sent:
        h = live.is_header(t, b)
        if h:
            hdr[t] = b
        if not selected(flags, t, b):
            continue
        if epoch is None:
            epoch = ts - shift
        d = ts - epoch & 0xffffffff
        d = 0 if d >> 31 else d
        if t == VIDEO:
            if VIDEO not in hdr and b[0] & 15 == 7:
                continue
            if live.is_key(t, b):
                key = True
            if not key:
                continue
        elif AUDIO not in hdr and b[0] >> 4 == 10:
            continue
        out.append((t, d, b))
    return out


def read(name, path, partial=False):
    try:
        data = open(path, "rb").read()
    except FileNotFoundError:
        return None
    f = http.Flv()
    try:
        f.feed(data)
    except http.FlvError as e:
        fail("malformed", f"{name}: {path}: {e} after {len(f.tags)} tags")
    if f.buf and not partial:
        fail("malformed", f"{name}: {path}: {len(f.buf)} bytes after {len(f.tags)} tags")
    f.size = len(data)
    return f


def tags(f):
    return [(m.type, m.ts, m.data) for m in f.tags]


def noheader(x):
    return [f for f in x if not live.is_header(f[0], f[2])]


def compare(c, name, f, want, sent, prefix=False, flags=True):
    if f is None:
        fail("no file", name)
    got = noheader(tags(f))
    w = noheader(want)
    if prefix:
        if len(got) > len(w):
            fail("more frames than were published", f"{name}: {len(got)} of {len(w)}")
        w = w[:len(got)]
    d = live.diff(w, got)
    if d:
        what = "frames missing" if len(got) < len(w) else "frames differ"
        fail(what, f"{name}: {d}")
    live.dechunk_expect_headers(name, sent, [(t, 0, b) for t, _, b in tags(f)], "record")
    if flags and got:
        have = (5 if {m.type for m in f.tags} == {AUDIO, VIDEO} else 4 if f.tags[0].type == AUDIO else 1) if f.tags else 0
        if f.flags != have:
            fail("header flags", f"{name}: {f.flags}, tags say {have}")
    c.saw("tags compared", len(got))
    return len(got)


FMT = ("avc+aac", "hevc+aac", "avc", "aac", "avc+mp3", "bframes", "late", "wrap", "big", "jump", "back", "reheader")


def gen(rng, fmt, base):
    kw = dict(base=base, fps=rng.choice((10, 25, 30)), gop=rng.choice((5, 12, 25)),
              vsize=rng.choice(((20, 400), (50, 2000))), asize=(20, 400), start=rng.choice((0, 0, 700, 100000)))
    if fmt == "hevc+aac":
        kw["codec"] = 12
    if fmt == "avc":
        kw["audio"] = False
    if fmt == "aac":
        kw["video"] = False
    if fmt == "avc+mp3":
        kw["mp3"] = True
    if fmt == "bframes":
        kw["bframes"] = True
    if fmt == "wrap":
        kw["start"] = (1 << 32) - 2500
    if fmt == "big":
        kw["vsize"] = (60000, 90000)
    return media.Gen(rng, **kw)


def stream(rng, fmt, g, ms, jumps=(60000, 17000000, 1 << 30)):
    fr = [x[:3] for x in g.headers()] + [x[:3] for x in g.until(ms)]
    if fmt == "late":
        n = [i for i, f in enumerate(fr) if live.is_key(f[0], f[2])][0]
        del fr[n]
    if fmt in ("jump", "back"):
        at = rng.randrange(len(fr) // 3, 2 * len(fr) // 3)
        d = rng.choice(jumps) if fmt == "jump" else -rng.choice((500, 10000))
        fr = fr[:at] + [(t, x + d & 0xffffffff, b) for t, x, b in fr[at:]]
    if fmt == "reheader":
        at = next(i for i, f in enumerate(fr) if i > len(fr) // 2 and live.is_key(f[0], f[2]))
        fr[at:at] = [(VIDEO, fr[at][1], media.avc_header(media.SPS[:-1] + b"\x22\x33")), (AUDIO, fr[at][1], media.aac_header(3, 1))]
    return fr


def setup(c, **kw):
    port, hport = free_ports(2)
    inst = c.nginx(CONF % dict(port=port, http=hport), wait_ports=[port, hport], **kw)
    for d in DIRS:
        os.makedirs(f"{inst.dir}/{d}")
    inst.start()
    return port, hport, inst


HOW = ("close", "abort", "deleteStream", "eof", "late")


async def finish(pub, how):
    if how in ("deleteStream", "late"):
        pub.c.command("deleteStream", 5.0, None, float(pub.c.msid))
    if how == "late":               # frames after the end
        for f in [f for f in pub.sent if live.is_key(f[0], f[2])][-1:] + pub.sent[-1:]:
            pub.c.av(*f)
    if how == "eof":
        pub.c.send(Msg(USER, 0, 0, struct.pack(">HI", 1, pub.c.msid), 2))
    await live.sync(pub.c)
    if how in ("close", "abort"):
        await pub.close(abort=how == "abort")


RECS = dict(rec="av", a="a", v="v", k="k", ak="ak", mf="av", ms="av", n="av")


async def mix(c, rng, n, ms):
    port, hport, inst = setup(c)

    async def one(i):
        rng2 = random.Random(rng.random())
        fmt = FMT[i % len(FMT)]
        name = rng2.choice((f"s{i}", f"s{i}", f"a b{i}", f"d/e{i}", f"x%{i}", f"../u{i}", f"q{i}?x=1"))
        base = name.split("?")[0]
        esc = "".join(ch if re.match(r"[A-Za-z0-9_.~-]", ch) else "%%%02X" % ord(ch) for ch in base)
        g = gen(rng2, fmt, i * 100000)
        pub = await live.Pub.start(port, "rec", name, g)
        fr = stream(rng2, fmt, g, ms)
        man = []                # (from, to) of the manual recorder
        on = False
        left = list(fr)
        while left:
            k = rng2.choice((1, 5, 20, 50))
            for f in left[:k]:
                pub.one(*f)
            left = left[k:]
            await pub.c.drain()
            if rng2.random() < 0.2:
                for d in ("rec", "n"):
                    f = read(name, f"{inst.dir}/{d}/{esc}.flv", True)
                    if f:
                        compare(c, f"{d}/{name} {fmt} in progress", f, model(pub.sent, "av"), pub.sent, True, False)
                        c.saw("looks at a growing file")
            if rng2.random() < 0.15 and base == f"s{i}":
                await live.sync(pub.c)
                st, _, body = await http.get(hport, f"/control/record/{'stop' if on else 'start'}?srv=default&app=rec&name={base}&rec=m")
                if st != 200:
                    fail("control", f"{name}: {st} {body[:100]}")
                on = not on
                if on:
                    man.append([len(pub.sent), None])
                else:
                    man[-1][1] = len(pub.sent)
                    await judge_manual(c, inst, pub, name, fmt, esc, man[-1])
        how = rng2.choice(HOW)
        await finish(pub, how)
        await asyncio.sleep(0.1)
        if on:
            man[-1][1] = len(pub.sent)
            await judge_manual(c, inst, pub, name, fmt, esc, man[-1])
        for d, fl in RECS.items():
            suffix = ".video" if d == "v" else ".flv"
            nm = f"{d}/{name} {fmt} {how}"
            want = model(pub.sent, fl)
            if d == "mf":
                n = 0
                for p in glob.glob(f"{inst.dir}/mf/{glob.escape(esc)}-*.flv"):
                    f = read(nm, p)
                    if not f.size:
                        continue
                    if len(f.tags) > 17 + 2:
                        fail("frame limit", f"{nm}: {p} has {len(f.tags)} tags")
                    n += check_part(nm, f, want)
                c.case((d, fmt, n))
                continue
            p = f"{inst.dir}/{d}/{esc}{suffix}"
            f = read(nm, p)
            if d == "ms":
                if f and f.size:
                    big = max([len(x[2]) for x in pub.sent])
                    if f.size > 20480 + big + 15:
                        fail("size limit", f"{nm}: {f.size}")
                    check_part(nm, f, want)
                    c.case((d, fmt, f.size))
                continue
            if not noheader(want) and (f is None or not f.tags or all(live.is_header(m.type, m.data) for m in f.tags)):
                continue
            k = compare(c, nm, f, want, pub.sent)
            c.case((d, fmt, k), dict(recorder=d, stream=nm, frames=k, bytes=f.size))
            if d == "n":
                st = [live_status(m) for m in pub.c.msgs]
                st = [x for x in st if x and x.startswith("NetStream.Record")]
                if st != ["NetStream.Record.Start"] + (["NetStream.Record.Stop"] if how in ("deleteStream", "eof", "late") else []):
                    fail("record status", f"{nm}: {st}")
        stray = [x for d in DIRS for x in os.listdir(f"{inst.dir}/{d}") if os.path.isdir(f"{inst.dir}/{d}/{x}")]
        if stray or glob.glob(f"{inst.dir}/u{i}*") or glob.glob(f"{inst.dir}/../u{i}*"):
            fail("a file outside the recording directory", f"{name}: {stray}")
        await pub.close()

    for k in range(0, n, 12):
        await asyncio.gather(*(one(i) for i in range(k, min(n, k + 12))))


def live_status(m):
    v = rtmp.Client.is_cmd(m, "onStatus")
    return v[3].get("code") if v and len(v) > 3 and isinstance(v[3], dict) else None


def check_part(name, f, want):
    """A file that starts somewhere: consecutive frames, decodable."""
    got = noheader(tags(f))
    w = noheader(want)
    if not got:
        return 0
    at = next((i for i, x in enumerate(w) if (x[0], x[2]) == (got[0][0], got[0][2])), None)
    if at is None:
        fail("a frame that was never published", f"{name}: {live.short(got[0])}")
    v = next((x for x in got if x[0] == VIDEO), None)
    skip = 0
    i = at
    for g in got:
        while i < len(w) and (w[i][0], w[i][2]) != (g[0], g[2]):
            if not (w[i][0] == VIDEO and v is not None and (g is v or got.index(g) < got.index(v))):
                fail("frames missing", f"{name}: expected {live.short(w[i])} got {live.short(g)}")
            i += 1
        i += 1
    if v and not live.is_key(v[0], v[2]):
        fail("a recording that does not start with a key frame", f"{name}: {live.short(v)}")
    t = [x[1] for x in tags(f)]
    if t[0] != 0:
        fail("timestamps do not start at 0", f"{name}: {t[0]}")
    return len(got)


async def judge_manual(c, inst, pub, name, fmt, esc, man):
    lo, hi = man
    nm = f"m/{name} {fmt} frames {lo}-{hi}"
    f = read(nm, f"{inst.dir}/m/{esc}.flv")
    if f is None:
        fail("no file", nm)
    part = pub.sent[lo:hi]
    # from the first key frame on
    k = next((i for i, x in enumerate(part) if x[0] == VIDEO and x[2][0] >> 4 == 1), len(part))
    hd = {}
    for x in pub.sent[:lo + k]:
        if live.is_header(x[0], x[2]):
            hd[x[0]] = x
    part = part[k:]
    if not part or not noheader(part):
        return
    e = part[0][1]
    want = model(list(hd.values()) + part, "av")
    got = noheader(tags(f))
    w = [(t, b) for t, _, b in noheader(want)]
    if [(t, b) for t, _, b in got] != w:
        fail("manual recording", f"{nm}: {len(got)} frames, expected {len(w)}: "
             f"{live.diff([(t, 0, b) for t, b in w], [(t, 0, b) for t, _, b in got])}")
    ts = {b: x for _, x, b in part}
    for t, x, b in got:
        d = ts[b] - e & 0xffffffff
        if x != (0 if d >> 31 else d):
            fail("timestamp", f"{nm}: {live.short((t, x, b))}, expected {d}")
    live.dechunk_expect_headers(nm, pub.sent, [(t, 0, b) for t, _, b in tags(f)], "record")
    c.case(("manual", fmt, lo, hi), dict(recorder="m", stream=nm, frames=len(got)))
    c.saw("tags compared", len(got))


async def append(c, rng, n, ms):
    """Several publishers one after the other into one file."""
    port, hport, inst = setup(c)

    async def chain(k):
        rng2 = random.Random(rng.random())
        want, sent = [], []
        for j in range(n):
            fmt = rng2.choice(("avc+aac", "avc", "aac", "bframes", "avc+mp3", "hevc+aac", "jump"))
            g = gen(rng2, fmt, k * 10000000 + j * 100000)
            pub = await live.Pub.start(port, "app", f"p{k}", g)
            for f in stream(rng2, fmt, g, rng2.choice((300, ms)), (60000, 17000000, 40000000)):
                pub.one(*f)
            await live.sync(pub.c)
            f = read(f"app/p{k}", f"{inst.dir}/app/p{k}.flv", True)
            await finish(pub, rng2.choice(HOW))
            await asyncio.sleep(0.1)
            await pub.close()
            shift = want[-1][1] if want else 0
            sent += pub.sent
            want += model(pub.sent, "av", shift)
            f = read(f"app/p{k}", f"{inst.dir}/app/p{k}.flv")
            t = compare(c, f"app/p{k} after {j + 1} publishers", f, want, sent)
            c.case(("append", j, fmt, t), dict(publishers=j + 1, frames=t))

    await asyncio.gather(*(chain(k) for k in range(6)))


async def interval(c, rng, ms):
    """Split by time: no frame is lost between the files."""
    port, hport, inst = setup(c)

    async def one(i, fmt):
        rng2 = random.Random(rng.random())
        g = gen(rng2, fmt, i * 100000)
        g.start = 0
        pub = await live.Pub.start(port, "int", f"i{i}", g)
        pub.headers()
        await pub.paced(ms)
        await finish(pub, rng2.choice(HOW))
        await asyncio.sleep(0.1)
        await pub.close()
        fs = sorted(glob.glob(f"{inst.dir}/int/i{i}-*.flv"), key=lambda p: int(re.search(r"-(\d+)\.flv", p)[1]))
        if fmt != "aac" and g.gop / g.fps < 1 and len(fs) < ms / 1500 / 3:
            fail("interval", f"i{i} {fmt}: {len(fs)} files in {ms} ms")
        want = noheader(model(pub.sent, "av"))
        got = []
        for p in fs:
            f = read(f"int/i{i} {fmt}", p)
            tg = tags(f)
            x = noheader(tg)
            if tg and tg[0][1] != 0:
                fail("timestamps do not start at 0", f"{p}: {tg[0][1]}")
            if x:
                live.dechunk_expect_headers(p, pub.sent, [(t, 0, b) for t, _, b in tg], "record")
                v = next((y for y in x if y[0] == VIDEO), None)
                if v and not live.is_key(v[0], v[2]):
                    fail("a recording that does not start with a key frame", f"{p}: {live.short(v)}")
                src = {b: y for _, y, b in pub.sent}
                e = src[x[0][2]] - x[0][1]
                for t, y, b in x:
                    if y != max(src[b] - e, 0):
                        fail("timestamp", f"{p}: {live.short((t, y, b))}, expected {src[b] - e}")
            got += x
        d = live.diff([(t, 0, b) for t, _, b in want], [(t, 0, b) for t, _, b in got])
        if d:
            fail("frames lost between files", f"int/i{i} {fmt}: {len(fs)} files: {d}")
        c.case(("interval", fmt, len(fs)), dict(files=len(fs), frames=len(got)))
        c.saw("tags compared", len(got))

    await asyncio.gather(*(one(i, f) for i, f in enumerate(("avc+aac", "avc", "aac", "bframes", "hevc+aac", "avc+mp3"))))


async def full(c, rng, n):
    """Writes fail: the recording ends, nobody else notices."""
    port, hport, inst = setup(c, fsize=rng.choice((50000, 150000, 151001)))
    for i in range(n):
        g = media.Gen(rng, vsize=(500, 9000), gop=12, base=i * 100000)
        pub = await live.Pub.start(port, rng.choice(("rec", "app", "int")), f"f{i}", g)
        play = await rtmp.player(port, pub.app, f"f{i}")
        await http.barrier(port, "rec")
        pub.headers()
        others = []
        while pub.at < 4000:
            pub.run(pub.at + 200)
            await live.sync(pub.c)
            # connections that get the file descriptors of what was closed
            o = await http.FlvPlayer(hport, f"/{pub.app}/f{i}").open()
            others.append(o)
        await live.sync(pub.c)
        try:
            await live.until_last(play, pub, 10)
        except (asyncio.TimeoutError, rtmp.RtmpError) as e:
            fail("a viewer noticed the full disk", f"{e!r} {len(play.msgs)}")
        live.judge(f"f{i}", live.frames(pub.sent), live.frames(live.got(play)), 0, "key", True, "record: viewer")
        await asyncio.sleep(0.1)
        for o in others:
            if o.error:
                fail("another connection was damaged", f"{o.path}: {o.error!r}")
            await o.close()
        for d in ("rec", "a", "v", "k", "n", "app"):
            for p in glob.glob(f"{inst.dir}/{d}/f{i}*"):
                f = read(p, p, True)
                c.case(("full", d, f.size), dict(recorder=d, bytes=f.size))
                c.saw("cut recordings")
        await play.close()
        await pub.close()


async def workers(c, rng, n, ms):
    """Players in other workers do not touch what the publisher's worker records."""
    nw = 3
    port, hport, base = free_ports(3)
    inst = c.nginx(f"worker_processes {nw};\nstream_zone buckets=16 streams=64;\n"
                   f"events {{ worker_connections 512; multi_listen {base} {port}; multi_listen unix:{{dir}}/r.sock {port}; }}\n"
                   f"rtmp {{ server {{ listen {port}; rtmp_auto_pull on; rtmp_auto_pull_port unix:{{dir}}/r.sock; relay_reconnect 300ms; application rec {{ live on; wait_key off; "
                   f"record all; record_path {{dir}}/rec; recorder a {{ record audio; record_path {{dir}}/a; record_unique on; }} }} }} }}\n", wait_ports=[port])
    for d in ("rec", "a"):
        os.makedirs(f"{inst.dir}/{d}")
    inst.start()
    await asyncio.sleep(0.5)

    async def one(i):
        rng2 = random.Random(rng.random())
        name = f"s{i}"
        players = []

        async def player():
            w = rng2.randrange(nw)
            try:
                players.append(await rtmp.player(base + w, "rec", name))
                await live.sync(players[-1])
            except rtmp.RtmpError as e:
                fail("a player is refused", f"{name} in {w}: {e}")

        for _ in range(rng2.randrange(2)):
            await player()
            await asyncio.sleep(0.3)
        w = rng2.randrange(nw)
        fmt = rng2.choice(("avc+aac", "aac", "avc"))
        pub = await live.Pub.start(base + w, "rec", name, gen(rng2, fmt, i * 100000))
        left = stream(rng2, fmt, pub.gen, ms)
        while left:
            k = rng2.choice((5, 20, 50))
            for f in left[:k]:
                pub.one(*f)
            left = left[k:]
            await pub.c.drain()
            await asyncio.sleep(rng2.choice((0, 0.1)))
            if rng2.random() < 0.4:
                await player()
            elif players and rng2.random() < 0.4:
                await players.pop(rng2.randrange(len(players))).close(abort=rng2.random() < 0.5)
        await live.sync(pub.c)
        await asyncio.sleep(rng2.choice((0, 0.3)))
        how = rng2.choice(HOW)
        await finish(pub, how)
        await asyncio.sleep(0.6)
        nm = f"{name} {fmt} published in {w}, {how}"
        if noheader(model(pub.sent, "av")):
            k = compare(c, "rec/" + nm, read(nm, f"{inst.dir}/rec/{name}.flv"), model(pub.sent, "av"), pub.sent)
            c.case(("workers", fmt, k, len(players)), dict(recorder="rec", stream=nm, frames=k))
        fs = glob.glob(f"{inst.dir}/a/{name}-*.flv")
        if len(fs) > 1:
            fail("a stream is recorded more than once", f"{nm}: {fs}")
        if noheader(model(pub.sent, "a")):
            k = compare(c, "a/" + nm, read(nm, fs[0]) if fs else None, model(pub.sent, "a"), pub.sent)
            c.case(("workers a", fmt, k, len(players)))
        for x in players:
            await x.close()
        await pub.close()
        c.saw("streams recorded with players in other workers")

    await asyncio.gather(*(one(i) for i in range(n)))


def scenarios(c):
    for r in range(c.pick(2, 10)):
        yield Scenario(f"mix#{r}", mix, n=c.pick(36, 96), ms=c.pick(4000, 8000))
    yield Scenario("append", append, n=c.pick(5, 12), ms=2000)
    yield Scenario("interval", interval, ms=c.pick(7000, 20000))
    for r in range(c.pick(2, 6)):
        yield Scenario(f"full#{r}", full, n=c.pick(3, 8))
    yield Scenario("workers", workers, n=c.pick(12, 30), ms=c.pick(2000, 5000))
