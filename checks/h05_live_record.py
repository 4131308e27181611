"""Continuous TS recording: index and files hold exactly what was published."""
import asyncio
import glob
import os
import random
import re
import time

from pv import hook, http, live, media, rtmp, ts
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO

from .h04_record import HOW, finish

ID = "H05"
TITLE = "Continuous TS recordings and their index hold exactly what was published"
STATEMENT = """Every line of a recording's index names an existing file and a byte range of it, the ranges of a file follow each other without gap
or overlap from its header to its end, and the range holds exactly the frames published between the line's start and end time (in real
time), as valid MPEG-TS; whole streams are covered, later publishers of the name are appended. A range ends where the configured lengths say:
at a key frame after the shortest, anywhere after the longest, and a new file starts with every interval. Recording starts and stops as control requests and the answers
of the callback server tell, stays within its directory for every stream name, and neither failing files nor huge frames harm anyone."""
OVER = ("inputs", "schedules", "configurations", "faults")
QUANT = """All frame sizes and timestamps, interval, fragment and buffer settings, moments of starting, stopping and publishing again, stream names,
answers of the callback server, and points at which opening or writing fails."""
WHY = "No existing test records anything; where ranges end depends on all frames, their times and the settings before."
FILES = ["modules/nginx-rtmp-module/ngx_live_record.c", "modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c",
         "modules/nginx-rtmp-module/ngx_rtmp_notify_module.c", "modules/nginx-rtmp-module/ngx_rtmp_control_module.c"]
MECH = [("video frames and cuts", "ngx_live_record_avc"), ("audio frames", "ngx_live_record_aac"), ("index lines", "ngx_live_record_write_index"),
        ("files", "ngx_live_record_open_file"), ("buffering", "ngx_live_record_write_buf"), ("control", "ngx_live_record_open")]
TECHNIQUE = """model of index and ranges over the publisher's log, strict MPEG-TS reader over the files online and afterwards, injected open and write
failures, callback server with faults, under ASan and UBSan"""
NOTE = "Held on the generated streams, settings and failures."
RULE = "A case is one stream whose index and files were compared with the model; non-trivial with frames; distinct by settings, format and lines."

APPS = dict(std=(10000, 1000, 2000, 1 << 20), small=(3000, 500, 1500, 1000), tiny=(1000, 100, 300, 377), wide=(60000, 8000, 12000, 100000),
            app=(600000, 700, 1500, 4096))
CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp { server { listen %(port)d; chunk_size 4096; max_message 16m; live_record_path {dir}/rec; record_path {dir}/flv;
%(apps)s
    application man { live on; live_record off; live_record_interval 10s; live_record_min_fragment 1s; live_record_max_fragment 2s;
        recorder m { record audio manual; } }
    application note { live on; live_record_interval 3s; live_record_min_fragment 500ms; live_record_max_fragment 1500ms;
        live_record %(note)s; recorder m { record audio manual; } on_record http://127.0.0.1:%(cport)d/r stage=start,update,done timeout=800ms; %(pub)s }
} }
http { access_log off; server { listen %(http)d; location /control { rtmp_control all; } location / { flv_live %(port)d; } } }
"""
APPS["man"] = (10000, 1000, 2000, 1 << 20)
APPS["note"] = (3000, 500, 1500, 1 << 20)
SERVER = "default"
LINE = re.compile(r"(.*)_(\d+)\.ts\?startsize=(\d+)&endsize=(\d+)&starttime=(\d+)&endtime=(\d+)")


def fail(key, text):
    raise Violation("live record: " + key, text)


def setup(c, note="off", cport=1, pub="", **kw):
    port, hport = free_ports(2)
    apps = "\n".join(f"application {a} {{ live on; live_record on; live_record_interval {i}ms; live_record_min_fragment {lo}ms; "
                     f"live_record_max_fragment {hi}ms; live_record_buffer {b}; }}" for a, (i, lo, hi, b) in APPS.items() if a not in ("man", "note"))
    inst = c.nginx(CONF % dict(port=port, http=hport, apps=apps, note=note, cport=cport, pub=pub), wait_ports=[port, hport], **kw)
    os.makedirs(f"{inst.dir}/rec")
    os.makedirs(f"{inst.dir}/flv")
    inst.start()
    return port, hport, inst


class Epoch:
    """What a publisher sent between a start and a stop of recording."""

    def __init__(self, sent, wait=False):
        self.sent, self.first, self.wait = sent, len(sent), wait
        self.last = None
        self.t0 = time.time() * 1000
        self.t1 = None


def recorded(e):
    """[(type, index, ts, key)] and whether there is a video header, for each; VFrames and AFrames of all."""
    v, a = ts.published(e.sent)
    hdr, out, vi, ai = set(), [], 0, 0
    waiting = e.wait
    for n, (t, x, b) in enumerate(e.sent[:e.last]):
        if live.is_header(t, b):
            if t == AUDIO or b[0] & 15 == 7:
                hdr.add(t)
            continue
        if t == AUDIO:
            if b[0] >> 4 != 10 or AUDIO not in hdr:
                continue
            ai += 1
            if n < e.first:
                continue
            if waiting:
                if VIDEO in hdr:
                    continue
                waiting = False
            out.append((AUDIO, ai - 1, x, VIDEO not in hdr))
        else:
            if b[0] & 15 != 7 or VIDEO not in hdr:
                continue
            vi += 1
            if n < e.first:
                continue
            key = b[0] >> 4 == 1
            if waiting and not key:
                continue
            waiting = False
            out.append((VIDEO, vi - 1, x, key))
    return out, v, a


def model(frames, t0, opt):
    """The lines: [(time of the file, start, end, frames)]."""
    interval, lo, hi, _ = opt
    base = t0 - frames[0][2]
    at = t0 // 1000 // (interval // 1000) * (interval // 1000)
    out, start, end, cur = [], t0, t0, []
    for f in frames:
        t, i, x, key = f
        now = base + x
        if (now > start + lo if key else t == VIDEO and now > start + hi):
            out.append((at, start, end, cur))
            cur = []
            start = now
            last = now // 1000 // (interval // 1000) * (interval // 1000)
            if last > at:
                at, end = last, now
        cur.append(f[:2])
        end = now
    out.append((at, start, end, cur))
    return out


def paths(inst, app, name):
    """{time: (index, ts)}"""
    d = f"{inst.dir}/rec/{SERVER}/{app}/{name}"
    out = {}
    base = glob.escape(name.split("/")[-1])
    ix = {int(p.rsplit("-", 1)[1][:-5]): p for p in glob.glob(f"{glob.escape(d)}/index/*/**/*-*.m3u8", recursive=True)}
    fs = {int(p.rsplit("_", 1)[1][:-3]): p for p in glob.glob(f"{glob.escape(d)}/[0-9]*/**/*_*.ts", recursive=True)}
    for t in set(ix) | set(fs):
        day = time.strftime("%Y%m%d", time.localtime(t))
        pi, pf = f"{d}/index/{day}/{name}-{t}.m3u8", f"{d}/{day}/{name}_{t}.ts"
        if ix.get(t, pi) != pi or fs.get(t, pf) != pf:
            fail("file name", f"{app}/{name}: {ix.get(t)} {fs.get(t)}, expected {pi} {pf}")
        out[t] = pi, pf
    return out


def lines(name, path, size):
    """The parsed lines of an index; contiguous, and within the file."""
    try:
        text = open(path, encoding="utf-8", errors="surrogateescape").read()
    except FileNotFoundError:
        return []
    if text and not text.endswith("\n"):
        fail("index", f"{path}: unfinished line {text[-200:]}")
    out = []
    for ln in text.split("\n")[:-1]:
        m = LINE.fullmatch(ln)
        if not m:
            fail("index", f"{path}: {ln!r}")
        f = path.replace("/index/", "/").replace(f"{name}-{m[2]}.m3u8", f"{name}_{m[2]}.ts")
        if m[1] != name or not os.path.exists(f) or f"-{m[2]}.m3u8" not in path:
            fail("a line names no recorded file", f"{path}: {ln!r}")
        a, b, s, e = map(int, m.groups()[2:])
        if a != (out[-1][1] + 1 if out else 376) or b < a - 1 or b >= size:
            fail("byte range", f"{path}: {ln!r} after {out[-1] if out else 'the header'}, file of {size}")
        if a % 188 or (b + 1) % 188:
            fail("byte range inside a packet", f"{path}: {ln!r}")
        out.append((a, b, s, e))
    return out


def tsfile(name, path, partial=False):
    data = open(path, "rb").read()
    t = ts.Ts()
    t.jumps = []
    try:
        t.feed(data)
        t.close(partial)
    except ts.TsError as e:
        fail("malformed file", f"{name}: {path}: {e}")
    if t.npat > 1 or t.npmt > 1:
        fail("header repeated", f"{name}: {path}: {t.npat} {t.npmt}")
    t.pes.sort(key=lambda p: p.at)
    return t, len(data)


def reader(name, e, v, a):
    r = ts.Reader(name, v, a, fail, sync=0, pcr=-ts.DELAY)
    return r


def found(r, p):
    if p.sid == 0xe0:
        return VIDEO, r.video(p)
    x = r.audio(p)
    if x[1] != x[0] + 1:
        fail("several audio frames in a packet", f"{r.name}: {x}")
    return AUDIO, x[0]


def looks(inst, app, name):
    """Whatever moment it is, the index is one of the file as it is."""
    for t, (pi, pf) in paths(inst, app, name).items():
        n = 0
        if os.path.exists(pi):
            text = open(pi).read()
            size = os.path.getsize(pf) if os.path.exists(pf) else 0
            lines(name, pi, size) if text.endswith("\n") else None
            n += 1
        if n and os.path.exists(pf):
            tsfile(f"{app}/{name} in progress", pf, True)
    return True


async def settled(inst, app, name, secs=10):
    """Waits until the index covers the files."""
    end = time.time() + secs
    while time.time() < end:
        ok = True
        for t, (pi, pf) in paths(inst, app, name).items():
            try:
                last = open(pi).read().rstrip("\n").rsplit("\n", 1)[-1]
                m = LINE.fullmatch(last)
                ok = ok and (m is None or int(m[4]) + 1 == os.path.getsize(pf))
            except FileNotFoundError:
                ok = False
        if ok:
            return
        await asyncio.sleep(0.05)


def judge(c, inst, app, name, epochs, what=""):
    opt = APPS[app]
    nm = f"{app}/{name} {what}"
    have = {}
    files = {}
    for t, (pi, pf) in sorted(paths(inst, app, name).items()):
        if not os.path.exists(pf) or not os.path.exists(pi):
            fail("file without index" if os.path.exists(pf) else "index without file", f"{nm}: {pi} {pf}")
        files[t] = tsfile(nm, pf)
        have[t] = lines(name, pi, files[t][1])
        if files[t][1] != (have[t][-1][1] + 1 if have[t] else 376):
            fail("frames outside the index", f"{nm}: file {pf} of {files[t][1]} bytes, last line {have[t][-1:]}")
    want = {}
    used = set()
    n = 0
    for e in epochs:
        fr, v, a = recorded(e)
        if not fr:
            continue
        cand = [s for t in have for (_, _, s, _) in have[t] if e.t0 - 150 <= s <= e.t1 + 50 and s not in used]
        hit = None
        for s in cand:
            m = model(fr, s, opt)
            if all((x[1], x[2]) in [(h[2], h[3]) for h in have.get(x[0], ())] for x in m):
                hit = s, m
                break
        if hit is None:
            s = cand[0] if cand else int(e.t0)
            fail("lines differ", f"{nm}: no lines of {len(fr)} frames recorded from {e.t0:.0f}..{e.t1:.0f} on, {fr[0]} to {fr[-1]}: have "
                 f"{ {t: [h[2:] for h in have[t]][:12] for t in list(have)[:6]} }, expected "
                 f"{[(x[0], x[1], x[2], len(x[3])) for x in model(fr, s, opt)][:12]}")
        used.add(hit[0])
        for at, s, en, fs in hit[1]:
            want.setdefault(at, []).append((s, en, fs, e, v, a))
            n += len(fs)
    for t in set(want) | set(have):
        h, w = have.get(t, []), want.get(t, [])
        if [(x[2], x[3]) for x in h] != [x[:2] for x in w]:
            fail("lines differ", f"{nm}: file {t}: {[x[2:] for x in h]}, expected {[x[:2] for x in w]}")
        k = 0
        pes = files[t][0].pes if t in files else []
        rd = {}
        # where the recording of another publisher, or of the same after a pause, goes on
        ok = {x[0] // 188 for i, x in enumerate(h) if i and w[i][3] is not w[i - 1][3]}
        for j in files[t][0].jumps if t in files else ():
            r = max((x[0] // 188 for x in h if x[0] // 188 < j), default=0)
            if r not in ok:
                fail("continuity counter", f"{nm}: file {t} packet {j}, ranges {h} {ok}")
        for (a0, b0, _, _), (s, en, fs, e, v, a) in zip(h, w):
            r = rd.setdefault(id(e), reader(nm, e, v, a))
            got = []
            while k < len(pes) and (pes[k].at - 1) * 188 <= b0:
                got.append(found(r, pes[k]))
                k += 1
            if got != fs:
                d = next((i for i, (x, y) in enumerate(zip(got, fs)) if x != y), min(len(got), len(fs)))
                fail("frames of a range", f"{nm}: file {t} range {a0}-{b0} ({s}-{en}): {len(got)} frames, expected {len(fs)}; "
                     f"at {d}: {got[d:d + 4]} expected {fs[d:d + 4]}")
            c.saw("ranges compared")
        c.saw("frames compared", k)
    c.saw("files compared", len(files))
    c.case((app, what, n, sum(map(len, have.values()))), dict(stream=nm, files=len(files), lines=sum(map(len, have.values())), frames=n))
    return n


FMT = ("avc+aac", "avc", "aac", "bframes", "rich", "big", "jump", "back", "avc+mp3", "long gop", "reheader")


def gen(rng, fmt, base):
    kw = dict(base=base, fps=rng.choice((10, 25, 30)), gop=rng.choice((5, 12, 25)),
              vsize=rng.choice(((20, 400), (50, 2000))), asize=(20, 400), start=rng.choice((0, 0, 700, 100000, 1 << 31)))
    if fmt == "back":
        kw["start"] = 100000
    if fmt == "avc":
        kw["audio"] = False
    if fmt == "aac":
        kw["video"] = False
    if fmt == "avc+mp3":
        kw["mp3"] = True
    if fmt == "bframes":
        kw["bframes"] = True
    if fmt == "rich":
        kw["rich"] = kw["bframes"] = True
    if fmt == "big":
        kw["vsize"] = (60000, 90000)
    if fmt == "long gop":
        kw["gop"] = 1000
    return media.Gen(rng, **kw)


def stream(rng, fmt, g, ms):
    fr = [x[:3] for x in g.headers()] + [x[:3] for x in g.until(ms)]
    if fmt == "back":
        every, d = rng.choice((60, 100, 130)), rng.choice((200, 400, 600))
        fr = [(t, x - i // every * d & 0xffffffff if g.start > 50000 else x, b) for i, (t, x, b) in enumerate(fr)]
    if fmt == "jump":
        at = rng.randrange(len(fr) // 3, 2 * len(fr) // 3)
        d = rng.choice((5000, 60000, 17000000))
        fr = fr[:at] + [(t, x + d & 0xffffffff, b) for t, x, b in fr[at:]]
    if fmt == "reheader":
        at = next((i for i, f in enumerate(fr) if i > len(fr) // 2 and live.is_key(f[0], f[2])), None)
        if at is None:
            return fr
        fr[at:at] = [(VIDEO, fr[at][1], media.avc_header(media.SPS[:-1] + b"\x22\x33")), (AUDIO, fr[at][1], media.aac_header(3, 1))]
    return fr


async def send(pub, fr, epoch=None):
    for i, f in enumerate(fr):
        pub.one(*f)
        if i % 50 == 49:
            await pub.c.drain()
    await live.sync(pub.c)
    if epoch and epoch.t1 is None:
        epoch.t1 = time.time() * 1000


async def mix(c, rng, n, ms):
    port, hport, inst = setup(c)

    async def one(i):
        rng2 = random.Random(rng.random())
        fmt = FMT[i % len(FMT)]
        app = rng2.choice(("std", "small", "tiny", "wide", "app", "app"))
        name = rng2.choice((f"s{i}", f"s{i}", f"a b{i}", f"x%25{i}", f"-_{i}", f"q.{i}", f"d/e{i}"))
        epochs = []
        how = []
        for k in range(rng2.choice((1, 1, 2, 3))):
            g = gen(rng2, fmt, i * 100000 + k * 30000)
            pub = await live.Pub.start(port, app, name + rng2.choice(("", "?a=1")), g)
            e = Epoch(pub.sent)
            fr = stream(rng2, fmt, g, rng2.choice((ms, ms // 3, 200)))
            await send(pub, fr[:3], e)
            left = fr[3:]
            while left:
                m = rng2.choice((20, 50, 200))
                await send(pub, left[:m])
                left = left[m:]
                if rng2.random() < 0.2:
                    looks(inst, app, name)
                    c.saw("looks at a growing file")
            h = rng2.choice(HOW)
            how.append(h)
            e.last = len(pub.sent)
            await finish(pub, h)
            await pub.close()
            e.sent = list(pub.sent)
            epochs.append(e)
            await asyncio.sleep(0.15)
        await settled(inst, app, name)
        judge(c, inst, app, name, epochs, f"{fmt} {how}")

    for k in range(0, n, 11):
        await asyncio.gather(*(one(i) for i in range(k, min(n, k + 11))))


async def manual(c, rng, n, ms):
    port, hport, inst = setup(c)

    async def one(i):
        rng2 = random.Random(rng.random())
        fmt = ("avc+aac", "aac", "avc", "bframes")[i % 4]
        name = f"m{i}"
        g = gen(rng2, fmt, i * 100000)
        pub = await live.Pub.start(port, "man", name, g)
        left = stream(rng2, fmt, g, ms)
        epochs, on = [], None
        while left:
            m = rng2.choice((1, 20, 50, 100))
            e = on if on and on.t1 is None else None
            if e:
                before = len(recorded_so_far(e))
            await send(pub, left[:m])
            if e and len(recorded_so_far(e)) and e.t1 is None:
                e.t1 = time.time() * 1000
            left = left[m:]
            if rng2.random() < 0.4:
                act = "stop" if on and rng2.random() < 0.9 else "start"
                st, _, body = await http.get(hport, f"/control/record/{act}?srv={SERVER}&app=man&name={name}&rec=m")
                if st != 200:
                    fail("control", f"{name} {act}: {st} {body[:100]}")
                if act == "stop" and on:
                    on.last = len(pub.sent)
                    if on.t1 is None:
                        on.t1 = time.time() * 1000
                    epochs.append(on)
                    on = None
                    c.saw("stopped by control")
                elif act == "start" and not on:
                    on = Epoch(pub.sent, True)
                    c.saw("started by control")
        if on:
            on.last = len(pub.sent)
            on.t1 = on.t1 or time.time() * 1000
            epochs.append(on)
        await finish(pub, rng2.choice(HOW))
        await pub.close()
        await asyncio.sleep(0.15)
        await settled(inst, "man", name)
        sent = list(pub.sent)
        for e in epochs:
            e.sent = sent
        judge(c, inst, "man", name, epochs, fmt)

    for k in range(0, n, 8):
        await asyncio.gather(*(one(i) for i in range(k, min(n, k + 8))))


def recorded_so_far(e):
    e.last = len(e.sent)
    r = recorded(e)[0]
    e.last = None
    return r


async def names(c, rng):
    """Every stream name keeps its files below its directory; bad ones are not recorded, or refused."""
    port, hport, inst = setup(c)
    for name in ("../up", "../../../../up", "a/../../../b", "..", "../default-x", "a/..", "/etc/x", "x" * 200, "x" * 255, "a//b", "%2e%2e/c", "..%2f", "a..b"):
        cl = rtmp.Client(port=port)
        await cl.open()
        await cl.connect("std")
        await cl.create_stream()
        st = await cl.publish(name)
        p = live.Pub(cl, media.Gen(rng))
        if st == "NetStream.Publish.Start":
            try:
                p.headers()
                p.run(1000)
                await live.sync(cl)
            except (rtmp.RtmpError, ConnectionError, asyncio.IncompleteReadError):
                pass
        await cl.close()
        await asyncio.sleep(0.15)
        top = f"{inst.dir}/rec/{SERVER}/std/"
        clean = os.path.normpath(top + name) + "/"
        for d, ds, fs in os.walk(inst.dir):
            for f in fs:
                q = f"{d}/{f}"
                if (f.endswith(".ts") or f.endswith(".m3u8")) and not q.startswith(top):
                    fail("a file outside the recording directory", f"{name!r}: {q}")
        for q in glob.glob(f"{inst.dir}/../*.ts") + glob.glob(f"{inst.dir}/../*/up*") + glob.glob("/etc/x/*"):
            fail("a file outside the recording directory", f"{name!r}: {q}")
        if any(x == ".." for x in name.split("/")):
            if clean.startswith(top) and clean != top and os.path.isdir(clean) and glob.glob(clean + "index/*/*"):
                fail("a file in another stream's directory", f"{name!r}: {clean}")
        c.case(("name", name), dict(name=name, status=st))
        c.saw("odd names")


async def obstacles(c, rng, n):
    """Files that cannot be opened: what is recorded is valid, and nobody notices."""
    port, hport, inst = setup(c)
    inst.expected = r"(record: failed to open|failed \((2[01]|17):)"
    for i in range(n):
        app = rng.choice(("tiny", "small"))
        name = f"o{i}"
        step = APPS[app][0] // 1000
        now = int(time.time()) // step * step
        base = f"{inst.dir}/rec/{SERVER}/{app}/{name}"
        for k in range(1, 40):
            t = now + k * step
            day = time.strftime("%Y%m%d", time.localtime(t))
            if rng.random() < 0.5:
                os.makedirs(f"{base}/{day}/{name}_{t}.ts" if rng.random() < 0.5 else f"{base}/index/{day}/{name}-{t}.m3u8")
        g = media.Gen(rng, gop=10, vsize=(50, 3000), base=i * 100000)
        pub = await live.Pub.start(port, app, name, g)
        play = await rtmp.player(port, app, name)
        await live.sync(play)
        pub.headers()
        while pub.at < 25000:
            pub.run(pub.at + 500)
            await live.sync(pub.c)
        await live.until_last(play, pub, 10)
        live.judge(name, live.frames(pub.sent), live.frames(live.got(play)), 0, "key", True, "live record: viewer")
        await play.close()
        await pub.close()
        await asyncio.sleep(0.2)
        v, a = ts.published(pub.sent)
        nf = 0
        for pf in glob.glob(f"{base}/[0-9]*/*.ts"):
            if not os.path.isfile(pf):
                continue
            t, size = tsfile(f"{app}/{name} obstacles", pf)
            r = reader(f"{app}/{name} obstacles", None, v, a)
            for p in t.pes:
                found(r, p)
            pi = pf.replace(f"{base}/", f"{base}/index/").replace(f"{name}_", f"{name}-").replace(".ts", ".m3u8")
            lines(name, pi, size) if os.path.isfile(pi) else None
            nf += len(t.pes)
        c.case(("obstacles", app, nf), dict(stream=name, frames=nf))
        c.saw("frames recorded between obstacles", nf)


async def full(c, rng, n):
    """Writes fail: the file stays readable, and nobody notices."""
    port, hport, inst = setup(c, fsize=rng.choice((50000, 150000, 150001)))
    inst.expected = r"(flush record buf error|record: (video|audio) frame failed|record, write|failed \(27:)"
    for i in range(n):
        app = rng.choice(("std", "small", "tiny", "wide"))
        name = f"f{i}"
        g = media.Gen(rng, gop=10, vsize=(50, 3000), base=i * 100000)
        pub = await live.Pub.start(port, app, name, g)
        play = await rtmp.player(port, app, name)
        await live.sync(play)
        pub.headers()
        while pub.at < 25000:
            pub.run(pub.at + 500)
            await live.sync(pub.c)
        await live.until_last(play, pub, 10)
        live.judge(name, live.frames(pub.sent), live.frames(live.got(play)), 0, "key", True, "live record: viewer")
        await play.close()
        await pub.close()
        await asyncio.sleep(0.2)
        v, a = ts.published(pub.sent)
        nf = 0
        for pf in glob.glob(f"{inst.dir}/rec/{SERVER}/{app}/{name}/[0-9]*/*.ts"):
            t, size = tsfile(f"{app}/{name} full", pf, True)
            r = reader(f"{app}/{name} full", None, v, a)
            for p in t.pes:
                found(r, p)
            nf += len(t.pes)
        c.case(("full", app, nf), dict(stream=name, frames=nf))
        c.saw("frames in files cut short", nf)


async def huge(c, rng):
    """Frames around the sizes of the recorder's buffers."""
    port, hport, inst = setup(c)
    inst.expected = r"(not enough buffer|too big|too large|max_message|failed)"
    for size in (3 << 20, (10 << 20) - 200, 10 << 20, 11 << 20, 15 << 20):
        for kind in ("audio", "video", "nals"):
            pub = await live.Pub.start(port, "std", f"{kind}{size}", media.Gen(rng))
            pub.headers()
            pub.run(300)
            body = media.payload(77, 1000, rng) * (size // 1000 + 1)
            body = body[:size]
            if kind == "audio":
                pub.one(AUDIO, 310, b"\xaf\x01" + body)
            elif kind == "video":
                pub.one(VIDEO, 310, b"\x17\x01\0\0\0" + (len(body) + 1).to_bytes(4, "big") + b"\x65" + body)
            else:
                one = (8000).to_bytes(4, "big") + b"\x65" + body[:7999]
                pub.one(VIDEO, 310, b"\x17\x01\0\0\0" + one * (size // 8004))
            pub.run(1500)
            try:
                await asyncio.wait_for(live.sync(pub.c), 30)
            except (rtmp.RtmpError, ConnectionError, asyncio.IncompleteReadError) as e:
                fail("a huge frame ends its publisher", f"{kind} {size}: {e!r}")
            await pub.close()
            await asyncio.sleep(0.2)
            await settled(inst, "std", f"{kind}{size}")
            for t, (pi, pf) in paths(inst, "std", f"{kind}{size}").items():
                x, n = tsfile(f"{kind} {size}", pf)
                lines(f"{kind}{size}", pi, n)
                c.case((kind, size, len(x.pes)), dict(frames=len(x.pes), bytes=n))
            c.saw("huge frames")


async def notify(c, rng, n, fine, note):
    """The callback server tells whether to record; with fine it loses nothing."""
    cport, = free_ports(1)
    plan = {}

    def policy(call):
        if call.act != "start" or call.call == "publish":
            return [hook.response(200)] if fine or rng.random() < 0.8 or call.act == "start" else rng.choice(([hook.response(500)], ["close"], ["hang"]))
        return plan.get(call.name, [hook.response(200)])

    h = await hook.Hook(policy).start(cport)
    both = rng.random() < 0.5
    port, hport, inst = setup(c, note, cport, f"on_publish http://127.0.0.1:{cport}/p stage=start,update,done update=300ms;" if both else "")

    async def one(i):
        rng2 = random.Random(rng.random())
        name = f"n{i}"
        kind, steps, rec = rng2.choice((("200", [hook.response(200)], True), ("200 late", [0.3, hook.response(200)], True),
                                        ("403", [hook.response(403)], False))) if fine else rng2.choice((
                                        ("200", [hook.response(200)], True), ("200 late", [0.3, hook.response(200)], True),
                                        ("403", [hook.response(403)], False), ("500", [0.1, hook.response(500)], False),
                                        ("hang", ["hang"], note == "on"), ("close", ["close"], note == "on"),
                                        ("gone", [0.3, hook.response(200)], None), ("gone", ["hang"], None),
                                        ("stopped", [hook.response(200)], None)))
        plan[name] = steps
        fmt = rng2.choice(("avc+aac", "aac", "avc"))
        g = gen(rng2, fmt, i * 100000)
        if kind == "gone":
            cl = rtmp.Client(port=port)
            await cl.open()
            await cl.connect("note")
            await cl.create_stream()
            cl.command("publish", 0.0, None, name, "live")
            await asyncio.sleep(rng2.choice((0.0, 0.1, 0.28, 0.3)))
            await cl.close(abort=rng2.random() < 0.5)
            await asyncio.sleep(1.2)
            c.case(("gone", note))
            c.saw("publishers that leave before the answer")
            return
        pub = await live.Pub.start(port, "note", name, g)
        e = Epoch(pub.sent)
        fr = stream(rng2, fmt, g, 6000)
        await send(pub, fr[:3], e)
        await send(pub, fr[3:])
        e.last = len(pub.sent)
        if kind == "stopped":
            for act in ("stop", "start", "stop", "start")[:rng2.randrange(1, 5)]:
                st, _, body = await http.get(hport, f"/control/record/{act}?srv={SERVER}&app=note&name={name}&rec=m")
                if st != 200:
                    fail("control", f"{name} {act}: {st} {body[:100]}")
                await asyncio.sleep(rng2.choice((0, 0.1)))
        await finish(pub, rng2.choice(HOW))
        await pub.close()
        e.sent = list(pub.sent)
        await asyncio.sleep(0.3)
        await settled(inst, "note", name)
        files = paths(inst, "note", name)
        if rec is False and files:
            fail("recorded against the callback server", f"{name} {kind}: {files}")
        if rec is not False:
            judge(c, inst, "note", name, [e], f"{kind} {fmt}")
            await asyncio.sleep(0.3)
        acts = [x.act for x in h.calls if x.name == name and x.call == "publish"]
        if both and (acts[:1] != ["start"] or acts.count("done") != 1 or acts.count("start") != 1 or acts[-1] != "done"):
            fail("callbacks of the publisher", f"{name} {kind}: {acts}")
        calls = [x for x in h.calls if x.name == name and x.call != "publish"]
        acts = [x.act for x in calls]
        if acts[:1] != ["start"] or acts.count("start") != 1 or acts.count("done") > 1 or (acts[1:] and rec is False):
            fail("callbacks", f"{name} {kind}: {[str(x) for x in calls]}")
        if rec:
            if (fine and acts != ["start"] + ["update"] * (len(files) - 1) + ["done"]) or acts.count("update") > len(files) - 1:
                fail("callbacks", f"{name} {kind}: {acts}, {len(files)} files")
            left = sorted(files)
            for x in calls[1:]:
                t = next((t for t in left if (x.args.get("index"), x.args.get("file")) == files[t]), None)
                if t is None or (fine and t != left[0]) or (x.act == "done" and t != left[-1]):
                    fail("callback names another file", f"{name} {kind}: {x}, expected {[files[t] for t in left]}")
                left = left[left.index(t) + 1:]
                ln = lines(name, files[t][0], os.path.getsize(files[t][1]))
                if (x.args.get("begintime"), x.args.get("endtime")) != (str(ln[0][2]), str(ln[-1][3])):
                    fail("callback times", f"{name} {kind}: {x}, lines {ln}")
                c.saw("callbacks compared")
        c.saw("answers: " + kind)

    for k in range(0, n, 10):
        await asyncio.gather(*(one(i) for i in range(k, min(n, k + 10))))
    await h.stop()


def scenarios(c):
    for r in range(c.pick(2, 10)):
        yield Scenario(f"mix#{r}", mix, n=c.pick(33, 66), ms=c.pick(12000, 30000))
    for r in range(c.pick(1, 4)):
        yield Scenario(f"manual#{r}", manual, n=c.pick(16, 40), ms=c.pick(10000, 20000))
    yield Scenario("names", names)
    for r in range(c.pick(1, 4)):
        yield Scenario(f"obstacles#{r}", obstacles, n=c.pick(6, 20))
        yield Scenario(f"full#{r}", full, n=c.pick(6, 20))
    yield Scenario("huge", huge)
    for r in range(c.pick(3, 8)):
        yield Scenario(f"notify#{r}", notify, n=c.pick(20, 60), fine=r % 3 == 0, note="on" if r % 2 else "off")
