"""DASH files: the segments hold the stream exactly, and the manifest always describes finished segments."""
import asyncio
import os
import random
import re
import struct
import xml.etree.ElementTree as ET

from pv import live, media, mp4, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, USER, Msg

ID = "H03"
TITLE = "DASH segments hold the stream exactly; manifests list finished ones"
STATEMENT = """While a stream of H.264 and AAC is published with DASH on, its media segments are well-formed fragments that together hold every frame
exactly once, unchanged, with its time, composition offset and key flag, cut at the first key frame after the fragment length (at any frame after
twice that length, 10 MB or a jump back of more than a second; audio alone at the fragment length), behind initialization segments with the codec headers
and the picture size. Every manifest a reader can see at any moment is complete XML that describes the tracks there are and lists, with true times and
durations, the last finished segments of the configured window, which never change while listed. Failing writes disturb no other stream."""
OVER = ("schedules", "inputs", "configurations")
QUANT = """All frame sizes up to 1 MB, timestamps (jumps, jitter between the tracks and wrap-around included), fragment lengths, nesting, moments at which a
reader looks and ways of ending; stream names without markup characters, both tracks' first frames before the first cut."""
WHY = "No existing test publishes anything with DASH on; every offset and cut depends on all the frames before."
FILES = ["modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c", "modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c"]
MECH = [("where segments are cut", "ngx_rtmp_dash_update_fragments"), ("samples", "ngx_rtmp_dash_append"), ("segment files", "ngx_rtmp_dash_close_fragment"),
        ("boxes", "ngx_rtmp_mp4_write_moof, ngx_rtmp_mp4_write_trun, ngx_rtmp_mp4_write_sidx"), ("manifest", "ngx_rtmp_dash_write_playlist"),
        ("initialization segments", "ngx_rtmp_dash_write_init_segments"), ("cleanup", "ngx_rtmp_dash_cleanup_dir")]
TECHNIQUE = "model of the cuts over the publisher's log, strict MP4 and XML readers online and afterwards, under ASan and UBSan"
NOTE = "Held on the generated streams and the moments looked at."
RULE = ("A case is one published stream whose segments, initialization segments and manifests were parsed and compared with the publisher's log; non-trivial with at "
        "least one segment; distinct by application, format and segment times.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp { server { listen %(port)d; chunk_size 4096;
    application plain { live on; dash on; dash_path {dir}/plain; dash_fragment 1s; dash_playlist_length 3s; dash_cleanup off; }
    application nested { live on; dash on; dash_path {dir}/nested/; dash_nested on; dash_fragment 700ms; dash_playlist_length 7s; dash_cleanup off; }
    application long { live on; dash on; dash_path {dir}/long; dash_fragment 3s; dash_playlist_length 60s; dash_cleanup off; }
    application one { live on; dash on; dash_path {dir}/one; dash_fragment 500ms; dash_playlist_length 500ms; dash_cleanup off; }
    application clean { live on; dash on; dash_path {dir}/clean; dash_fragment 500ms; dash_playlist_length 2s; }
} }
"""
APPS = dict(plain=dict(frag=1000, win=3), nested=dict(frag=700, win=10, nested=True), long=dict(frag=3000, win=20), one=dict(frag=500, win=1),
            clean=dict(frag=500, win=4))
NS = "{urn:mpeg:dash:schema:mpd:2011}"
HOW = ("close", "abort", "deleteStream", "eof")


def fail(key, text):
    raise Violation("dash: " + key, text)


class Seg:
    def __init__(self, t):
        self.t, self.d = t, 0
        self.v, self.a = [], []


class Model:
    """The segments that the frames sent so far make."""

    def __init__(self, frag):
        self.frag = frag
        self.segs = []
        self.open = False
        self.hv = self.ha = False
        self.hdr = {}
        self.tracks = []        # which tracks there were when segment i ended

    def add(self, type, ts, b):
        if live.is_header(type, b):
            self.hdr.setdefault(type, b)
            return
        if type not in self.hdr:
            return
        if type == AUDIO:
            if b[0] >> 4 != 10:
                return
            self.ha = True
        else:
            if b[0] & 15 != 7:
                return
            self.hv = True
        key = type == VIDEO and b[0] >> 4 == 1
        cut = not self.open
        if self.open:
            s = self.segs[-1]
            d = ts - s.t & 0xffffffff
            if d >> 31:
                due = (1 << 32) - d > 1000
                force = False
            else:
                s.d = d
                due = d >= self.frag
                force = d >= 2 * self.frag
            cut = due and (key or force or not self.hv)
            cut = cut or any(sum(len(x[2]) for x in tr) >= 10 << 20 for tr in (s.v, s.a))
            if cut:
                self.tracks.append((self.hv, self.ha))
        if cut:
            self.segs.append(Seg(ts))
            self.open = True
        s = self.segs[-1]
        if type == VIDEO:
            s.v.append((ts, 0, b[5:], key, int.from_bytes(b[2:5], "big", signed=True)))
        else:
            s.a.append((ts, 0, b[2:], None, 0))

    def end(self):
        if self.open:
            self.tracks.append((self.hv, self.ha))
        self.open = False

    @property
    def closed(self):
        return len(self.segs) - self.open


def timed(samples):
    """With durations: to the next sample, zero for the last."""
    return [(s[0], (samples[i + 1][0] - s[0] & 0xffffffff) if i + 1 < len(samples) else 0, *s[2:]) for i, s in enumerate(samples)]


class Watch:
    def __init__(self, c, dir, app, name, model):
        self.c, self.app, self.name, self.m = c, app, f"{app}/{name}", model
        self.stream = name
        o = APPS[app]
        self.win = o["win"]
        self.nested = o.get("nested")
        self.base = f"{dir}/{app}/{name}/" if self.nested else f"{dir}/{app}/{name}-"
        self.mpd = f"{dir}/{app}/{name}/index.mpd" if self.nested else f"{dir}/{app}/{name}.mpd"
        self.k = 0
        self.start = None
        self.seen = {}

    def load(self, f):
        try:
            with open(self.base + f, "rb") as x:
                return x.read()
        except FileNotFoundError:
            fail("a segment that is listed is missing", f"{self.name}: {f}")

    def segment(self, i, track):
        """Compares the file of segment i of a track with the model."""
        s = self.m.segs[i]
        f = f"{s.t}.m4{track}"
        data = self.load(f)
        if self.seen.setdefault((i, track), data) != data:
            fail("a segment changed while listed", f"{self.name}: {f}")
        try:
            g = mp4.Fragment(data)
        except (mp4.Mp4Error, struct.error, KeyError) as e:
            fail("malformed segment", f"{self.name}: {f}: {e!r}")
        want = timed(s.v if track == "v" else s.a)
        if g.samples != want:
            n = next((k for k, (x, y) in enumerate(zip(g.samples, want)) if x != y), min(len(g.samples), len(want)))
            sh = lambda x: [(y[0], y[1], len(y[2]), y[2][:24], *y[3:]) for y in x[n:n + 1]]
            fail("samples differ", f"{self.name}: {f}: {len(g.samples)} samples, {len(want)} sent; #{n}: {sh(g.samples)}, sent {sh(want)}")
        if want:
            last = want[-1][0]
            if g.earliest != g.time or g.ref_duration != last - want[0][0] & 0xffffffff:
                fail("segment index", f"{self.name}: {f}: {g.earliest}+{g.ref_duration}, samples {g.time} to {last}")
        if g.seq != i:
            fail("fragment number", f"{self.name}: {f}: {g.seq}, expected {i}")
        self.c.saw("samples compared", len(want))

    def init(self, track):
        f = f"init.m4{track}"
        try:
            r = mp4.root(self.load(f))
            if [b.type for b in r.kids] != [b"ftyp", b"moov"]:
                raise mp4.Mp4Error(f"{[b.type for b in r.kids]}")
            st = r["moov/trak/mdia/minf/stbl/stsd"]
            h = r["moov/trak/mdia/hdlr"].data[8:12]
            if h != (b"vide" if track == "v" else b"soun"):
                raise mp4.Mp4Error(f"handler {h}")
            if track == "v":
                b = st["avc1"]
                size = struct.unpack(">HH", b.data[24:28])
                if size != (1280, 720):
                    raise mp4.Mp4Error(f"picture size {size}")
                if b["avcC"].data != self.m.hdr[VIDEO][5:]:
                    raise mp4.Mp4Error(f"configuration {b['avcC'].data.hex()}")
            else:
                b = st["mp4a"]
                cfg = mp4.esds_config(b["esds"].data)
                if cfg != self.m.hdr[AUDIO][2:]:
                    raise mp4.Mp4Error(f"configuration {cfg.hex()}")
                ch = struct.unpack(">H", b.data[16:18])[0]
                if ch != 2:
                    raise mp4.Mp4Error(f"{ch} channels")
        except (mp4.Mp4Error, struct.error, IndexError) as e:
            fail("initialization segment", f"{self.name}: {f}: {e!r}")
        self.c.saw("initialization segments compared")

    def look(self, final=False):
        try:
            with open(self.mpd, "rb") as x:
                data = x.read()
        except FileNotFoundError:
            if self.k or final and self.m.closed:
                fail("no manifest", self.name)
            return
        try:
            r = ET.fromstring(data)
        except ET.ParseError as e:
            fail("malformed manifest", f"{self.name}: {e} {data[-200:]!r}")
        at = r.get("availabilityStartTime")
        if self.start not in (None, at):
            fail("the availability start time changed", f"{self.name}: {self.start} {at}")
        self.start = at
        if r.get("type") != "dynamic" or r.tag != NS + "MPD":
            fail("manifest", f"{self.name}: {r.tag} {r.attrib}")
        sets = r.findall(f"{NS}Period/{NS}AdaptationSet")
        lists = {}
        for s in sets:
            rep = s.find(f"{NS}Representation")
            t = {"video/mp4": "v", "audio/mp4": "a"}[rep.get("mimeType")]
            tpl = rep.find(f"{NS}SegmentTemplate")
            pre = "" if self.nested else self.stream + "-"
            if (tpl.get("timescale"), tpl.get("media"), tpl.get("initialization")) != ("1000", f"{pre}$Time$.m4{t}", f"{pre}init.m4{t}"):
                fail("segment template", f"{self.name}: {tpl.attrib}")
            if t == "v":
                h = self.m.hdr[VIDEO]
                if (rep.get("codecs"), rep.get("width"), rep.get("height")) != ("avc1." + h[6:9].hex(), "1280", "720"):
                    fail("video representation", f"{self.name}: {rep.attrib}")
            elif (rep.get("codecs"), rep.get("audioSamplingRate")) != ("mp4a.40.2", "44100"):
                fail("audio representation", f"{self.name}: {rep.attrib}")
            if t in lists:
                fail("a track listed twice", f"{self.name}: {data!r}")
            lists[t] = [(int(x.get("t")), int(x.get("d"))) for x in tpl.findall(f"{NS}SegmentTimeline/{NS}S")]
        # which of the states since the last look is it
        m = self.m
        for k in range(max(self.k, 1), m.closed + 1):
            w = [(s.t, s.d) for s in m.segs[max(0, k - self.win):k]]
            hv, ha = m.tracks[k - 1] if k <= len(m.tracks) else (m.hv, m.ha)
            want = {t: w for t, h in (("v", hv), ("a", ha)) if h}
            # a frame that cuts a segment may be the first of its track
            if lists == want or set(lists) < set(want) and all(lists[t] == w for t in lists) and lists:
                break
        else:
            fail("manifest lists other segments", f"{self.name}: {lists}, {m.closed} finished: {[(s.t, s.d) for s in m.segs[-self.win - 2:]]} tracks {m.tracks[-1:]}")
        if final and k != m.closed:
            fail("manifest does not list the last segment", f"{self.name}: {lists}, finished {[(s.t, s.d) for s in m.segs]}")
        if k != self.k or final:
            for t in lists:
                for i in range(max(0, k - self.win), k):
                    if (i, t) not in self.seen or self.c.thorough or final:
                        self.segment(i, t)
                if (-1, t) not in self.seen:
                    self.seen[-1, t] = 1
                    self.init(t)
        self.k = k
        self.c.saw("manifests read")

    def finish(self):
        self.look(True)
        for i in range(len(self.m.segs)):
            for t, h in (("v", self.m.hv), ("a", self.m.ha)):
                if h:
                    self.segment(i, t)
        pre = os.path.basename(self.base)
        names = {x[len(pre):] for x in os.listdir(os.path.dirname(self.base)) if x.startswith(pre)}
        names -= {f"{x}.m4{t}" for x in ("raw", "init") for t in "va"} | {"index.mpd"}
        want = {f"{s.t}.m4{t}" for s in self.m.segs for t in "va"}
        if names != want:
            fail("segment files", f"{self.name}: unexpected {sorted(names - want)[:5]} missing {sorted(want - names)[:5]}")
        self.c.saw("segments", len(self.m.segs))


FMT = ("avc+aac", "avc", "aac", "bframes", "wrap", "jump", "back", "jitter", "longgop", "big", "hevc", "mp3", "huge", "smallback", "again")


def gen(rng, fmt, base):
    kw = dict(base=base, fps=rng.choice((10, 25, 30)), gop=rng.choice((5, 12, 25)), vsize=rng.choice(((20, 400), (50, 3000))), asize=(20, 400),
              start=rng.choice((0, 0, 700, 100000)))
    if fmt == "avc":
        kw["audio"] = False
    if fmt == "aac":
        kw["video"] = False
    if fmt == "bframes":
        kw["bframes"] = kw["rich"] = True
    if fmt == "wrap":
        kw["start"] = (1 << 32) - rng.randrange(500, 4000)
    if fmt == "longgop":
        kw["gop"] = rng.choice((100, 250))
    if fmt == "big":
        kw["vsize"] = (30000, 90000)
        kw["fps"] = 10
    if fmt == "huge":
        kw.update(vsize=(850000, 1040000), fps=25, gop=50)
    if fmt == "hevc":
        kw["codec"] = 12
    if fmt == "mp3":
        kw["mp3"] = True
    return media.Gen(rng, **kw)


def stream(rng, fmt, g, ms):
    fr = [x[:3] for x in g.headers()] + [x[:3] for x in g.until(1200 if fmt == "huge" else ms)]
    if fmt in ("jump", "back", "smallback"):
        at = rng.randrange(len(fr) // 3, 2 * len(fr) // 3)
        t0 = fr[at][1]
        d = dict(jump=rng.choice((60000, 17000000, 1 << 30)), back=-rng.randrange(1200, 60000), smallback=-rng.randrange(1, 900))[fmt]
        if t0 + d < 0:
            fr = [(t, x - d, b) for t, x, b in fr]
        fr = fr[:at] + [(t, x + d & 0xffffffff, b) for t, x, b in fr[at:]]
    if fmt == "jitter":         # audio comes up to 400 ms late
        late = rng.randrange(50, 400)
        n = 2
        fr = fr[:n] + [x for _, x in sorted(enumerate(fr[n:]), key=lambda y: (y[1][1] + (late if y[1][0] == AUDIO else 0), y[0]))]
    return fr


async def one(c, rng, inst, port, app, fmt, name, ms, pace=None):
    g = gen(rng, fmt, rng.randrange(1, 900) * 100000)
    pub = await live.Pub.start(port, app, name, g, chunk=rng.choice((128, 500, 4096, 65536)))
    fr = stream(rng, fmt, g, ms)
    m = Model(APPS[app]["frag"])
    w = Watch(c, inst.dir, app, name, m)
    left = list(fr)
    t0 = left[0][1]
    loop = asyncio.get_running_loop()
    begin = loop.time()
    while left:
        k = rng.choice((1, 7, 25, 60))
        if pace:
            k = max(1, sum(1 for f in left if f[1] - t0 <= (loop.time() - begin) * 1000))
        for f in left[:k]:
            pub.one(*f)
            m.add(*pub.sent[-1])
        left = left[k:]
        await pub.c.drain()
        if pace:
            await asyncio.sleep(0.05)
        if pace or rng.random() < 0.5:
            w.look()
    how = rng.choice(HOW)
    if how == "deleteStream":
        pub.c.command("deleteStream", 5.0, None, float(pub.c.msid))
    elif how == "eof":
        pub.c.send(Msg(USER, 0, 0, struct.pack(">HI", 1, pub.c.msid), 2))
    await live.sync(pub.c)
    m.end()
    if how in ("close", "abort"):
        await pub.close(abort=how == "abort")
        for i in range(100):
            await asyncio.sleep(0.02)
            try:
                w.look(True)
                break
            except Violation:
                if i == 99:
                    raise
    if fmt == "hevc" and not m.ha and os.path.exists(w.mpd):
        fail("a manifest without a track", w.name)
    if len({s.t for s in m.segs}) == len(m.segs) and app != "clean":
        w.finish()
    c.case((app, fmt, tuple(s.t - t0 for s in m.segs)[:30]), dict(app=app, format=fmt, segments=len(m.segs), frames=len(pub.sent), end=how), bool(m.segs))
    await pub.close()
    return m


def setup(c, **kw):
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port), wait_ports=[port], **kw)
    for d in APPS:
        os.makedirs(f"{inst.dir}/{d}")
    inst.start()
    return port, inst


async def mix(c, rng, n, ms):
    port, inst = setup(c)

    async def run(i):
        r = random.Random(rng.random())
        fmt = FMT[i % len(FMT)]
        app = r.choice(("plain", "nested", "long", "one"))
        name = r.choice((f"s{i}", f"n.{i}", f"n {i}", f"x%{i}"))
        await one(c, r, inst, port, app, fmt, name, ms)
        if fmt == "again":
            # published again, with other times: only what is listed anew counts
            r2 = random.Random(r.random())
            for f in os.listdir(f"{inst.dir}/{app}"):
                if f.startswith(name + "-"):
                    os.unlink(f"{inst.dir}/{app}/{f}")
            p = f"{inst.dir}/{app}/{name}"
            for f in os.listdir(p) if os.path.isdir(p) else ():
                os.unlink(f"{p}/{f}")
            if os.path.exists(p + ".mpd"):
                os.unlink(p + ".mpd")
            await one(c, r2, inst, port, app, fmt, name, ms)

    for k in range(0, n, 15):
        await asyncio.gather(*(run(i) for i in range(k, min(k + 15, n))))


async def cleanup(c, rng, ms):
    """Live pace: what is listed stays, what is long over goes."""
    port, inst = setup(c)
    os.chmod(f"{inst.dir}/clean", 0o777)
    ms2 = [await x for x in [asyncio.ensure_future(one(c, random.Random(rng.random()), inst, port, "clean", f, f"c{i}", ms, True))
                             for i, f in enumerate(("avc+aac", "avc", "aac"))]]
    left = {x for x in os.listdir(f"{inst.dir}/clean")}
    segs = sum(2 * len(m.segs) for m in ms2)
    there = sum(1 for x in left if re.search(r"-\d+\.m4[va]$", x))
    # nothing older than twice the playlist (4 s) and one run of the cleaner (4 s) is left
    if there > segs * 10 / (ms / 1000) + 6:
        fail("old segments are not removed", f"{there} of {segs} are left")
    c.saw("segments cleaned up", segs - there)


async def full(c, rng, n):
    """Writes fail: nobody but the publisher itself notices."""
    port, inst = setup(c, fsize=rng.choice((30000, 60000, 60001)))
    for i in range(n):
        app = rng.choice(("plain", "nested", "long"))
        pub = await live.Pub.start(port, app, f"f{i}", media.Gen(rng, vsize=(500, 9000), gop=12, base=i * 100000))
        # the server writes nothing of this one
        other = await live.Pub.start(port, app, f"o{i}", media.Gen(rng, codec=12, mp3=True, vsize=(500, 9000), gop=12, base=i * 100000))
        play = await rtmp.player(port, app, f"o{i}")
        await live.sync(play)
        pub.headers()
        other.headers()
        while other.at < 5000:
            for p in (pub, other):
                p.run(p.at + 200)
                await p.c.drain()
        try:
            await asyncio.wait_for(live.sync(other.c), 20)
            await live.until_last(play, other, 10)
        except (asyncio.TimeoutError, rtmp.RtmpError) as e:
            fail("another stream noticed the full disk", f"{e!r} {len(play.msgs)}")
        live.judge(f"o{i}", live.frames(other.sent), live.frames(live.got(play)), 0, "key", True, "dash: viewer")
        await play.close()
        await pub.close()
        await other.close()
        c.case(("full", app, i))
        c.saw("streams with failing writes")


def scenarios(c):
    for r in range(c.pick(2, 10)):
        yield Scenario(f"mix#{r}", mix, n=c.pick(45, 90), ms=c.pick(6000, 12000))
    yield Scenario("full", full, n=c.pick(3, 12))
    yield Scenario("cleanup", cleanup, ms=c.pick(16000, 40000))
