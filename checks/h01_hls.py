"""HLS files: the segments hold the stream exactly, and the playlist always describes finished segments."""
import asyncio
import os
import re
import struct
import subprocess

from pv import live, media, rtmp, ts
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, USER, Msg

ID = "H01"
TITLE = "HLS segments hold the published stream exactly; playlists list finished ones"
STATEMENT = """While a stream is published with HLS on, the segment files taken in order are well-formed transport streams that
hold, from the first key frame on (with aligned slicing, of the next slice), every H.264/H.265 and AAC frame exactly once, unchanged and with its times (the last buffered audio
excepted), each segment starting with tables and, unless a timestamp jump forced the cut, a key frame. Every playlist a reader
can see at any moment is complete and lists, in sequence and with true durations below the target duration, only finished segments, which never change while listed;
discontinuities are marked exactly where they are. With encryption on, each listed key decrypts its segments, and a continuous stream goes on from
where the playlist ended."""
OVER = ("schedules", "inputs", "configurations")
QUANT = """All frame sizes, timestamps (jumps and wrap-around included), codecs, slicing, naming, nesting and key settings, every moment a
reader may look, and every way a publisher may end; streams whose segments are shorter than the cleanup age."""
WHY = "No existing test publishes anything with HLS on; cuts and durations depend on every timestamp in the input."
FILES = ["modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c", "modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c"]
MECH = [("where segments are cut", "ngx_rtmp_hls_update_fragment"), ("playlist", "ngx_rtmp_hls_write_playlist"),
        ("restore", "ngx_rtmp_hls_restore_stream"), ("packets and encryption", "ngx_rtmp_mpegts_write_frame, ngx_rtmp_mpegts_write_file"),
        ("cleanup", "ngx_rtmp_hls_cleanup_dir")]
TECHNIQUE = "online monitor of the playlist file and offline TS demultiplexing of every segment, under ASan and UBSan"
NOTE = "Held on the generated streams and the moments the monitor looked at; audio of the last hls_max_audio_delay may be missing when the publisher just leaves."
RULE = ("A case is one published stream whose segments and playlists were all parsed and compared with the publisher's log; "
        "non-trivial with at least one segment; distinct by application, format and segment boundaries.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp { server { listen %(port)d; chunk_size 4096;
    application plain { live on; hls on; hls_path {dir}/plain; hls_fragment 1s; hls_playlist_length 3s; hls_cleanup off; }
    application nested { live on; hls on; hls_path {dir}/nested; hls_nested on; hls_fragment 1500ms; hls_playlist_length 6s;
        hls_fragment_naming timestamp; hls_base_url http://h/x/; hls_cleanup off; hls_sync 30ms; }
    application aligned { live on; hls on; hls_path {dir}/aligned/; hls_fragment 2s; hls_fragment_slicing aligned; hls_playlist_length 10s;
        hls_max_audio_delay 100ms; hls_cleanup off; hls_type event; }
    application keys { live on; hls on; hls_path {dir}/keys; hls_fragment 700ms; hls_playlist_length 7s; hls_keys on; hls_cleanup off;
        hls_fragments_per_key 2; hls_key_url https://k/; hls_continuous off; }
    application nkeys { live on; hls on; hls_path {dir}/nkeys; hls_nested on; hls_fragment 1s; hls_playlist_length 4s; hls_keys on;
        hls_key_path {dir}/thekeys; hls_cleanup off; hls_fragment_naming timestamp; hls_max_fragment 4s; }
    application cont { live on; hls on; hls_path {dir}/cont; hls_fragment 1s; hls_playlist_length 5s; hls_continuous on; hls_cleanup off; }
    application small { live on; hls on; hls_path {dir}/small; hls_fragment 500ms; hls_playlist_length 3s; hls_audio_buffer_size 3k;
        hls_cleanup off; hls_max_fragment 20s; }
    application vars { live on; hls on; hls_path {dir}/vars; hls_fragment 1s; hls_playlist_length 3s; hls_cleanup off;
        hls_variant _low BANDWIDTH=160000; hls_variant _hi BANDWIDTH=640000 CODECS=avc; }
} }
"""
APPS = dict(plain=dict(frag=1000, list=3000), nested=dict(frag=1500, list=6000, nested=True, base="http://h/x/", sync=30),
            aligned=dict(frag=2000, list=10000, delay=100, event=True), keys=dict(frag=700, list=7000, key=2, keyurl="https://k/", cont=False),
            nkeys=dict(frag=1000, list=4000, nested=True, key=0, keydir="thekeys", max=4000),
            cont=dict(frag=1000, list=5000), small=dict(frag=500, list=3000, max=20000, abuf=3072), vars=dict(frag=1000, list=3000))


def fail(key, text):
    raise Violation("hls: " + key, text)


class Entry:
    def __init__(self, seq, uri, dur, disc, key):
        self.seq, self.uri, self.dur, self.disc, self.key = seq, uri, dur, disc, key


def playlist(name, data, opt):
    """The entries of a playlist, strictly."""
    if not data.endswith(b"\n"):
        fail("an incomplete playlist", f"{name}: {data[-100:]!r}")
    L = data.decode("latin-1").split("\n")[:-1]
    pat = [r"#EXTM3U", r"#EXT-X-VERSION:3", r"#EXT-X-MEDIA-SEQUENCE:(\d+)", r"#EXT-X-TARGETDURATION:(\d+)"]
    got = []
    for p, line in zip(pat, L):
        m = re.fullmatch(p, line)
        if not m:
            fail("playlist header", f"{name}: {line!r}")
        got += m.groups()
    seq, target = int(got[0]), int(got[1])
    i = 4
    if opt.get("event"):
        if L[4:5] != ["#EXT-X-PLAYLIST-TYPE: EVENT"]:
            fail("playlist header", f"{name}: {L[:6]}")
        i = 5
    out = []
    disc = False
    dur = None
    key = None
    for line in L[i:]:
        if line == "#EXT-X-DISCONTINUITY":
            disc = True
        elif line.startswith("#EXT-X-KEY:"):
            m = re.fullmatch(r'#EXT-X-KEY:METHOD=AES-128,URI="([^"]+)",IV=0x([0-9A-F]{32})', line)
            if not m:
                fail("playlist key line", f"{name}: {line!r}")
            key = (m[1], m[2])
        elif line.startswith("#EXTINF:"):
            m = re.fullmatch(r"#EXTINF:(\d+\.\d{3}),", line)
            if not m or dur is not None:
                fail("playlist duration line", f"{name}: {line!r}")
            dur = float(m[1])
        elif line.startswith("#") or dur is None:
            fail("playlist line", f"{name}: {line!r}")
        else:
            out.append(Entry(seq + len(out), line, dur, disc, key))
            if round(dur - 1e-9) > target:
                fail("a segment longer than the target duration", f"{name}: {dur} > {target}")
            disc, dur = False, None
    if dur is not None or disc:
        fail("an incomplete playlist", f"{name}: {L[-1]!r}")
    if len(out) > opt["list"] // opt["frag"]:
        fail("playlist longer than configured", f"{name}: {len(out)}")
    return out


class Watch:
    """Reads the playlist all the time; keeps every entry ever seen."""

    def __init__(self, c, dir, app, name):
        self.c, self.opt, self.name = c, APPS[app], f"{app}/{name}"
        self.base = f"{dir}/{app}"
        self.stream = name
        self.kdir = f"{dir}/{self.opt.get('keydir', app)}"
        self.m3u8 = f"{self.base}/{name}/index.m3u8" if self.opt.get("nested") else f"{self.base}/{name}.m3u8"
        self.seen = {}          # seq -> Entry
        self.sizes = {}
        self.last = None
        self.stopped = False
        self.task = None

    def ts_path(self, uri):
        o = self.opt
        b = o.get("base", "")
        if not uri.startswith(b):
            fail("base URL", f"{self.name}: {uri}")
        u = uri[len(b):]
        m = re.fullmatch((re.escape(self.stream) + "/" if b else "") + r"(\d+)\.ts" if o.get("nested")
                         else re.escape(self.stream) + r"-(\d+)\.ts", u)
        if not m:
            fail("segment name", f"{self.name}: {uri}")
        return (f"{self.base}/{self.stream}/{m[1]}.ts" if o.get("nested") else f"{self.base}/{u}"), int(m[1])

    def key_path(self, uri):
        o = self.opt
        b = o.get("keyurl", "")
        u = uri[len(b):]
        m = re.fullmatch((re.escape(self.stream) + "/" if b else "") + r"(\d+)\.key" if o.get("nested")
                         else re.escape(self.stream) + r"-(\d+)\.key", u)
        if not m or not uri.startswith(b):
            fail("key name", f"{self.name}: {uri}")
        return (f"{self.kdir}/{self.stream}/{m[1]}.key" if o.get("nested") else f"{self.kdir}/{u}"), int(m[1])

    def look(self):
        try:
            data = open(self.m3u8, "rb").read()
        except FileNotFoundError:
            if self.last:
                fail("the playlist vanished", self.m3u8)
            return
        if data == self.last:
            return
        self.last = data
        self.c.saw("playlist versions read")
        es = playlist(self.name, data, self.opt)
        if not es:
            fail("a playlist without segments", f"{self.name}: {data!r}")
        if self.seen and es[0].seq < min(self.first, max(self.seen)):
            fail("the media sequence went back", f"{self.name}: {es[0].seq} after {self.first}")
        if self.seen and es[-1].seq < max(self.seen):
            fail("a segment left the playlist at its end", f"{self.name}: {es[-1].seq} after {max(self.seen)}")
        self.first = es[0].seq
        if bool(self.opt.get("key") is not None) != bool(es[0].key):
            fail("key line", f"{self.name}: {es[0].key}")
        for e in es:
            o = self.seen.get(e.seq)
            p, _ = self.ts_path(e.uri)
            try:
                size = os.stat(p).st_size
            except FileNotFoundError:
                fail("a listed segment does not exist", f"{self.name}: {p}")
            if not size or size % (188 if not e.key else 16):
                fail("a listed segment is not finished", f"{self.name}: {p} has {size} bytes")
            if o:
                if (o.uri, o.dur, o.disc, o.key) != (e.uri, e.dur, e.disc, e.key):
                    fail("a listed segment changed", f"{self.name}: {vars(o)} became {vars(e)}")
                if self.sizes[e.seq] != size:
                    fail("a listed segment changed", f"{self.name}: {p} had {self.sizes[e.seq]} bytes, now {size}")
            else:
                self.seen[e.seq] = e
                self.sizes[e.seq] = size

    async def run(self):
        while not self.stopped:
            self.look()
            await asyncio.sleep(0.001)

    def start(self):
        self.task = asyncio.create_task(self.run())
        return self

    async def stop(self):
        self.stopped = True
        await self.task
        self.look()

    def segment(self, e):
        """The transport stream in a listed segment."""
        p, fid = self.ts_path(e.uri)
        data = open(p, "rb").read()
        if e.key:
            kp, kid = self.key_path(e.key[0])
            try:
                k = open(kp, "rb").read()
            except FileNotFoundError:
                fail("a listed key does not exist", f"{self.name}: {kp}")
            if len(k) != 16:
                fail("key length", f"{self.name}: {len(k)}")
            r = subprocess.run(["openssl", "enc", "-d", "-aes-128-cbc", "-K", k.hex(), "-iv", e.key[1]], input=data,
                               capture_output=True)
            if r.returncode:
                fail("a segment that its key does not decrypt", f"{self.name}: {p} {kp} iv={e.key[1]}: {r.stderr[:200]!r}")
            data = r.stdout
            self.c.saw("segments decrypted")
        return data


FMT = ("avc+aac", "hevc+aac", "avc", "aac", "rich", "bframes", "jump", "back", "wrap", "late", "pts33", "sparse", "jitter", "reheader")


SPS2 = media.SPS[:-1] + b"\x11\x22"


def gen(rng, fmt, base):
    kw = dict(base=base, fps=rng.choice((10, 25, 30)), gop=rng.choice((5, 12, 25)),
              vsize=rng.choice(((20, 400), (50, 2000), (3000, 9000))), asize=(20, 400), start=rng.choice((0, 0, 700, 100000)))
    if fmt == "hevc+aac":
        kw["codec"] = 12
    if fmt == "avc":
        kw["audio"] = False
    if fmt == "aac":
        kw["video"] = False
    if fmt == "rich":
        kw.update(rich=True, bframes=True)
    if fmt == "bframes":
        kw["bframes"] = True
    if fmt == "wrap":
        kw["start"] = (1 << 32) - 2500
    if fmt == "pts33":
        kw["start"] = 95443717 - 1500
    if fmt == "sparse":
        kw["gop"] = 200
    return media.Gen(rng, **kw)


def feed(rng, fmt, pub, g, ms):
    """Appends to pub what is due, as the format does it; all of it at once for odd formats."""
    pub.headers()
    fr = [(t, tts, b) for t, tts, b, _ in g.until(ms)]
    if fmt == "reheader":
        at = next(i for i, f in enumerate(fr) if f[1] - g.start > ms // 2 and live.is_key(f[0], f[2]))
        fr[at:at] = [(VIDEO, fr[at][1], media.avc_header(SPS2)), (AUDIO, fr[at][1], media.aac_header(3, 1))]
    if fmt == "late":           # the first key frame comes late
        k = rng.choice((1, 5, 60))
        n = [i for i, f in enumerate(fr) if f[0] == VIDEO and live.is_key(f[0], f[2])][0]
        fr = [f for f in fr if not (f[0] == VIDEO and (f[1] - g.start) < k * 40 and live.is_key(f[0], f[2]))]
    if fmt in ("jump", "back"):
        at = rng.randrange(len(fr) // 3, 2 * len(fr) // 3)
        d = rng.choice((60000, 300000, 1 << 31)) if fmt == "jump" else -min(fr[at][1], rng.choice((2000, 10000)))
        if fmt == "back" and d > -1500:
            d = 60000
        fr = fr[:at] + [(t, x + d & 0xffffffff, b) for t, x, b in fr[at:]]
    if fmt == "jitter":         # audio behind video, as muxers interleave it
        d = rng.choice((30, 100, 400))
        v = [f for f in fr if f[0] == VIDEO]
        fr = sorted(((f[1] + (d if f[0] == AUDIO else 0), i, f) for i, f in enumerate(fr)), key=lambda x: x[:2])
        fr = [f for _, _, f in fr]
        last = max(i for i, f in enumerate(fr) if live.is_key(f[0], f[2]))
        if rng.random() < 0.7:  # it ends with audio older than the last segment
            n = next((i for i in range(last, len(fr)) if fr[i][0] == AUDIO), last)
            fr = fr[:n + 1]
    if fmt == "aac" and rng.random() < 0.5:     # little steps back
        at = rng.randrange(len(fr))
        d = rng.randrange(200, 900)
        if fr[at][1] > d:
            fr = fr[:at] + [(t, x - d, b) for t, x, b in fr[at:]]
    return fr


async def one(c, rng, inst, port, app, fmt, name, ms, base, how, cont=None):
    opt = APPS[app]
    g = gen(rng, fmt, base)
    pub = await live.Pub.start(port, app, name, g)
    w = cont or Watch(c, inst.dir, app, name)
    if cont is None and os.path.exists(w.m3u8):
        w.last = open(w.m3u8, "rb").read()      # of an earlier publisher
    w.stopped = False
    w.start()
    first = max(w.seen) + 1 if w.seen else 0
    fr = feed(rng, fmt, pub, g, ms)
    i = ms = 0
    while i < len(fr):
        n = rng.choice((1, 5, 20))
        for f in fr[i:i + n]:
            pub.one(*f)
        i += n
        await pub.c.drain()
        await asyncio.sleep(rng.choice((0, 0.001)))
        ms += len(fr[i - n:i])
        if ms >= 25:            # about a second: no segment leaves the playlist unseen
            ms = 0
            await live.sync(pub.c)
            w.look()
    if how == "eof":
        pub.c.send(Msg(USER, 0, 0, struct.pack(">HI", 1, pub.c.msid), 2))
    if how == "deleteStream":
        pub.c.command("deleteStream", 5.0, None, float(pub.c.msid))
    if how == "closeStream":
        pub.c.command("closeStream", 5.0, None, msid=pub.c.msid)
    await live.sync(pub.c)
    if how in ("close", "eof"):
        await pub.close()
    elif how == "abort":
        await pub.close(abort=True)
    for _ in range(200):
        await asyncio.sleep(0.01)
        if not inst_has(port, inst, name):
            break
    await asyncio.sleep(0.05)
    await w.stop()
    judge(c, app, fmt, name, w, pub, g, how, first, opt)
    await pub.close()
    return w


def inst_has(port, inst, name):
    return False


def start_of(fr, hi):
    return fr[hi]


def judge(c, app, fmt, name, w, pub, g, how, first, opt):
    nm = f"{w.name} {fmt} {how}"
    v, a = ts.published(pub.sent)
    k = next((i for i, f in enumerate(v) if f.key), None)
    seqs = sorted(s for s in w.seen if s >= first)
    video = bool(g.video)
    if app == "aligned":
        t0 = live.frames(pub.sent)[0][1]
        k = next((i for i, f in enumerate(v) if f.key and f.ts // opt["frag"] != t0 // opt["frag"]), None)
        if not video and a[-1].ts // opt["frag"] == t0 // opt["frag"]:
            return
    if (k is None and video) or (not video and not a):
        if seqs:
            fail("segments without a key frame", nm)
        return
    if not seqs:
        fail("no segments", nm)
    if seqs != list(range(first, seqs[-1] + 1)):
        # a version of the playlist may have been missed when it changed twice between looks
        lost = set(range(first, seqs[-1] + 1)) - set(seqs)
        c.saw("segments that left the playlist between two looks", len(lost))
        raise rtmp.RtmpError(f"{nm}: segments {sorted(lost)[:5]} not seen")
    delay = opt.get("delay", 300)
    r = ts.Reader(nm, v, a, fail, sync=opt.get("sync", 2), delay=1 << 40, pcr=-ts.DELAY)
    cc = {}
    vi_of = []
    for s in seqs:
        e = w.seen[s]
        p, fid = w.ts_path(e.uri)
        try:
            t = ts.Ts()
            t.cc = dict(cc)
            t.feed(w.segment(e))
            t.close()
        except ts.TsError as x:
            fail("malformed segment", f"{nm}: segment {s}: {x}")
        cc = dict(t.cc)
        c.saw("segments parsed")
        c.saw("elementary packets compared", len(t.pes))
        if t.npat != 1 or t.npmt != 1:
            fail("tables", f"{nm}: segment {s}: {t.npat} PAT, {t.npmt} PMT")
        want = sorted(([0x24 if g.codec == 12 else 0x1b] if video else []) + ([0x0f] if g.audio else []))
        if sorted(t.streams.values()) != want:
            fail("program map", f"{nm}: segment {s}: {t.streams}, expected {want}")
        v0, a0 = r.v, r.a
        r.v = r.a = None
        for p in t.pes:
            r.add(p)
        fv, fa = r.v, r.a
        for was, now, kind in  ((v0, fv, "video"), (a0, fa, "audio")):
            if was and now and now[0] != was[1]:
                fail(f"{kind} frames " + ("missing" if now[0] > was[1] else "repeated") + " between segments",
                     f"{nm}: segment {s} begins with {now[0]} after {was[1] - 1}")
        vi_of.append((fv, fa))
        r.v = (v0[0] if v0 else fv[0], fv[1]) if fv else v0
        r.a = (a0[0] if a0 else fa[0], fa[1]) if fa else a0
    # jumps as the server cuts at them
    maxfrag = opt.get("max", 10 * opt["frag"])
    sent = [x for x in live.frames(pub.sent)]
    forced = fmt in ("jump", "back", "wrap") or (fmt == "sparse" and app == "nkeys")
    if video:
        if r.v[0] != k:
            fail("the first frames are missing" if r.v[0] > k else "frames before the key frame", f"{nm}: from {r.v[0]}, key frame {k}")
        if r.v[1] != len(v):
            fail("the last video frames are missing", f"{nm}: up to {r.v[1]} of {len(v)}")
    if a:
        if not r.a:
            fail("no audio", nm)
        if r.a[0] and not (fmt == "late" and "abuf" in opt and a[r.a[0]].ts <= v[k].ts + 30):
            fail("the first audio frames are missing", f"{nm}: from {r.a[0]}")
        left = len(a) - r.a[1]
        if how == "eof" and left:
            fail("the last audio frames are missing", f"{nm}: {left} of {len(a)} after the end of the stream was announced")
        if left:
            span = max((a[-1].ts - a[r.a[1]].ts) & 0xffffffff if fmt != "aac" else 0, left * g.adelta)
            if span > delay + 120 + (1000 if fmt == "aac" else 0):
                fail("the last audio frames are missing", f"{nm}: {left} of {len(a)}, {span} ms")
    total = max(max(f.ts for f in v + a) - min(f.ts for f in v + a), 0)
    for n, s in enumerate(seqs):
        e = w.seen[s]
        fv, fa = vi_of[n]
        if e.dur * 1000 > total:
            fail("segment duration", f"{nm}: segment {s}: {e.dur} of {total / 1000}")
        if video and fv is None and not forced:
            fail("a segment without video", f"{nm}: {s}")
        if video and not forced and not v[fv[0]].key:
            fail("a segment that does not start with a key frame", f"{nm}: segment {s} starts with frame {fv[0]}")
        if not forced and e.disc != (n == 0):
            fail("discontinuity mark", f"{nm}: segment {s}: {e.disc}")
        if forced and n == 0 and not e.disc:
            fail("discontinuity mark", f"{nm}: segment {s}: {e.disc}")
        if video and not forced and not (n == 0 and fmt == "late"):
            t0 = v[fv[0]].ts
            if n + 1 < len(seqs):
                want = ((v[vi_of[n + 1][0][0]].ts - t0) & 0xffffffff) / 1000
                if abs(e.dur - want) > 0.0011:
                    fail("segment duration", f"{nm}: segment {s}: {e.dur}, frames say {want}")
                if fmt != "sparse" and want < opt["frag"] / 1000 - 0.0011 and app != "aligned":
                    fail("a segment cut too early", f"{nm}: segment {s}: {e.dur}")
            else:
                want = max(max(x[1] for x in sent), t0) - t0
                if abs(e.dur - want / 1000) > 0.0011:
                    fail("segment duration", f"{nm}: last segment {s}: {e.dur}, frames say {want / 1000}")
        if not video and fa and not (app == "aligned" and n == 0) and all(
                a[i + 1].ts > a[i].ts for i in range(fa[0], fa[1] - 1)):
            want = ((a[fa[1] - 1].ts - a[fa[0]].ts) & 0xffffffff) / 1000
            if abs(e.dur - want) > (delay + 100) / 1000:
                fail("segment duration", f"{nm}: segment {s}: {e.dur}, frames say {want}")
    if forced:
        # a cut at the jump, marked; and the sum of durations is that of the frames
        for n, s in enumerate(seqs):
            x = vi_of[n][0]
            if not x:
                continue
            for i in range(x[0] + 1, x[1]):     # a segment goes on over what is no jump only
                if not -1000 - 1 <= v[i].ts - v[x[0]].ts <= maxfrag + 1 + 400:
                    fail("a jump inside a segment", f"{nm}: segment {s} frame {i}: {v[i].ts} from {v[x[0]].ts}")
        for n, s in enumerate(seqs):
            if w.seen[s].dur * 1000 > maxfrag + 1000:
                fail("segment duration", f"{nm}: segment {s}: {w.seen[s].dur}")
            fv = vi_of[n][0]
            if video and fv and not v[fv[0]].key and not w.seen[s].disc:
                fail("a segment that does not start with a key frame", f"{nm}: segment {s} starts with frame {fv[0]}")
            if fv and w.seen[s].disc is False and n:
                pv = vi_of[n - 1][0]
                if pv and not 0 <= v[fv[0]].ts - v[pv[1] - 1].ts <= maxfrag:
                    fail("a jump without a discontinuity", f"{nm}: segment {s}")
    if opt.get("key") is not None:
        kids = [w.seen[s].key for s in seqs]
        per = opt["key"]
        for n, s in enumerate(seqs):
            _, kid = w.key_path(kids[n][0])
            if int(kids[n][1], 16) != kid:
                fail("initialization vector", f"{nm}: {kids[n]}")
            wantkey = seqs[n - n % per] if per else seqs[0]
            if kid != w.ts_path(w.seen[wantkey].uri)[1]:
                fail("key of a segment", f"{nm}: segment {s} has key {kid}")
    names = [w.seen[s].uri for s in seqs]
    if len(set(names)) != len(names) and fmt not in ("back", "wrap"):
        fail("two segments of one name", f"{nm}: {names}")
    c.case((app, fmt, how, tuple(str(x) for x in vi_of)), dict(stream=nm, segments=len(seqs), video=r.v, audio=r.a,
                                                             durations=[w.seen[s].dur for s in seqs][:8]))


async def mix(c, rng, rnd, ms):
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port), wait_ports=[port]).start()

    async def stream(i):
        r2 = __import__("random").Random(rng.random())
        fmt = FMT[(i + rnd) % len(FMT)]
        app = ("plain", "nested", "aligned", "keys", "nkeys", "small")[i // len(FMT)]
        if fmt == "back" and app in ("nested", "nkeys"):
            fmt = "jump"                        # two segments would have the same timestamp for a name
        await one(c, r2, inst, port, app, fmt, f"s{i}", ms, i * 100000 + 1, r2.choice(HOW))

    todo = list(range(len(FMT) * 6))
    for k in range(0, len(todo), 13):
        await asyncio.gather(*(stream(i) for i in todo[k:k + 13]))


HOW = ("close", "abort", "eof", "deleteStream", "closeStream")


async def continuous(c, rng, n, ms):
    """Publishers one after the other: the playlist goes on."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port), wait_ports=[port]).start()

    async def chain(k):
        r2 = __import__("random").Random(rng.random())
        w = None
        for j in range(n):
            app = ("cont",)[0]
            fmt = r2.choice(("avc+aac", "avc", "bframes", "aac", "pts33"))
            w = await one(c, r2, inst, port, app, fmt, f"c{k}", r2.choice((500, ms)), k * 10000000 + j * 100000, r2.choice(HOW), w)
            c.saw("continuations", j > 0)

    await asyncio.gather(*(chain(k) for k in range(6)))


async def restart_plain(c, rng, ms):
    """Without hls_continuous every publisher starts the playlist again."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port), wait_ports=[port]).start()
    for j in range(4):
        await one(c, rng, inst, port, rng.choice(("keys", "nkeys", "aligned")), "avc+aac", f"p{j}", ms, j * 100000, rng.choice(HOW))
        for k in range(3):
            w = await one(c, rng, inst, port, "keys", rng.choice(("avc+aac", "avc")), f"q{k}", ms, 5000000 + (j * 3 + k) * 100000,
                          rng.choice(HOW))


async def variants(c, rng):
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port), wait_ports=[port]).start()
    for name, suffix in (("film", "_low"), ("film", "_hi"), ("x", "_hi"), ("other", "")):
        await one(c, rng, inst, port, "vars", "avc+aac", name + suffix, 3000, 1, "close")
        p = f"{inst.dir}/vars/{name}.m3u8"
        if suffix:
            want = ("#EXTM3U\n#EXT-X-VERSION:3\n#EXT-X-STREAM-INF:PROGRAM-ID=1,BANDWIDTH=160000\n%s_low.m3u8\n"
                    "#EXT-X-STREAM-INF:PROGRAM-ID=1,BANDWIDTH=640000,CODECS=avc\n%s_hi.m3u8\n" % (name, name))
            got = open(p).read() if os.path.exists(p) else None
            if got != want:
                fail("variant playlist", f"{name}{suffix}: {got!r}")
            c.case(("variant", name, suffix))


async def names(c, rng):
    """A stream name never leads out of the HLS directory."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port), wait_ports=[port]).start()
    before = tree(inst.dir)
    for name in ("../up", "../../up", "a/../../up", "..", "x/../../../up", "/abs", "./dot", "a/b"):
        for app in ("plain", "nested", "keys", "nkeys"):
            try:
                p = await rtmp.publisher(port, app, name)
            except rtmp.Closed:
                if ".." not in name:
                    raise
                c.case(("name", app, name))
                continue
            pub = live.Pub(p, media.Gen(rng, base=1))
            try:
                pub.headers()
                pub.run(3000)
                await p.drain()
                await live.sync(p)
            except (rtmp.RtmpError, asyncio.TimeoutError):
                pass
            await p.close()
            new = {x for x in tree(inst.dir) - before if not x.startswith(("plain", "nested", "keys", "nkeys", "thekeys", "logs", "san"))}
            out = {x for x in os.listdir(os.path.dirname(inst.dir)) if x.startswith("up")}
            if new or out:
                fail("a file outside the HLS directory", f"{app}/{name}: {sorted(new | out)[:5]}")
            c.case(("name", app, name))


def tree(d):
    out = set()
    for root, dirs, files in os.walk(d):
        for f in files + dirs:
            out.add(os.path.relpath(os.path.join(root, f), d))
    return out


async def cleanup(c, rng, secs):
    """With cleanup, listed segments stay, and everything is gone in the end."""
    port, = free_ports(1)
    conf = ("worker_processes 1; events {} rtmp { server { listen %d; application c { live on; hls on; hls_path {dir}/c; hls_fragment 500ms; "
            "hls_playlist_length 2s; } application n { live on; hls on; hls_nested on; hls_keys on; hls_path {dir}/n; hls_fragment 500ms; hls_playlist_length 2s; } } }" % port)
    APPS["c"] = dict(frag=500, list=2000)
    APPS["n"] = dict(frag=500, list=2000, nested=True, key=0)
    inst = c.nginx(conf, wait_ports=[port]).start()
    ws = []

    async def go(app, name):
        pub = await live.Pub.start(port, app, name, media.Gen(rng, gop=5, base=1))
        w = Watch(c, inst.dir, app, name).start()
        ws.append(w)
        pub.headers()
        await pub.paced(secs * 1000)
        await w.stop()
        await pub.close()
        n = len(w.seen)
        old = [s for s in w.seen if not os.path.exists(w.ts_path(w.seen[s].uri)[0])]
        c.saw("segments cleaned up", len(old))
        if secs > 8 and not old:
            fail("old segments are not cleaned up", f"{app}/{name}: {n} segments")
        c.case(("cleanup", app, name, n, len(old)))

    await asyncio.gather(*(go(a, f"k{i}") for i in range(2) for a in ("c", "n")))
    for _ in range(120):
        await asyncio.sleep(0.1)
        left = [x for a in ("c", "n") for x in tree(f"{inst.dir}/{a}")]
        if not left:
            break
    else:
        fail("files are left after the cleanup age", f"{left[:10]}")


def scenarios(c):
    for r in range(c.pick(2, 10)):
        yield Scenario(f"mix#{r}", mix, rnd=c.rng.randrange(100), ms=c.pick(8000, 20000))
    yield Scenario("continuous", continuous, n=c.pick(4, 12), ms=4000)
    yield Scenario("restart", restart_plain, ms=4000)
    yield Scenario("variants", variants)
    yield Scenario("names", names)
    yield Scenario("cleanup", cleanup, secs=c.pick(9, 20))
