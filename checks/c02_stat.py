"""The state documents: well-formed, and exactly what is there."""
import asyncio
import json
import math
import os
import urllib.parse
import xml.etree.ElementTree as ET

from pv import amf, http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AMF0_META, AUDIO, VIDEO, Msg

ID = "C02"
TITLE = "State documents are well-formed and show exactly the streams and clients"
STATEMENT = """Whatever names, addresses and metadata clients announce, the XML and the JSON state document are well-formed and no client's text can forge other parts of them.
Both list exactly the streams and, in each, exactly the clients there are with their role, protocol, addresses and program, and the numbers of clients agree with the lists.
The bytes they count in and out, in total and per stream, are those that crossed the wire, however slowly they were taken."""
OVER = ("histories", "inputs", "configurations")
QUANT = "All histories of sessions of every protocol coming and going, with any names, program names, page addresses and metadata, at any speed of the receivers."
WHY = "No test looks at a state document while there are streams."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_stat_module.c", "modules/nginx-rtmp-module/ngx_live_stat.c", "modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c",
         "modules/nginx-rtmp-module/ngx_rtmp_bandwidth.c", "modules/nginx-rtmp-module/ngx_rtmp_handler.c", "modules/nginx-rtmp-module/json/cJSON.c"]
MECH = [("XML", "ngx_rtmp_stat_output, ngx_rtmp_stat_client, ngx_rtmp_stat_live"), ("JSON", "ngx_live_stat, cJSON_Print"),
        ("counters", "ngx_rtmp_update_bandwidth, ngx_rtmp_recv, ngx_rtmp_send, ngx_http_flv_live_write_handler")]
TECHNIQUE = "strict parsers and a model of all sessions, compared with both documents after every change; byte counts compared with those of the clients' sockets"
NOTE = "Rates, times and relay sessions are not judged; the last component of a name with slashes is what the XML document shows (by design)."
RULE = ("A case is one state of the server whose two documents were compared with the model; non-trivial when it had at least two streams and a name or text "
        "that needs escaping; distinct by the sessions and their texts.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
%(top)s
rtmp {
  server { listen %(port)d; serverid one; server_name one.tv; out_queue 2048; chunk_size %(chunk)d; merge_frame %(merge)d; max_streams 64;
    application a { live on; wait_key off; mpegts_cache_time 1s; hls2 on; hls2_fragment 300ms; hls2_max_fragment 500ms; hls2_playlist_length 1s; }
    application ab { live on; wait_key off; mpegts_cache_time 1s; }
  }
  server { listen %(port)d; serverid two; server_name two.tv; out_queue 2048; chunk_size 4096;
    application a { live on; wait_key off; mpegts_cache_time 1s; } }
}
http { access_log off;
    server { listen %(http)d;
        location /stat { rtmp_stat all; }
        location /live { rtmp_stat live; }
        location /style { rtmp_stat all; rtmp_stat_stylesheet stat.xsl; }
        location /sys { sys_stat; } }
    server { listen %(flv)d; location / { flv_live %(port)d; } }
    server { listen %(ts)d; location / { ts_live %(port)d; } } }
"""
HOST = {"one": "one.tv", "two": "two.tv"}


def fail(key, text):
    raise Violation("stat: " + key, text)


def nasty(rng, n):
    """A text that would break a careless document."""
    parts = ["<", ">", "&", '"', "'", "\\", "]]>", "</name>", "<client><id>7</id></client>", "&amp;", "&#0;", "<!--", "-->", "%s%n", "\t", "\n", "\r", "\x01", "\x1f", "\x7f",
             "é", "日本", "\x80", "\xff", "\\u0000", "\\", '","x":"', "}]}", "a", "b", "z9", " ", "%", "+", "=", ";", "#", "{{", "x" * 30]
    s = b""
    while len(s) < n:
        p = rng.choice(parts)
        s += p.encode("latin-1") if rng.random() < 0.5 and all(ord(c) < 256 for c in p) else p.encode()
    return s[:n]


def xml_text(b):
    return "".join(chr(x) if 0x20 <= x < 0x7f else " " for x in b)


class Ses:
    def __init__(self, kind, srv, app, name, k, ver=b"", page=b"", swf=b""):
        self.kind, self.srv, self.app, self.name, self.k = kind, srv, app, name, k
        self.key = (srv, app.encode() + b"/" + name)
        self.ver, self.page, self.swf = ver, page, swf
        self.rx = self.tx = 0
        rd, wr = k.rd, k.wr
        feed, write = rd.feed_data, wr.write

        def fed(d):
            self.rx += len(d)
            feed(d)

        def wrote(d):
            self.tx += len(d)
            write(d)
        rd.feed_data, wr.write = fed, wrote
        self.ts = 0
        self.audio = self.video = 0
        self.meta = None

    def __repr__(self):
        return f"{self.kind} {self.srv}/{self.app}/{self.name[:40]!r}"

    def desc(self, enc):
        return (self.kind == "pub", enc(self.ver), enc(self.page), enc(self.swf))


class World:
    def __init__(self, c, rng, **opt):
        self.c, self.rng = c, rng
        self.port, self.http, self.flv, self.ts = free_ports(4)
        self.inst = c.nginx(CONF % dict(port=self.port, http=self.http, flv=self.flv, ts=self.ts,
                                        top=rng.choice(("", "stream_buckets 1;\nserver_buckets 1;", "stream_buckets 3;")), chunk=opt.get("chunk", 4096), merge=opt.get("merge", 1)),
                            debug=os.environ.get("C02_DEBUG", "info"), wait_ports=[self.port, self.http])
        self.inst.start()
        self.all = []
        self.keys = set()
        self.n = 0

    def uid(self):
        self.n += 1
        return self.n

    async def add(self, kind, srv, app, name):
        rng = self.rng
        host = HOST[srv]
        if kind in ("pub", "rtmp"):
            ver, page, swf = (rng.choice((b"", nasty(rng, rng.choice((1, 5, 40, 200, 255, 256, 300))))) for _ in range(3))
            k = await rtmp.Client(port=self.port, name=kind).open()
            f = dict(app=app.encode(), flashVer=ver, tcUrl=f"rtmp://{host}/{app}", pageUrl=page, swfUrl=swf)
            k.command("connect", 1.0, {x: y for x, y in f.items() if y or rng.random() < 0.5})
            await k.wait(lambda m: k.is_cmd(m, ("_result", "_error")), 20, 0)
            await k.create_stream()
            if kind == "pub":
                r = await k.publish(name)
                if r != "NetStream.Publish.Start":
                    raise rtmp.RtmpError(f"publish: {r}")
            else:
                await k.play(name)
            await live.sync(k)
            s = Ses(kind, srv, app, name, k, *(x.split(b"\0")[0][:255] for x in (ver, page, swf)))
        else:
            cls, p = (http.FlvPlayer, self.flv) if kind == "flv" else (http.TsPlayer, self.ts)
            page = rng.choice((b"", b"http://x/<a>&\"'\xe9"))
            ver = rng.choice((b"", b"a%3Cb", b"q%22%27", b"y" * 800))
            k = cls(p, "/" + app + "/" + urllib.parse.quote(name, safe="") + "." + kind + ("?flashver=" + ver.decode() if ver else ""), host=host)
            if page:
                k.hdrs["Referer"] = page.decode("latin-1")
            await k.open()
            await http.barrier(self.port, "a")
            if kind == "ts":
                k.ts.restarts = True
            s = Ses(kind, srv, app, name, k, ver, page)
        self.all.append(s)
        self.keys.add(s.key)
        return s

    def pubs(self):
        return [s for s in self.all if s.kind == "pub"]

    def send(self, p, n, size=30):
        for _ in range(n):
            p.ts += 40
            for t, b in ((VIDEO, media.avc_frame(self.uid(), self.rng.random() < 0.3, self.rng, self.rng.randrange(10, size))), (AUDIO, media.aac_frame(self.uid(), self.rng, 30))):
                p.k.av(t, p.ts, b)
                if t == VIDEO:
                    p.video += len(b)
                else:
                    p.audio += len(b)

    async def settle(self):
        for s in self.all:
            if s.kind in ("pub", "rtmp") and not s.k.paused:
                await live.sync(s.k)

    async def xml(self, path="/stat"):
        h = await http.Http(self.http, path, headers={"Connection": "close"}).open()
        await h.finish(20)
        await h.close()
        b = bytes(h.body)
        try:
            d = ET.fromstring(b)
        except ET.ParseError as e:
            fail("the XML document is not well-formed", f"{e}: {b[:3000]!r}")
        if h.headers.get("content-type") != "text/xml" or int(h.headers.get("content-length", -1)) != len(b):
            fail("wrong type or length of the XML document", f"{h.headers}")
        return d

    async def json(self):
        h = await http.Http(self.http, "/sys", headers={"Connection": "close"}).open()
        await h.finish(20)
        await h.close()
        b = bytes(h.body).decode("latin-1")
        try:
            return json.loads(b)
        except ValueError as e:
            fail("the JSON document is not well-formed", f"{e}: {b[:3000]!r}")

    async def compare(self, why):
        """Both documents against the model."""
        await self.settle()
        for attempt in range(40):
            bad = await self.differ()
            if not bad:
                break
            await asyncio.sleep(0.1)
        else:
            fail(bad[0], f"{why}: {bad[1]}")
        streams = len({s.key for s in self.all})
        self.c.saw("states compared")
        self.c.saw("clients compared", len(self.all))
        self.c.saw("streams compared", streams)
        texts = tuple(sorted(repr((s.kind, s.key, s.ver, s.page)) for s in self.all))
        self.c.case(texts, dict(streams=streams, clients=len(self.all), names=[repr(s.name[:30]) for s in self.all][:4]) if len(self.c.samples) < 6 else None,
                    streams >= 2 and any(xml_text(s.name + s.ver + s.page) != (s.name + s.ver + s.page).decode("latin-1") or set(s.name + s.ver + s.page) & set(b"<>&\"\\") for s in self.all))

    async def differ(self):
        for s in self.all:
            if s.kind in ("flv", "ts") and s.k.ended:
                return "a player ended", f"{s}: {s.k.status} {s.k.error!r}"
        d = await self.xml(self.rng.choice(("/stat", "/style")))
        got = {}
        want = {}
        for s in self.all:
            k = (s.srv, xml_text(s.key[1].rsplit(b"/", 1)[1]))
            want.setdefault(k, {}).setdefault(s.key, []).append(s.desc(xml_text))
        want = {k: sorted(sorted(x) for x in v.values()) for k, v in want.items()}
        seen = set()
        for srv in d.findall("server"):
            sid = srv.findtext("serverid")
            if sid in seen:
                return "a server is listed twice in the XML document", sid
            seen.add(sid)
            total = 0
            for st in srv.find("live").findall("stream"):
                cl = []
                for x in st.findall("client"):
                    cl.append((x.find("publishing") is not None, x.findtext("flashver") or "", x.findtext("pageurl") or "", x.findtext("swfurl") or ""))
                    if x.findtext("remote_address") != "127.0.0.1":
                        return "wrong address of a client in the XML document", x.findtext("remote_address")
                if int(st.findtext("nclients")) != len(cl):
                    return "the number of clients is not that of the list", f"{st.findtext('name')}: {st.findtext('nclients')} of {len(cl)}"
                total += len(cl)
                if cl:
                    # findtext gives what XML makes of white space at line ends; no line ends are sent
                    got.setdefault((sid, st.findtext("name") or ""), []).append(sorted(cl))
                if (st.find("publishing") is not None) != any(x[0] for x in cl):
                    return "wrong publishing mark of a stream", f"{st.findtext('name')!r} {cl}"
            if int(srv.find("live").findtext("nclients")) != total:
                return "the total number of clients is not that of the lists", f"{sid}"
        got = {k: sorted(v) for k, v in got.items()}
        if got != want:
            return "the XML document does not list the clients there are", first(want, got)
        pids = d.findtext("pid")
        if not pids.isdigit():
            return "no process id", pids
        # JSON
        j = await self.json()
        got, want = {}, {}
        for s in self.all:
            want.setdefault((s.srv, (s.srv.encode() + b"/" + s.key[1]).decode("latin-1")), []).append(
                (s.kind == "pub", {"flv": "http-flv", "ts": PROTO_TS}.get(s.kind, "rtmp"), *(x.decode("latin-1") for x in (s.ver, s.page, s.swf))))
        want = {k: sorted(v) for k, v in want.items()}
        for srv in j["live_stream"]["server_array"]:
            tot = dict.fromkeys(("rtmp_clients", "flv_clients", "ts_clients", "hls_clients", "total_clients"), 0)
            for st in srv["stream_array"]:
                k = (st["name"].split("/")[0], st["name"])
                cl = sorted((x["publishing"], x["protocol"], x.get("flashver", ""), x.get("pageurl", ""), x.get("swfurl", "")) for x in st["client_array"])
                if k in got:
                    return "a stream is listed twice in the JSON document", k[1]
                n = {"rtmp_clients": sum(not x[0] and x[1] == "rtmp" for x in cl), "flv_clients": sum(x[1] == "http-flv" for x in cl),
                     "ts_clients": sum(x[1] == PROTO_TS for x in cl), "hls_clients": 0, "total_clients": sum(not x[0] for x in cl)}
                for f in n:
                    tot[f] += n[f]
                    if st[f] != n[f]:
                        return "the number of clients is not that of the list", f"{k}: {f} {st[f]}, list {n[f]}"
                if cl:
                    got[k] = cl
                # bytes of audio and video
                p = next((s for s in self.pubs() if s.srv == k[0] and s.srv.encode() + b"/" + s.key[1] == k[1].encode("latin-1")), None)
                if p and (st["audio_in"]["bytes"], st["video_in"]["bytes"]) != (p.base_a + p.audio, p.base_v + p.video):
                    return "wrong number of bytes of audio or video", f"{p}: {st['audio_in']['bytes']}/{st['video_in']['bytes']}, sent {p.base_a + p.audio}/{p.base_v + p.video}"
                m = st.get("meta")
                if p and p.meta:
                    for f in ("width", "height"):
                        if m["video"][f] != p.meta[f]:
                            return "wrong metadata", f"{p} {f}: {m['video'][f]}, announced {p.meta[f]}"
            for f in tot:
                if srv[f] != tot[f]:
                    return "the total number of clients is not that of the lists", f"{f}: {srv[f]} of {tot[f]}"
        if got != want:
            return "the JSON document does not list the clients there are", first(want, got)
        return None

    async def leave(self, s):
        self.all.remove(s)
        await s.k.close(abort=self.rng.random() < 0.5) if isinstance(s.k, rtmp.Client) else await s.k.close()


PROTO_TS = "http-ts"


def first(want, got):
    for k in sorted(set(want) | set(got), key=repr):
        if want.get(k) != got.get(k):
            return f"{k!r}: there are {want.get(k)!r}, listed {got.get(k)!r}"[:1500]


def names(rng, n):
    out = [b"plain", b"a/b", b"b"]
    while len(out) < n:
        x = nasty(rng, rng.choice((1, 2, 6, 20, 60, 120))).replace(b"?", b"x").replace(b"\0", b"y")
        out.append(x)
    return out


async def exact(c, rng, steps):
    w = World(c, rng, chunk=rng.choice((128, 4096)), merge=rng.choice((1, 8)))
    j = await w.json()
    slots = []
    for x in names(rng, 9):
        slots.append((*rng.choice((("one", "a"), ("one", "ab"), ("two", "a"))), x))
    slots += [("one", "a", b"plain"), ("one", "ab", b"plain"), ("two", "a", b"plain"), ("one", "a", b"x/plain")]
    for step in range(steps):
        for _ in range(rng.choice((1, 1, 2, 4))):
            if w.all and rng.random() < min(0.8, len(w.all) / 16):
                s = rng.choice(w.all)
                await w.leave(s)
                continue
            k = rng.choice(slots)
            kinds = ["rtmp"]
            if not any(x in b"/.\\%" for x in k[2]) and b"\n" not in k[2] and b" " not in k[2]:
                kinds += ["flv"]
            if not any(s.kind == "pub" and (s.srv, s.app, s.name) == k for s in w.all):
                kinds += ["pub"] * 4
            s = await w.add(rng.choice(kinds), *k)
            if s.kind == "pub":
                # the counters of the stream may go on from an earlier publisher
                full = (s.srv.encode() + b"/" + s.key[1]).decode("latin-1")
                st = [x for v in (await w.json())["live_stream"]["server_array"] for x in v["stream_array"] if x["name"] == full]
                if len(st) != 1:
                    fail("a stream is not listed once", f"{s}: {len(st)}")
                s.base_a, s.base_v = st[0]["audio_in"]["bytes"], st[0]["video_in"]["bytes"]
                if rng.random() < 0.6:
                    odd = rng.random() < 0.5
                    m = dict(width=rng.choice((1, 320, 65535, 1e6)), height=rng.choice((1, 240, 4320)), framerate=rng.choice((25, 29.97, 0)), videocodecid=7, audiocodecid=10)
                    if odd:
                        v = rng.choice((math.nan, math.inf, -math.inf, 1e300, -1e300, -1.0, 1e19, 1e-300))
                        m[rng.choice(("width", "height", "framerate", "duration", "videodatarate", "audiodatarate", "videocodecid", "audiocodecid"))] = v
                    if rng.random() < 0.5:
                        m[rng.choice(("encoder", "profile", "level"))] = nasty(rng, 20)
                    s.k.send(Msg(AMF0_META, 0, s.k.msid, amf.encs("@setDataFrame", "onMetaData", m), 4))
                    s.meta = None if odd else m
                    c.saw("metadata sent")
        for p in w.pubs():
            if rng.random() < 0.5:
                w.send(p, rng.choice((1, 3)))
        await w.compare(f"step {step}")
    for s in list(w.all):
        await w.leave(s)
    await w.compare("end")


async def unlisted(c, rng):
    """Players of the other protocols."""
    w = World(c, rng)
    p = await w.add("pub", "one", "a", b"n")
    p.k.av(VIDEO, 0, media.avc_header())
    await w.add("ts", "one", "a", b"n")
    await w.settle()
    j = await w.json()
    cl = [x["protocol"] for v in j["live_stream"]["server_array"] for st in v["stream_array"] for x in st["client_array"] if not x["publishing"]]
    n = [int(x.text) for x in (await w.xml()).iter("nclients")]
    c.saw("other protocols tried")
    c.case("unlisted", dict(listed=cl), True)
    if cl != [PROTO_TS] or n != [2, 2]:
        c.fail("stat: HTTP-TS players are not listed", f"a stream with a publisher and an HTTP-TS player: JSON players {cl}, XML numbers {n}")
    for s in list(w.all):
        await w.leave(s)


async def counts(c, rng, rounds, slow):
    """Bytes in and out, as the clients' sockets saw them."""
    w = World(c, rng, chunk=rng.choice((128, 4096)), merge=rng.choice((1, 8)))
    pub = await w.add("pub", "one", "a", b"n")
    pub.base_a = pub.base_v = 0
    pub2 = await w.add("pub", "one", "a", b"m")
    for p in (pub, pub2):
        p.k.av(VIDEO, 0, media.avc_header())
        p.k.av(AUDIO, 0, media.aac_header())
    for n in (b"n", b"m"):
        for k in ("rtmp", "rtmp", "flv", "ts"):
            await w.add(k, "one", "a", n)
    for p in (pub, pub2):
        w.send(p, 5)
    await w.settle()
    await asyncio.sleep(0.3)

    async def doc():
        j = (await w.json())["live_stream"]
        x = {st["name"]: (st["in"]["bytes"], st["out"]["bytes"]) for v in j["server_array"] for st in v["stream_array"]}
        x[""] = j["in"]["bytes"], j["out"]["bytes"]
        d = await w.xml("/live")
        x["xml"] = int(d.findtext("bytes_in")), int(d.findtext("bytes_out"))
        for st in d.iter("stream"):
            x["xml " + st.findtext("name")] = int(st.findtext("bytes_in")), int(st.findtext("bytes_out"))
        return x

    def mine():
        x = {}
        for n in (b"n", b"m"):
            ss = [s for s in w.all if s.name == n]
            a = sum(s.tx for s in ss if s.kind in ("pub", "rtmp")), sum(s.rx for s in ss)
            x["one/a/" + n.decode()] = a
            x["xml " + n.decode()] = a
        ss = w.all
        x[""] = x["xml"] = sum(s.tx for s in ss if s.kind in ("pub", "rtmp")), sum(s.rx for s in ss)
        return x
    d0, m0 = await doc(), mine()
    for _ in range(30):
        # both at rest
        await asyncio.sleep(0.1)
        d1, m1 = await doc(), mine()
        if d1 == d0 and m1 == m0:
            break
        d0, m0 = d1, m1
    else:
        raise rtmp.RtmpError("the counters do not come to rest")
    for r in range(rounds):
        if slow:
            for s in w.all:
                if s.kind != "pub" and rng.random() < 0.7:
                    s.k.paused = asyncio.Event()
        size = rng.choice((40, 3000, 30000)) if not slow else 60000
        for p in w.pubs():
            for _ in range(rng.choice((3, 20))):
                w.send(p, rng.choice((1, 4)) if not slow else 8, size)
                await p.k.drain()
        await live.sync(pub.k)
        await live.sync(pub2.k)
        if slow:
            await asyncio.sleep(rng.choice((0.1, 0.4)))
            for s in w.all:
                if s.kind != "pub" and s.k.paused:
                    e, s.k.paused = s.k.paused, None
                    e.set()
        await w.settle()
        for attempt in range(60):
            d, m = await doc(), mine()
            bad = [(k, i) for k in m for i in (0, 1) if d[k][i] - d0[k][i] != m[k][i] - m0[k][i]]
            if not bad:
                break
            await asyncio.sleep(0.1)
        else:
            k, i = bad[0]
            fail("wrong number of bytes " + ("received" if i == 0 else "sent"),
                 f"round {r}: {k or 'total'}: counted {d[k][i] - d0[k][i]}, on the wire {m[k][i] - m0[k][i]}; all {[(k, i) for k, i in bad]}")
        for s in w.all:
            if s.k.error or getattr(s.k, "closed", False):
                raise rtmp.RtmpError(f"{s} ended: {s.k.error}")
        tot = m[""][1] - m0[""][1]
        c.saw("bytes sent compared", tot)
        c.saw("byte counts compared", 2 * len(m))
        c.case(("counts", slow, r, tot), dict(sent=tot, slow=slow) if r == 0 else None, True)
    for s in list(w.all):
        await w.leave(s)


def scenarios(c):
    for r in range(c.pick(8, 40)):
        yield Scenario(f"exact#{r}", exact, steps=c.pick(25, 60))
    yield Scenario("unlisted", unlisted)
    for r in range(c.pick(4, 20)):
        yield Scenario(f"counts#{r}", counts, rounds=c.pick(6, 15), slow=r % 2 == 1)
