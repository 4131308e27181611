"""Commands and metadata in every encoding; metadata reaches every subscriber."""
import asyncio
import os
import struct

from pv import amf, http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AMF0_CMD, AMF0_META, AUDIO, VIDEO, Msg

ID = "R03"
TITLE = "Commands mean the same in every encoding; metadata reaches all subscribers"
STATEMENT = """A command's named fields are understood whatever their order, whatever else is sent along and however the message is cut into chunks; every command is answered
with its own transaction number in well-formed values.
Each frame a subscriber receives is preceded by the metadata last announced before it by the publisher: unchanged where copying is on, with the announced values where they
are rewritten, none where they are off; metadata that cannot be read changes nothing."""
OVER = ("inputs", "histories", "configurations")
QUANT = "All encodings of connect, publish, play and metadata objects, all chunk sizes of both sides, all times at which metadata change and subscribers join."
WHY = "The tests send one fixed encoding of each command and no metadata that change."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_amf.c", "modules/nginx-rtmp-module/ngx_rtmp_receive.c", "modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c",
         "modules/nginx-rtmp-module/ngx_rtmp_codec_module.c", "modules/nginx-rtmp-module/ngx_rtmp_live_module.c", "modules/nginx-rtmp-module/ngx_rtmp_send.c"]
MECH = [("reader", "ngx_rtmp_amf_read, ngx_rtmp_amf_read_object, ngx_rtmp_amf_get"), ("writer", "ngx_rtmp_amf_write, ngx_rtmp_amf_put"),
        ("commands", "ngx_rtmp_amf_message_handler, ngx_rtmp_cmd_connect_init"), ("metadata", "ngx_rtmp_codec_meta_data, ngx_rtmp_codec_reconstruct_meta, ngx_rtmp_codec_copy_meta, ngx_rtmp_live_av")]
TECHNIQUE = "independent strict AMF encoder and decoder; online checker of the metadata in force at every frame received; the sessions' fields compared with the state document"
NOTE = "Dates, long strings, references and typed objects are not supported (by design); fields are cut to 255 bytes."
RULE = ("A case is one command or one metadata message whose effect was compared with the model; non-trivial when its encoding was not the usual one; "
        "distinct by bytes and chunk size.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp { server { listen %(port)d; serverid one; out_queue 2048; chunk_size %(chunk)d; merge_frame %(merge)d; max_streams 64;
    application on { live on; wait_key off; meta on; %(extra)s }
    application copy { live on; wait_key off; meta copy; %(extra)s }
    application off { live on; wait_key off; meta off; %(extra)s }
} }
http { access_log off;
    server { listen %(http)d; location / { flv_live %(port)d; } location /sys { sys_stat; } } }
"""


def fail(key, text):
    raise Violation("amf: " + key, text)


class Raw(bytes):
    """Encoded as is."""


def enc(v):
    if isinstance(v, Raw):
        return bytes(v)
    return amf.enc(v)


def obj(items, mixed=False, end=True, count=None):
    out = b"\x08" + struct.pack(">I", len(items) if count is None else count) if mixed else b"\x03"
    for k, v in items:
        out += struct.pack(">H", len(k)) + k + enc(v)
    return Raw(out + (b"\0\0\x09" if end else b""))


def junk(rng, depth=0):
    """A value nobody asked for."""
    if depth == 0 and rng.random() < 0.06:
        v = junk(rng, 4)
        for i in range(rng.choice((6, 10, 14))):
            v = obj([(b"width", v), (b"app", "zz")], i % 2)
        return v
    k = rng.randrange(9 if depth < 4 else 6)
    if k == 0:
        return rng.choice((0.0, -1.0, 1e300, 7.0, float("inf")))
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 7, 40, 300))))
    if k == 3:
        return None
    if k == 4:
        return amf.UNDEF
    if k == 5:
        return Raw(b"\x10" + b"z") if 0 else ""
    if k == 6:
        return Raw(b"\x0a" + struct.pack(">I", n := rng.randrange(4)) + b"".join(enc(junk(rng, depth + 1)) for _ in range(n)))
    return obj([(rng.choice((b"app", b"width", b"flashVer", b"tcUrl", b"x", b"height", b"pageUrl", b"a" * 40)), junk(rng, depth + 1)) for _ in range(rng.randrange(4))], mixed=k == 8)


def around(rng, fields):
    """The fields in any order among others."""
    names = {k for k, _ in fields}
    items = list(fields)
    for _ in range(rng.choice((0, 1, 3, 8, 8, 90))):
        k = rng.choice((b"zz", b"fpad", b"x" * 30, b"wid", b"widths", b"App", b"FLASHVER", b"n\0m", b"objectEncodin", b"tcUrlx", b"capabilities", b"w" * 255, b"width" * 53, b"app" * 110, b"w" * 700))
        if k not in names:
            items.append((k, junk(rng)))
    rng.shuffle(items)
    return items


class World:
    def __init__(self, c, rng, extra="", **kw):
        self.c, self.rng = c, rng
        self.port, self.http = free_ports(2)
        self.chunk = kw.get("chunk") or rng.choice((64, 128, 128, 512, 4096))
        self.inst = c.nginx(CONF % dict(port=self.port, http=self.http, chunk=self.chunk, merge=rng.choice((1, 4)), extra=extra),
                            debug=os.environ.get("R03_DEBUG", "info"), wait_ports=[self.port, self.http])
        self.inst.start()
        self.n = 0

    def uid(self):
        self.n += 1
        return self.n


SIZES = (16, 17, 20, 27, 64, 128, 128, 129, 1000, 65536)


async def commands(c, rng, n):
    w = World(c, rng)
    for k in range(n):
        x = await rtmp.Client(port=w.port, name=f"cmd{k}").open()
        size = rng.choice(SIZES)
        if size != 128:
            x.set_chunk_size(size)
        txt = {f: bytes(rng.randrange(1, 256) for _ in range(rng.choice((0, 1, 5, 30, 100, 254, 255, 256, 400)))) for f in (b"flashVer", b"pageUrl", b"swfUrl")}
        name = b"s%d-" % k + bytes(rng.choice(b"abcXYZ0123456789_-") for _ in range(rng.choice((0, 3, 60, 120))))
        app = rng.choice((b"on", b"copy", b"off"))
        oe = rng.choice((None, 0.0, 3.0))
        fields = [(b"app", app), (b"tcUrl", b"rtmp://127.0.0.1/" + app)]
        bad = set()
        for f, v in txt.items():
            if rng.random() < 0.75:
                fields.append((f, v))
            elif rng.random() < 0.5:
                fields.append((f, rng.choice((None, 5.0, True, amf.UNDEF))))    # another type: not taken
                bad.add(f)
            else:
                bad.add(f)
        if oe is not None:
            fields.append((b"objectEncoding", oe))
        amf3 = rng.random() < 0.2
        trans = rng.choice((1.0, 0.0, 77.0, 1e9, 2.5))
        mixed = rng.random() < 0.3
        end = rng.random() < 0.85
        body = amf.encs("connect", trans) + obj(around(rng, fields), mixed, end, rng.choice((None, 0, 0xffffffff)))
        if end:
            for _ in range(rng.choice((0, 0, 1, 3))):
                body += enc(junk(rng))

        def send(body, msid=0, csid=3):
            if amf3:
                x.send(Msg(17, 0, msid, b"\0" + body, csid))
            else:
                x.send(Msg(AMF0_CMD, 0, msid, body, csid))

        async def result(trans, what):
            n0 = len(x.msgs)
            await x.drain()
            try:
                while True:
                    m = await x.wait(lambda m: m if m.type in (AMF0_CMD, 17) else None, 10, n0)
                    n0 = next(i for i, y in enumerate(x.msgs) if y is m) + 1
                    try:
                        v = amf.decs(m.data[1:] if m.type == 17 else m.data)
                    except amf.AmfError as e:
                        fail("an answer that is not well-formed", f"{what}: {e}: {m.data!r}")
                    if v[0] == "onBWDone":
                        continue
                    if v[0] not in ("_result", "_error") or v[1] != trans:
                        fail("a command is not answered with its transaction number", f"{what} {trans}: {v}")
                    return v
            except rtmp.Closed as e:
                fail("a valid command ended the session", f"{what} in chunks of {size}: {e}: {body[:400]!r}")
            except asyncio.TimeoutError:
                fail("a command was not answered", f"{what} in chunks of {size}: {body[:400]!r}")
        n0 = len(x.msgs)
        send(body)
        v = await result(trans, "connect")
        if v[0] != "_result" or v[3].get("code") != "NetConnection.Connect.Success" or v[3].get("objectEncoding") != (oe or 0.0):
            fail("wrong answer to connect", f"objectEncoding {oe}: {v}")
        for _ in range(rng.choice((0, 0, 2))):
            # commands nobody knows
            send(amf.encs(rng.choice(("FCPublish", "releaseStream", "_checkbw", "getStreamLength", "x" * 100, "x" * 200)), 3.0, None) + enc(junk(rng)))
        trans = rng.choice((2.0, 4.0, 123456.0))
        n1 = len(x.msgs)
        send(amf.encs("createStream", trans, None) + (enc(junk(rng)) if rng.random() < 0.3 else b""))
        v = await result(trans, "createStream")
        x.msid = int(v[3])
        pub = rng.random() < 0.5
        n2 = len(x.msgs)
        null = rng.choice((Raw(b"\x05"), Raw(b"\x06"), Raw(b"\x05")))
        if pub:
            body = amf.encs("publish", 0.0) + null + enc(name) + (enc(rng.choice(("live", "record", "append", "zz"))) if rng.random() < 0.8 else b"")
        else:
            opt = [enc(v) for v in (rng.choice((-2.0, -1.0, 0.0)), -1.0, rng.random() < 0.5)][:rng.randrange(4)]
            body = amf.encs("play", 0.0) + null + enc(name) + b"".join(opt)
        send(body, x.msid, 8)
        await x.drain()
        if pub:
            try:
                st = await x.status(10, n2)
            except (rtmp.RtmpError, asyncio.TimeoutError) as e:
                fail("a valid command ended the session", f"publish in chunks of {size}: {e!r}: {body!r}")
            if st != "NetStream.Publish.Start":
                fail("publish refused", f"{st}: {body!r}")
        try:
            await live.sync(x)
        except rtmp.RtmpError as e:
            fail("a valid command ended the session", f"{'publish' if pub else 'play'} in chunks of {size}: {e!r}: {body!r}")
        h = await http.Http(w.http, "/sys", headers={"Connection": "close"}).open()
        await h.finish(20)
        await h.close()
        import json
        j = json.loads(bytes(h.body).decode("latin-1"))
        cl = [(st["name"], y) for v in j["live_stream"]["server_array"] for st in v["stream_array"] for y in st["client_array"]]
        if len(cl) != 1:
            fail("the session did not get its stream", f"{name} in chunks of {size}: {[y[0] for y in cl]}")
        full, y = cl[0]
        want = ("one/" + (app + b"/" + name).decode(), pub, *(("" if f in bad else txt[f][:255].decode("latin-1")) for f in (b"flashVer", b"pageUrl", b"swfUrl")))
        got = (full, y["publishing"], y.get("flashver", ""), y.get("pageurl", ""), y.get("swfurl", ""))
        if want != got:
            fail("a field was not understood", f"in chunks of {size}: sent {want}, understood {got}: {body[:300]!r}")
        c.saw("commands understood", 3)
        c.case((size, bytes(body), tuple(fields)), dict(chunk=size, fields=[f.decode("latin-1") for f, _ in fields]) if k < 2 else None, True)
        await x.close(abort=rng.random() < 0.5)
        for _ in range(100):
            j = json.loads(await text(w.http, "/sys"))
            if not any(st["client_array"] for v in j["live_stream"]["server_array"] for st in v["stream_array"]):
                break
            await asyncio.sleep(0.03)


async def text(port, path):
    h = await http.Http(port, path, headers={"Connection": "close"}).open()
    await h.finish(20)
    await h.close()
    return bytes(h.body).decode("latin-1")


NUM = ("width", "height", "duration", "framerate", "videodatarate", "videocodecid")


def announce(rng):
    """A metadata message: bytes, values understood (None: cannot be read), whether usual."""
    vals = {}
    items = []
    for f in NUM:
        if rng.random() < 0.7:
            v = float(rng.choice((0, 1, 25, 1280, 65536, 1000000, 12345)))
            if f == "framerate" and rng.random() < 0.5:
                v = rng.choice((29.97, 0.5, 59.94))
            if f == "videocodecid":
                v = rng.choice((7.0, 12.0, 2.0))
            if rng.random() < 0.12:
                items.append((f.encode(), rng.choice(("text", True, None, amf.UNDEF, "7", obj([(b"width", 3.0)]), obj([(b"height", 3.0)], True)))))
            else:
                vals[f] = v
                items.append((f.encode(), v))
    items = around(rng, items)
    kind = rng.choice(("object", "mixed", "mixed", "open"))
    o = obj(items, kind != "object", kind != "open", rng.choice((None, 0, 99)))
    lead = rng.choice(("both", "both", "both", "bare", "frame"))
    head = {"both": amf.encs("@setDataFrame", "onMetaData"), "bare": amf.encs("onMetaData"), "frame": amf.encs("@setDataFrame")}[lead]
    body = head + bytes(o)
    if rng.random() < 0.15:
        # cut inside a value, or something that does not exist
        if rng.random() < 0.5:
            o2 = obj(items + [(b"zlast", Raw(rng.choice((b"\x00\x40", b"\x02\xff\xffab", b"\x0a\0\0\0\x05\x05", b"\x42", b"\x03\0\x05ab"))))], kind != "object", False)
            body = head + bytes(o2)
        else:
            body = head + bytes(obj(items + [(b"zlast", Raw(b"\x42"))], True))
        return body, lead, None, None
    return body, lead, vals, bytes(o)


def value(b):
    """What was received, as values."""
    v = amf.decs(b)
    if len(v) != 2 or v[0] != "onMetaData" or not isinstance(v[1], dict):
        raise amf.AmfError(f"not metadata: {v!r}")
    # the unset profile and level are sent as the zeros of their buffers
    return {k: x.rstrip("\0") if k in ("profile", "level") and isinstance(x, str) else x for k, x in v[1].items()}


def rewritten(vals):
    g = vals.get
    fr = g("framerate", 0.0)
    return dict(Server="PingOS (https://pingos.io)", width=g("width", 0.0), height=g("height", 0.0), displayWidth=g("width", 0.0), displayHeight=g("height", 0.0),
                duration=g("duration", 0.0), framerate=fr, fps=fr, videodatarate=g("videodatarate", 0.0), videocodecid=g("videocodecid", 0.0), audiodatarate=0.0, audiocodecid=0.0,
                profile="", level="")


async def metadata(c, rng, n, app, cached=False):
    w = World(c, rng, extra="cache_time 500ms; send_all on;" if cached else "")
    size = rng.choice(SIZES)
    p = await rtmp.publisher(w.port, app, "m", chunk=size)
    force = None            # the metadata in force: what a subscriber has to have seen last
    at = {}                 # frame -> metadata in force
    told = {}               # frame -> how many were announced before it
    nann = 0
    subs = []
    ts = 0

    async def join():
        if rng.random() < 0.5:
            k = await rtmp.player(w.port, app, "m")
            await live.sync(k)
        else:
            k = await http.FlvPlayer(w.http, f"/{app}/m.flv").open()
            await http.barrier(w.port, app)
        subs.append(k)
    await join()
    await join()
    seen = []
    for k in range(n):
        if rng.random() < 0.6:
            body, lead, vals, o = announce(rng)
            if rng.random() < 0.2:
                p.send(Msg(15, ts, p.msid, b"\0" + body, 4))
            else:
                p.send(Msg(AMF0_META, ts, p.msid, body, 4))
            seen.append((body, lead))
            if vals is not None:
                nann += 1
                if app == "on":
                    force = rewritten(vals)
                elif app == "copy":
                    force = bytes(o)
            c.saw("metadata messages" if vals is not None else "unreadable metadata messages")
            c.case((size, app, body), dict(app=app, chunk=size, lead=lead, body=len(body), values=vals) if k < 2 else None, True)
        if rng.random() < 0.15 and len(subs) < 10:
            await live.sync(p)
            await join()
        if rng.random() < 0.1 and subs:
            # a subscriber's metadata are nobody's
            s = rng.choice(subs)
            if isinstance(s, rtmp.Client):
                s.send(Msg(AMF0_META, 0, s.msid, announce(rng)[0], 4))
                await live.sync(s)
        for _ in range(rng.choice((1, 1, 3))):
            ts += 40
            u = w.uid()
            at[u] = force
            told[u] = nann
            if rng.random() < 0.6:
                p.av(VIDEO, ts, media.avc_frame(u, rng.random() < 0.3, rng, rng.choice((20, 300))))
            else:
                p.av(AUDIO, ts, media.aac_frame(u, rng, 20))
        if rng.random() < 0.3:
            await p.drain()
            await asyncio.sleep(0.01)
    await live.sync(p)
    if p.closed:
        fail("the publisher was ended", f"{p.error}")
    last = max(at)
    for i, s in enumerate(subs):
        for _ in range(200):
            if any(m.type in (AUDIO, VIDEO) and live.uid(m.data) == last for m in s.msgs[-8:]):
                break
            await asyncio.sleep(0.03)
        else:
            fail("a subscriber did not receive all frames", f"#{i} of {app}")
        cur = None
        had = 0
        for m in s.msgs:
            if m.type == AMF0_META:
                b = m.data
                if not b or b[:1] != b"\x02":
                    fail("a message that is not metadata was delivered", f"#{i} {app}: {b[:60]!r}")
                name, j = amf.dec(b)
                if name == "|RtmpSampleAccess":
                    continue
                if name != "onMetaData":
                    fail("a message that is not metadata was delivered", f"#{i} {app}: {b[:60]!r}")
                cur = b
                had += 1
            elif m.type in (AUDIO, VIDEO) and live.uid(m.data) in at:
                if had > (nann if cached else told[live.uid(m.data)]):
                    fail("metadata delivered more than once", f"#{i} {type(s).__name__} of {app}: {had} before frame {live.uid(m.data)}, "
                         f"{told[live.uid(m.data)]} announced")
                if cached and live.uid(m.data) != last:
                    continue        # frames of the cache may be older than the metadata
                want = at[live.uid(m.data)]
                if want is None:
                    ok = cur is None
                elif app == "on":
                    try:
                        ok = cur is not None and value(cur) == want
                    except amf.AmfError as e:
                        fail("metadata that are not well-formed", f"#{i}: {e}: {cur!r}")
                else:
                    ok = cur == amf.encs("onMetaData") + want
                if not ok:
                    fail("a frame without the metadata in force", f"#{i} {type(s).__name__} of {app}, publisher's chunks {size}, server's {w.chunk}: before frame {live.uid(m.data)} "
                         f"expected {want if not isinstance(want, bytes) else want[:200]}, had {cur if app != 'on' or cur is None else value(cur)}"[:1500])
                c.saw("frames' metadata compared")
    for s in subs + [p]:
        await s.close()


def scenarios(c):
    for r in range(c.pick(4, 20)):
        yield Scenario(f"commands#{r}", commands, n=c.pick(30, 80))
    for r in range(c.pick(9, 40)):
        yield Scenario(f"metadata#{r}", metadata, n=c.pick(60, 150), app=("on", "copy", "off")[r % 3])
    for r in range(c.pick(3, 12)):
        yield Scenario(f"metadata-cached#{r}", metadata, n=c.pick(60, 150), app=("on", "copy", "off")[r % 3], cached=True)
