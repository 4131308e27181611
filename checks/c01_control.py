"""Control requests: exactly the addressed sessions are dropped, paused, resumed, recorded."""
import asyncio
import os
import re

from pv import http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO

ID = "C01"
TITLE = "A control request acts on exactly the sessions it addresses, and says how many"
STATEMENT = """A control request addresses the sessions of one server, narrowed by application, stream, address, client number and role; exactly these are dropped,
paused, resumed or get their recorder started or stopped, and the answer to all but the last is their number.
A dropped session ends, a paused publisher's frames reach nobody until it is resumed and sends a key frame, and sessions not addressed go on undisturbed.
A request that names no server, no known method or no known recorder is answered by an error and changes nothing."""
OVER = ("histories", "inputs", "configurations")
QUANT = "All sets of sessions over servers, applications, names and protocols, and all sequences of control requests with any arguments, also while sessions come, wait for their admission or go."
WHY = "No test has a session that a control request could act on."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_control_module.c", "modules/nginx-rtmp-module/ngx_rtmp_live_module.c", "modules/nginx-rtmp-module/ngx_live.c",
         "modules/nginx-rtmp-module/ngx_rtmp_record_module.c", "modules/nginx-rtmp-module/ngx_live_record.c", "modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c"]
MECH = [("addressing", "ngx_rtmp_control_walk, ngx_rtmp_control_walk_server, ngx_rtmp_control_walk_session"), ("drop", "ngx_rtmp_control_drop_handler"),
        ("pause and resume", "ngx_rtmp_control_pause_handler, ngx_rtmp_live_av"), ("recorders", "ngx_rtmp_control_record_handler")]
TECHNIQUE = "online checker of a model of all sessions: after every request the answer, which sessions ended and which frames reached whom"
NOTE = "Pausing a subscriber has no effect by design; redirection and several workers are not covered."
RULE = ("A case is one control request whose answer and whose effect on all sessions were compared with the model; "
        "non-trivial when it addressed a session and another was left; distinct by request and set of sessions.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
%(top)s
rtmp {
  server { listen %(port)d; serverid one; server_name one.tv; out_queue 1024; chunk_size 4096; max_streams 64;
    application a { live on; wait_key off; %(cache)s recorder r1 { record all manual; record_path {dir}/rec; record_suffix -one-a-r1.flv; }
      recorder r2 { record all manual; record_path {dir}/rec; record_suffix -one-a-r2.flv; } }
    application ab { live on; wait_key off; %(cache)s recorder r1 { record all manual; record_path {dir}/rec; record_suffix -one-ab-r1.flv; } }
    application note { live on; wait_key off; on_publish http://127.0.0.1:%(note)d/p timeout=2s; on_play http://127.0.0.1:%(note)d/q timeout=2s;
      recorder r1 { record all manual; record_path {dir}/rec; record_suffix -one-note-r1.flv; } }
  }
  server { listen %(port)d; serverid on; server_name two.tv; out_queue 1024; chunk_size 4096;
    application a { live on; wait_key off; %(cache)s recorder r1 { record all manual; record_path {dir}/rec; record_suffix -on-a-r1.flv; } }
    application ab { live on; wait_key off; %(cache)s recorder r1 { record all manual; record_path {dir}/rec; record_suffix -on-ab-r1.flv; } }
  }
}
http { access_log off;
    server { listen %(http)d;
        location /control { rtmp_control all; }
        location /some { rtmp_control drop; }
        location /stat { rtmp_stat all; }
        location /sys { sys_stat; } }
    server { listen %(flv)d; location / { flv_live %(port)d; } }
    server { listen %(ts)d; location / { ts_live %(port)d; } } }
"""
HOST = {"one": "one.tv", "on": "two.tv"}


def fail(key, text):
    raise Violation("control: " + key, text)


class Ses:
    def __init__(self, kind, srv, app, name, k):
        self.kind, self.srv, self.app, self.name, self.k = kind, srv, app, name, k
        self.key = (srv, app, name)
        self.paused = 0
        self.ts = 0
        self.recs = {}

    def __repr__(self):
        return f"{self.kind} {self.srv}/{self.app}/{self.name}"

    def ended(self):
        return self.k.closed or self.k.error is not None if isinstance(self.k, rtmp.Client) else self.k.ended

    def uids(self):
        if isinstance(self.k, http.TsPlayer):
            t = self.k.ts
            d = b"".join(p.data for p in t.pes) + b"".join(bytes(p.buf) for p in t.cur.values() if p)
            return [int(x) for x in live.UID.findall(d)]
        return [live.uid(m.data) for m in self.k.msgs if m.type in (AUDIO, VIDEO)]


class World:
    def __init__(self, c, rng):
        self.c, self.rng = c, rng
        self.port, self.http, self.flv, self.ts, self.note = free_ports(5)
        self.addr = f"0.0.0.0:{self.port}"      # the address the sessions came in at
        top = rng.choice(("", "stream_buckets 1;\nserver_buckets 1;", "stream_buckets 2;"))
        cache = rng.choice(("", "cache_time 1s; send_all on; mpegts_cache_time 1s;", "mpegts_cache_time 1s;"))
        self.cached = "mpegts" in cache
        self.inst = c.nginx(CONF % dict(port=self.port, http=self.http, flv=self.flv, ts=self.ts, note=self.note, top=top, cache=cache), debug=os.environ.get("C01_DEBUG", "info"), wait_ports=[self.port, self.http])
        os.makedirs(self.inst.dir + "/rec", exist_ok=True)
        os.chmod(self.inst.dir + "/rec", 0o777)
        self.inst.start()
        self.all = []
        self.n = 0
        self.hidden = set()     # frames of paused publishers
        self.stopped = {}

    def uid(self):
        self.n += 1
        return self.n

    async def add(self, kind, srv, app, name):
        host = HOST[srv]
        if kind == "pub":
            k = await rtmp.publisher(self.port, app, name, tcurl=f"rtmp://{host}/{app}")
            if k.result != "NetStream.Publish.Start":
                raise rtmp.RtmpError(f"publish: {k.result}")
            s = Ses(kind, srv, app, name, k)
            s.ts = self.rng.choice((0, 1000))
            k.av(VIDEO, s.ts, media.avc_header())
            k.av(AUDIO, s.ts, media.aac_header())
            await live.sync(k)
        elif kind == "rtmp":
            k = await rtmp.player(self.port, app, name, tcurl=f"rtmp://{host}/{app}")
            await live.sync(k)
            s = Ses(kind, srv, app, name, k)
        else:
            cls, p = (http.FlvPlayer, self.flv) if kind == "flv" else (http.TsPlayer, self.ts)
            k = await cls(p, f"/{app}/{name}.{kind}", host=host).open()
            await http.barrier(self.port, "a")
            if kind == "ts":
                k.ts.restarts = True    # counters start over with a new publisher
            s = Ses(kind, srv, app, name, k)
        self.all.append(s)
        return s

    def pubs(self):
        return [s for s in self.all if s.kind == "pub"]

    async def send(self, p, key):
        """One frame of each type; their ids."""
        p.ts += 40
        out = [self.uid(), self.uid()]
        p.k.av(VIDEO, p.ts, media.avc_frame(out[0], key, self.rng, 30))
        p.k.av(AUDIO, p.ts, media.aac_frame(out[1], self.rng, 30))
        await live.sync(p.k)
        if p.paused == 2 and key:
            p.paused = 0
        if p.paused:
            self.hidden.update(out)
        for r, st in p.recs.items():
            if not p.paused:
                st["want"].append(out)
        return out

    async def probe(self, why):
        """Who is there, and who gets whose frames."""
        for s in self.all:
            if s.ended():
                fail("a session that was not addressed ended", f"{why}: {s} {s.k.error!r}")
        for p in self.pubs():
            want = await self.send(p, not p.paused)
            if p.paused:
                want = None
            else:
                await self.send(p, False)
            for s in self.all:
                if s.key != p.key or s is p or want is None:
                    continue
                if s.kind == "ts":
                    # audio is sent along with later frames
                    want1 = want[:1]
                else:
                    want1 = want
                if s.kind == "rtmp":
                    await live.sync(s.k)
                for _ in range(100):
                    if all(u in s.uids() for u in want1) or s.ended():
                        break
                    await asyncio.sleep(0.03)
                else:
                    fail("a session no longer receives its stream", f"{why}: {s} of {[x for x in self.all]}: frames {want1}, has {s.uids()[-6:]}")
        for s in self.all:
            if s.kind != "pub":
                own = set(s.uids())
                bad = own & self.hidden
                if bad:
                    fail("a frame of a paused publisher was delivered", f"{why}: {s}: {sorted(bad)[:5]} by {s.kind}")
        self.c.saw("sessions compared", len(self.all))

    async def req(self, path):
        h = await http.Http(self.http, path, headers={"Connection": "close"}).open()
        await h.finish(10)
        await h.close()
        if h.status is None:
            fail("no answer", f"{path[:120]}: {h.error!r}")
        return h.status, bytes(h.body).decode("latin-1")

    async def ids(self):
        """The client numbers and whose they are, as the state page knows them."""
        d = await http.json_of(self.http, "/sys")
        out = {}
        for srv in d["live_stream"]["server_array"]:
            for st in srv["stream_array"]:
                for x in st["client_array"]:
                    out[x["id"]] = tuple(st["name"].split("/")), x["publishing"]
        return out

    async def gone(self, ss, why):
        for s in ss:
            for _ in range(150):
                if s.ended():
                    break
                await asyncio.sleep(0.03)
            else:
                fail("a dropped session goes on", f"{why}: {s}")
            self.all.remove(s)
            await s.k.close()

    def addressed(self, srv, app, name, role):
        out = []
        for s in self.all:
            if s.srv != srv or app and s.app != app or app and name and s.name != name:
                continue
            if role == "publisher" and s.kind != "pub" or role == "subscriber" and s.kind == "pub":
                continue
            out.append(s)
        return out


NAMES = ("n", "n1", "n10")


async def model(c, rng, steps):
    w = World(c, rng)
    slots = [(s, a, n) for s in HOST for a in ("a", "ab") for n in NAMES]

    async def refill(n):
        for _ in range(n):
            k = rng.choice(slots)
            kinds = ["rtmp", "flv", "rtmp", "flv"] + (["ts"] if w.cached else [])
            if not any(s.key == k and s.kind == "pub" for s in w.all):
                kinds += ["pub"] * 5
            await w.add(rng.choice(kinds), *k)

    await refill(18)
    await w.probe("start")
    for step in range(steps):
        sec = rng.choice(("drop", "drop", "pause", "pause", "resume", "resume", "record", "record"))
        srv = rng.choice(("one", "one", "on", "on", "o", "one2"))
        app = rng.choice(("a", "a", "ab", "", "b", "abc"))
        name = rng.choice(NAMES + ("", "n2"))
        if sec == "drop" and rng.random() < 0.7 and not name:
            name = rng.choice(NAMES)
        role = rng.choice(("publisher", "subscriber", "client"))
        args = [f"srv={srv}"]
        if app or rng.random() < 0.3:
            args.append(f"app={app}")
        if name or rng.random() < 0.3:
            args.append(f"name={name}")
        if sec == "record":
            role = rng.choice(("start", "start", "stop"))
            rec = rng.choice(("r1", "r1", "r1", "r2", "zz", ""))
            if rec == "r2" and (not app or srv == "one" and app not in ("a", "ab")):
                rec = "r1"
            args.append(f"rec={rec}")
        cid = None
        if sec != "record" and rng.random() < 0.3:
            ids = await w.ids()
            cid = rng.choice(list(ids) + [999999])
            args.append(f"clientid={cid}")
        addr = None
        if rng.random() < 0.2:
            addr = rng.choice((w.addr, w.addr[:-1], w.addr[:-4], w.addr + "0", w.addr[:-1] + "x", "127.0.0.1"))
            args.append(f"addr={addr}")
        rng.shuffle(args)
        path = f"/control/{sec}/{role}?" + "&".join(args)
        before = list(w.all)
        st, body = await w.req(path)
        c.saw(f"{sec} requests")
        if sec == "record":
            ss = w.addressed(srv, app, name, "publisher") if addr in (None, w.addr) else []
            bad = any(rec not in (("r1", "r2") if (s.srv, s.app) == ("one", "a") else ("r1",)) for s in ss)
            if (st != 500 if bad else (st, body) != (200, "ok\n")):
                fail("wrong answer", f"{path} -> {st} {body!r}; addressed {ss}")
            if not bad:
                for s in ss:
                    if role == "start":
                        s.recs.setdefault(rec, dict(want=[]))
                    else:
                        s.recs.pop(rec, None)
            n = len(ss)
        else:
            ss = w.addressed(srv, app, name, role) if addr in (None, w.addr) else []
            if st != 200 or not body.isdigit():
                fail("wrong answer", f"{path} -> {st} {body!r}")
            n = int(body)
            if cid is not None:
                key, pub = ids.get(cid, (None, None))
                ss = [s for s in ss if s.key == key and (s.kind == "pub") == pub]
                if len(ss) > 1:
                    # one of them
                    if sec == "drop":
                        for _ in range(100):
                            if any(s.ended() for s in ss):
                                break
                            await asyncio.sleep(0.03)
                        ss = [s for s in ss if s.ended()]
                    else:
                        ss = ss[:1]
            if n != len(ss):
                fail("wrong number of sessions", f"{path} -> {n}; addressed {ss} of {w.all}")
            if sec == "drop":
                await w.gone(ss, path)
            else:
                for s in ss:
                    if s.kind == "pub":
                        if sec == "pause":
                            s.paused = 1
                        elif s.paused == 1:
                            s.paused = 2
        await w.probe(path)
        check_recs(w, path)
        c.case((path.split("clientid")[0], tuple(sorted(map(repr, before)))), dict(request=path, answer=body, sessions=len(before)) if len(c.samples) < 8 else None,
               n > 0 and n < len(before))
        if len(w.all) < 18:
            await refill(rng.choice((1, 3)) + (8 if len(w.all) < 8 else 0))
    for s in w.all:
        await s.k.close()


def check_recs(w, why):
    """The files of the recorders that run contain the frames since their start."""
    # each start makes a file named by stream, time and recorder, or goes on in that of the same second
    data = {}
    for f in os.listdir(w.inst.dir + "/rec"):
        m = re.fullmatch(r"(.*)-(one|on)-(ab|a|note)-(r\d)\.flv", f)
        data[m[2], m[3], m[1].rsplit("-", 1)[0], m[4]] = data.get((m[2], m[3], m[1].rsplit("-", 1)[0], m[4]), b"") + open(f"{w.inst.dir}/rec/{f}", "rb").read()
    for key, b in data.items():
        got = {int(x) for x in live.UID.findall(b)}
        s = next((s for s in w.pubs() if s.key == key[:3]), None)
        rec = s and s.recs.get(key[3])
        if not rec:
            n, who = w.stopped.get(key, (len(b), id(s)))
            if len(b) != n and who == id(s):
                fail("a recorder that was not started records", f"{why}: {key}")
            w.stopped[key] = (len(b), id(s))
        else:
            w.stopped.pop(key, None)
        if got & w.hidden:
            fail("a frame of a paused publisher was recorded", f"{why}: {key}")
    for s in w.pubs():
        for r, st in s.recs.items():
            b = data.get((*s.key, r), b"")
            got = {int(x) for x in live.UID.findall(b)}
            miss = [o for o in st["want"] if not set(o) <= got]
            if miss:
                fail("a recorder that was started does not record", f"{why}: {s} {r}: frames {miss[:3]} of {len(st['want'])}")
            w.c.saw("recordings compared")


async def pending(c, rng, n):
    """Sessions that wait for their admission, and odd requests."""
    w = World(c, rng)
    hold = asyncio.Event()

    async def answer(rd, wr):
        try:
            await rd.readuntil(b"\r\n\r\n")
            await asyncio.wait_for(hold.wait(), rng.choice((0.1, 0.5, 1)))
        except (OSError, asyncio.IncompleteReadError, asyncio.TimeoutError):
            pass
        try:
            wr.write(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
            await wr.drain()
        except OSError:
            pass
        wr.close()

    server = await asyncio.start_server(answer, "127.0.0.1", w.note)
    keep = await w.add("pub", "one", "a", "n")
    await w.add("rtmp", "one", "a", "n")
    for k in range(n):
        cs = []
        for j in range(3):
            x = rtmp.Client(port=w.port)
            await x.open()
            await x.connect("note", "rtmp://one.tv/note")
            await x.create_stream()
            if j:
                x.command("play", 0, None, f"w{k}", msid=x.msid)
            else:
                x.command("publish", 0, None, f"w{k}", "live", msid=x.msid)
                x.av(VIDEO, 0, media.avc_header())
            await x.drain()
            cs.append(x)
        cs.append(await http.FlvPlayer(w.flv, f"/note/w{k}.flv", host="one.tv").open())
        await asyncio.sleep(rng.choice((0, 0.05, 0.2)))
        for _ in range(rng.choice((1, 2, 4))):
            u = rng.choice(("record/start", "record/start", "record/stop", "pause/publisher", "resume/publisher", "drop/publisher", "drop/client", "drop/subscriber"))
            a = rng.choice((f"&app=note&name=w{k}", "&app=note"))
            st, b = await w.req(f"/control/{u}?srv=one{a}&rec=r1")
            if st not in (200, 500):
                fail("wrong answer", f"{u}{a}: {st}")
            c.saw("requests on waiting sessions")
        if rng.random() < 0.5:
            await asyncio.sleep(0.3)
        for x in cs:
            await x.close(abort=rng.random() < 0.5)
    # odd ones
    long = "x" * 1500
    for path, want in (("/control/drop/client", 500), ("/control/drop/nobody?srv=one", 500), ("/control/pause/x?srv=one", 500), ("/control/resume/x?srv=one", 500),
                       ("/control/redirect/x?srv=one", 500), ("/control/record/x?srv=one&app=a&name=n&rec=r1", 500), ("/control/record/start?srv=one&app=a&name=n&rec=no", 500),
                       ("/control/unknown/client?srv=one", 404), ("/control", 404), ("/control/", 404), ("/control/drop", 404), ("/some/pause/client?srv=one", 404),
                       ("/some/drop/client?srv=nosuch", (200, "0")), (f"/control/drop/client?srv={long}", (200, "0")), (f"/control/drop/client?srv=one&app={long}", (200, "0")),
                       (f"/control/drop/client?srv=one&app=a&name={long}", (200, "0")), ("/control/drop/client?srv=one&app=a&name=n&clientid=x", (200, "0")),
                       ("/control/drop/client?srv=one&app=a&name=n&clientid=", (200, "0")), (f"/control/drop/client?srv=one&clientid={'9' * 40}", (200, "0")),
                       ("/control/drop/client?srv=one&addr=nowhere", (200, "0")), ("/control/drop/client?srv=&app=a&name=n", None), ("/control/drop/client?srv=ONE", (200, "0")),
                       (f"/control/drop/client?srv=one&app={long}&name={long}", (200, "0")), ("/control/drop/client?srv=one/a", (200, "0")),
                       ("/control/redirect/client?srv=one&app=a&name=zz", 500 if 0 else (200, "0")), ("/control/redirect/client?srv=one&app=a&name=n", 500)):
        st, b = await w.req(path)
        got = (st, b) if isinstance(want, tuple) else st
        if want is not None and got != want:
            fail("wrong answer to an odd request", f"{path[:100]} -> {st} {b[:60]!r}, expected {want}")
        c.saw("odd requests")
    await w.probe("odd requests")
    c.case(("pending", n), dict(rounds=n), True)
    for s in w.all:
        await s.k.close()
    server.close()


def scenarios(c):
    for r in range(c.pick(8, 40)):
        yield Scenario(f"model#{r}", model, steps=c.pick(30, 60))
    for r in range(c.pick(1, 6)):
        yield Scenario(f"pending#{r}", pending, n=c.pick(8, 30))
