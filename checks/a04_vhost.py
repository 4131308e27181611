"""Which server and application a session belongs to: by address, host name and application name."""
import asyncio
import os
import re

from pv import http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, Client

ID = "A04"
TITLE = "Every session runs under the server and application it asked for, and no other"
STATEMENT = """A client's session is handled with the settings of the server block that listens on the address it connected to and
whose names match the host of its URL best (exact name, then longest leading wildcard, then longest trailing wildcard,
then first regular expression, then the default server), and there of the application named like the URL's, else of the
application "*", else it is refused. Streams are the same exactly if the server's id, the application and the stream name are
the same, over RTMP and HTTP-FLV alike, whatever arguments are added to the application or stream name."""
OVER = ("configurations", "inputs")
QUANT = "Every set of server blocks, listening addresses, names and applications and every URL a client may send."
WHY = "No existing test configures more than one RTMP server or connects to one."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c", "modules/nginx-rtmp-module/ngx_rtmp.c",
         "modules/nginx-rtmp-module/ngx_rtmp_core_module.c", "modules/nginx-rtmp-module/ngx_rtmp_init.c",
         "modules/nginx-rtmp-module/ngx_live.c", "modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c"]
MECH = [("server by address", "ngx_rtmp_init_connection"), ("server by name", "ngx_rtmp_find_virtual_server"),
        ("application", "ngx_rtmp_cmd_connect_init"), ("identity of a stream", "ngx_rtmp_cmd_stream_init")]
TECHNIQUE = "online checker of where each session's recordings and frames go against a reference model of the selection"
NOTE = """Held on the generated configurations and URLs; host names in lower case, dynamic configuration and IPv6 listeners
are not covered."""
RULE = ("A case is one session whose server and application (by its recording) or whose stream (by the frames it received) "
        "was compared with the reference; non-trivial when more than one server is configured; distinct by configuration and URL.")

DOM = ("a.com", "b.org", "cam.tv", "x.y.com")


def make_names(rng, used):
    out = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        d = rng.choice(DOM)
        n = rng.choice((d, f"www.{d}", f"*.{d}", f".{d}", f"{d.split('.')[0]}.*", f"www.{d.split('.')[0]}.*", f"*.s.{d}",
                        rf"~^live\d+\.{d.replace('.', chr(92) + '.')}$", rf"~^{d[0]}.*\.tv$"))
        if any(clash(n, u) for u in used):
            continue
        used.append(n)
        out.append(n)
    return out


def clash(a, b):
    return bool(set(forms(a)) & set(forms(b)))


def forms(n):
    return (n[1:], "*" + n) if n.startswith(".") else (n,)


def select(servers, host):
    """servers: [(names, default flag, i)] of one address, in configuration order."""
    ex, head, tail, rx = {}, [], [], []
    for names, _, i in servers:
        for n in names:
            for f in forms(n):
                if f.startswith("~"):
                    rx.append((f[1:], i))
                elif f.startswith("*."):
                    head.append((f[1:], i))
                elif f.endswith(".*"):
                    tail.append((f[:-1], i))
                else:
                    ex[f] = i
    if host in ex:
        return ex[host], "exact"
    m = [(len(f), i) for f, i in head if host.endswith(f) and len(host) > len(f)]
    if m:
        return max(m)[1], "leading wildcard"
    m = [(len(f), i) for f, i in tail if host.startswith(f) and len(host) > len(f)]
    if m:
        return max(m)[1], "trailing wildcard"
    for f, i in rx:
        if re.search(f, host):
            return i, "regular expression"
    for _, d, i in servers:
        if d:
            return i, "default"
    return servers[0][2], "default"


def hosts(rng, names):
    out = []
    for n in names:
        d = n.lstrip("~^*.").rstrip("*$.").replace("\\", "")
        if n.startswith("~^live"):
            out += [f"live{rng.randrange(99)}.{rng.choice(DOM)}", "live.a.com"]
        elif n.startswith("~"):
            out += [n[2] + "zz.tv", n[2] + ".tv", "q.tv"]
        elif n.startswith(("*", ".")):
            out += [d, "www." + d, "a.b." + d, "x" + d, "s." + d, "q.s." + d]
        elif n.endswith("*"):
            out += [d + ".com", d + ".co.uk", "w." + d + ".com", d]
        else:
            out += [d, "www." + d, d + ".com"]
    return out + ["localhost", "127.0.0.1", "other.net", rng.choice(DOM)]


class Site:
    def __init__(self, c, rng, groups):
        self.c, self.rng, self.groups = c, rng, groups
        self.port, self.http = free_ports(2)
        n = rng.choice((2, 3, 4, 5))
        lis = ["*", "127.0.0.1", "127.0.0.2"] if groups else ["*"]
        self.servers = []
        used = {a: [] for a in lis}
        has_default = set()
        self.by_addr = {}
        self.proxy = set()
        proxy = {a for a in lis if groups and rng.random() < 0.4}
        conf = ""
        for i in range(n):
            at = [a for a in lis if rng.random() < 0.7] or ["*"]
            if i == 0 and "*" not in at:
                at.append("*")
            un = sum((used[a] for a in at), [])
            names = make_names(rng, un)
            for a in at:
                used[a] += names
            conf += " server {\n"
            for a in at:
                d = a not in has_default and rng.random() < 0.3
                if d:
                    has_default.add(a)
                self.by_addr.setdefault(a, []).append((names, d, i))
                pp = a in proxy and not d  # the directive takes one parameter
                if pp:
                    self.proxy.add(a)
                conf += f"  listen {'' if a == '*' else a + ':'}{self.port}{' default_server' if d else ''}{' proxy_protocol' if pp else ''};\n"
            sid = rng.choice((f"id{i}", f"id{i}", "shared", None))
            if sid:
                conf += f"  serverid {sid};\n"
            for nm in names:
                conf += f'  server_name "{nm}";\n'
            apps = [a for a in ("live", "liv", "vod", "a/b", "*") if rng.random() < 0.55] or ["live"]
            for a in apps:
                p = f"{{dir}}/rec/{i}-{a.replace('/', '_').replace('*', 'star')}"
                conf += f"  application {a} {{ live on; wait_key off; record all; record_path {p}; }}\n"
            conf += " }\n"
            self.servers.append(dict(names=names, apps=apps, sid=sid or "default"))
        self.text = conf
        top = "worker_processes 1;\nevents { worker_connections 4096; }\n" + rng.choice((
            "", "stream_buckets 1;\nserver_buckets 1;\n", "stream_buckets 1;\nserver_buckets 2;\n", "stream_buckets 3;\nserver_buckets 1;\n"))
        h = f"http {{ access_log off; server {{ listen {self.http}; location / {{ flv_live {self.port}; }} }} }}\n"
        self.inst = c.nginx(top + "rtmp {\n" + conf + "}\n" + (h if not groups else ""),
                            wait_ports=[self.port] + ([] if groups else [self.http]))
        for i, s in enumerate(self.servers):
            for a in s["apps"]:
                os.makedirs(f"{self.inst.dir}/rec/{i}-{a.replace('/', '_').replace('*', 'star')}", mode=0o777)

    def url(self):
        """(local address, host, app as sent, (server, app, application block or None), how)"""
        rng = self.rng
        addr = rng.choice(("127.0.0.1", "127.0.0.2", "127.0.0.3")) if self.groups else "127.0.0.1"
        group = self.by_addr.get(addr) or self.by_addr["*"]
        host = rng.choice(hosts(rng, [n for nm, _, _ in group for n in nm]))
        app = rng.choice(("live", "liv", "livex", "vod", "a/b", "a", "new"))
        sent, real = app, app
        k = rng.random()
        if host == "127.0.0.1" and "/" in app:
            app = sent = real = "live"
        if k < 0.1:
            sent = app + "?" + rng.choice(("x=1", "vhost=a.com"))
        elif k < 0.2:
            sent = app + "/"
        elif k < 0.3 and len(app) + 11 > 10:
            sent = app + "/_definst_"
            real = app + "/"
        tcurl = f"rtmp://{host}{rng.choice(('', '', f':{self.port}'))}/{sent}"
        if k > 0.85 and host != "127.0.0.1" and "/" not in app:
            # by address, the host is the first part of the application
            tcurl = f"rtmp://127.0.0.1/{host}/{app}"
            sent = f"{host}/{app}"
        i, how = select(group, host)
        return addr, host, sent, tcurl, i, real, how

    def prefix(self, addr):
        """What comes before the handshake at an address."""
        if (addr if addr in self.by_addr else "*") in self.proxy:
            return f"PROXY TCP4 192.0.2.7 {addr} 40000 {self.port}\r\n".encode()
        return b""

    def block(self, i, app):
        apps = self.servers[i]["apps"]
        return app if app in apps else "*" if "*" in apps else None


async def connect(addr, st, app, tcurl):
    c = await Client(addr, st.port, tcurl).open(prefix=st.prefix(addr))
    await c.connect(app, tcurl)
    await c.create_stream()
    return c


async def selection(c, rng, groups, n):
    st = Site(c, rng, groups)
    st.inst.start()
    sem = asyncio.Semaphore(6)
    want = []

    async def one(j):
        addr, host, sent, tcurl, i, real, how = st.url()
        if sent.endswith("/_definst_"):
            real = sent[:-10]
        block = st.block(i, real)
        async with sem:
            try:
                k = await connect(addr, st, sent, tcurl)
            except rtmp.Closed:
                if block is not None:
                    raise Violation("selection: a session was refused", f"{tcurl} at {addr}: expected server {i} ({how}), "
                                    f"application {block}\n{st.text}")
                c.case((st.text, addr, tcurl, sent), None, len(st.servers) > 1)
                c.saw("sessions without an application refused")
                return
            name = f"s{j}"
            arg = rng.choice(("", "", "?k=v", "?"))
            r = await k.publish(name + arg)
            if r != "NetStream.Publish.Start":
                raise rtmp.RtmpError(f"publish: {r}")
            k.av(VIDEO, 0, media.avc_header())
            k.av(VIDEO, 0, media.avc_frame(j + 1, True, rng, 50))
            k.av(VIDEO, 40, media.avc_frame(j + 2, False, rng, 50))
            await live.sync(k)
            await k.close()
            if block is None:
                raise Violation("selection: a session without an application was accepted", f"{tcurl} at {addr}\n{st.text}")
            want.append((name, f"{i}-{block.replace('/', '_').replace('*', 'star')}", tcurl, addr, how))
            c.case((st.text, addr, tcurl, sent), dict(url=tcurl, address=addr, server=i, by=how, application=block)
                   if len(c.samples) < 6 else None, len(st.servers) > 1)
            c.saw(f"servers chosen by {how}")
            c.saw("applications by name" if block != "*" else "default applications")

    await asyncio.gather(*(one(j) for j in range(n)))
    await asyncio.sleep(0.3)
    where = {}
    for d, _, fs in os.walk(st.inst.dir + "/rec"):
        for f in fs:
            where.setdefault(f[:-4], []).append(os.path.basename(d))
    for name, d, tcurl, addr, how in want:
        if where.get(name) != [d]:
            raise Violation("selection: a session ran under another server or application",
                            f"{tcurl} at {addr}: expected {d} ({how}), recorded in {where.get(name)}\n{st.text}")


async def identity(c, rng, rounds):
    """Sessions meet on a stream exactly if server id, application and name agree."""
    st = Site(c, rng, False)
    st.inst.start()
    for r in range(rounds):
        urls = {}
        for _ in range(40):
            u = st.url()
            addr, host, sent, tcurl, i, real, how = u
            if "/_definst_" in sent or st.block(i, real) is None:
                continue
            for nm in (f"m{r}", f"m{r}x", f"m{r}xy", f"{r}", "m"):
                urls.setdefault((st.servers[i]["sid"], real, nm), []).append(u)
        keys = list(urls)
        rng.shuffle(keys)
        keys = sorted(keys[:14], key=lambda k: (k[2] != f"m{r}", rng.random()))[:8]
        rng.shuffle(keys)
        pubs, subs = {}, []
        for x, key in enumerate(keys):
            addr, host, sent, tcurl, i, real, how = urls[key][0]
            k = await connect(addr, st, sent, tcurl)
            res = await k.publish(key[2] + rng.choice(("", "?a=b")))
            if res != "NetStream.Publish.Start":
                raise Violation("identity: a stream of another server or application was in the way",
                                f"{tcurl}: {res}; others: {[urls[q][0][3] for q in keys[:x]]}\n{st.text}")
            p = live.Pub(k, media.Gen(rng, fps=25, gop=5, audio=False, base=(x + 1) * 100000, vsize=(50, 300)))
            p.headers()
            pubs[key] = p
        for key in keys:
            for u in rng.sample(urls[key], min(3, len(urls[key]))):
                addr, host, sent, tcurl, i, real, how = u
                plain = "?" not in sent and not sent.endswith("/") and "127.0.0.1" not in tcurl and "/" not in real
                if plain and rng.random() < 0.5:
                    s = await http.FlvPlayer(st.http, f"/{real}/{key[2]}" + rng.choice(("", ".flv", "?q=1")), headers={"Host": host}).open()
                    s.proto = "http-flv"
                else:
                    s = await connect(addr, st, sent, tcurl)
                    await s.play(key[2] + rng.choice(("", "", "?z=1")))
                    await live.sync(s)
                    s.proto = "rtmp"
                subs.append((key, u, s))
        await asyncio.sleep(0.2)
        for p in pubs.values():
            p.run(400)
            await live.sync(p.c)
        for key, u, s in subs:
            p = pubs[key]
            t, ts, body = p.sent[-1]
            try:
                if s.proto == "rtmp":
                    await live.until_last(s, p, 10)
                else:
                    await s.wait_msg(lambda m: m.type == t and m.data == body, 10)
            except asyncio.TimeoutError:
                raise Violation("identity: a subscriber did not get its stream",
                                f"{s.proto} {u[3]} of {u[0]}, server {u[4]} id {key[0]}, stream {key[2]}: {len(s.msgs)} messages\n{st.text}")
            live.judge(f"{s.proto} {u[3]} {key[2]}", live.frames(p.sent), [(m.type, m.ts, m.data) for m in s.msgs if m.type in (AUDIO, VIDEO)],
                       0, "all", key="identity")
            c.case((st.text, r, key[2], u[3], s.proto), None, len(keys) > 1)
            c.saw(f"subscribers matched with their stream over {s.proto}")
            await s.close()
        c.saw("streams at the same time", len(keys))
        for p in pubs.values():
            await p.close()
        await asyncio.sleep(0.1)


def scenarios(c):
    for i in range(c.pick(8, 60)):
        yield Scenario(f"selection#{i}", selection, groups=i % 2 == 1, n=60)
    for i in range(c.pick(5, 40)):
        yield Scenario(f"identity#{i}", identity, rounds=4)
