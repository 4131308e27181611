"""allow and deny: the first rule that matches decides, for every address, and a refused client changes nothing."""
import asyncio
import ipaddress

from pv import live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, Client

ID = "A01"
TITLE = "Publishing and playing over RTMP obey the allow and deny rules"
STATEMENT = """An RTMP client may publish (play) a stream exactly if the first allow or deny rule for publishing (playing) that
covers its address allows it or none does, where an application's own rules come before those of its server and those
before the global ones, and the address is the one a PROXY header names where these are accepted. This goes for IPv4,
IPv6 and IPv4-mapped addresses and any prefix length, and a client that is refused gets no media and leaves the stream,
its publisher and its subscribers as they were."""
OVER = ("configurations", "inputs", "histories")
QUANT = "Every list of rules at the three levels, every client address and every order of refused and accepted clients."
WHY = "No existing test configures an access rule; a wrong match of mask, level, family or operation shows on few addresses."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_access_module.c", "modules/nginx-rtmp-module/ngx_rtmp_init.c",
         "modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c"]
MECH = [("rule parsing", "ngx_rtmp_access_rule"), ("matching", "ngx_rtmp_access_inet, ngx_rtmp_access_inet6"),
        ("inheritance", "ngx_rtmp_access_merge_app_conf"), ("address of the client", "ngx_rtmp_init_connection, ngx_rtmp_proxy_protocol_recv")]
TECHNIQUE = "online checker of every decision against a reference model of the rules, on a live server under ASan"
NOTE = """Held on the generated rule lists and addresses. HTTP players are not subject to these rules (nginx's own access
rules are for them), and relays between servers are not covered."""
RULE = ("A case is one client (address, operation, application) whose acceptance was compared with the reference decision; "
        "non-trivial when at least one rule of its family is in force; distinct by rules, address and operation.")

OPS = ("publish", "play")


def net(rng, fam):
    if fam == 4:
        ip = ipaddress.IPv4Address((127 << 24) | rng.choice((0, 0, rng.randrange(1 << 24))) << 0 | rng.choice((1, 2, 3, 128, 129)))
        if rng.random() < 0.35:
            return str(ip), ipaddress.ip_network(ip)
        n = ipaddress.ip_network((ip, rng.choice((8, 9, 16, 20, 24, 25, 30, 31, 32))), strict=False)
        return str(n), n
    ip = ipaddress.IPv6Address(rng.choice((1, 1, 0x20010db8 << 96 | rng.randrange(1 << 20), 0x20010db8 << 96 | rng.randrange(4) << 56 | 5,
                                          0xfe80 << 112 | rng.randrange(8))))
    if rng.random() < 0.35:
        return str(ip), ipaddress.ip_network(ip)
    n = ipaddress.ip_network((ip, rng.choice((3, 10, 32, 61, 63, 64, 65, 72, 112, 127, 128))), strict=False)
    return str(n), n


def rules(rng, n):
    out = []
    for _ in range(n):
        deny = rng.random() < 0.5
        op = rng.choice((None, None, "publish", "play"))
        if rng.random() < 0.2:
            text, nw = "all", None
        else:
            text, nw = net(rng, rng.choice((4, 4, 6)))
        out.append((deny, op, text, nw))
    return out


def conf_of(rs):
    return " ".join(f"{'deny' if d else 'allow'} {op + ' ' if op else ''}{t};" for d, op, t, _ in rs)


def allowed(rs, ip, op):
    ip = ipaddress.ip_address(ip)
    if ip.version == 6 and ip.ipv4_mapped:
        ip = ip.ipv4_mapped
    for deny, o, _, nw in rs:
        if o not in (None, op):
            continue
        if nw is None or (nw.version == ip.version and ip in nw):
            return not deny
    return True


def address(rng, rs, fam):
    """An address, often one at the border of some rule."""
    nets = [nw for _, _, _, nw in rs if nw is not None and nw.version == fam]
    if nets and rng.random() < 0.8:
        nw = rng.choice(nets)
        a = int(rng.choice((nw.network_address, nw.broadcast_address, nw.network_address + rng.randrange(min(nw.num_addresses, 1 << 60)))))
        a += rng.choice((0, 0, 0, 1, -1))
        if rng.random() < 0.2:
            a ^= 1 << rng.randrange(24 if fam == 4 else 128)
    else:
        a = (127 << 24) + rng.randrange(1, 1 << 24) if fam == 4 else rng.getrandbits(128)
    if fam == 4:
        ip = ipaddress.IPv4Address(a & 0xffffffff)
        if ip.packed[0] != 127 or ip.packed[3] in (0, 255):
            ip = ipaddress.ip_address("127.0.0.%d" % rng.randrange(1, 255))
        return str(ip)
    ip = ipaddress.IPv6Address(a & (1 << 128) - 1)
    return "2001:db8::7" if ip.ipv4_mapped else str(ip)


async def connect(port, way, ip, app):
    """A connection that reaches the server as ip."""
    host, prefix, local = "127.0.0.1", b"", None
    if way == "proxy":
        v = ipaddress.ip_address(ip).version
        prefix = f"PROXY TCP{v} {ip} {'127.0.0.1' if v == 4 else '::1'} 40000 1935\r\n".encode()
    elif way == "v6":
        host = "::1"
    else:
        local = ip
    c = Client(host, port[way], f"{way} {ip}")
    await c.open(local=local, prefix=prefix)
    await c.connect(app)
    await c.create_stream()
    return c


async def decision(c, op, name, body=None):
    """True if the client was let in: publishing started, or media came; False if it was turned away."""
    try:
        if op == "publish":
            r = await c.publish(name)
            if r == "NetStream.Publish.Start":
                return True
            if r == "error:NetStream.Publish.BadName" and name == "s":
                return False  # there is a publisher already: refused before the rules are looked at
            raise Violation("publish: an unexpected answer", f"{c.name}: {r}")
        n = await c.play(name)
        await c.wait(lambda m: m.type in (AUDIO, VIDEO), 15, n)
        return True
    except rtmp.Closed:
        if any(m.type in (AUDIO, VIDEO) for m in c.msgs):
            raise Violation("a refused client received media", c.name)
        return False


async def run(c, rng, napp, n):
    p4, p46, p6, pp = free_ports(4)
    top, srv = rules(rng, rng.choice((0, 1, 2))), rules(rng, rng.choice((0, 1, 2)))
    apps = {}
    for i in range(napp):
        own = rules(rng, rng.choice((0, 1, 2, 3, 5, 8)))
        apps[f"app{i}"] = own + srv + top
    conf = "worker_processes 1;\nevents { worker_connections 4096; }\nrtmp { " + conf_of(top) + "\n"
    conf += f"server {{ listen {p4}; listen [::]:{p46} ipv6only=off; listen [::1]:{p6}; listen {pp} proxy_protocol; {conf_of(srv)}\n"
    for k, rs in apps.items():
        conf += f"  application {k} {{ live on; {conf_of(rs[:len(rs) - len(srv) - len(top)])} }}\n"
    conf += "} }\n"
    inst = c.nginx(conf, wait_ports=[p4, p46, pp]).start()
    port = {"v4": p4, "mapped": p46, "v6": p6, "proxy": pp}
    sem = asyncio.Semaphore(4)

    def ways(rs):
        k = rng.random()
        if k < 0.15:
            return "v6", "::1"
        if k < 0.45:
            return "proxy", address(rng, rs, rng.choice((4, 6, 6)))
        return rng.choice(("v4", "v4", "mapped")), address(rng, rs, 4)

    def note(app, rs, way, ip, op, want):
        v = ipaddress.ip_address(ip).version
        live_rules = any(nw is None or nw.version == v for _, o, _, nw in rs if o in (None, op))
        c.case((conf_of(rs), ip, op), dict(rules=conf_of(rs), address=ip, way=way, op=op, allowed=want) if len(c.samples) < 6 else None,
               live_rules)
        c.saw(f"{op} {'accepted' if want else 'refused'}")
        c.saw(f"addresses by way {way}")

    async def one(app, rs):
        async with sem:
            def find(op, want):
                for _ in range(60):
                    w, ip = ways(rs)
                    if allowed(rs, ip, op) == want:
                        return w, ip
                return None, None

            w, ip = find("publish", True)
            pub = ref = None
            if w:
                k = await connect(port, w, ip, app)
                if not await decision(k, "publish", "s"):
                    raise Violation("publish: refused though the rules allow it", f"{ip} in {conf_of(rs)}")
                note(app, rs, w, ip, "publish", True)
                pub = live.Pub(k, media.Gen(rng, fps=25, gop=1, vsize=(50, 300)))
                pub.headers()
                pub.run(200)
                await live.sync(k)
                w, ip = find("play", True)
                if w:
                    ref = await connect(port, w, ip, app)
                    await ref.play("s")
                    await live.sync(ref)
                    hi = len(live.frames(pub.sent))
            for i in range(n):
                op = rng.choice(OPS)
                w, ip = ways(rs)
                want = allowed(rs, ip, op)
                k = await connect(port, w, ip, app)
                stop = asyncio.Event()
                try:
                    if op == "publish":
                        got = await decision(k, op, rng.choice(("s", f"d{i}", "s?pubpri=5", "s?pubpri=6")) if not want else f"o{i}")
                    else:
                        if pub is None:
                            # nothing is published here; only a refusal can be seen
                            await k.play("none")
                            try:
                                await live.sync(k)
                                got = True
                            except rtmp.Closed:
                                got = False
                        else:
                            async def feed():
                                while not stop.is_set():
                                    pub.run(pub.at + 80)
                                    await asyncio.sleep(0.02)

                            t = asyncio.create_task(feed())
                            try:
                                got = await decision(k, op, "s")
                            finally:
                                stop.set()
                                await t
                    if got != want:
                        raise Violation(f"{op}: {'accepted' if got else 'refused'} though the rules {'allow' if want else 'deny'} it",
                                        f"{way_text(w, ip)} in application {app}: {conf_of(rs)}")
                    note(app, rs, w, ip, op, want)
                finally:
                    await k.close()
                if pub:
                    pub.run(pub.at + 80)
            if pub:
                await live.sync(pub.c)
                if ref:
                    await live.until_last(ref, pub)
                    live.judge(f"{app}/s", live.frames(pub.sent), live.got(ref), hi, "key", key="bystander")
                    c.saw("subscribers unharmed by refused clients")
                    await ref.close()
                await pub.close()

    await asyncio.gather(*(one(a, r) for a, r in apps.items()))


def way_text(w, ip):
    return f"{ip} ({w})"


def scenarios(c):
    for i in range(c.pick(4, 30)):
        yield Scenario(f"rules#{i}", run, napp=c.pick(10, 14), n=c.pick(12, 16))
