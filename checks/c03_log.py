"""The access log: one true line per session and log."""
import asyncio
import random
import re

from pv import http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO

ID = "C03"
TITLE = "Every client session leaves exactly one true line in each access log"
STATEMENT = """Every RTMP and HTTP live session of an application leaves exactly one line in each of the application's access logs, when it ends and however it ends,
and none where logging is off; the line tells what the client asked for, the texts it gave, which media it sent, the bytes it sent and
received and how long it stayed. A log with an interval gets further such lines for every publisher and player at every multiple of the interval while
the session lasts, whose bit rates add up to the bytes. Lines of different sessions never mix."""
OVER = ("inputs", "schedules", "configurations")
QUANT = "All printable texts a client can give, sets of logs, formats and intervals, numbers of concurrent sessions, and ways and moments of ending."
WHY = "No existing test looks at the log; its counters and texts depend on everything a session did."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_log_module.c", "modules/nginx-rtmp-module/ngx_rtmp_variables.c", "modules/nginx-rtmp-module/ngx_rtmp_handler.c"]
MECH = [("one line per session", "ngx_rtmp_log_disconnect"), ("periodic lines", "ngx_rtmp_log_trunc_timer"), ("formats", "ngx_rtmp_log_compile_format"),
        ("names", "ngx_rtmp_log_set_names")]
TECHNIQUE = "the logs compared with what every client's socket saw, under ASan and UBSan"
NOTE = "Held on the generated sessions."
RULE = "A case is one session whose lines in all the logs were compared with what its client did; distinct by kind, way of ending and texts."

VARS = ("connection", "remote_addr", "app", "flashver", "swfurl", "tcurl", "pageurl", "command", "name", "stream", "args", "bytes_sent", "bytes_received",
        "session_time", "be_video", "be_audio", "parg_key", "parg_k2", "domain", "msec", "session_readable_time")
FORMAT = "".join(f"{v}=<${v}>" if i % 2 else f"{v}=<${{{v}}}>" for i, v in enumerate(VARS))
CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp {
    log_format all '%(format)s';
    log_format parts 'a $command ' '$name';
    log_format rate '$command $name $bitrate $msec $bytes_sent $bytes_received';
    log_format plain '$command $name - $msec $bytes_sent $bytes_received';
    access_log {dir}/main.log all;
    server { listen %(port)d; out_queue 4096; ping 1m;
        application one { live on; }
        application two { live on; access_log {dir}/two.log all; access_log {dir}/parts.log parts; access_log {dir}/comb.log; }
        application off { live on; access_log off; }
        application tick { live on; access_log {dir}/tick.log rate trunc=700ms; access_log {dir}/tick2.log all; access_log {dir}/tick3.log plain trunc=1s; }
    }
}
http { access_log off; server { listen %(http)d; location / { flv_live %(port)d; } } }
"""
LOGS = dict(one=("main",), two=("two", "parts", "comb"), off=(), tick=("tick2",))


def fail(key, text):
    raise Violation("access log: " + key, text)


def lines(inst, name):
    try:
        data = open(f"{inst.dir}/{name}.log", "rb").read()
    except FileNotFoundError:
        return []
    if data and not data.endswith(b"\n"):
        fail("an incomplete line", f"{name}: {data[-200:]!r}")
    return data.decode("latin-1").split("\n")[:-1]


PAT = re.compile("".join(rf"{v}=<(?P<{v}>.*?)>" for v in VARS))


class S:
    """One session and what its lines have to say."""


TEXT = "abcXYZ0189 -_.~!$'()*+,;:@/%[]{}|\"^`\\"


def text(rng, n):
    return "".join(rng.choice(TEXT) for _ in range(n))


async def session(c, rng, port, hport, i, ms):
    s = S()
    s.id = f"id{i}x"
    s.app = rng.choice(("one", "one", "two", "two", "off", "tick"))
    s.kind = rng.choice(("publish", "publish", "play", "play", "play", "connect", "flv"))
    s.how = rng.choice(("close", "close", "abort", "delete", "refused" if s.kind == "publish" else "close"))
    loop = asyncio.get_running_loop()
    s.begin = loop.time()
    name = "s" + s.id + text(rng, rng.choice((0, 0, 3, 60))).replace("/", "").replace("\\", "").replace(" ", "").replace("..", ".")
    s.name = re.sub(r"[?#]", "", name)
    s.args = rng.choice(("", "key=" + text(rng, 9).replace("&", ""), "a=1&key=v%d&k2=&z" % i, "x=" + "y" * 150))
    s.stream = s.name + ("?" + s.args if s.args else "")
    s.video = s.audio = False
    s.texts = {}
    if s.kind == "flv":
        s.name = re.sub(r"[^A-Za-z0-9_.~-]", "", s.name)
        s.args = re.sub(r"[^A-Za-z0-9_.~&=-]", "", s.args)
        p = await http.FlvPlayer(hport, f"/{s.app}/{s.name}.flv" + ("?" + s.args if s.args else "")).open()
        await http.barrier(port, s.app)
        await asyncio.sleep(rng.random() * ms / 1000)
        await p.close()
        s.tx = s.rx = None
        s.end = loop.time()
        return s
    k = await rtmp.Client("127.0.0.1", port, s.id).open()
    s.k = k
    for v, f in (("flashver", "flashVer"), ("swfurl", "swfUrl"), ("pageurl", "pageUrl")):
        if rng.random() < 0.7:
            s.texts[v] = s.id + text(rng, rng.choice((0, 5, 100, 200)))
    s.texts["tcurl"] = f"rtmp://host{i}.example:{port}/{s.app}"
    d = dict(app=s.app, tcUrl=s.texts["tcurl"])
    for v, f in (("flashver", "flashVer"), ("swfurl", "swfUrl"), ("pageurl", "pageUrl")):
        if v in s.texts:
            d[f] = s.texts[v]
    k.command("connect", 1.0, d)
    await k.wait(lambda m: k.is_cmd(m, ("_result",)), 20)
    if s.kind != "connect":
        await k.create_stream()
    if s.kind == "publish":
        g = media.Gen(rng, audio=rng.random() < 0.8, video=rng.random() < 0.8, base=i * 100000)
        if not g.audio and not g.video:
            g.audio = True
        k.result = await k.publish(s.stream)
        if s.how == "refused":
            k2 = await rtmp.Client("127.0.0.1", port, s.id).open()
            # the same name again, refused: its own line
            await k2.connect(s.app, f"rtmp://host{i}r.example/{s.app}")
            await k2.create_stream()
            try:
                await k2.publish(s.stream, timeout=3)
            except (rtmp.RtmpError, asyncio.TimeoutError):
                pass
            await k2.close()
        p = live.Pub(k, g)
        p.headers()
        p.run(rng.choice((0, 200, ms)))
        s.video, s.audio = g.video, g.audio
        await live.sync(k)
    elif s.kind == "play":
        await k.play(s.stream)
        await live.sync(k)
    s.joined = loop.time()
    await asyncio.sleep(rng.random() * ms / 1000 * (4 if s.app == "tick" else 1))
    if s.how == "delete" and s.kind != "connect":
        k.command("deleteStream", 5.0, None, float(k.msid))
    await live.sync(k) if s.kind != "connect" else await k.create_stream()
    await k.drain()
    # at rest: everything that was sent to it has been read
    n = -1
    while n != k.demux.nbytes:
        n = k.demux.nbytes
        await asyncio.sleep(0.1)
    s.tx, s.rx = k.tx, k.demux.nbytes
    await k.close(abort=s.how == "abort")
    s.rx2 = k.demux.nbytes
    s.end = loop.time()
    return s


def arg(s, k):
    for a in s.args.split("&"):
        if a.startswith(k + "="):
            return a[len(k) + 1:]
    return "parg_" + k


def readable(t):
    d, h, m, x = t // 86400, t // 3600 % 24, t // 60 % 60, t % 60
    return (f"{d}d " if d else "") + (f"{h}h " if d or h else "") + (f"{m}m " if d or h or m else "") + f"{x}s"


COMMAND = dict(publish="PUBLISH", play="PLAY", flv="PLAY", connect="NONE")


def judge(c, inst, ss):
    got = {n: lines(inst, n) for n in ("main", "two", "parts", "comb", "tick", "tick2", "tick3")}
    numbers = set()
    parsed = {}
    for n in ("main", "two", "tick2"):
        parsed[n] = []
        for x in got[n]:
            m = PAT.fullmatch(x)
            if not m:
                fail("a malformed line", f"{n}: {x!r}")
            m = m.groupdict()
            app = "one" if n == "main" else n[:3] if n == "two" else "tick"
            if m["app"] != app:
                fail("a line in another application's log", f"{n}: {x!r}")
            if m["connection"] in numbers:
                fail("two lines for one connection", f"{n}: {x!r}")
            numbers.add(m["connection"])
            parsed[n].append(m)
            c.saw("lines")
    for s in ss:
        tag = f"host{s.i}.example"
        name = "" if s.kind == "connect" else s.name
        if s.app != "off":
            log = LOGS[s.app][0]
            x = [m for m in parsed[log] if (m["name"] == s.name and m["tcurl"].startswith("http://") if s.kind == "flv" else m["domain"] == tag)]
            if len(x) != 1:
                fail("not one line", f"{s.app}/{s.name} {s.kind} {s.how}: {len(x)} lines in {log}: {x[:3]}")
            m = x[0]
            want = dict(command=COMMAND[s.kind], name=name, args=s.args if name else "", stream=f"default/{s.app}/{name}" if name else "", remote_addr="127.0.0.1",
                        be_video=str(int(s.video)), be_audio=str(int(s.audio)))
            if s.kind != "flv":
                want.update({v: s.texts.get(v, "") for v in ("flashver", "swfurl", "pageurl", "tcurl")})
                want.update(bytes_received=str(s.tx), bytes_sent=str(s.rx))
                if name:
                    want.update(parg_key=arg(s, "key"), parg_k2=arg(s, "k2"))
            bad = {k: (m[k], v) for k, v in want.items() if m[k] != v}
            if bad:
                fail("wrong " + sorted(bad)[0], f"{s.app}/{s.name} {s.kind} {s.how}: logged, true: {bad}")
            t = int(m["session_time"])
            if abs(t - (s.end - s.begin)) > 1.7 + (s.end - s.begin) * 0.1 or m["session_readable_time"] != readable(t):
                fail("wrong session time", f"{s.app}/{s.name}: {t} {m['session_readable_time']!r}, lasted {s.end - s.begin}")
            if s.how == "refused":
                x = [m for m in parsed[log] if m["domain"] == f"host{s.i}r.example"]
                if len(x) != 1 or x[0]["command"] not in ("NONE", "PUBLISH") or x[0]["be_video"] != "0":
                    fail("not one line", f"a refused publisher of {s.app}/{s.name}: {x}")
        for n in got:
            k = sum(1 for x in got[n] if s.id in x and (n not in LOGS["tick"]))
            if k and s.app != ("tick" if n.startswith("tick") else "one" if n == "main" else "two"):
                fail("a line in another application's log", f"{n}: {s.app}/{s.name}")
        if s.app == "two":
            x = [y for y in got["parts"] if y == f"a {COMMAND[s.kind]} {name}"] if name else []
            y = [y for y in got["comb"] if f'"two" "{name}" "{s.args}" - ' in y] if name else []
            if name and any(not 1 <= len(z) <= 1 + (s.how == "refused") for z in (x, y)):
                fail("not one line", f"two/{s.name} {s.kind} {s.how}: {x} {y}")
            if name and s.kind != "flv":
                z = [y for y in y if re.match(r"127\.0\.0\.1 \[\d\d/\w{3}/\d{4}:\d\d:\d\d:\d\d [-+]\d{4}\] " + COMMAND[s.kind] + " ", y)
                     and f'" - {s.tx} {s.rx} "{s.texts.get("pageurl", "")}" "{s.texts.get("flashver", "")}" (' in y]
                if len(z) != 1:
                    fail("wrong combined line", f"{y}: {s.tx} {s.rx}")
        if s.app == "tick" and s.kind in ("publish", "play") and s.how != "refused":
            for n, every in (("tick", 700), ("tick3", 1000)):
                pat = re.compile(COMMAND[s.kind] + " " + re.escape(name) + r" (\d+|-) (\d+)\.(\d{3}) (\d+) (\d+)")
                x = [m for m in map(pat.fullmatch, got[n]) if m]
                ticks = int(s.end * 1000 // every) - int(s.joined * 1000 // every)
                if not ticks <= len(x) <= ticks + 1 + (s.joined - s.begin) * 1000 / every + 1 and not (
                        abs(len(x) - ticks - 1) <= 1 + (s.joined - s.begin + 0.4) * 1000 / every):
                    fail("number of periodic lines", f"{n}: {s.name}: {len(x)} lines, {s.end - s.joined} s")
                if n == "tick":
                    total = sum(int(m[1]) for m in x)
                    b = int(x[-1][5 if s.kind == "publish" else 4])
                    if total != 8 * b or b != (s.tx if s.kind == "publish" else s.rx):
                        fail("bit rates", f"{s.name}: {total} bits in {len(x)} lines, {b} bytes, true {s.tx if s.kind == 'publish' else s.rx}")
                at = [int(m[2]) * 1000 + int(m[3]) for m in x]
                gaps = [b - a for a, b in zip(at, at[1:])][:-1]
                if any(g < every - 350 or g > every + 1500 for g in gaps):
                    fail("interval of periodic lines", f"{n}: {s.name}: {gaps}")
                c.saw("periodic lines", len(x))
        elif s.app == "tick" and s.kind == "connect" and any(f" {s.name} " in x for x in got["tick"] if name):
            fail("periodic lines of a session that does nothing", s.name)
        c.case((s.app, s.kind, s.how, len(s.name), s.args[:3]), dict(app=s.app, kind=s.kind, end=s.how, name=s.name))


async def sessions(c, rng, n, ms):
    port, hport = free_ports(2)
    inst = c.nginx(CONF % dict(port=port, http=hport, format=FORMAT), wait_ports=[port, hport]).start()
    ss = await asyncio.gather(*(session(c, random.Random(rng.random()), port, hport, i, ms) for i in range(n)))
    for i, s in enumerate(ss):
        s.i = i
    for i in range(40):
        await asyncio.sleep(0.1)
        try:
            judge(c, inst, ss)
            break
        except Violation as e:
            if i == 39 or "not one line" not in str(e.args) and "number of" not in str(e.args):
                raise


def scenarios(c):
    for r in range(c.pick(2, 8)):
        yield Scenario(f"sessions#{r}", sessions, n=c.pick(60, 150), ms=c.pick(1000, 2500))
