"""Callbacks that let publishers and players in, and report what becomes of them."""
import asyncio

from pv import amf, hook, http, live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, Client

ID = "A03"
TITLE = "Callbacks decide who publishes and plays, and report every session once"
STATEMENT = """Where a callback for publishing or playing is configured, nothing of a publisher is distributed and nothing is delivered to a
player before the callback server has answered with success; any other answer, an invalid one, or none within the timeout ends the session
with an error, except that sessions are let in without an answer where that is configured. Each session causes one start callback that
says exactly who asks for what, updates at the configured interval while it lasts, and one done callback when it ends, however it ends."""
OVER = ("inputs", "schedules", "histories")
QUANT = "Every stream name and argument, every answer or failure of the callback server at any moment, every end of a session."
WHY = "No existing test has a callback server; races of its answers with ends of sessions, timeouts and failures are endless."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_notify_module.c", "modules/nginx-rtmp-module/ngx_netcall.c",
         "modules/nginx-client-module/ngx_http_client.c", "modules/nginx-client-module/ngx_client.c"]
MECH = [("start", "ngx_rtmp_notify_pnotify_start"), ("answer", "ngx_rtmp_notify_pnotify_start_handle"),
        ("update", "ngx_rtmp_notify_common_update_create"), ("done", "ngx_rtmp_notify_common_done"), ("timeouts", "ngx_netcall_create")]
TECHNIQUE = "stress of concurrent sessions against a faulty callback server, online checker of admission and offline checker of the calls"
NOTE = """Held on the answers, failures and histories generated."""
RULE = ("A case is one session whose admission, ending and callbacks were compared with what the callback server answered; non-trivial "
        "when refused, unanswered or ended early; distinct by protocol, role, answer and course.")

TIMEOUT, UPDATE = 0.8, 0.35
GOOD = (200, 201, 204, 206, 299)
BAD = (301, 302, 400, 403, 404, 500, 502, 503)


def behaviours(rng):
    d = rng.choice((0, 0, 0.05, 0.3))
    r = rng.random()
    hs = [("X-A", "b" * rng.choice((1, 10, 500))) for _ in range(rng.randrange(3))]
    if r < 0.40:
        st = rng.choice(GOOD)
        body = b"" if st == 204 else bytes(rng.choice((0, 2, 10, 3000)))
        b = hook.response(st, hs, body, rng.choice(("1.0", "1.1")), st != 204)
        if rng.random() < 0.3 and len(b) > 2:
            k = rng.randrange(1, len(b))
            return f"{st} split", True, [d, b[:k], 0.05, b[k:]]
        if rng.random() < 0.2:
            return f"{st} chunked", True, [d, hook.response(st, hs + [("Transfer-Encoding", "chunked")], length=False)
                                           + b"5\r\nhello\r\n0\r\n\r\n"]
        if rng.random() < 0.3:
            return f"{st} closed", True, [d, hook.response(st, hs + [("Connection", "close")], body), "close"]
        return f"{st}", True, [d, b]
    if r < 0.65:
        st = rng.choice(BAD)
        b = hook.response(st, hs + ([("Location", "http://127.0.0.1:1/x")] if st < 400 else []), bytes(rng.choice((0, 10))))
        return f"{st}", False, [d, b]
    k = rng.choice(("hang", "hang", "close", "reset", "part", "late", "garbage"))
    ok = hook.response(200)
    return {"hang": ("hang", None, ["hang"]), "close": ("close", None, [d, "close"]), "reset": ("reset", None, [d, "reset"]),
            "part": ("part", None, [d, ok[:rng.randrange(1, 15)], "hang"]),
            "late": ("late", None, [TIMEOUT + 0.5, ok]),
            "garbage": ("garbage", False, [d, bytes(rng.choice(b"\x00\xffHTP/1. \r\nx") for _ in range(rng.randrange(1, 60))), "close"])}[k]


ALPHA = "abcdefghijklmnopqrstuvwxyz0123456789"


def name_of(rng, i):
    base = "".join(rng.choice(ALPHA) for _ in range(rng.randrange(1, 12))) + f"_{i}_"
    if rng.random() < 0.5:
        base += "".join(rng.choice("-._~!$'()*,:@=&+ %#;\"<>[]{}|^`\xe9\x01\t\r\n") for _ in range(rng.randrange(1, 8)))
    if rng.random() < 0.05:
        base += "x" * rng.choice((100, 200))
    return base


class Case:
    pass


async def run(c, rng, n, workers=1):
    port, hport, cport, dead = free_ports(4)
    plan = {}

    def policy(call):
        k = plan.get((call.call, call.name))
        if k is None or call.act != "start":
            return [hook.response(200)] if rng.random() < 0.8 else rng.choice(([hook.response(500)], ["close"], ["hang"], [b"junk\r\n\r\n", "close"]))
        return k.steps

    h = await hook.Hook(policy).start(cport)
    cb = f"http://127.0.0.1:{cport}"
    opt = f"stage=start,update,done timeout={int(TIMEOUT * 1000)}ms update={int(UPDATE * 1000)}ms groupid=g1 args=me=$app&pa=$pargs&sc=$scheme"
    conf = (f"worker_processes {workers};\nevents {{ worker_connections 1024; }}\n"
            f"rtmp {{ server {{ listen {port}; serverid sid; "
            f"application pub {{ live on; wait_key off; on_publish {cb}/p?x=1 {opt}; }} "
            f"application play {{ live on; wait_key off; on_play {cb}/q {opt}; }} "
            f"application gop {{ live on; cache_time 2s; on_publish {cb}/p {opt}; on_play {cb}/q {opt}; on_stream {cb}/s stage=start,done; }} "
            f"application laxp {{ live on; wait_key off; ignore_invalid_notify on; on_publish {cb}/p {opt}; }} "
            f"application laxq {{ live on; wait_key off; ignore_invalid_notify on; on_play {cb}/q {opt}; }} "
            f"application deadp {{ live on; on_publish http://127.0.0.1:{dead}/p {opt}; }} "
            f"application deadq {{ live on; on_play http://127.0.0.1:{dead}/p {opt}; }} "
            f"}} }}\n"
            f"http {{ access_log off; server {{ listen {hport}; location / {{ flv_live {port}; }} }} }}\n")
    inst = c.nginx(conf, wait_ports=[port, hport]).start()
    loop = asyncio.get_running_loop()
    # streams to play
    feeds = {}
    stop = asyncio.Event()
    for app in ("play", "laxq", "deadq"):
        p = await live.Pub.start(port, app, "feed", gen=media.Gen(rng, vsize=(20, 300), gop=5))
        p.headers()
        feeds[app] = p

    async def feeding():
        while not stop.is_set():
            for p in feeds.values():
                p.run(p.at + 40)
            await asyncio.sleep(0.04)

    feeder = asyncio.create_task(feeding())
    cases = []

    async def one(i):
        k = Case()
        k.role = rng.choice(("publish", "play"))
        k.what, k.ok, k.steps = behaviours(rng)
        k.app = rng.choice({"publish": ("pub", "pub", "laxp", "deadp"), "play": ("play", "play", "laxq", "deadq")}[k.role])
        k.lax = k.app.startswith("lax")
        k.proto = "flv" if k.role == "play" and rng.random() < 0.4 else "rtmp"
        k.name = name_of(rng, i) if k.proto == "rtmp" else f"n{i}"
        # players play a name of their own, published for them where no callback is asked
        k.args = rng.choice(("", "", "a=1&b=2", "t=x%20y"))
        k.leave = rng.choice((None, None, None, rng.uniform(0, TIMEOUT)))
        k.how = rng.choice(("abort", "close", "deleteStream", "closeStream"))
        k.hold = rng.choice((0.1, 0.5, 1.5))
        k.dead = k.app.startswith("dead")
        if k.dead:
            k.what, k.ok = "refused", None
        k.expect = k.ok if k.ok is not None else k.lax
        k.either = k.what == "garbage" and k.lax
        if not k.dead:
            plan[k.role, k.name] = k
        cases.append(k)
        await asyncio.sleep(rng.uniform(0, 1.5))
        k.watch = None
        if k.role == "publish":
            # a player that waits for the stream
            k.watch = await rtmp.player(port, k.app, k.name)
            await live.sync(k.watch)
        else:
            k.pub = await live.Pub.start(port, k.app, k.name, gen=media.Gen(rng, vsize=(20, 300), gop=5))
            k.pub.headers()
            k.pub.run(200)
            await live.sync(k.pub.c)
        k.t0 = loop.time()
        who = f"{k.proto} {k.role} {k.app}/{k.name!r}: {k.what}"
        if k.proto == "flv":
            s = http.FlvPlayer(hport, f"/{k.app}/{k.name}" + (f"?{k.args}" if k.args else ""))
            await s.open()
        else:
            s = Client("127.0.0.1", port, k.name)
            await s.open()
            await s.connect(k.app)
            await s.create_stream()
            full = k.name + (f"?{k.args}" if k.args else "")
            if k.role == "publish":
                s.command("publish", 0.0, None, full, "live", msid=1)
                k.pub = live.Pub(s, media.Gen(rng, vsize=(20, 300), gop=5))
                k.pub.headers()
            else:
                s.command("play", 0.0, None, full, -2000.0, msid=1)
        k.s = s

        def admitted():
            if k.proto == "flv":
                return s.status == 200 and bool(s.msgs)
            for m in s.msgs:
                if Client.is_cmd(m, "onStatus"):
                    code = amf.decs(m.data)[3].get("code")
                    if code in ("NetStream.Publish.Start", "NetStream.Play.Start"):
                        k.admit_t = m.t
                        return True
            return False

        k.admit_t = None
        gone = None
        while True:
            k.pub.run(k.pub.at + 40)
            await asyncio.sleep(0.04)
            now = loop.time()
            ended = s.ended if k.proto == "flv" else s.closed
            if k.leave is not None and now - k.t0 >= k.leave:
                gone = "left"
                break
            if ended:
                gone = "ended"
                break
            if admitted():
                if k.admit_t is None:
                    k.admit_t = now
                if now - k.admit_t >= k.hold:
                    gone = "left"
                    break
            if now - k.t0 > 15:
                break
        k.gone = gone
        k.end = loop.time()
        k.admitted = admitted()
        if gone is None:
            raise Violation(f"{k.role}: neither admitted nor refused", who)
        if gone == "ended" and k.expect and not k.either:
            raise Violation(f"{k.role}: a session the callback admits was ended", f"{who} after {k.end - k.t0:.2f}s {s.error!r}")
        if k.admitted and not k.expect and not k.either:
            raise Violation(f"{k.role}: admitted without success of the callback", who)
        if k.proto == "flv" and not k.admitted and gone == "ended":
            k.status = s.status
        if k.proto == "rtmp" and k.how in ("deleteStream", "closeStream") and gone == "left":
            try:
                s.command(k.how, 0.0, None, *([1.0] if k.how == "deleteStream" else []), msid=0 if k.how == "deleteStream" else 1)
                await s.drain()
                await asyncio.sleep(rng.choice((0, 0.3)))
            except (ConnectionError, rtmp.RtmpError):
                pass
        await s.close(abort=k.how == "abort")
        await asyncio.sleep(0.1)
        got = [m for m in (k.watch.msgs if k.watch else s.msgs) if m.type in (AUDIO, VIDEO) and m.data]
        k.media = len(got)
        k.first = got[0].t if got else None
        if got and not k.expect and not k.either:
            raise Violation(f"{k.role}: media passed without success of the callback", f"{who} {len(got)}")
        if k.watch:
            await k.watch.close()
        else:
            await k.pub.close()

    rs = await asyncio.gather(*(one(i) for i in range(n)), return_exceptions=True)
    for r in sorted((r for r in rs if r is not None), key=lambda r: not isinstance(r, Violation)):
        raise r
    await asyncio.sleep(TIMEOUT + 0.6)
    stop.set()
    await feeder
    for b in h.bad:
        raise Violation("call: not a request", repr(b))
    known = {(k.role, k.name) for k in cases}
    for x in h.calls:
        if x.call in ("play", "publish") and (x.call, x.name) not in known and x.name != "feed" and x.args.get("app") != "gop":
            raise Violation("call: one nobody asked for", repr(x))
    for k in cases:
        judge(c, k, [x for x in h.calls if x.call == k.role and x.name == k.name])
    for p in feeds.values():
        await p.close()
    await h.stop()


def judge(c, k, calls):
    who = f"{k.proto} {k.role} {k.app}/{k.name!r} {k.args!r}: {k.what}, {k.gone} ({k.how}) after {k.end - k.t0:.2f}s, admitted {k.admitted}"
    who += "\n" + "\n".join(f"{x.t - k.t0:+.2f} {x}" for x in calls)
    acts = [x.act for x in calls]
    sure = k.admitted or k.gone == "ended" or k.end - k.t0 > 0.3 and k.how != "abort"
    if not k.dead:
        if acts.count("start") > 1 or sure and "start" not in acts:
            raise Violation("call: not one start for a session", who)
        if acts.count("done") != acts.count("start"):
            raise Violation("call: not one done for a session", who)
        if acts and (acts[0] != "start" or acts[-1] != "done" or set(acts[1:-1]) - {"update"}):
            raise Violation("call: out of order", who)
        if "update" in acts and not k.admitted and not k.expect and not k.either:
            raise Violation("call: updates of a session that was refused", who)
        for x in calls:
            want = dict(domain="127.0.0.1", app=k.app, name=k.name, groupid="g1", me=k.app, call=k.role,
                        clientid=calls[0].args.get("clientid"), sc="http" if k.proto == "flv" else "rtmp")
            for f, v in want.items():
                if x.args.get(f) != v:
                    raise Violation("call: wrong about the session", f"{f}={x.args.get(f)!r}, is {v!r}\n{who}")
            if f"&pa={k.args}&sc=" not in x.query:
                raise Violation("call: wrong about the session", f"arguments are {k.args!r}: {x.query}\n{who}")
            if k.app in ("pub", "play") and x.path != ("/p" if k.role == "publish" else "/q") or x.method != "GET":
                raise Violation("call: wrong address", who)
        if calls:
            start, done = calls[0], calls[-1]
            if done.t < k.end - 0.3 and k.gone == "left":
                raise Violation("call: done before the end", who)
            if done.t > k.end + 2:
                raise Violation("call: done late", who)
            if start.answered and k.expect and k.ok:
                if k.admit_t is not None and k.admit_t < start.answered:
                    raise Violation(f"{k.role}: admitted before the callback answered", who)
                if k.first is not None and k.first < start.answered:
                    raise Violation(f"{k.role}: media passed before the callback answered", f"media {k.first - k.t0:+.3f}, answer {start.answered - k.t0:+.3f}\n{who}")
            if k.admitted and k.ok and k.first is None and k.end - k.admit_t > 0.4:
                raise Violation(f"{k.role}: nothing passed after the callback admitted it", who)
            if k.what in ("hang", "part", "late") and k.gone == "ended" and not TIMEOUT - 0.1 < k.end - start.t < TIMEOUT + 3:
                raise Violation(f"{k.role}: not refused at the timeout", who)
            if k.admitted:
                ts = [start.answered if k.ok else start.t] + [x.t for x in calls[1:-1]] + [done.t]
                for i, (a, b) in enumerate(zip(ts, ts[1:])):
                    if b - a < UPDATE - 0.05 and i < len(ts) - 2:
                        raise Violation("call: updates too often", who)
                    if b - a > UPDATE + TIMEOUT + 1.5:
                        raise Violation("call: an update is missing", who)
                c.saw("updates", acts.count("update"))
    c.case((k.proto, k.role, k.app, k.what, k.gone, k.how), dict(proto=k.proto, role=k.role, answer=k.what, ended=k.gone,
           admitted=k.admitted, calls=acts), not (k.admitted and k.what == "200"))
    c.saw("calls", len(acts))
    c.saw("admitted" if k.admitted else "refused" if k.gone == "ended" else "left while waiting")


def scenarios(c):
    for i in range(c.pick(3, 30)):
        yield Scenario(f"mix#{i}", run, n=40)
