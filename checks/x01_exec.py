"""External commands that are run for publishers, players and the server itself."""
import asyncio
import collections
import glob
import os
import signal
import subprocess
import time

from pv import http, live, media, rtmp
from pv.check import Inconclusive, Scenario, Violation
from pv.nginx import free_ports

ID = "X01"
TITLE = "External commands run for exactly the sessions and times they are configured for"
STATEMENT = """A command configured for the start or the end of publishing or playing runs exactly once for each session let in, with exactly the
configured arguments in which variables stand for what that session said, whatever characters it used, and with none of the server's sockets.
A command configured to run along with a publisher, with the players of a name, or with the server runs once while there is such a one and the
names it is limited to include it; it is started again as configured when it ends by itself, and gets the configured signal when it is no longer wanted."""
OVER = ("inputs", "schedules", "histories")
QUANT = "Every stream name and arguments, every order of publishers and players coming and going, and every moment at which a command ends."
WHY = "No existing test runs a command; what runs when depends on the history of sessions, commands that end, and processes that die."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_exec_module.c", "modules/nginx-rtmp-module/ngx_rtmp_eval.c"]
MECH = [("start and end of sessions", "ngx_rtmp_exec_publish, ngx_rtmp_exec_play, ngx_rtmp_exec_close_stream"), ("processes", "ngx_rtmp_exec_run"),
        ("ends of commands", "ngx_rtmp_exec_child_dead, ngx_rtmp_exec_kill"), ("variables", "ngx_rtmp_eval"), ("redirections", "ngx_rtmp_eval_streams")]
TECHNIQUE = "stress of sessions with a recording command, offline checker of what was run, online monitor of the living processes, under ASan"
NOTE = """Held on the sessions, command lines and histories generated; commands are run by an unprivileged user."""
RULE = ("A case is one command whose runs were compared with the sessions it belongs to; non-trivial when variables, filters, kills or respawning "
        "were involved; distinct by command, arguments and course.")

USER = "games"
EXPECTED = r"unknown process \d+ exited (on signal|with code 1)"


def tools(c):
    """The recording command, and a directory for each instance."""
    p = c.work + "/rec"
    if not os.path.exists(p):
        subprocess.run(["gcc", "-O1", "-o", p, os.path.dirname(__file__) + "/../harness/exec/rec.c"], check=True)
        os.chmod(c.work, 0o711)
    d = f"{c.work}/rec{c.nrun + 1}"
    os.makedirs(d)
    os.chmod(d, 0o777)
    return p, d


class Run:
    def __init__(self, path):
        f = os.path.basename(path).split(".")
        self.at, self.pid = int(f[1]) / 1e9, int(f[2])
        a = open(path, "rb").read().split(b"\0")
        self.socks, self.files = map(int, a[0].split())
        self.mode, self.tag, self.args = a[1], a[3].decode("latin-1"), a[4:]

    def alive(self):
        try:
            return open(f"/proc/{self.pid}/stat").read().rsplit(")", 1)[1].split()[0] not in "ZX"
        except OSError:
            return False

    def __repr__(self):
        return f"{self.tag} {self.args} pid {self.pid} at {self.at:.3f}"


class Runs:
    """What was run so far."""

    def __init__(self, d):
        self.d, self.have = d, {}

    def all(self):
        for p in glob.glob(self.d + "/r.*"):
            if p not in self.have:
                self.have[p] = Run(p)
        return sorted(self.have.values(), key=lambda r: r.at)

    def alive(self):
        return [r for r in self.all() if r.mode != b"run" and r.alive()]

    def signals(self, pid):
        return [int(p.rsplit(".", 1)[1]) for p in glob.glob(f"{self.d}/s.{pid}.*")]


async def until(pred, timeout=20):
    end = time.time() + timeout
    while True:
        v = pred()
        if v or time.time() > end:
            return v
        await asyncio.sleep(0.05)


def evaluate(s, v):
    """The argument s of a configuration with the variables v (bytes)."""
    out, i = b"", 0
    while i < len(s):
        ch = s[i]
        if ch == "\\":
            out += s[i + 1:i + 2].encode()
            i += 2
        elif ch == "$":
            if s[i + 1:i + 2] == "{":
                j = s.index("}", i)
                out += v.get(s[i + 2:j], b"")
                i = j + 1
            else:
                j = i + 1
                while j < len(s) and s[j].isascii() and s[j].isalpha():
                    j += 1
                out += v.get(s[i + 1:j], b"")
                i = j
        else:
            out += ch.encode()
            i += 1
    return out


def quote(s):
    """s as an argument in nginx.conf."""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


ODD = "-._~!$'()*,:@=&+ %#;\"<>[]{}|^`\xe9\x01\t\\/"


def hostile(rng, i):
    """A stream name with a serial number."""
    k = rng.randrange(8)
    if k == 0:
        return rng.choice((">", ">>", "1>", "2>>", "<", "0<", ">&2", "3>&1", "<&0", "1>&9999999999999", "99999999999999999999>")) + f"inj{i}"
    if k == 1:
        return f"$(touch x{i})"
    if k == 2:
        return f"${{app}}$name\\$args{i}"
    if k == 3:
        return f"{i}" + "y" * rng.choice((1, 11, 12, 13, 14, 15, 16, 17, 40, 200))
    return "".join(rng.choice(ODD + "abc019") for _ in range(rng.randrange(0, 14))) + f"_{i}"


VARS = ("name", "args", "app", "addr", "flashver", "swfurl", "tcurl", "pageurl", "starttime", "nothing")


def argument(rng):
    """An argument of a command, as it is configured."""
    if rng.random() < 0.25:
        return "$" + rng.choice(("name", "name", "args"))
    s = ""
    for _ in range(rng.randrange(1, 5)):
        k = rng.randrange(5)
        v = rng.choice(VARS[:-2] + VARS[:2] * 3 + VARS[-1:])
        s += ("$" + v + rng.choice(("", "-", "/", "\\$", "$")) if k < 2 else "${" + v + "}" if k == 2 else
              rng.choice(("x", "-i", "a b", "\\$name", "\\\\", "--", "=", "#", "'q'", "0", "name=z", "[", "]", "x" * 20)))
    if s[0] in "<>" or s.rstrip("$") == "":
        s = "x" + s
    return s.rstrip("$") or "x"


class Ev:
    """A session that should make commands run."""


async def events(c, rng, n, workers=1):
    """exec_publish, exec_publish_done, exec_play, exec_play_done."""
    rec, d = tools(c)
    port, hport, base = free_ports(3)
    cmds = collections.defaultdict(list)    # app -> (event, tag, args)
    text = ""
    serial = 0

    def command(app, ev):
        nonlocal serial
        serial += 1
        a = [argument(rng) for _ in range(rng.randrange(0, 6))]
        cmds[app].append((ev, f"c{serial}", a))
        return f"exec_{ev} {rec} run {d} c{serial} $app $name $args " + " ".join(map(quote, a)) + "; "

    kinds = ("publish", "publish_done", "play", "play_done")
    apps = ["one", "two", "three"]
    for app in apps:
        text += f"application {app} {{ live on; wait_key off; "
        for ev in kinds:
            for _ in range(rng.choice((0, 1, 1, 2)) if app != "one" else 1):
                text += command(app, ev)
        text += "} "
    outer = "".join(command("*", ev) for ev in rng.sample(kinds, 2))
    for app in apps:
        cmds[app] += cmds["*"]
    head = f"multi_listen {base} {port};" if workers > 1 else ""
    inst = c.nginx(f"worker_processes {workers};\nworker_rlimit_nofile 4096;\nevents {{ worker_connections 512; {head} multi_listen unix:{{dir}}/r.sock {port}; }}\n"
                   + ("stream_zone buckets=16 streams=256;\n" if workers > 1 else "") +
                   f"rtmp {{ server {{ listen {port}; {outer} rtmp_auto_pull {'on' if workers > 1 else 'off'}; rtmp_auto_pull_port unix:{{dir}}/r.sock; relay_reconnect 300ms; {text} }} }}\n"
                   f"http {{ access_log off; server {{ listen {hport}; location / {{ flv_live {port}; }} }} }}\n", wait_ports=[port, hport], user=USER)
    os.makedirs(inst.dir, exist_ok=True)
    inst.start()
    done = []

    async def one(i):
        s = Ev()
        s.app = rng.choice(apps)
        s.role = rng.choice(("publish", "play"))
        s.proto = "flv" if s.role == "play" and workers == 1 and rng.random() < 0.35 else "rtmp"
        s.name = hostile(rng, i) if s.proto == "rtmp" else f"n{i}"
        s.args = rng.choice(("", "a=1&b=$name", "x=>y", ">z", "%20;ls", "t=" + "q" * 30))
        hold, how = rng.choice((0, 0.05, 0.3)), rng.choice(("abort", "close", "deleteStream", "closeStream"))
        w = rng.randrange(workers)
        p = base + w if workers > 1 else port
        s.vars = dict(name=s.name.encode(), args=s.args.encode(), app=s.app.encode(), addr=b"127.0.0.1")
        s.t0 = time.time()
        if s.proto == "flv":
            s.vars["tcurl"] = f"http://127.0.0.1/{s.app}".encode()
            pl = http.FlvPlayer(hport, f"/{s.app}/{s.name}.flv" + ("?" + s.args if s.args else ""))
            await pl.open()
            await http.barrier(port, s.app)
            s.t1 = time.time()
            await asyncio.sleep(hold)
            await pl.close(abort=how == "abort")
        else:
            cl = await rtmp.Client("127.0.0.1", p, f"s{i}").open()
            s.vars.update({k: f"{k}{i} {rng.choice(ODD[:20])}".encode() for k in ("flashver", "swfurl", "pageurl")})
            s.vars["tcurl"] = f"rtmp://127.0.0.1:{p}/{s.app}".encode()
            await cl.connect(s.app, flashVer=s.vars["flashver"].decode(), swfUrl=s.vars["swfurl"].decode(), pageUrl=s.vars["pageurl"].decode())
            await cl.create_stream()
            full = s.name + ("?" + s.args if s.args else "")
            if s.role == "publish":
                m = await cl.publish(full)
                if m != "NetStream.Publish.Start":
                    raise Violation("session refused", f"{s.name!r}: {m}")
            else:
                await cl.play(full)
                await live.sync(cl)
            s.t1 = time.time()
            await asyncio.sleep(hold)
            if how.endswith("Stream"):
                cl.command(how, 0.0, None, *([float(cl.msid)] if how == "deleteStream" else []), msid=cl.msid)
                await cl.drain()
                await asyncio.sleep(0.05)
                await cl.close()
            else:
                await cl.close(abort=how == "abort")
        s.t2 = time.time()
        s.how = how
        done.append(s)
        c.saw(f"{s.proto} {s.role}ers")

    sem = asyncio.Semaphore(8)

    async def guarded(i):
        async with sem:
            await one(i)

    await asyncio.gather(*(guarded(i) for i in range(n)))
    runs = Runs(d)
    expected = sum(1 for s in done for ev, tag, a in cmds[s.app] if ev.startswith(s.role))
    await until(lambda: len(runs.all()) >= expected, 15)
    await asyncio.sleep(0.7)
    by = collections.defaultdict(list)
    for r in runs.all():
        if r.socks or r.files:
            c.fail("a command inherits descriptors of the server", f"{r}: {r.socks} sockets, {r.files} others")
        if len(r.args) < 3:
            raise Violation("a command lacks arguments", repr(r))
        by[r.tag, bytes(r.args[0]), bytes(r.args[1])].append(r)
    for s in done:
        for ev, tag, a in cmds[s.app]:
            if not ev.startswith(s.role):
                continue
            got = by.pop((tag, s.vars["app"], s.vars["name"]), [])
            what = f"{ev} of {s.proto} {s.app}/{s.name!r} args {s.args!r}, {s.how}"
            if len(got) != 1:
                near = [r for r in runs.all() if r.tag == tag and s.vars["name"] in b" ".join(r.args)]
                raise Violation("a command for a session did not run" if not got else "a command for a session ran again", f"{what}: {got} {near}")
            r = got[0]
            st = time.strftime("%Y%m%d%H%M%S", time.localtime(r.at)).encode()
            ok = False
            lo, hi = int(s.t0) - 1, int(s.t1) + 1
            for t in range(lo, hi + 1):
                v = dict(s.vars, starttime=time.strftime("%Y%m%d%H%M%S", time.localtime(t)).encode())
                want = [v["args"]] + [evaluate(x, v) for x in a]
                if want == r.args[2:]:
                    ok = True
                    break
            if not ok:
                raise Violation("a command ran with other arguments", f"{what}\nconfigured {a}\nwant {want}\ngot  {r.args[2:]} at {st}")
            if ev.endswith("_done") and r.at < s.t1 - 0.5:
                raise Violation("a command for the end of a session ran before it", what)
            c.case((ev, s.proto, tuple(a), s.how, len(s.name)), f"{ev} {s.name!r} -> {r.args}")
            c.saw("commands compared")
    if by:
        raise Violation("a command ran for no session", str(list(by.values())[:4]))
    if set(os.listdir(inst.dir)) - {"conf", "html", "logs", "san", "record", "nginx.pid", "r.sock"} - {x for x in os.listdir(inst.dir) if x.endswith("_temp") or x.startswith("r.sock")}:
        raise Violation("a stream name opened a file")


async def managed(c, rng, steps, workers=1):
    """Commands that run along with publishers and players."""
    rec, d = tools(c)
    port, base = free_ports(2)
    sig = rng.choice((None, "term", "INT", "usr1", "10", "kill"))
    signo = {None: 9, "term": 15, "INT": 2, "usr1": 10, "10": 10, "kill": 9}[sig]
    wait = rng.choice((300, 700))
    apps = {    # respawn, filters of push, pull, publish
        "a": (True, None, None, None), "b": (False, None, None, None),
        "f": (True, ["n0", "n2"], ["n1", "n2", "n0"], ["n3", "n1"]), "g": (True, ["n1"], ["zz", "n", "n10", "n3"], ["n"])}
    text = ""
    for app, (resp, fpush, fpull, fpub) in apps.items():
        def names(f):
            return "" if f is None else " ".join(f"name={x}" for x in f)
        text += (f"application {app} {{ live on; wait_key off; {'' if fpush is None else 'exec_options on;'} {'' if resp else 'respawn off;'} "
                 f"{rng.choice(('exec', 'exec_push'))} {rec} hold {d} P{app} {names(fpush)} $name $args; "
                 f"exec_push {rec} hold {d} Q{app} $name; "
                 f"exec_pull {rec} hold {d} L{app} {names(fpull)} $name $app; exec_publish {rec} run {d} E{app} $name {names(fpub)}; "
                 f"exec_play {rec} run {d} F{app} $name; }} ")
    head = f"multi_listen {base} {port};" if workers > 1 else ""
    inst = c.nginx(f"worker_processes {workers};\nworker_rlimit_nofile 4096;\nevents {{ worker_connections 512; {head} multi_listen unix:{{dir}}/r.sock {port}; }}\n"
                   + ("stream_zone buckets=16 streams=256;\n" if workers > 1 else "") +
                   f"rtmp {{ {'' if sig is None else f'exec_kill_signal {sig};'} respawn_timeout {wait}ms; server {{ listen {port}; "
                   f"rtmp_auto_pull {'on' if workers > 1 else 'off'}; rtmp_auto_pull_port unix:{{dir}}/r.sock; relay_reconnect 300ms; {text} }} }}\n",
                   wait_ports=[port], user=USER).start()
    inst.expected = EXPECTED
    await asyncio.sleep(0.3)
    runs = Runs(d)
    pubs, players, dead = {}, collections.defaultdict(list), set()
    events, log = collections.Counter(), []

    def listed(f, name):
        return f is None or name in f

    def want():
        out = collections.Counter()
        for (app, name) in pubs:
            if listed(apps[app][1], name):
                out[f"P{app}", name] += 1
            out[f"Q{app}", name] += 1
        for (app, name), l in players.items():
            # every worker looks after its own players
            if listed(apps[app][2], name):
                out[f"L{app}", name] += len({w for w, _ in l})
        for k in dead:
            out[k] -= 1
        return +out

    def have():
        return collections.Counter((r.tag, r.args[0].decode()) for r in runs.alive())

    async def settle(what):
        log.append(what)
        if not await until(lambda: have() == want(), 12):
            h, w = have(), want()
            more, less = h - w, w - h
            raise Violation("a command runs that nobody wants" if more else "a command that should run does not",
                            f"{what}: too many {dict(more)} missing {dict(less)}\n" + "\n".join(log[-30:]))
        got = collections.Counter((r.tag, r.args[0].decode()) for r in runs.all() if r.tag[0] in "EF")
        if got != events and not await until(lambda: collections.Counter((r.tag, r.args[0].decode()) for r in runs.all() if r.tag[0] in "EF") == events, 5):
            got = collections.Counter((r.tag, r.args[0].decode()) for r in runs.all() if r.tag[0] in "EF")
            raise Violation("a command for a session ran again or did not run", f"{what}: too often {dict(got - events)} missing {dict(events - got)}\n" + "\n".join(log[-30:]))
        c.saw("quiet points judged")
        c.case((what.split()[0], sig, tuple(sorted(want().items()))), what, bool(want()))

    def wport(w):
        return base + w if workers > 1 else port

    for step in range(steps):
        app, name = rng.choice(list(apps)), f"n{rng.randrange(4)}"
        k = app, name
        op = rng.choice(("pub", "pub", "play", "play", "leave", "leave", "kill", "kill", "quick"))
        w = rng.randrange(workers)
        if op == "pub" and k not in pubs:
            cl = await rtmp.publisher(wport(w), app, name + "?a=1")
            pubs[k] = cl
            if listed(apps[app][3], name):
                events[f"E{app}", name] += 1
            dead -= {(t + app, name) for t in "PQ"}
            await settle(f"publish {app}/{name} in {w}")
        elif op == "play" or (op == "pub" and k in pubs):
            if not players[k]:
                dead.discard(("L" + app, name))
            elif workers > 1 and w not in {x for x, _ in players[k]} and ("L" + app, name) in dead:
                continue
            cl = await rtmp.player(wport(w), app, name)
            await live.sync(cl)
            players[k].append((w, cl))
            events[f"F{app}", name] += 1
            await settle(f"play {app}/{name} in {w}")
        elif op == "leave":
            cands = [(k, None) for k in pubs] + [(k, i) for k, l in players.items() for i in range(len(l))]
            if not cands:
                continue
            k, i = rng.choice(cands)
            cl = pubs.pop(k) if i is None else players[k].pop(i)[1]
            before = [r for r in runs.alive() if r.args[0].decode() == k[1] and r.tag[1:] == k[0] and r.tag[0] in ("PQ" if i is None else "L")]
            if i is None:
                dead -= {(t + k[0], k[1]) for t in "PQ"}
            elif not players[k]:
                dead.discard(("L" + k[0], k[1]))
            how = rng.choice(("abort", "close", "deleteStream", "closeStream"))
            if how.endswith("Stream"):
                cl.command(how, 0.0, None, *([float(cl.msid)] if how == "deleteStream" else []), msid=cl.msid)
                await cl.drain()
                await asyncio.sleep(0.02)
            await cl.close(abort=how == "abort")
            await settle(f"{how} of {'publisher' if i is None else 'player'} {k[0]}/{k[1]}")
            for r in before:
                if not r.alive() and signo != 9 and runs.signals(r.pid) != [signo]:
                    raise Violation("a command did not get the configured signal", f"{r}: {runs.signals(r.pid)} instead of {signo}")
                if not r.alive():
                    c.saw(f"commands ended with {sig or 'default'}")
        elif op == "kill":
            l = [r for r in runs.alive() if r.tag[0] in "PQL"]
            if not l or workers > 1 and not apps[app][0]:
                continue
            r = rng.choice(l)
            resp = apps[r.tag[1]][0]
            if not resp and workers > 1:
                continue
            n0, t0 = len(runs.all()), time.time()
            os.kill(r.pid, rng.choice((signal.SIGKILL, signal.SIGTERM)))
            await until(lambda: not r.alive(), 5)
            if resp:
                again = lambda: [x for x in runs.all() if (x.tag, x.args) == (r.tag, r.args) and x.at > t0]
                if not await until(again, 8):
                    raise Violation("a command that ended is not started again", repr(r))
                if again()[0].at - t0 < wait / 1000 - 0.05:
                    raise Violation("a command that ended is started again too early", f"{r}: after {again()[0].at - t0:.3f} s, not {wait} ms")
                c.saw("commands started again")
            else:
                dead.add((r.tag, r.args[0].decode()))
                await asyncio.sleep(wait / 1000 + 0.2)
            await settle(f"kill {r.tag} {r.args[0].decode()}")
        elif op == "quick" and k not in pubs and workers == 1:
            # gone before its commands have said anything, or while one waits to be started again
            cl = await rtmp.publisher(wport(w), app, name)
            if listed(apps[app][3], name):
                events[f"E{app}", name] += 1
            if rng.random() < 0.5:
                await asyncio.sleep(0.1)
                for r in [r for r in runs.alive() if r.tag in ("P" + app, "Q" + app) and r.args[0] == name.encode()]:
                    os.kill(r.pid, signal.SIGKILL)
                await asyncio.sleep(rng.choice((0, 0.05, wait / 2000)))
            await cl.close(abort=rng.random() < 0.5)
            await asyncio.sleep(wait / 1000 + 0.1)
            await settle(f"quick {app}/{name}")
    for r in runs.all():
        if r.socks or r.files:
            raise Violation("a command inherits descriptors of the server", f"{r}: {r.socks} sockets, {r.files} others")
        if r.tag[0] == "L" and r.args[1:] != [r.tag[1].encode()] or r.tag[0] == "P" and len(r.args) != 2:
            raise Violation("a command ran with other arguments", repr(r))
    alive = runs.alive()
    inst.stop()
    if not await until(lambda: not [r for r in alive if r.alive()], 5):
        raise Violation("a command outlives the server", str([r for r in alive if r.alive()]))


async def ends(c, rng, n):
    """A command that ends, and its last player who leaves, at the same moment."""
    rec, d = tools(c)
    port, = free_ports(1)
    inst = c.nginx(f"worker_processes 1;\nworker_rlimit_nofile 4096;\nevents {{ worker_connections 512; }}\n"
                   f"rtmp {{ respawn_timeout 200ms; server {{ listen {port}; application a {{ live on; exec_push {rec} hold {d} P $name; exec_pull {rec} hold {d} L $name; }} }} }}\n",
                   wait_ports=[port], user=USER).start()
    inst.expected = EXPECTED
    await asyncio.sleep(0.2)
    runs = Runs(d)
    wk, = inst.workers()
    for i in range(n):
        role = rng.choice(("P", "L", "L"))
        name = f"n{i}"
        cl = await (rtmp.publisher if role == "P" else rtmp.player)(port, "a", name)
        await live.sync(cl)
        mine = lambda: [r for r in runs.alive() if (r.tag, r.args[0].decode()) == (role, name)]
        if not await until(mine, 5):
            raise Violation("a command that should run does not", f"{role} {name}")
        r, = mine()
        how = rng.choice(("deleteStream", "closeStream", "close", "abort"))
        os.kill(wk, signal.SIGSTOP)
        try:
            first = rng.random() < 0.5
            if first:
                os.kill(r.pid, signal.SIGKILL)
                await asyncio.sleep(0.02)
            if how.endswith("Stream"):
                cl.command(how, 0.0, None, *([float(cl.msid)] if how == "deleteStream" else []), msid=cl.msid)
                await cl.drain()
            else:
                await cl.close(abort=how == "abort")
            await asyncio.sleep(0.02)
            if not first:
                os.kill(r.pid, signal.SIGKILL)
                await asyncio.sleep(0.02)
        finally:
            os.kill(wk, signal.SIGCONT)
        await asyncio.sleep(0.4)
        if how.endswith("Stream"):
            await cl.close()
        if not await until(lambda: not mine(), 5):
            raise Violation("a command runs that nobody wants", f"{mine()} after {how}")
        if inst.workers() != [wk]:
            return      # the monitors say why
        c.case((role, how, first), f"{role} {how}")
        c.saw("commands that ended with their session")


async def static(c, rng, n):
    """Commands that run along with the server."""
    rec, d = tools(c)
    port, = free_ports(1)
    wait = 400
    inst = c.nginx(f"worker_processes 3;\nworker_rlimit_nofile 4096;\nevents {{ worker_connections 512; }}\n"
                   f"rtmp {{ exec_static {rec} hold {d} S0 $name; respawn_timeout {wait}ms; server {{ listen {port}; exec_static {rec} hold {d} S1 a>b '' {{dir}}; "
                   f"application a {{ live on; exec_static {rec} 100 {d} S2; exec_static {rec} hold {d} S3 >>{d}/out; exec_static {d}/missing x; }} }} }}\n",
                   wait_ports=[port], user=USER).start()
    inst.expected = EXPECTED
    runs = Runs(d)
    want = {"S0": [b"$name"], "S1": [b"a>b", b"", inst.dir.encode()], "S2": [], "S3": []}

    def hold():
        return collections.Counter(r.tag for r in runs.alive() if r.mode == b"hold")

    async def settle(what):
        if not await until(lambda: hold() == dict(S0=1, S1=1, S3=1), 15):
            raise Violation("commands of the server do not run once each", f"{what}: {dict(hold())}")
        c.saw("quiet points judged")

    await settle("start")
    for i in range(n):
        what = rng.choice(("kill", "kill", "worker", "look"))
        t0 = time.time()
        if what == "kill":
            r = rng.choice([r for r in runs.alive() if r.mode == b"hold"])
            os.kill(r.pid, signal.SIGKILL)
            await until(lambda: [x for x in runs.all() if x.tag == r.tag and x.at > t0], 5)
            x = [x for x in runs.all() if x.tag == r.tag and x.at > t0]
            if not x or x[0].at - t0 < wait / 1000 - 0.05:
                raise Violation("a command that ended is started again too early" if x else "a command that ended is not started again", repr(r))
        elif what == "worker":
            inst.killed = True
            os.kill(rng.choice(inst.workers()), signal.SIGKILL)
            await asyncio.sleep(0.5)
        await settle(what)
        await asyncio.sleep(0.3)
        await settle(what)
        c.case(("static", what), what)
    l = [r.at for r in runs.all() if r.tag == "S2"]
    if not inst.killed:
        gaps = [b - a for a, b in zip(l, l[1:])]
        if not gaps or min(gaps) < (wait + 100) / 1000 - 0.05 or max(gaps) > 3:
            raise Violation("a command that ends by itself is not started again in time", str(gaps))
    for r in runs.all():
        if r.args != want[r.tag] or r.socks or r.files:
            raise Violation("a command ran with other arguments", repr(r))
    out = open(d + "/out", "rb").read()
    if out != b"out\n" * sum(r.tag == "S3" for r in runs.all()):
        raise Violation("the output of a command is not where it was sent", repr(out))
    alive = runs.alive()
    inst.stop()
    if not await until(lambda: not [r for r in alive if r.alive()], 5):
        raise Violation("a command outlives the server", str([r for r in alive if r.alive()]))


async def redirect(c, rng):
    """Redirections in the configuration."""
    rec, d = tools(c)
    port, = free_ports(1)
    open(d + "/in", "w").write("x")
    inst = c.nginx(f"worker_processes 1;\nworker_rlimit_nofile 4096;\nevents {{ worker_connections 512; }}\n"
                   f"rtmp {{ server {{ listen {port}; application a {{ live on; "
                   f"exec_publish {rec} run {d} A >{d}/new.$name $name; exec_publish {rec} run {d} B >>{d}/app.${{name}} x$name >&2; "
                   f"exec_publish {rec} run {d} C 1>{d}/one.$name <{d}/in y; exec_publish_done {rec} run {d} D 2>{d}/err.$name 1>&2 z; "
                   f"exec_publish_done {rec} run {d} G >{d}/no/such/dir $name; }} }} }}\n",
                   wait_ports=[port], user=USER).start()
    runs = Runs(d)
    n = collections.Counter()
    for i in range(c.pick(12, 40)):
        name = rng.choice(("s", "t t", "u;v", "w&1", ">x", "<y", "2>z"))
        cl = await rtmp.publisher(port, "a", name)
        await cl.close()
        n[name] += 1
        if not await until(lambda: len(runs.all()) == 5 * sum(n.values()), 8):
            raise Violation("a command for a session did not run", f"{name}: {len(runs.all())} of {5 * sum(n.values())}")
        await asyncio.sleep(0.05)
        # >&2 sends B's output to where its errors go
        want = {f"new.{name}": b"out\n", f"app.{name}": b"", f"one.{name}": b"out\n", f"err.{name}": b"out\n"}
        for f, t in want.items():
            try:
                got = open(f"{d}/{f}", "rb").read()
            except OSError as e:
                got = str(e).encode()
            if got != t and not (f[:3] == "err" and got.endswith(t)):      # debugging builds write more
                raise Violation("the output of a command is not where it was sent", f"{f}: {got!r} instead of {t!r}")
        for r in runs.all()[-5:]:
            if r.args != {"A": [name.encode()], "B": [b"x" + name.encode()], "C": [b"y"], "D": [b"z"], "G": [name.encode()]}[r.tag]:
                raise Violation("a command ran with other arguments", repr(r))
        c.case(("redirect", name), name)
    files = {f for f in os.listdir(d) if not f.startswith("r.")} - {"in"}
    odd = files - {f"{k}.{x}" for k in ("new", "app", "one", "err") for x in n}
    if odd or set(os.listdir(inst.dir)) - {"conf", "html", "logs", "san", "record", "nginx.pid", "multi", "r.sock"} - {x for x in os.listdir(inst.dir) if x.endswith("_temp")}:
        raise Violation("a stream name opened a file", f"{odd} {os.listdir(inst.dir)}")


def scenarios(c):
    for i in range(c.pick(3, 12)):
        yield Scenario(f"events#{i}", events, n=c.pick(40, 120))
    for i in range(c.pick(1, 4)):
        yield Scenario(f"workers#{i}", events, n=c.pick(40, 120), workers=2)
    for i in range(c.pick(4, 16)):
        yield Scenario(f"managed#{i}", managed, steps=c.pick(45, 120))
    for i in range(c.pick(1, 4)):
        yield Scenario(f"mworkers#{i}", managed, steps=c.pick(30, 80), workers=2)
    for i in range(c.pick(2, 6)):
        yield Scenario(f"ends#{i}", ends, n=c.pick(20, 60))
    for i in range(c.pick(1, 4)):
        yield Scenario(f"static#{i}", static, n=c.pick(8, 20))
    yield Scenario("redirect", redirect)
