"""A request that is broadcast is answered by every worker process, and multi_listen ports belong to one worker each."""
import asyncio
import os
import signal
import socket

from pv import http
from pv.check import Inconclusive, Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import RtmpError

ID = "I04"
TITLE = "A broadcast HTTP request is answered by every worker process exactly once"
STATEMENT = """A request to a location that broadcasts is answered with status 200 and the answers of all worker processes, each exactly once, in the
order of the workers and complete, followed by the suffix configured, whichever worker receives it and whatever other requests are under way; the first answer has its prefix replaced as
configured, and workers that answer with another status add nothing. Each port and socket of multi_listen belongs to one worker process
as long as that lives. When a worker is killed, or the configuration is reloaded, requests reach all of the workers there are then."""
OVER = ("schedules", "configurations", "histories", "faults")
QUANT = "All numbers of workers and requests at the same time, all answers and statuses of workers, nested locations, and all workers that die or are replaced."
WHY = "No existing test sends a request to a server with more than one worker; who answers depends on process slots that change with restarts."
FILES = ["modules/nginx-multiport-module/ngx_http_broadcast_module.c", "modules/nginx-multiport-module/ngx_event_multiport_module.c",
         "modules/nginx-multiport-module/ngx_multiport_misc.c", "modules/nginx-multiport-module/ngx_process_slot_module.c"]
MECH = [("one subrequest per worker", "ngx_http_broadcast_body_filter"), ("prefix and suffix", "ngx_http_broadcast_body_filter"),
        ("ports of workers", "ngx_event_multiport_process_init"), ("slots of workers", "ngx_process_slot_process_init, ngx_multiport_get_slot")]
TECHNIQUE = "concurrent requests to every worker, with workers killed and the configuration reloaded, and an oracle that composes the answer due from the workers' pids, under ASan"
NOTE = "Held on the histories generated; prefixes and their replacements of equal length only, and answers without a body length limit are up to 300 kB."
RULE = ("A case is one broadcast request whose answer was judged; non-trivial with more than one worker answering; distinct by configuration, worker asked, form of the request and who answered.")

SOON = 25


def config(nw, port, base):
    return (f"worker_processes {nw};\nevents {{ worker_connections 512; multi_listen {base} {port}; multi_listen unix:{{dir}}/h.sock {port}; }}\n"
            f"http {{ access_log off; proxy_temp_path {{dir}}/pt; map \"$server_addr $arg_no\" $no {{ default 0; \"~sock\\.(\\d+) .*\\1\" 1; }}\n"
            f"server {{ listen {port};\n"
            f" location /pid {{ return 200 $pid; }}\n"
            f" location /who {{ if ($no) {{ return 503 absent; }} return 200 \",$pid $request_method $args\\n\"; }}\n"
            f" location /file/ {{ if ($no) {{ return 404; }} alias {{dir}}/html/; }}\n"
            f" location /plain {{ broadcast unix:{{dir}}/h.sock /p; return 200 x; }}\n"
            f" location /port {{ broadcast 127.0.0.1:{base} /q; return 200 x; }}\n"
            f" location /pre {{ broadcast unix:{{dir}}/h.sock /p; broadcast_rewrite_prefix , [; broadcast_suffix ]; return 200 x; }}\n"
            f" location /suf {{ broadcast unix:{{dir}}/h.sock /p; broadcast_suffix --end--; return 403; }}\n"
            f" location /nest {{ broadcast unix:{{dir}}/h.sock /p; broadcast_rewrite_prefix , [; broadcast_suffix ]; location /nest/in {{ return 200 x; }} }}\n"
            f" location /big {{ broadcast unix:{{dir}}/h.sock /f; broadcast_suffix .; return 200; }}\n"
            f" location /static/ {{ broadcast unix:{{dir}}/h.sock /f; broadcast_suffix .; alias {{dir}}/html/; }}\n"
            f" location /p/ {{ rewrite ^/p/(.*) /who break; proxy_pass http://$1:; }}\n"
            f" location /q/ {{ rewrite ^/q/(.*) /who break; proxy_pass http://$1; }}\n"
            f" location /f/ {{ rewrite ^/f/(.*) /file/big break; proxy_pass http://$1:; }}\n"
            f"}} }}\n")


FORMS = {"/plain": ("", ""), "/port": ("", ""), "/pre": ("[", "]"), "/suf": ("", "--end--"), "/nest/in": ("[", "]"), "/big": ("", "."), "/static/big": ("", "."), "/static/none": ("", ".")}


async def pid_at(port):
    s, _, b = await http.get(port, "/pid")
    if s != 200:
        raise Violation("broadcast: a worker does not answer", f"port {port}: {s}")
    return int(b)


async def settled(inst, base, nw, slots, old=()):
    """The pid of the worker behind each port, once there are nw living ones and none of old."""
    last = None
    for _ in range(SOON * 10):
        try:
            pids = [await pid_at(base + n) for n in slots]
            if len(set(pids)) == nw and not set(pids) & set(old) and set(pids) == set(inst.workers()):
                return pids
            last = pids
        except (OSError, RtmpError, ValueError, asyncio.TimeoutError) as e:
            last = e
        await asyncio.sleep(0.1)
    raise Violation("broadcast: the ports do not reach each worker", f"ports of slots {list(slots)}: {last}, workers {inst.workers()}, before {list(old)}")


async def ask(c, rng, port, base, slot, slots, pids, big, what):
    form = rng.choice(list(FORMS))
    pre, suf = FORMS[form]
    args = f"q={rng.randrange(10**9)}"
    no = [n for n in slots if rng.random() < 0.25] if rng.random() < 0.5 else []
    if no and all(n < 10 for n in slots):
        args += "&no=" + "".join(str(n) for n in no)
    else:
        no = []
    meth = rng.choice(("GET", "GET", "GET", "HEAD"))
    h = http.Http(base + slot if slot is not None else port, f"{form}?{args}", method=meth, version=rng.choice(("1.1", "1.1", "1.0")))
    await h.open()
    try:
        await h.finish(10)
    finally:
        await h.close()
    st, body, who = h.status, bytes(h.body), [p for n, p in zip(slots, pids) if n not in no]
    if meth == "HEAD":
        exp = b""
    elif "/big" in form or "static" in form:
        exp = big * len(who) + b"."
    else:
        if form == "/port":
            # the TCP ports do not tell the worker's number: nobody refuses
            who = pids
        exp = "".join(f",{p} {meth} {args}\n" for p in who)
        exp = ((pre + exp[len(pre):] if exp else "") + suf).encode()
    if st != 200:
        raise Violation("broadcast: wrong status", f"{what} {meth} {form}?{args} at {slot}: {st} {body[:200]!r}")
    if body != exp:
        got = [p for p in pids if f",{p} ".encode() in body or f"[{p} ".encode() in body]
        k = ("a worker did not answer" if len(got) < len(who) and form in ("/plain", "/port", "/pre", "/suf", "/nest/in") else "wrong answer")
        raise Violation(f"broadcast: {k}", f"{what} {meth} {form}?{args} at {slot}, workers {pids}, absent {no}: {len(body)} bytes {body[:400]!r}, due {len(exp)} {exp[:400]!r}")
    c.case((len(pids), form, slot, meth, tuple(no), what), dict(form=form, asked=slot, workers=len(pids), answered=len(who), when=what), len(who) > 1)
    c.saw("broadcast requests judged")
    c.saw("answers of workers judged", len(who))


async def burst(c, rng, port, base, slots, pids, big, n, what):
    async def one():
        await ask(c, rng, port, base, rng.choice([None, *slots]), slots, pids, big, what)
    todo = n
    while todo > 0:
        k = min(todo, rng.choice((1, 1, 3, 10, 25)))
        todo -= k
        await asyncio.gather(*(one() for _ in range(k)))


def block(i):
    """A block of ports of its own for a scenario, outside of what free_ports gives: slots of workers go up to three times their number."""
    for k in range(5):
        base = 30000 + k * 500 + i * 60
        for p in range(base, base + 50):
            with socket.socket() as s:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    s.bind(("127.0.0.1", p))
                except OSError:
                    break
        else:
            return base
    raise Inconclusive("no block of free ports")


async def walk(c, rng, i, nw, rounds, n):
    port, = free_ports(1)
    base = block(i)
    inst = c.nginx(config(nw, port, base), wait_ports=[port], user="root")
    os.makedirs(inst.dir + "/html", exist_ok=True)
    big = (b"%07d," % rng.randrange(10**7)) * rng.choice((1, 500, 5000, 37500))
    with open(inst.dir + "/html/big", "wb") as f:
        f.write(big)
    inst.start()
    slots = list(range(nw))
    pids = await settled(inst, base, nw, slots)
    await burst(c, rng, port, base, slots, pids, big, n, "start")
    for r in range(rounds):
        if rng.random() < 0.75:
            # a worker dies: its requests are lost, the others' are not
            inst.killed = True
            k = rng.randrange(nw)
            os.kill(pids[k], signal.SIGKILL)
            old = pids
            pids = await settled(inst, base, nw, slots, [pids[k]])
            if any(a != b for i, (a, b) in enumerate(zip(old, pids)) if i != k):
                raise Violation("broadcast: a port changed its worker", f"killed {k}: {old} then {pids}")
            c.saw("workers killed")
            await burst(c, rng, port, base, slots, pids, big, n, "killed")
        else:
            inst.reload()
            old, seen = pids, None
            for _ in range(SOON * 10):
                w = inst.workers()
                if len(w) == nw and not set(w) & set(old):
                    break
                await asyncio.sleep(0.1)
            else:
                raise Inconclusive("the workers were not replaced")
            # process slots are taken in turn: the ports are found by looking
            found = {}
            for _ in range(SOON * 10):
                for s in range(3 * nw + 4):
                    try:
                        found[s] = await pid_at(base + s)
                    except (OSError, RtmpError, asyncio.TimeoutError):
                        found.pop(s, None)
                if len(found) == nw and set(found.values()) == set(inst.workers()):
                    break
                await asyncio.sleep(0.1)
            else:
                raise Violation("broadcast: the ports do not reach each worker", f"after reload: {found}, workers {inst.workers()}")
            # the order of workers is that of their numbers, and slots are given in that order
            slots = sorted(found)
            pids = [found[s] for s in slots]
            c.saw("reloads")
            await burst(c, rng, port, base, slots, pids, big, n, "reloaded")


async def churn(c, rng, i, nw):
    """Requests go on while workers die: answers may be missing then, but are never mixed up."""
    port, = free_ports(1)
    base = block(i)
    inst = c.nginx(config(nw, port, base), wait_ports=[port]).start()
    inst.killed = True
    slots = list(range(nw))
    pids = await settled(inst, base, nw, slots)
    ever = set(pids)
    stop = False
    log = []

    async def client(i):
        k = 0
        while not stop:
            k += 1
            args = f"q={i}x{k}"
            try:
                st, _, b = await http.get(port, f"/pre?{args}")
            except (OSError, RtmpError, asyncio.TimeoutError):
                c.saw("requests lost with their worker")
                continue
            log.append((args, st, b))
            await asyncio.sleep(0.005)

    tasks = [asyncio.create_task(client(i)) for i in range(8)]
    for _ in range(c.pick(4, 20)):
        await asyncio.sleep(0.1)
        k = rng.randrange(nw)
        os.kill(pids[k], signal.SIGKILL)
        pids = await settled(inst, base, nw, slots, [pids[k]])
        ever |= set(pids)
        c.saw("workers killed")
    stop = True
    await asyncio.gather(*tasks)
    for args, st, b in log:
        t = b.decode()
        lines = t[:-1].split("\n") if t.endswith("]") else None
        if st != 200 or lines is None or lines[-1] != "" and t != "]":
            raise Violation("broadcast: not a complete answer", f"{args}: {st} {b!r}")
        who = []
        for i, l in enumerate(x for x in lines if x):
            w = l.split(" ")
            if l[0] != ("[" if i == 0 else ",") or w[1:] != ["GET", args] or not w[0][1:].isdigit():
                raise Violation("broadcast: answers mixed up", f"{args}: {b!r}")
            who.append(int(w[0][1:]))
        if len(set(who)) != len(who) or not set(who) <= ever | set(inst.workers()):
            raise Violation("broadcast: a worker answered twice", f"{args}: {b!r}, workers {sorted(ever)}")
        c.case(("churn", nw, len(who)), None, len(who) > 1)
        c.saw("answers of workers judged", len(who))
    await burst(c, rng, port, base, slots, pids, b"", 0, "churn")


def scenarios(c):
    for i, nw in enumerate((1, 2, 3, 5, 8)):
        yield Scenario(f"walk#{nw}", walk, i=i, nw=nw, rounds=c.pick(3, 12), n=c.pick(60, 300))
    yield Scenario("churn", churn, i=6, nw=3)
