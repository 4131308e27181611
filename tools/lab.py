"""Runs the built modules under nginx in a scratch directory, for demonstrations."""
import asyncio
import os
import random
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

OBJS = "/repo/_build/nginx/objs"


def ports(n):
    """n distinct free TCP ports, below the ephemeral range."""
    out = []
    while len(out) < n:
        p = random.SystemRandom().randrange(12000, 30000)
        if p in out:
            continue
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", p))
            except OSError:
                continue
        out.append(p)
    return out


class Lab:
    def __init__(self, conf, ts=False, echo=False, **kw):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        os.chmod(self.dir, 0o755)
        name = open(f"{OBJS}/pingos.name").read().strip()
        load = f"load_module {OBJS}/{name}.so;\n"
        if ts:
            load += f"load_module {OBJS}/ngx_http_ts_module.so;\n"
        if echo:
            load = "load_module /usr/lib/nginx/modules/ngx_http_echo_module.so;\n" + load
        os.makedirs(self.dir + "/logs")
        for d in kw.pop("dirs", ()):
            os.makedirs(f"{self.dir}/{d}")
        text = load + "user root;\npid %s/nginx.pid;\nerror_log %s/logs/error.log info;\n" % (self.dir, self.dir)
        text += conf.replace("{dir}", self.dir)
        open(self.dir + "/nginx.conf", "w").write(text)
        self.wait = kw.pop("wait", ())
        self.p = None

    def start(self):
        self.p = subprocess.Popen(["/usr/sbin/nginx", "-e", self.dir + "/logs/error.log", "-p", self.dir, "-c",
                                   self.dir + "/nginx.conf", "-g", "daemon off;"], start_new_session=True)
        end = time.time() + 15
        for p in self.wait:
            while True:
                try:
                    socket.create_connection(("127.0.0.1", p), 1).close()
                    break
                except OSError:
                    if time.time() > end or self.p.poll() is not None:
                        print(self.log()[-2000:])
                        raise SystemExit("nginx did not start")
                    time.sleep(0.05)
        return self

    def log(self):
        try:
            return open(self.dir + "/logs/error.log", errors="replace").read()
        except OSError:
            return ""

    def crashed(self):
        return "exited on signal" in self.log() or self.p.poll() is not None

    def stop(self):
        if self.p and self.p.poll() is None:
            self.p.send_signal(signal.SIGTERM)
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                pass
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def run(lab, fn):
    """Exit status 0 when fn returns nothing, 1 with what it returns."""
    try:
        lab.start()
        bad = asyncio.run(asyncio.wait_for(fn(lab), 200))
        if not bad and lab.crashed():
            bad = "a worker crashed"
    finally:
        lab.stop()
    print("BROKEN: " + str(bad)[:500] if bad else "ok")
    sys.exit(1 if bad else 0)
