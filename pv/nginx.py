"""Runs apt's nginx with the instrumented modules, and watches what the sanitizers and the log say."""
import glob
import os
import re
import resource
import shutil
import signal
import socket
import subprocess
import time

NGINX = "/usr/sbin/nginx"
PRELOAD = "/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so"
UBSAN = "/usr/lib/gcc/x86_64-linux-gnu/13/libubsan.so"

# log lines that mean that the server lost a process, or noticed damage to itself
BAD = re.compile(r"exited (on signal|with (fatal )?code [1-9])|destroy chainbuf twice|PV-MONITOR|"
                 r"worker process \d+ exited on signal|ngx_slab_(alloc|free)\(\)|shared memory zone .* was locked|"
                 r"could not respawn|socketpair\(\) failed|open socket #\d+ left in connection")


def free_ports(n):
    """n distinct free TCP ports, below the ephemeral range."""
    import random
    out = []
    while len(out) < n:
        p = random.SystemRandom().randrange(12000, 30000)
        if p in out:
            continue
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", p))
            except OSError:
                continue
        out.append(p)
    return out


class StartError(Exception):
    pass


class Nginx:
    """conf: the text of nginx.conf after the load_module lines, {dir} stands for the run directory."""

    def __init__(self, build, dir, conf, ts=False, harness=False, echo=False, wait_ports=(), debug="info",
                 env=None, asan_options="", fsize=None, user="root"):
        self.build, self.dir, self.conf = build, dir, conf
        self.wait_ports = wait_ports
        self.env = env or {}
        self.asan_options = asan_options
        self.killed = False      # the check itself kills workers
        self.expected = None     # log lines that the check itself provokes
        self.fsize = fsize       # writes beyond this size of a file fail, like on a full disk
        self.user = user         # of the workers
        self.mods = []
        if echo:
            self.mods.append("/usr/lib/nginx/modules/ngx_http_echo_module.so")
        self.mods.append(build.pingos)
        if ts:
            self.mods.append(build.ts)
        if harness:
            self.mods.append(build.harness)
        self.debug = debug
        self.proc = None
        self.log = dir + "/logs/error.log"

    def start(self):
        d = self.dir
        os.makedirs(d + "/logs", exist_ok=True)
        os.makedirs(d + "/conf", exist_ok=True)
        os.makedirs(d + "/html", exist_ok=True)
        os.makedirs(d + "/san", exist_ok=True)
        if self.user != "root":
            os.chmod(os.path.dirname(d), 0o711)
            os.chmod(d, 0o777)
            os.chmod(d + "/san", 0o777)
        shutil.copy("/etc/nginx/mime.types", d + "/conf/mime.types")
        self.write_conf(self.conf)
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
        if self.build.flavour == "asan":
            env["LD_PRELOAD"] = f"{PRELOAD} {self.build.dir}/options.so {UBSAN}"
            env["ASAN_OPTIONS"] = (f"log_path={d}/san/asan:detect_leaks=0:abort_on_error=0:exitcode=77:"
                                   f"handle_abort=1:disable_coredump=1:allocator_may_return_null=1:"
                                   f"quarantine_size_mb=64:malloc_context_size=20:"
                                   f"detect_odr_violation=0:" + self.asan_options)
            env["UBSAN_OPTIONS"] = f"log_path={d}/san/ubsan:print_stacktrace=1:halt_on_error=0"
        env.update(self.env)
        self.out = open(d + "/logs/stdout.log", "ab")
        self.proc = subprocess.Popen([NGINX, "-e", self.log, "-p", d + "/", "-c", d + "/conf/nginx.conf"],
                                     stdout=self.out, stderr=self.out, stdin=subprocess.DEVNULL,
                                     start_new_session=True, cwd=d, env=env, restore_signals=self.fsize is None,
                                     preexec_fn=self.limit if self.fsize else None)
        end = time.time() + 60
        for p in self.wait_ports:
            while True:
                if self.proc.poll() is not None or time.time() > end:
                    self.stop()
                    raise StartError(f"nginx did not start: {self.error_tail()}")
                try:
                    socket.create_connection(("127.0.0.1", p), 2).close()
                    break
                except OSError:
                    time.sleep(0.05)
        return self

    def limit(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.fsize, self.fsize))     # SIGXFSZ is ignored in Python

    def write_conf(self, conf):
        head = "".join(f"load_module {m};\n" for m in self.mods)
        head += f"daemon off;\nuser {self.user};\npid {self.dir}/nginx.pid;\nerror_log {self.log} {self.debug};\n"
        if self.env:
            head += "".join(f"env {k};\n" for k in self.env)
        with open(self.dir + "/conf/nginx.conf", "w") as f:
            f.write(head + conf.replace("{dir}", self.dir))

    def reload(self):
        os.kill(self.proc.pid, signal.SIGHUP)

    def workers(self):
        """pids of the children that are workers."""
        out = []
        try:
            kids = open(f"/proc/{self.proc.pid}/task/{self.proc.pid}/children").read().split()
        except OSError:
            return out
        for k in kids:
            try:
                if b"worker process" in open(f"/proc/{k}/cmdline", "rb").read():
                    out.append(int(k))
            except OSError:
                pass
        return out

    def stop(self, sig=signal.SIGTERM):
        if self.proc is None:
            return
        if self.proc.poll() is None:
            self.proc.send_signal(sig)
            try:
                self.proc.wait(15)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.rc = self.proc.wait()
        self.out.close()

    def __enter__(self):
        return self.start()

    def __exit__(self, *a):
        self.stop()

    def error_tail(self, n=15):
        out = ""
        for p in (self.log, self.dir + "/logs/stdout.log"):
            try:
                out += "".join(open(p, errors="replace").readlines()[-n:])
            except OSError:
                pass
        return out

    def reports(self):
        """What the monitors of this instance saw: list of (kind, key, text)."""
        out = []
        for p in sorted(glob.glob(self.dir + "/san/*")):
            text = open(p, errors="replace").read()
            if os.path.basename(p).startswith("asan") or "AddressSanitizer" in text:
                out += asan_reports(text)
            out += ubsan_reports(text)
        for p in (self.log, self.dir + "/logs/stdout.log"):
            try:
                text = open(p, errors="replace").read()
                if "AddressSanitizer" in text:
                    out += asan_reports(text)
                if "runtime error:" in text:
                    out += ubsan_reports(text)
                for line in text.splitlines():
                    if BAD.search(line) and "exited with code 0" not in line:
                        if "code 77" in line or self.killed and "on signal 9" in line \
                                or self.expected and re.search(self.expected, line):
                            continue    # ASan's own report says more
                        out.append(("log", norm_log(line), line.strip()))
            except OSError:
                pass
        return out


def norm_log(line):
    line = re.sub(r"^\S+ \S+ \[(\w+)\] \d+#\d+: (\*\d+ )?", r"\1: ", line.strip())
    return re.sub(r"\d+", "N", line)[:160]


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(\S+)(?: (\S+))?")


def frames(text, n=3):
    """The innermost functions of the modules in a stack trace."""
    out = []
    for line in text.splitlines():
        m = FRAME.search(line)
        if not m:
            if out and not line.strip():
                break
            continue
        f = m[1]
        if f.startswith(("__interceptor", "__asan", "__wrap", "mem", "abort", "raise", "(", "__sanitizer", "pthread", "gsignal")):
            continue
        out.append(f)
    return out[:n]


def asan_reports(text):
    out = []
    for m in re.finditer(r"==\d+==ERROR: AddressSanitizer:? ([^\s:]+)", text):
        part = text[m.start():m.start() + 8000]
        e = part.find("ABORTING")
        part = part[:e] if e > 0 else part
        fr = frames(part)
        out.append(("asan", m[1] + " in " + "<".join(fr[:2]), part[:6000]))
    return out


def ubsan_reports(text):
    out = {}
    cur = None

    def done():
        if cur:
            k = f"{cur[1]} in {cur[3] or cur[0]}"
            out.setdefault(k, ("ubsan", k, cur[2]))

    for line in text.splitlines():
        m = re.match(r"(\S+?):(\d+):(\d+): runtime error: (.*)", line)
        if m:
            done()
            f = os.path.basename(m[1])
            msg = re.sub(r"0x[0-9a-f]+", "ADDR", m[4])
            msg = re.sub(r"-?\d+(\.\d+)?(e[+-]\d+)?", "N", msg)
            cur = [f, msg, line + "\n", None]
            continue
        if cur:
            m = FRAME.search(line)
            if m:
                cur[2] += line + "\n"
                if cur[3] is None:
                    cur[3] = m[1]
    done()
    return list(out.values())
