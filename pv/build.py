"""Builds the modules of /repo's working tree, instrumented, outside /repo.

build(flavour) -> Build with .objs, .pingos, .ts (paths of the shared objects)

The build directory is reused when it was made from the same sources; otherwise only
objects whose sources changed (by content, not by time stamp) are made again, and all
of them when a header changed.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")       # another tree, when bugs are tried out
SRC = "/usr/share/nginx/src"
ROOT = os.environ.get("PV_BUILD", VERIF + "/build")

SAN = ("-fsanitize=address,undefined -fno-omit-frame-pointer "
       "-fno-sanitize=alignment,shift-base,nonnull-attribute -fno-common")
FLAVOURS = {
    "asan": dict(cc="-g -O1 -Wno-error -w " + SAN, ld="-fsanitize=address,undefined"),
    "plain": dict(cc="-g -O1 -Wno-error -w", ld=""),
}


class BuildError(Exception):
    pass


class Build:
    def __init__(self, d, flavour):
        self.dir = d
        self.flavour = flavour
        self.objs = d + "/objs"
        self.pingos = f"{self.objs}/{open(self.objs + '/pingos.name').read().strip()}.so"
        self.ts = self.objs + "/ngx_http_ts_module.so"
        p = self.objs + "/harness.name"
        self.harness = f"{self.objs}/{open(p).read().strip()}.so" if os.path.exists(p) else None


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read())
    return h.hexdigest()


def sources():
    out = []
    for root, dirs, files in os.walk(REPO + "/modules"):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".c", ".h"))]
    for root, dirs, files in os.walk(VERIF + "/harness"):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".c", ".h"))]
    return out


def run(cmd, cwd, log, env=None):
    with open(log, "ab") as f:
        r = subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, shell=isinstance(cmd, str),
                           executable="/bin/bash" if isinstance(cmd, str) else None, env=env)
    return r.returncode


def build(flavour="asan", harness=False):
    os.makedirs(ROOT, exist_ok=True)
    d = f"{ROOT}/{flavour}"
    with open(f"{ROOT}/{flavour}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(d, flavour, harness)


def _build(d, flavour, harness):
    fl = FLAVOURS[flavour]
    confs = sorted(glob.glob(REPO + "/modules/*/config")) + sorted(glob.glob(VERIF + "/harness/*/config")) \
        + [VERIF + "/harness/shim/wrap.flags", "/opt/vp/shim/collect.sh", SRC + "/conf_flags"]
    stamp = sha(confs) + json.dumps(fl, sort_keys=True) + d
    sp = d + "/.stamp"
    log = d + "/build.log"
    if not os.path.exists(sp) or open(sp).read() != stamp:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/objs")
        for x in ("auto", "configure", "src"):
            os.symlink(f"{SRC}/{x}", f"{d}/{x}")
        have_h = os.path.exists(VERIF + "/harness/unit/config")
        cmd = (f". {SRC}/conf_flags; ./configure \"${{NGX_CONF_FLAGS[@]}}\" --with-cc=gcc "
               f"--with-cc-opt='-g -O1 -Wno-error -MMD -MP' "
               f"--add-dynamic-module={VERIF}/harness/shim "
               + (f"--add-dynamic-module={VERIF}/harness/unit " if have_h else "") +
               f"--add-dynamic-module={REPO}/modules/nginx-ts-module")
        env = dict(os.environ, HOME="/root", LC_ALL="C")
        if run(cmd, d, log, env) != 0:
            raise BuildError(f"configure failed, see {log}")
        mk = open(d + "/objs/Makefile").read()
        assert "-g -O1 -Wno-error -MMD -MP" in mk
        mk = mk.replace("-g -O1 -Wno-error -MMD -MP", fl["cc"] + " -MMD -MP")
        open(d + "/objs/Makefile", "w").write(mk)
        open(sp, "w").write(stamp)
        man = {}
        if os.path.exists(d + "/.manifest"):
            os.unlink(d + "/.manifest")
    # content-based invalidation
    cur = {p: sha([p]) for p in sources()}
    mp = d + "/.manifest"
    old = json.load(open(mp)) if os.path.exists(mp) else {}
    if os.path.exists(mp):
        os.unlink(mp)
    names = {x for x in set(cur) | set(old) if cur.get(x) != old.get(x)}
    headers = any(x.endswith(".h") for x in names)
    for o in glob.glob(d + "/objs/**/*.o", recursive=True):
        stem = os.path.basename(o)[:-2] + ".c"
        if headers or not old or any(os.path.basename(x) == stem for x in names):
            os.unlink(o)
    if names:
        for so in glob.glob(d + "/objs/*.so"):
            os.unlink(so)
    p = open(d + "/objs/pingos.name").read().strip()
    targets = [f"objs/{p}.so", "objs/ngx_http_ts_module.so"]
    if os.path.exists(log):
        os.unlink(log)
    ld = fl["ld"]
    cmd = ["make", "-f", "objs/Makefile", "-j8", f"LINK=gcc {ld}"] + targets
    if run(cmd, d, log) != 0:
        raise BuildError(f"make failed, see {log}:\n" + tail(log))
    hn = d + "/objs/harness.name"
    if harness:
        q = open(hn).read().strip()
        cmd = ["make", "-f", "objs/Makefile", "-j8", f"LINK=gcc {ld}", f"objs/{q}.so"]
        if run(cmd, d, log) != 0:
            raise BuildError(f"make of the harness failed, see {log}:\n" + tail(log))
    if run(["gcc", "-shared", "-fPIC", "-O1", "-o", d + "/options.so", VERIF + "/harness/preload/options.c"], d, log) != 0:
        raise BuildError(f"building options.so failed, see {log}")
    json.dump(cur, open(mp, "w"))
    return Build(d, flavour)


def tail(p, n=30):
    return "".join(open(p, errors="replace").readlines()[-n:])


if __name__ == "__main__":
    for f in sys.argv[1:] or ["asan"]:
        b = build(f, harness=os.path.exists(VERIF + "/harness/unit/config"))
        print(b.pingos)
