"""python3 tools/plant.py FILE [--checks ID,..]: plants the bug described in FILE (PROPERTY, NEEDS, BREAKS, EDITS, DEMO),
confirms it, keeps it as seeded/<name of FILE>, and tells what the property's check says to it."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **kw)


def build():
    r = sh("bash", "/opt/vp/build.sh", cwd=REPO)
    if r.returncode:
        raise SystemExit("does not build:\n" + (r.stdout + r.stderr)[-3000:])


def main():
    src = sys.argv[1]
    name = os.path.basename(src)[:-3]
    sys.path.insert(0, os.path.dirname(os.path.abspath(src)))
    v = runpy.run_path(src)
    if sh("git", "status", "--porcelain", cwd=REPO).stdout.strip():
        raise SystemExit("/repo is not clean")
    out = f"{HERE}/seeded/{name}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/pv")
    for f in "__init__ amf rtmp media http ts live".split():
        shutil.copy(f"{HERE}/pv/{f}.py", out + "/pv")
    open(out + "/pv/check.py", "w").write("class Violation(Exception):\n    pass\n\n\nclass Inconclusive(Exception):\n    pass\n")
    shutil.copy(f"{HERE}/tools/lab.py", out)
    open(out + "/demo.py", "w").write(v["DEMO"].lstrip())
    open(out + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=v["PROPERTY"], needs=v["NEEDS"], what_it_breaks=v["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    ok = False
    try:
        build()
        r = sh("bash", out + "/demo.sh", cwd=REPO)
        print("demo on the unchanged tree:", r.returncode, (r.stdout + r.stderr)[-600:].strip())
        if r.returncode:
            raise SystemExit(1)
        for f, old, new in v["EDITS"]:
            p = f"{REPO}/modules/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{f}: {s.count(old)} times: {old}")
            open(p, "w").write(s.replace(old, new))
        open(out + "/patch.diff", "w").write(sh("git", "diff", cwd=REPO).stdout)
        build()
        r = sh("bash", "/opt/vp/test.sh", "/tmp/plant.json", cwd=REPO)
        t = " ".join(x for x in (r.stdout + r.stderr).splitlines() if " passed" in x)
        print("tests:", t)
        r = sh("bash", out + "/demo.sh", cwd=REPO)
        print("demo with the bug:", r.returncode, (r.stdout + r.stderr)[-600:].strip())
        ok = r.returncode != 0 and "91 passed" in t
        ids = sys.argv[sys.argv.index("--checks") + 1].split(",") if "--checks" in sys.argv else [v["PROPERTY"]]
        for i in ids if ok else ():
            r = sh("python3", "-m", "pv.run", i, cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            print(f"check {i}:", r.returncode, "\n".join(x[:300] for x in (r.stdout + r.stderr).splitlines() if x[:1] != " " or x[:2] == "  " and x[2:3] != " ")[-1500:].strip() if r.returncode != 1 else "\n".join(x for x in r.stdout.splitlines() if x.startswith("VIOLATION")))
    finally:
        sh("git", "checkout", "--", ".", cwd=REPO)
        build()
        shutil.rmtree(out + "/__pycache__", ignore_errors=True)
        shutil.rmtree(out + "/pv/__pycache__", ignore_errors=True)
        shutil.rmtree(f"{HERE}/run", ignore_errors=True)
        if not ok:
            print("NOT KEPT", name)
            shutil.rmtree(out)


main()
