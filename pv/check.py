"""The frame of every check: scenarios, oracles' verdicts, known findings, evidence.

A check is a module checks/<name>.py with

    ID, TITLE, RULE           the property, and what makes a case count
    def scenarios(c)          yields Scenario objects (made from c.rng only)

run(module) builds the instrumented modules, runs the scenarios, and exits 0 or 1.
"""
import asyncio
import hashlib
import http.client
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback

from . import amf, build as buildmod, nginx as ngx, rtmp

VERIF = buildmod.VERIF

# What a scenario runs into when the server does not answer as it should: tried once more.
SERVER_ERRORS = (rtmp.RtmpError, amf.AmfError, ConnectionError, asyncio.TimeoutError, asyncio.IncompleteReadError,
                 ngx.StartError, EOFError, http.client.HTTPException)


class Violation(Exception):
    def __init__(self, key, text=""):
        super().__init__(f"{key}: {text}")
        self.key, self.text = key, text


class Inconclusive(Exception):
    """The scenario did not observe what it needs to judge."""


class Scenario:
    def __init__(self, name, fn, **params):
        self.name, self.fn, self.params = name, fn, params


class Known:
    """known-findings.txt: 'finding: property=ID key=REGEX :: text', 'fixed: property=ID commit text'."""

    def __init__(self, prop):
        self.items = []
        p = VERIF + "/known-findings.txt"
        for line in open(p) if os.path.exists(p) else ():
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m[1] in (prop, "*"):
                self.items.append([re.compile(m[2]), m[3], False])

    def match(self, key):
        for it in self.items:
            if it[0].fullmatch(key):
                it[2] = True
                return it[1]
        return None


class Check:
    def __init__(self, mod):
        self.mod, self.id = mod, mod.ID
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED") or 1)
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.rng = random.Random(f"{self.id}/{self.seed}/{self.tier}")
        self.known = Known(self.id)
        self.known_hits = {}
        self.violations = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.observed = {}
        self.inconclusive = 0
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"pv-{self.id}-", dir=os.environ.get("PV_RUN", "/tmp"))
        self.nrun = 0
        self.build = None
        self.instances = []
        self.scn = None
        self.keep = "--keep" in sys.argv
        self.deadline = self.t0 + (780 if self.thorough else 420)

    # --- what the scenarios use
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def nginx(self, conf, **kw):
        """An instance whose monitors' reports belong to this check."""
        self.nrun += 1
        d = f"{self.work}/n{self.nrun}"
        os.makedirs(d)
        n = ngx.Nginx(self.build, d, conf, **kw)
        self.instances.append(n)
        return n

    def saw(self, name, n=1):
        """Count an observed event."""
        self.observed[name] = self.observed.get(name, 0) + n

    def case(self, key, sample=None, nontrivial=True):
        """One evaluated case; key tells distinct ones apart."""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.sha256(repr(key).encode()).digest()[:12])
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def fail(self, key, text=""):
        """Report a violation and carry on."""
        what = self.known.match(key)
        if what is not None:
            self.known_hits.setdefault(what, key)
            return
        if key not in self.violations:
            rp = self.replay_file(key, text)
            self.violations[key] = rp
            print(f"VIOLATION property={self.id} replay={rp}", flush=True)
            print(f"  {key}\n  " + str(text)[:3000].replace("\n", "\n  "), flush=True)

    def replay_file(self, key, text):
        d = f"{VERIF}/run/{self.id}"
        os.makedirs(d, exist_ok=True)
        p = f"{d}/{hashlib.sha256(key.encode()).hexdigest()[:10]}.json"
        s = self.scn
        json.dump(dict(property=self.id, key=key, text=str(text)[:20000], seed=self.seed, tier=self.tier,
                       scenario=s.name if s else None, params=repr(s.params) if s else None,
                       command=f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 -m pv.run {self.id}"
                               + (f" --only {s.name}" if s else ""),
                       logs=[n.error_tail(40) for n in self.instances[-1:]]),
                  open(p, "w"), indent=1)
        return p

    # --- the driver
    def collect(self):
        n = 0
        for inst in self.instances:
            inst.stop()
            for kind, key, text in inst.reports():
                self.fail(f"{kind}: {key}", text)
                n += 1
        if not self.keep:
            for inst in self.instances:
                shutil.rmtree(inst.dir, ignore_errors=True)
        self.instances = []
        return n

    def run_one(self, s):
        self.scn = s
        for attempt in (1, 2):
            err = None
            state = (self.evaluations, set(self.distinct), dict(self.observed))
            try:
                rng = random.Random(f"{self.id}/{self.seed}/{self.tier}/{s.name}")
                r = s.fn(self, rng, **s.params)
                if asyncio.iscoroutine(r):
                    asyncio.run(asyncio.wait_for(r, 240))
            except Violation as v:
                self.fail(v.key, v.text)
            except Inconclusive as e:
                err = ("inconclusive", str(e))
            except SERVER_ERRORS as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb)
                              if "/checks/" in f.filename), "?")
                err = (f"{type(e).__name__} in {s.name.split('#')[0]}", f"{e}\n{''.join(traceback.format_exception(e)[-6:])}")
            logs = "\n".join(n.error_tail(20) for n in self.instances[-1:])
            if self.collect():
                return          # the report says what happened
            if err is None:
                return
            print(f"  [{s.name}] attempt {attempt}: {err[0]} {err[1][:1500]}\n{logs}", file=sys.stderr, flush=True)
            if attempt == 1:
                self.evaluations, self.distinct, self.observed = state[0], state[1], state[2]
        if err[0] == "inconclusive":
            self.inconclusive += 1
        else:
            self.fail("no answer: " + err[0], err[1] + "\n" + logs)

    def finish(self):
        level = "exploration"
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.mod.RULE,
                   samples=self.samples or ["none"], observed=dict(sorted(self.observed.items())),
                   inconclusive=self.inconclusive, violations=sorted(self.violations),
                   known_findings=sorted(self.known_hits))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                       wall_s=round(time.time() - self.t0, 1)),
                  open(f"{VERIF}/evidence/{self.id}.json", "w"), indent=1)


def run(mod, only=None):
    c = Check(mod)
    try:
        try:
            c.build = buildmod.build(getattr(mod, "FLAVOUR", "asan"), harness=getattr(mod, "HARNESS", False))
        except buildmod.BuildError as e:
            print(f"{c.id}: {e}", file=sys.stderr)
            return 2
        tb = time.time() - c.t0
        n = 0
        for s in mod.scenarios(c):
            if only and not s.name.startswith(only):
                continue
            if time.time() > c.deadline:
                print(f"{c.id}: out of time after {n} scenarios", file=sys.stderr)
                break
            if len(c.violations) >= 5:
                break
            n += 1
            t1 = time.time()
            c.run_one(s)
            if "-v" in sys.argv:
                print(f"  {s.name} {time.time() - t1:.1f}s", flush=True)
        c.finish()
        for what, text, hit in c.known.items:
            if not only:
                print(f"KNOWN-FINDING: property={c.id} {text}")
        print(f"{c.id}: {c.evaluations} cases, {len(c.distinct)} distinct, observed {c.observed}, "
              f"build {tb:.0f}s, total {time.time() - c.t0:.0f}s", flush=True)
        if c.violations:
            return 1
        if not c.evaluations or c.inconclusive > max(1, n // 2):
            print(f"{c.id}: nothing was observed ({c.inconclusive} inconclusive scenarios)", file=sys.stderr)
            return 2
        return 0
    finally:
        for i in c.instances:
            i.stop()
        if not c.keep:
            shutil.rmtree(c.work, ignore_errors=True)
