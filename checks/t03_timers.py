"""Timers: each one set fires once, in time and in order, unless it is deleted."""
import asyncio
import heapq
import re
import time

from pv.check import Scenario, Violation
from pv.unit import Unit, h

ID = "T03"
TITLE = "Every timer fires exactly once, not early, in order, unless deleted"
STATEMENT = """A timer that was set fires once, no sooner than its interval, before any timer that is due later, and never after it was
deleted, also when timers are set and deleted from inside firing ones. Numbered timers are refused only when the configured number is in
use, and a fired or deleted one can be used again at once. A timer with an owner can be moved or deleted by its owner only, an attempt of
another one changes nothing."""
OVER = ("histories", "schedules")
QUANT = "Every sequence of setting, moving, deleting and firing, nested or not, with any intervals and up to the configured number."
WHY = "Reuse of a slot while it fires, and deletion between expiry and firing, need particular interleavings; no stable test sets a timer."
FILES = ["modules/nginx-toolkit-module/ngx_event_timer_module.c", "modules/nginx-toolkit-module/ngx_timerd.c"]
MECH = [("numbered timers", "ngx_event_timer_add_timer, ngx_event_timer_del_timer, ngx_event_timer_event_handler"),
        ("owned timers", "ngx_add_timer_debug, ngx_del_timer_debug, ngx_timerd_wrap")]
HARNESS = True
TECHNIQUE = "random timer histories in a real worker under ASan/UBSan, the recorded event log checked by an offline trace checker"
NOTE = """Held on the histories run. Lateness is only bounded by order, as machines are loaded; a timer moved by less than 300 ms may keep
its time (nginx does that on purpose)."""
RULE = "A case is one timer whose life was followed from setting to firing or deletion; distinct by history and timer."
SLOTS = 12


class Numbered:
    """Checks the log of numbered timers."""

    def __init__(self, c, n):
        self.c, self.n = c, n
        self.live = {}      # tag -> (due, id)
        self.ids = {}       # id -> tag
        self.running = 0

    def fail(self, key, line):
        raise Violation(f"numbered: {key}", f"{line}\nlive {dict(list(self.live.items())[:20])}")

    def line(self, l, nested):
        w = l.split()
        if w[0] == "added":
            tag, num, now, ms = map(int, w[1:])
            used = len(self.live) + nested
            if num == -1:
                if used < self.n:
                    self.fail("refused", f"{l} with {used} of {self.n} used")
                self.c.saw("refused as all are in use")
            else:
                if used >= self.n or not 0 <= num < self.n or num in self.ids:
                    self.fail("number", f"{l} with {used} of {self.n} used")
                self.live[tag] = (now + ms, num)
                self.ids[num] = tag
                self.c.saw("timers set")
        elif w[0] == "deleted":
            tag = self.ids.pop(int(w[1]), None)
            if tag is not None:
                del self.live[tag]
                self.c.saw("timers deleted")
                self.c.case(("deleted", tag, self.c.nrun))
            else:
                self.c.saw("deletions of nothing")
        elif w[0] == "fire":
            tag, now = int(w[1]), int(w[2])
            if tag not in self.live:
                self.fail("fired though not set", l)
            due, id_ = self.live.pop(tag)
            del self.ids[id_]
            if now < due:
                self.fail("fired early", f"{l}, due {due}")
            if self.live and min(self.live.values())[0] < due:
                self.fail("fired out of order", f"{l}, due {due}, but another {min(self.live.values())}")
            self.c.saw("timers fired")
            self.c.case(("fired", tag, self.c.nrun), dict(log=l, due=due) if tag == 3 else None)


def script(lines):
    return h("\n".join(lines)) if lines else "-"


async def numbered(c, rng, rounds):
    with Unit(c, events=f"worker_timers {SLOTS}; dynamic_refresh_interval 0;") as u:
        state = u.one("timer.state")
        total, free = (int(x) for x in re.findall(r": (\d+)\|", state))
        if total != SLOTS:
            raise Violation("numbered: state", state)
        m = Numbered(c, free)
        tag = 0

        def add(depth=0):
            nonlocal tag
            tag += 1
            t = tag
            inner = []
            if depth < 3 and rng.random() < 0.4:
                for _ in range(rng.randint(1, 3)):
                    if rng.random() < 0.6:
                        inner.append(add(depth + 1))
                    else:
                        inner.append(f"timer.del {rng.randrange(SLOTS)}")
            return f"timer.add {rng.choice((0, 0, 1, 5, rng.randint(1, 60), rng.randint(1, 200)))} {t} {script(inner)}"

        for r in range(rounds):
            cmds = []
            for _ in range(rng.randint(1, 8)):
                if rng.random() < 0.7:
                    cmds.append(add())
                else:
                    cmds.append(f"timer.del {rng.randrange(SLOTS)}")
            await u.arun(*cmds)
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * 0.05)
            take(c, m, await u.arun("log"))
        end = time.time() + 20
        while m.live and time.time() < end:
            await asyncio.sleep(0.05)
            take(c, m, await u.arun("log"))
        if m.live:
            raise Violation("numbered: never fired", str(m.live))
        await asyncio.sleep(0.3)
        take(c, m, await u.arun("log"))
        now = u.one("timer.state")
        if now != state:
            raise Violation("numbered: numbers lost", f"{state} before, {now} after")
        # all of them can be had at once, and no more
        got = u.run(*(f"timer.add 60000 {10 ** 6 + i} -" for i in range(free + 2)), "log")
        take(c, m, got)
        if len(m.live) != free:
            raise Violation("numbered: numbers lost", f"{len(m.live)} of {free} could be set")


def take(c, m, lines):
    """Feeds the log; lines that follow a firing one up to 'end' come from inside of it."""
    nested = 0
    for l in lines:
        if l == "end":
            nested = 0
            continue
        m.line(l, nested)
        if l.startswith("fire"):
            nested = 1


class Owned:
    def __init__(self, c):
        self.c = c
        self.live = {}      # tag -> set of possible due times

    def fail(self, key, line):
        raise Violation(f"owned: {key}", f"{line}\nlive {self.live}")

    def line(self, l, nested):
        w = l.split()
        tag = int(w[1])
        if w[0] == "added":
            isset, now, ms = map(int, w[2:])
            if not isset:
                self.fail("set but not shown as set", l)
            due = now + ms
            old = self.live.get(tag, set())
            near = {x for x in old if abs(due - x) < 300}
            self.live[tag] = (near | {due}) if len(near) != len(old) or not old else near
            self.c.saw("timers moved" if old else "timers set")
        elif w[0] == "deleted":
            isset, wrong = int(w[2]), int(w[3])
            had = tag in self.live
            if not wrong:
                if had:
                    self.c.case(("deleted", tag, l, self.c.nrun))
                self.live.pop(tag, None)
                if isset:
                    self.fail("still set after its deletion", l)
                self.c.saw("timers deleted")
            else:
                if isset != had:
                    self.fail("deleted by another", l)
                self.c.saw("deletions by others")
        elif w[0] == "fire":
            now, isset, timedout = map(int, w[2:])
            if tag not in self.live:
                self.fail("fired though not set", l)
            due = self.live.pop(tag)
            if now < min(due):
                self.fail("fired early", f"{l}, due {due}")
            if isset or not timedout:
                self.fail("marks of a fired timer", l)
            others = [max(x) for x in self.live.values()]
            if others and min(others) < min(due):
                self.fail("fired out of order", f"{l}, due {due}")
            self.c.saw("timers fired")
            self.c.case(("fired", tag, now, self.c.nrun), dict(log=l, due=sorted(due)) if tag == 3 else None)


async def owned(c, rng, rounds):
    with Unit(c, events="dynamic_refresh_interval 0;") as u:
        u.inst.expected = "timer"
        state = u.one("owned.state")
        base = used(state)
        m = Owned(c)
        tags, tag = {}, 0

        def op(depth=0):
            k = rng.choice(sorted(tags))
            r = rng.random()
            if r < 0.6:
                inner = [op(depth + 1) for _ in range(rng.randint(1, 3))] if depth < 2 and rng.random() < 0.4 else []
                return f"owned.add {k} {rng.choice((0, 1, 10, rng.randint(1, 80), rng.randint(300, 700)))} {script(inner)}"
            if r < 0.85:
                return f"owned.del {k}"
            return f"owned.del {k} wrong"

        for r in range(rounds):
            if r % 25 == 0:
                # objects come and go, at addresses that are used again
                gone = [f"owned.del {k}" for k in tags]
                await u.arun(*gone)
                take(c, m, await u.arun("log"))
                await u.arun(*(f"owned.free {k}" for k in tags))
                tags.clear()
                for k in range(8):
                    tag += 1
                    tags[k] = tag
                    await u.arun(f"owned.new {k} {tag}")
            await u.arun(*(op() for _ in range(rng.randint(1, 6))))
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * 0.05)
            take(c, m, await u.arun("log"))
        end = time.time() + 20
        while m.live and time.time() < end:
            await asyncio.sleep(0.05)
            take(c, m, await u.arun("log"))
        if m.live:
            raise Violation("owned: never fired", str(m.live))
        await asyncio.sleep(0.2)
        take(c, m, await u.arun("log"))
        now = u.one("owned.state")
        if used(now) != base:
            raise Violation("owned: accounts", f"{state} before, {now} after")
        await u.arun(*(f"owned.free {k}" for k in tags))


def used(text):
    a, f = (int(x) for x in re.findall(r": (\d+)\|", text)[:2])
    return a - f


def scenarios(c):
    for i in range(c.pick(4, 16)):
        yield Scenario(f"numbered#{i}", numbered, rounds=c.pick(150, 600))
        yield Scenario(f"owned#{i}", owned, rounds=c.pick(150, 600))
