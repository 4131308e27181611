"""Names resolved at run time: every question is answered once, with what the DNS said about that name."""
import asyncio
import ipaddress
import time

from pv.check import Scenario, Violation
from pv.dns import Dns
from pv.unit import Unit, h

ID = "T07"
TITLE = "Every name lookup is answered once, with an address of that very name"
STATEMENT = """Every lookup calls back exactly once, with addresses that the DNS gave for that name (all of them, or one of them where one is
asked for), or with none when the name does not resolve in time; numeric addresses need no DNS. A name that is kept is refreshed
within the configured interval, keeps its last addresses when a refresh fails, and is known without regard to case. Forgetting a name
answers those who wait for it with none, and no answer that arrives late is ever given to somebody who asked for another name."""
OVER = ("schedules", "histories", "faults")
QUANT = "Every interleaving of lookups, answers of IPv4 and IPv6 addresses, failures, delays, changes, additions and removals of names."
WHY = "Late, failed, changed and multiple answers come from a DNS the tests do not have."
FILES = ["modules/nginx-toolkit-module/ngx_event_resolver.c", "modules/nginx-toolkit-module/ngx_dynamic_resolver.c"]
MECH = [("lookups", "ngx_event_resolver_start_resolver, ngx_event_resolver_handler"),
        ("kept names", "ngx_dynamic_resolver_start_resolver, ngx_dynamic_resolver_on_result, ngx_dynamic_resolver_on_timer"),
        ("adding and forgetting", "ngx_dynamic_resolver_add_domain, ngx_dynamic_resolver_del_domain"),
        ("without waiting", "ngx_dynamic_resolver_gethostbyname")]
HARNESS = True
TECHNIQUE = "stress workload against a scripted DNS server (delays, failures, changes) under ASan/UBSan, the event log checked by an online model"
NOTE = "Held on the histories run, against one DNS server over UDP; answers that never come are waited for for the configured time."
RULE = "A case is one lookup whose answer was compared with what the DNS had been told to say, or one read of a kept name; distinct by history."


def addr4(rng):
    return f"10.{rng.randrange(256)}.{rng.randrange(256)}.{rng.randrange(1, 255)}"


def addr6(rng):
    return ipaddress.IPv6Address((0x20010db8 << 96) | rng.getrandbits(64)).compressed


def entry(rng, six):
    r = rng.random()
    if r < 0.1:
        return dict(rcode=rng.choice((2, 3, 5)))
    if r < 0.16:
        return dict(drop=True)
    if r < 0.2:
        return dict(a=[], aaaa=[])
    e = dict(a=[addr4(rng) for _ in range(rng.choice((1, 1, 2, 3, 8, 12)))], aaaa=[])
    if six and rng.random() < 0.7:
        e["aaaa"] = [addr6(rng) for _ in range(rng.choice((1, 2, 5, 10)))]
        if rng.random() < 0.3:
            e["a"] = []
    if rng.random() < 0.5:
        e["delay"] = rng.choice((0.005, 0.05, 0.2))
    if rng.random() < 0.2:
        e["ttl"] = 0
    return e


def says(e, six):
    if e is None or e.get("rcode") or e.get("drop"):
        return set()
    return set(e.get("a", [])) | (set(e.get("aaaa", [])) if six else set())


def parse(words):
    """["2:10.0.0.1", "10:::1"] -> texts without the family, which must fit"""
    out = []
    for w in words:
        fam, _, a = w.partition(":")
        a = a.strip("[]")
        try:
            ip = ipaddress.ip_address(a)
        except ValueError:
            raise Violation("not an address", w)
        if {4: "2", 6: "10"}[ip.version] != fam:
            raise Violation("not an address", w)
        out.append(ip.compressed)
    return out


class Lookups:
    """Follows the log of lookups: started TAG / resolved TAG n addr..."""

    def __init__(self, c, one):
        self.c, self.one = c, one
        self.open = {}          # tag -> (name, set of addresses that may be answered, may it fail, extra)
        self.done = set()

    def ask(self, tag, name, ok, mayfail):
        self.open[tag] = (name, ok, mayfail)

    def feed(self, lines):
        for l in lines:
            w = l.split()
            if not w or w[0] != "resolved":
                continue
            tag = int(w[1])
            if tag not in self.open:
                raise Violation("answered twice" if tag in self.done else "answered unasked", l)
            name, ok, mayfail = self.open.pop(tag)
            self.done.add(tag)
            got = parse(w[3:])
            if not got or w[2] == "0":
                if not mayfail:
                    raise Violation("not resolved", f"{name}: {l}, expected of {sorted(ok)}")
                self.c.saw("lookups answered with none")
            elif not set(got) <= ok:
                raise Violation("address of something else", f"{name}: {l}, expected of {sorted(ok)}")
            elif not self.one and set(got) != ok and not mayfail:
                raise Violation("addresses missing", f"{name}: {l}, expected {sorted(ok)}")
            else:
                self.c.saw("lookups answered")
            self.c.case((name, tag, self.c.nrun), dict(name=name, answer=l[:120]) if tag == 3 else None)


async def event(c, rng, n, six):
    """Single lookups: all addresses."""
    names = {f"h{i}.example.com": entry(rng, six) for i in range(25)}
    names["x" * 60 + ".example.com"] = dict(a=["10.9.9.9"])
    dns = await Dns(names, rng).start()
    with Unit(c, events=f"resolver 127.0.0.1:{dns.port} {'' if six else 'ipv6=off'}; resolver_timeout 700ms; dynamic_refresh_interval 0;") as u:
        u.inst.expected = "could not be resolved"
        L = Lookups(c, False)
        tag = 0
        for r in range(n):
            cmds = []
            for _ in range(rng.randint(1, 8)):
                tag += 1
                r = rng.random()
                if r < 0.1:
                    a = rng.choice((addr4(rng), addr6(rng)))
                    # nginx takes numeric IPv6 names for names
                    name, ok, mayfail = a, {ipaddress.ip_address(a).compressed}, ":" in a
                elif r < 0.2:
                    name = rng.choice(("nowhere.example.com", "a..b", ".", "-", "x" * 300 + ".com"))
                    ok, mayfail = set(), True
                else:
                    name = rng.choice(sorted(names))
                    ok = says(names[name], six)
                    mayfail = not ok
                    if rng.random() < 0.2:
                        name = name.upper()
                L.ask(tag, name, ok, mayfail)
                cmds.append(f"eres.start {h(name)} {tag} -")
            await u.arun(*cmds)
            if rng.random() < 0.4:
                await asyncio.sleep(rng.random() * 0.1)
            L.feed(await u.arun("log"))
        end = time.time() + 15
        while L.open and time.time() < end:
            await asyncio.sleep(0.1)
            L.feed(await u.arun("log"))
        if L.open:
            raise Violation("never answered", str(list(L.open.items())[:5]))
        # contexts are all back
        st = (await u.arun("res.state"))[0]
        a, f = (int(x.split(":")[1]) for x in st.split("|")[1:3])
        if a != f:
            raise Violation("lookups unaccounted", st)
        c.saw("DNS queries", dns.total)
    dns.close()


async def kept(c, rng, n, six, buckets):
    """Names that are kept: one address each, while the DNS changes its mind."""
    names = {}
    base = [f"n{i}.example.org" for i in range(14)]
    for x in base:
        names[x] = entry(rng, six)
    long = "y" * 60 + "." + "z" * 50 + ".example.org"       # 123 bytes
    names[long] = dict(a=["10.1.1.1"])
    dns = await Dns(names, rng).start()
    with Unit(c, events=f"resolver 127.0.0.1:{dns.port} valid=1s {'' if six else 'ipv6=off'}; resolver_timeout 600ms; "
              f"dynamic_refresh_interval 300ms; dynamic_domain_buckets {buckets};") as u:
        u.inst.expected = "could not be resolved|dynamic resolver"
        L = Lookups(c, True)
        every = {x: set(says(e, six)) for x, e in names.items()}    # what it ever said
        tag = 0
        for r in range(n):
            cmds = []
            for _ in range(rng.randint(1, 6)):
                tag += 1
                q = rng.random()
                x = rng.choice(base + [long])
                name = "".join(rng.choice((ch, ch.upper())) for ch in x) if rng.random() < 0.3 else x
                if q < 0.5:
                    script = "-"
                    if rng.random() < 0.3:
                        y = rng.choice(base)
                        script = h(rng.choice((f"dres.del {h(x)}", f"dres.del {h(y)}", f"dres.add {h(y)}")))
                    L.ask(tag, x, every[x], True)
                    cmds.append(f"dres.start {h(name)} {tag} {script}")
                elif q < 0.6:
                    a = rng.choice((addr4(rng), addr4(rng) + ":80", f"[{addr6(rng)}]:80"))
                    ip = ipaddress.ip_address(a.split("]")[0].strip("[") if a[0] == "[" else a.split(":")[0])
                    L.ask(tag, a, {ip.compressed}, False)
                    cmds.append(f"dres.start {h(a)} {tag} -")
                elif q < 0.65:
                    L.ask(tag, "long", set(), True)
                    cmds.append(f"dres.start {h('q' * 129)} {tag} -")
                elif q < 0.75:
                    cmds.append(f"dres.add {h(name)}")
                elif q < 0.85:
                    cmds.append(f"dres.del {h(name)}")
                else:
                    cmds.append(f"dres.get {h(name)}")
            out = await u.arun(*cmds)
            for q, g in zip(cmds, out):
                if q.startswith("dres.get") and g != "none":
                    x = bytes.fromhex(q.split()[1]).decode().lower()
                    if not set(parse([g])) <= every[x]:
                        raise Violation("kept: address of something else", f"{x}: {g}, of {sorted(every[x])}")
                    c.saw("reads of kept names")
            if rng.random() < 0.3:
                x = rng.choice(base)
                names[x] = entry(rng, six)
                every[x] |= says(names[x], six)
            if rng.random() < 0.4:
                await asyncio.sleep(rng.random() * 0.15)
            L.feed(await u.arun("log"))
        end = time.time() + 15
        while L.open and time.time() < end:
            await asyncio.sleep(0.1)
            L.feed(await u.arun("log"))
        if L.open:
            raise Violation("never answered", str(list(L.open.items())[:5]))

        # settled: every kept name has its new addresses after an interval and the validity
        for x in base:
            names[x] = dict(a=[addr4(rng) for _ in range(rng.choice((1, 2, 5)))], aaaa=[])
            if six and rng.random() < 0.5:
                names[x]["aaaa"] = [addr6(rng)]
        await u.arun(*(f"dres.add {h(x)}" for x in base))
        await settle(c, u, names, base, six)
        # a failing DNS takes nothing away
        last = {x: dict(names[x]) for x in base}
        for x in base:
            names[x] = rng.choice((dict(rcode=2), dict(drop=True), dict(rcode=3)))
        await asyncio.sleep(2.5)
        await settle(c, u, last, base, six, "kept over failures")
        # forgotten means forgotten
        gone = rng.sample(base, 5)
        await u.arun(*(f"dres.del {h(x)}" for x in gone))
        for x, g in zip(base, await u.arun(*(f"dres.get {h(x)}" for x in base))):
            if (g == "none") != (x in gone):
                raise Violation("forgetting a name", f"{x}: {g}, forgotten {gone}")
        # pending ones are answered when their name is forgotten
        fresh = [f"f{i}.example.net" for i in range(6)]
        for x in fresh:
            names[x] = dict(a=[addr4(rng)], delay=0.25)
            every[x] = says(names[x], six)
        for x in fresh[:3]:
            tag += 1
            L.ask(tag, x, set(), True)
            await u.arun(f"dres.start {h(x)} {tag} -")
        await u.arun(*(f"dres.del {h(x)}" for x in fresh[:3]))
        L.feed(await u.arun("log"))
        if L.open:
            raise Violation("waiting for a forgotten name", str(L.open))
        for x in fresh[3:]:
            tag += 1
            L.ask(tag, x, every[x], False)
            await u.arun(f"dres.start {h(x)} {tag} -")
        end = time.time() + 10
        while L.open and time.time() < end:
            await asyncio.sleep(0.1)
            L.feed(await u.arun("log"))
        if L.open:
            raise Violation("never answered", str(L.open))
        for x, g in zip(fresh, await u.arun(*(f"dres.get {h(x)}" for x in fresh))):
            if (x in fresh[:3]) != (g == "none") or g != "none" and not set(parse([g])) <= every[x]:
                raise Violation("late answer for another name", f"{x}: {g}, of {sorted(every[x])}")
        c.saw("names forgotten while asked for", 3)
        c.saw("DNS queries", dns.total)
    dns.close()


async def settle(c, u, names, base, six, what="kept names"):
    end = time.time() + 12
    while True:
        bad = None
        for _ in range(10):
            for x, g in zip(base, await u.arun(*(f"dres.get {h(x)}" for x in base))):
                if g == "none" or not set(parse([g])) <= says(names[x], six):
                    bad = f"{x}: {g}, expected of {sorted(says(names[x], six))}"
        if bad is None:
            break
        if time.time() > end or what != "kept names":
            raise Violation(what, bad)
        await asyncio.sleep(0.2)
    for x in base:
        c.case((what, x, c.nrun))
    c.saw(what, len(base))


def scenarios(c):
    for i in range(c.pick(2, 8)):
        for six in (False, True):
            yield Scenario(f"single#{i}{'-v6' if six else ''}", event, n=c.pick(60, 300), six=six)
            yield Scenario(f"kept#{i}{'-v6' if six else ''}", kept, n=c.pick(80, 300), six=six, buckets=(1, 3, 101)[i % 3])
