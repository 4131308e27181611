"""Recycled buffers and tracked pools: nothing is shared, lost or left over."""
import re

from pv.check import Scenario, Violation
from pv.unit import Unit

ID = "T02"
TITLE = "Recycled buffers and tracked pools are never shared, dirty or lost"
STATEMENT = """A buffer taken from the recycler has the size asked for, is empty and carries nothing of its former use, and its memory
belongs to nobody else until it is given back, whatever the history of sizes. What was given back is used again, so that as much is ever
allocated as was in use at once, and the reported numbers always account for every buffer and every pool. Giving back or destroying
something twice is reported and does no damage."""
OVER = ("histories", "inputs")
QUANT = "Every sequence of taking and giving back, singly or in chains, of every size, and of pools created and destroyed."
WHY = "Sharing a buffer or leaking it needs particular histories of recycling; the tests do not exercise the recycler."
FILES = ["modules/nginx-toolkit-module/ngx_rbuf.c", "modules/nginx-toolkit-module/ngx_rbuf.h", "modules/nginx-toolkit-module/ngx_poold.c"]
MECH = [("recycled buffers", "ngx_get_chainbuf_debug, ngx_put_chainbuf_debug"), ("accounting", "ngx_rbuf_state, ngx_poold_state"),
        ("pools", "ngx_create_pool_debug, ngx_destroy_pool_debug")]
HARNESS = True
TECHNIQUE = "random histories run in a real worker under ASan/UBSan; every buffer carries a pattern, an online model checks ownership and accounting"
NOTE = "Held on the histories run: tens of thousands of operations, up to a few thousand buffers at once; failing allocations are not provoked."
RULE = "A case is one buffer or pool whose state was compared with the model's; distinct by history and operation."


def numbers(line):
    return [int(x) for x in re.findall(r": (\d+)\|", line)]


def buffers(c, rng, nops):
    sizes = [1, 2, 64, 4096] + [rng.randint(1, 9000) for _ in range(rng.randint(2, 12))]
    with Unit(c) as u:
        u.inst.expected = "destroy chainbuf twice"
        held, seen, peak, peak_chain, pattern, twice = {}, {}, {}, 0, 0, 0
        shape = rng.choice(((0.7, 0.3), (0.4, 0.6), (0.5, 0.5)))
        limit = rng.choice((3, 40, 1500))
        done = 0
        while done < nops:
            cmds, want = [], []
            for _ in range(100):
                if done % 400 == 399:
                    shape = shape[::-1]
                done += 1
                r = rng.random()
                if (r < shape[0] or not held) and len(held) < limit:
                    slot = rng.choice([i for i in range(4096) if i not in held][:200])
                    size = rng.choice(sizes)
                    alloc = rng.random() < 0.8
                    pattern += 1
                    cmds.append(f"rbuf.get {slot} {size} {int(alloc)} {pattern}" + (" dirty" if rng.random() < 0.5 else ""))
                    want.append(f"1 {size if alloc else 0} 0 0 10000000")
                    held[slot] = size if alloc else None
                    if alloc:
                        n = sum(1 for s in held.values() if s == size)
                        peak[size] = max(peak.get(size, 0), n)
                        seen[size] = True
                    peak_chain = max(peak_chain, len(held))
                elif held and r < 0.95:
                    k = rng.choice(sorted(held))
                    cmds.append(f"rbuf.put {k}")
                    want.append("same")
                    del held[k]
                elif held:
                    ks = rng.sample(sorted(held), min(len(held), rng.randint(1, 6)))
                    cmds.append("rbuf.puts " + " ".join(map(str, ks)))
                    want.append("same")
                    for k in ks:
                        del held[k]
                c.saw("buffer operations")
            cmds += ["rbuf.overlap", "rbuf.state x"]
            got = u.run(*cmds)
            for q, g, w in zip(cmds, got, want):
                c.case(("buf", done, q), dict(command=q, answer=g) if done == 100 else None)
                if g != w:
                    raise Violation(q.split()[0], f"{q}: got {g}, expected {w}")
            if got[-2] != f"{len(held)} 0":
                raise Violation("sharing", f"{got[-2]} while {len(held)} buffers are out")
            node, nb, fb, nc, fc = numbers(got[-1])
            out = sum(1 for s in held.values() if s is not None)
            lines = got[-1].count("u_toolkit.c:")
            if (node, nb - fb, nc - fc, lines) != (len(seen), out, len(held), len(held)) or nb != sum(peak.values()) or nc != peak_chain:
                raise Violation("accounting", f"{got[-1][:400]}: {len(seen)} sizes, {out} buffers and {len(held)} chains are out, "
                                f"at most {sum(peak.values())} and {peak_chain} were; {lines} listed")
            c.saw("accounts compared")
        # given back twice: noticed, and what is taken afterwards is still nobody else's
        for _ in range(5):
            a, b = rng.sample([i for i in range(4000) if i not in held], 2)
            size = rng.choice(sizes)
            u.run(f"rbuf.get {a} {size} 1 1", f"rbuf.put {a} keep", f"rbuf.put {a}")
            k = [i for i in range(4000) if i not in held and i not in (a, b)][:4]
            u.run(*(f"rbuf.get {i} {size} 1 {i}" for i in k))
            got = u.run("rbuf.overlap")
            if got != [f"{len(held) + len(k)} 0"]:
                raise Violation("given back twice", f"{got} of {len(held) + len(k)} buffers")
            u.run(*(f"rbuf.put {i}" for i in k))
            twice += 1
            c.case(("twice", size, done))
            c.saw("given back twice")
        log = open(u.inst.log, errors="replace").read()
        if log.count("destroy chainbuf twice") != twice:
            raise Violation("given back twice unnoticed", f"{log.count('destroy chainbuf twice')} reports of {twice}")
        u.run(*(f"rbuf.put {i}" for i in held))


def pools(c, rng, nops):
    with Unit(c) as u:
        u.inst.expected = "destroy pool twice"
        node0, free0 = numbers(u.one("pool.state"))[:2]
        base = node0 - free0
        live, peak, twice, dead = set(), 0, 0, None
        for i in range(nops):
            r = rng.random()
            if (r < 0.5 or not live) and len(live) < 200:
                k = rng.choice([x for x in range(1024) if x not in live])
                cmd, want = f"pool.new {k} {rng.choice((128, 512, 4096, 20000))}", "ok"
                live.add(k)
                if dead == k:
                    dead = None
                peak = max(peak, len(live))
            elif r < 0.7:
                cmd, want = f"pool.use {rng.choice(sorted(live))} {rng.choice((1, 100, 5000, 70000))}", "ok"
            elif r < 0.97 or dead is None:
                dead = rng.choice(sorted(live))
                live.discard(dead)
                cmd, want = f"pool.del {dead}", "ok"
            else:
                cmd, want = f"pool.del {dead}", "ok"
                twice += 1
                dead = None
            got = u.run(cmd, "pool.state x")
            node, free = numbers(got[1])[:2]
            if got[0] != want or node - free - base != len(live) or got[1].count("u_toolkit.c:") != len(live):
                raise Violation(cmd.split()[0], f"{got} with {len(live)} pools")
            if node > max(node0, peak + base):
                raise Violation("pool accounts", f"{got[1][:200]}: at most {peak} pools at once")
            c.case(("pool", i, cmd), dict(command=cmd, answer=got[1][:120]) if i == 5 else None)
            c.saw("pool operations")
        log = open(u.inst.log, errors="replace").read()
        if log.count("destroy pool twice") != twice:
            raise Violation("destroyed twice unnoticed", f"{log.count('destroy pool twice')} reports of {twice}")
        u.run(*(f"pool.del {k}" for k in live))


def scenarios(c):
    for i in range(c.pick(4, 20)):
        yield Scenario(f"buffers#{i}", buffers, nops=c.pick(3000, 12000))
    for i in range(c.pick(2, 6)):
        yield Scenario(f"pools#{i}", pools, nops=c.pick(800, 4000))
