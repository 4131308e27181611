"""Ordered maps, against a reference model, with nodes freed as soon as they are out of the map."""
from pv.check import Scenario, Violation
from pv.unit import Unit, h

ID = "T01"
TITLE = "The ordered map behaves as a map for every history and any kind of key"
STATEMENT = """After any sequence of insertions (covering and not), deletions and lookups, the map holds exactly one node per key, the
one last allowed in; a node that was deleted or replaced is no longer reachable from it. Walking it from either end visits every node once, in
ascending key order for numbers, signed ones included, and in one order for strings, backwards being the exact reverse of forwards. Keys
whose hashes collide are kept apart."""
OVER = ("inputs", "histories")
QUANT = "Every sequence of operations, for string, unsigned and signed keys and for colliding hashes, any size of map."
WHY = "Tree rotations, ties and extreme keys need long random histories; the tests insert a dozen keys once."
FILES = ["modules/nginx-toolkit-module/ngx_map.c", "modules/nginx-toolkit-module/ngx_map.h"]
MECH = [("insert, delete, find", "ngx_map_insert, ngx_map_delete, ngx_map_find"), ("walks", "ngx_map_begin, ngx_map_next, ngx_map_rbegin, ngx_map_prev"),
        ("keys", "ngx_map_hash_str, ngx_cmp_str, ngx_map_hash_uint, ngx_cmp_uint, ngx_map_hash_int, ngx_cmp_int")]
HARNESS = True
TECHNIQUE = "random operation histories run in a real worker under ASan/UBSan, checked online against a reference model"
NOTE = "Held on the histories run: a few hundred thousand operations, maps of up to some thousand keys."
RULE = "A case is one operation whose answer was compared with the model's; distinct by map, operation and state."


def shash(b):
    k = 0
    for x in b:
        k = (k * 31 + x) & 0xffffffffffffffff
    return k


def keys(rng, kind, n):
    if kind == "s":
        out = [b"", b"a", b"b", b"Aa", b"BB", b"AaAa", b"AaBB", b"BBAa", b"BBBB", b"\x00", b"\x00\x00", b"\xff" * 20]
        while len(out) < n:
            if rng.random() < 0.5:      # "Aa" and "BB" hash alike
                out.append(b"".join(rng.choice((b"Aa", b"BB")) for _ in range(rng.randint(1, 6))))
            else:
                out.append(bytes(rng.randrange(256) for _ in range(rng.randint(0, 12))))
    elif kind == "i":
        out = [0, 1, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 31, -2 ** 31, 2 ** 32, -2 ** 32]
        while len(out) < n:
            out.append(rng.randint(-2 ** rng.choice((4, 16, 33, 63)), 2 ** rng.choice((4, 16, 33, 62))))
    else:
        out = [0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 63 - 1, 2 ** 32]
        while len(out) < n:
            out.append(rng.randrange(2 ** rng.choice((3, 8, 16, 33, 64))))
    rng.shuffle(out)
    return list(dict.fromkeys(out[:n]))


def order(kind):
    if kind == "s":
        return lambda k: (shash(k), k)
    if kind == "c":
        return lambda k: (k & 3, k)
    return lambda k: k


def history(c, u, rng, kind, nkeys, nops, slot):
    ks = keys(rng, kind, nkeys)
    txt = {k: h(k) if kind == "s" else str(k) for k in ks}
    model, tag = {}, 0
    key = order(kind)
    u.run(f"map.new {slot} {kind}")
    bias = rng.choice((0.3, 0.5, 0.7))
    done = 0
    while done < nops:
        cmds, want, what = [], [], []
        for _ in range(min(200, nops - done)):
            k = rng.choice(ks)
            r = rng.random()
            if r < bias:
                cover = rng.random() < 0.5
                tag += 1
                cmds.append(f"map.ins {slot} {txt[k]} {int(cover)} {tag}")
                want.append("new" if k not in model else "replaced" if cover else "kept")
                if k not in model or cover:
                    model[k] = tag
            elif r < 0.85:
                cmds.append(f"map.del {slot} {txt[k]}")
                want.append(str(model.pop(k, "none")))
            else:
                cmds.append(f"map.find {slot} {txt[k]}")
                if k in model:
                    o = sorted(model, key=key)
                    i = o.index(k)
                    if kind == "s":         # the order of strings is the map's own business: judged by the walks
                        want.append((str(model[k]), None, None))
                    else:
                        want.append(f"{model[k]} {model[o[i - 1]] if i else 'none'} {model[o[i + 1]] if i + 1 < len(o) else 'none'}")
                else:
                    want.append("none")
            what.append(len(model))
            if rng.random() < 0.08:
                cmds.append(f"map.walk {slot}")
                if kind == "s":
                    want.append(("walk", frozenset(model.values()), len(model)))
                else:
                    o = [str(model[x]) for x in sorted(model, key=key)]
                    want.append((" ".join([str(int(not o)), "/"] + o + ["/"] + o[::-1])).strip())
                what.append(len(model))
        got = u.run(*cmds)
        if len(got) != len(cmds):
            raise Violation("answers", f"{len(got)} answers to {len(cmds)} commands")
        for q, g, w, n in zip(cmds, got, want, what):
            if isinstance(w, tuple) and w[0] == "walk":
                empty, fw, bw = (x.split() for x in g.split("/"))
                if fw != bw[::-1] or len(fw) != w[2] or {int(x) for x in fw} != w[1] or empty != [str(int(not fw))]:
                    raise Violation(f"walk-{kind}", f"{q}: {g}\nholds {sorted(w[1])}")
            elif isinstance(w, tuple):
                if g.split()[0] != w[0]:
                    raise Violation(f"find-{kind}", f"{q}: got {g}, expected {w[0]}")
            elif g != w:
                raise Violation(f"{q.split()[0]}-{kind}", f"{q}: got {g}, expected {w}")
            c.case((kind, slot, done, q), dict(kind=kind, command=q, answer=g[:80], size=n) if done == 0 else None)
            c.saw(q.split()[0])
            done += 1
    u.run(f"map.destroy {slot}")
    c.observed["largest map"] = max(c.observed.get("largest map", 0), max(what))


def scenario(c, rng):
    with Unit(c) as u:
        slot = 0
        for kind in "suic":
            for nkeys, nops in [(3, 300), (12, 600), (60, 1500), (400, 3000)] + ([(3000, 20000)] if c.thorough else []):
                history(c, u, rng, kind, nkeys, nops, slot)
                slot += 1


def scenarios(c):
    for i in range(c.pick(2, 12)):
        yield Scenario(f"s{i}", scenario)
