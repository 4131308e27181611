"""URLs, addresses, ports and digests, against reference parsers."""
import hashlib
import ipaddress
import os
import socket

from pv.check import Scenario, Violation
from pv.unit import Unit, h, unh

ID = "T04"
TITLE = "URLs, addresses, ports and digests are taken apart exactly"
STATEMENT = """A URL of the documented form yields exactly its scheme, user, host, port, path, arguments and fragment, whatever separators
the later parts contain, one that lacks a scheme, or in which a user, port, argument or fragment announced is empty, is refused, and no input makes the
parser read beyond its end. An IPv4, IPv6 or UNIX address with its port is converted to just that address or refused, a port is the one
given, or its scheme's default, or none, a worker's own port is the base port plus its number within the valid range, and a
file's digest is its MD5 for any content and length."""
OVER = ("inputs",)
QUANT = "Every URL, address and port text, every worker number, every file."
WHY = "Separators in odd places, exact ends of memory and numbers at limits are more than the few texts the tests sample."
FILES = ["modules/nginx-toolkit-module/ngx_toolkit_misc.c", "modules/nginx-multiport-module/ngx_multiport_misc.c"]
MECH = [("URLs", "ngx_parse_request_url, ngx_request_port"), ("addresses", "ngx_sock_pton"), ("workers' ports", "ngx_multiport_get_port"),
        ("digests", "ngx_md5_file")]
HARNESS = True
TECHNIQUE = "generated and mutated texts in exactly sized memory under ASan/UBSan, every result compared with a reference model's"
NOTE = """Held on the inputs generated. URLs outside of the documented form (arguments without a path, a fragment without arguments) and IPv6
addresses without a port are only watched for memory errors."""
RULE = "A case is one text whose result was compared with the model's, or that was parsed under the sanitizers; distinct by text."

NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."


def word(rng, extra="", lo=1, hi=12):
    return "".join(rng.choice(NAME + extra * 4) for _ in range(rng.randint(lo, hi)))


def url(rng):
    """A URL of the documented form with its parts, or with something announced and empty."""
    scheme = rng.choice(("http", "https", "rtmp", "ftp", "h", "ws", word(rng)))
    user = word(rng, ":", 1, 6) if rng.random() < 0.3 else ""
    host = rng.choice(("127.0.0.1", "localhost", word(rng)))
    port = str(rng.choice((1, 80, 1935, 65535, 0, 65536, 99999999999999999999, rng.randrange(70000)))) if rng.random() < 0.5 else ""
    path = word(rng, "/:@", 1, 20) if rng.random() < 0.7 else ""
    slash = path or rng.random() < 0.5
    args = word(rng, "/:@?=&", 1, 20) if path and rng.random() < 0.6 else ""
    frag = word(rng, "/:@?=&#", 1, 10) if args and rng.random() < 0.4 else ""
    if args:
        args = args.replace("#", "")
    t = f"{scheme}://"
    bad = False
    if user:
        user = user.replace("/", "")
        t += user + "@"
    elif rng.random() < 0.05:
        t += "@"
        bad = True
    t += host
    if port:
        t += ":" + port
    elif rng.random() < 0.05:
        t += ":"
        bad = True
    if slash:
        t += "/" + path
    if args:
        t += "?" + args
        if frag:
            t += "#" + frag
        elif rng.random() < 0.1:
            t += "#"
            bad = True
    elif path and rng.random() < 0.1:
        t += "?"
        bad = True
    if bad:
        return t, None
    hp = host + (":" + port if port else "")
    ua = path + ("?" + args if args else "") + ("#" + frag if frag else "")
    n = int(port) if port else {"http": 80, "https": 443, "rtmp": 1935}.get(scheme, 0)
    return t, (scheme, user, host, port, path, args, frag, hp, ua, n if 1 <= n <= 65535 else 0)


def expect(c, u, cases, what):
    """cases: (command, answer or None, sample)"""
    for i in range(0, len(cases), 300):
        part = cases[i:i + 300]
        got = u.run(*(q for q, _, _ in part))
        if len(got) != len(part):
            raise Violation(f"{what}: answers", f"{len(got)} of {len(part)}")
        for (q, w, s), g in zip(part, got):
            c.case((what, q), dict(text=str(s)[:80], answer=g[:120]) if i == 0 and q is part[0][0] else None)
            c.saw(what)
            if w is not None and g != w:
                raise Violation(what, f"{s!r}: got {show(g)}, expected {show(w)}")


def show(line):
    out = []
    for x in line.split():
        try:
            out.append(x if len(x) < 4 else unh(x).decode("latin-1"))
        except ValueError:
            out.append(x)
    return out


def urls(c, rng, n):
    cases = []
    for _ in range(n):
        t, parts = url(rng)
        want = "-1" if parts is None else "0 " + " ".join(h(x) for x in parts[:9]) + f" {parts[9]}"
        cases.append((f"misc.url {h(t)}", want, t))
        if rng.random() < 0.5:      # broken in some way: nothing but the memory is judged
            b = bytearray(t.encode())
            for _ in range(rng.randint(1, 3)):
                r = rng.random()
                if r < 0.4:
                    del b[rng.randrange(len(b) + 1):]
                elif r < 0.7 and b:
                    b[rng.randrange(len(b))] = rng.choice(b":/@?#\0a[]")
                else:
                    b.insert(rng.randrange(len(b) + 1), rng.choice(b":/@?#\0a[]"))
            want = "-1" if b"://" not in bytes(b).split(b"\0")[0] else None
            cases.append((f"misc.url {h(bytes(b))}", want, bytes(b)))
    for _ in range(n // 4):
        s = rng.choice(("http", "https", "rtmp", "rtp", "", "htt", "httpss", "rtm"))
        p = rng.choice(("", "0", "1", "65535", "65536", "-1", "+5", "080", "8 ", "abcd", "1a", "18446744073709551617", str(rng.randrange(80000))))
        v = {"http": 80, "https": 443, "rtmp": 1935}.get(s, 0) if not p else int(p) if p.isdigit() and 1 <= int(p) <= 65535 else 0
        cases.append((f"misc.port {h(s)} {h(p)}", str(v), (s, p)))
    with Unit(c) as u:
        expect(c, u, cases, "urls and ports")


def v4(rng):
    return ".".join(str(rng.choice((0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 255, rng.randrange(256)))) for _ in range(4))


def addresses(c, rng, n):
    cases = []
    for _ in range(n):
        r = rng.random()
        port = rng.choice((0, 1, 80, 65535, rng.randrange(65536)))
        if r < 0.25:
            a = v4(rng)
            withport = rng.random() < 0.7
            t = a + (f":{port}" if withport else "")
            want = "0" if a == "255.255.255.255" else f"16 {socket.AF_INET} " + h(f"{a}:{port if withport else 0}")
        elif r < 0.45:
            a = ipaddress.IPv6Address(rng.choice((0, 1, 2 ** 128 - 1, rng.getrandbits(128), rng.getrandbits(16) << 112, rng.getrandbits(32),
                                                  rng.getrandbits(16) << rng.randrange(0, 112))))
            t = f"[{rng.choice((a.compressed, a.exploded, a.compressed.upper()))}]:{port}"
            want = ("v6", a, port)
        elif r < 0.55:
            p = "/" + word(rng, "/:[]", 0, rng.choice((5, 60, 106)))
            if rng.random() < 0.3:
                p = "/" + "x" * rng.choice((105, 106, 107, 108, 200))
            t = rng.choice(("unix:", "UNIX:")) + p
            want = f"110 {socket.AF_UNIX} " + h("unix:" + p) if len(p) <= 107 else "0"
        elif r < 0.75:
            t, want = rng.choice((("unix:", "0"), ("", "0"), (f"{v4(rng)}:", "0"), (f"{v4(rng)}:65536", "0"), (f"{v4(rng)}:-1", "0"),
                                  (f"{v4(rng)}:8x", "0"), ("1.2.3", "0"), ("1.2.3.4.5", "0"), ("256.1.1.1", "0"), ("1.2.3.1234:5", "0"),
                                  ("a.b.c.d:80", "0"), (word(rng, ":") + "x", "0"), ("[::1]:", "0"), ("[::1]:65536", "0"),
                                  ("[::1]:x", "0"), ("[::g]:80", "0"), ("[1:2:3:4:5:6:7:8:9]:80", "0"), ("[1:2:3]:80", "0"),
                                  ("[]:80", "0"), ("[::1:80", "0"), ("[", "0"), (":80", "0"), ("[::1::2]:80", "0")))
        else:
            b = bytearray(rng.choice((v4(rng) + f":{port}", f"[::{v4(rng)}]:{port}", f"unix:/{word(rng)}", f"[{word(rng, ':')}]:{port}")).encode())
            for _ in range(rng.randint(1, 4)):
                q = rng.random()
                if q < 0.3:
                    del b[rng.randrange(len(b) + 1):]
                elif q < 0.6 and b:
                    b[rng.randrange(len(b))] = rng.choice(b":.[]/0u\0")
                else:
                    b.insert(rng.randrange(len(b) + 1), rng.choice(b":.[]/9f\0"))
            t, want = bytes(b), None
        cases.append((f"misc.pton {h(t)}", want, t))
    with Unit(c) as u:
        plain = [(q, None if isinstance(w, tuple) else w, s) for q, w, s in cases]
        expect(c, u, plain, "addresses")
        six = [x for x in cases if isinstance(x[1], tuple)]
        for (q, w, s), g in zip(six, u.run(*(x[0] for x in six))):
            f = g.split()
            ok = f[0] == "28" and f[1] == str(int(socket.AF_INET6))
            if ok:
                a, _, p = unh(f[2]).decode().rpartition(":")
                ok = ipaddress.IPv6Address(a.strip("[]")) == w[1] and int(p) == w[2]
            if not ok:
                raise Violation("addresses: IPv6", f"{s}: got {g} {show(g)}")


def mports(c, rng, n):
    cases = []
    for _ in range(n):
        slot = rng.choice((0, 1, 2, 126, 127, rng.randrange(128), -1, 128, -100, 1000))
        base = rng.choice((0, 1, 9, 99, 1935, 65408, 65409, 65535, 70000, 65408 - max(0, min(slot, 127)), 65409 - max(0, min(slot, 127)), rng.randrange(65536)))
        host = rng.choice(("", "", v4(rng) + ":", "[::1]:", "[" + ipaddress.IPv6Address(rng.getrandbits(128)).compressed + "]:", "*:", word(rng) + ":"))
        ok = 0 <= slot <= 127
        r = rng.random()
        if r < 0.6:
            t = f"{host}{base}"
            ok = ok and base >= 1 and base + slot <= 65408
            want = f"0 {h(f'{host}{base + slot}')}" if ok else "-1 -"
        elif r < 0.75:
            t = rng.choice(("unix:", "Unix:")) + "/" + word(rng, "/:", 0, 60)
            want = f"0 {h(f'{t}.{slot}')}" if ok else "-1 -"
        else:
            t = rng.choice(("", ":", "abc", "1.2.3.4:", "1.2.3.4:x", "[::1]", "[::1]:", "[::1", "[", "[::1]8", "1 ", "-1", "1:2:3", "12345678901234567890123"))
            want = "-1 -"
        cases.append((f"misc.mport {h(t)} {slot}", want, (t, slot)))
    with Unit(c) as u:
        expect(c, u, cases, "workers' ports")


def digests(c, rng, n):
    with Unit(c) as u:
        cases = []
        for i in range(n):
            size = rng.choice((0, 1, 55, 56, 63, 64, 65, 8191, 8192, 8193, 16384, rng.randrange(100), rng.randrange(100000)))
            data = rng.randbytes(size)
            p = f"{u.inst.dir}/f{i}"
            with open(p, "wb") as f:
                f.write(data)
            cases.append((f"misc.md5 {p}", f"0 {hashlib.md5(data).hexdigest()}", f"{size} bytes"))
        cases.append((f"misc.md5 {u.inst.dir}/none", "-1 ", "no file"))
        cases.append((f"misc.md5 {u.inst.dir}", "-1 ", "directory"))
        expect(c, u, cases, "digests")
        for _ in range(n):
            b = rng.randbytes(rng.choice((0, 1, 7, 100, 5000)))
            cases.append((f"misc.copy {h(b)}", f"0 {h(b)}", b[:20]))
        expect(c, u, cases[n + 2:], "copies")


def scenarios(c):
    for i in range(c.pick(2, 10)):
        yield Scenario(f"urls#{i}", urls, n=c.pick(4000, 30000))
        yield Scenario(f"addresses#{i}", addresses, n=c.pick(4000, 30000))
        yield Scenario(f"ports#{i}", mports, n=c.pick(3000, 20000))
        yield Scenario(f"digests#{i}", digests, n=c.pick(100, 400))
