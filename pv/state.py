"""What the modules say they have in use (harness command sys.state)."""
import re

from . import http


async def get(port, path="/unit", timeout=20):
    h = await http.Http(port, path, method="POST", body=b"sys.state\nsys.timers\nsys.fds\nsys.heap", headers={"Connection": "close"}).open()
    await h.finish(timeout)
    await h.close()
    if h.status != 200:
        raise http.HttpError(f"state: {h.status} {h.error}")
    return parse(h.body.decode())


def parse(text):
    """name -> number in use"""
    n = {}
    for k, v in re.findall(r"([A-Za-z_ ]+): (\d+)", text):
        m = re.fullmatch(r"(\S+) n?(alloc|free)(.*)", k)
        if k == "connections free":
            n["connections"] = -int(v)
        elif k == "ngx_rbuf nalloc node" or k.startswith("ngx_stream_zone") and not k.endswith("alloc"):
            pass
        elif m:
            name = m[1] + m[3]
            n[name] = n.get(name, 0) + (int(v) if m[2] == "alloc" else -int(v))
        else:
            n[k] = int(v)
    return n


def diff(a, b, ignore=("ngx_live server", "heap")):
    """What is in use in b beyond a."""
    return {k: b[k] - a.get(k, 0) for k in b if b[k] != a.get(k, 0) and k not in ignore}
