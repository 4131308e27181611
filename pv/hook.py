"""A callback server: records every request, and answers as told (well or badly)."""
import asyncio
import urllib.parse


class Call:
    def __init__(self, t, line, headers):
        self.t = t                       # when it had been read
        self.answered = None             # when the first byte of an answer was about to be written
        self.line = line
        self.headers = headers
        parts = line.split(" ")
        self.method, self.target, self.version = (parts + ["", "", ""])[:3]
        self.path, _, q = self.target.partition("?")
        self.query = q
        self.args = {}
        for kv in q.split("&"):
            k, _, v = kv.partition("=")
            self.args.setdefault(urllib.parse.unquote(k, errors="surrogateescape"),
                                 urllib.parse.unquote(v, errors="surrogateescape"))
        self.act, self.call, self.name = self.args.get("act"), self.args.get("call"), self.args.get("name")

    def __repr__(self):
        return self.line


def response(status, headers=(), body=b"", version="1.1", length=True):
    h = "".join(f"{k}: {v}\r\n" for k, v in headers)
    if length:
        h += f"Content-Length: {len(body)}\r\n"
    return f"HTTP/{version} {status} X\r\n{h}\r\n".encode("latin-1") + body


class Hook:
    """policy(call) -> list of steps: bytes to send, a number of seconds to wait, "close", "reset" or "hang"."""

    def __init__(self, policy):
        self.policy = policy
        self.calls = []
        self.bad = []                    # requests that are not requests
        self.server = None
        self.conns = set()
        self.gone = 0                    # connections the caller closed before the answer
        self.loop = asyncio.get_running_loop()
        self.new = asyncio.Event()

    async def start(self, port):
        self.port = port
        self.server = await asyncio.start_server(self._conn, "127.0.0.1", port)
        return self

    async def _conn(self, rd, wr):
        me = asyncio.current_task()
        self.conns.add(me)
        try:
            while True:
                line = await rd.readline()
                if not line:
                    return
                raw = [line]
                headers = {}
                while True:
                    h = await rd.readline()
                    raw.append(h)
                    if h in (b"\r\n", b"\n", b""):
                        break
                    k, _, v = h.decode("latin-1").partition(":")
                    headers[k.strip().lower()] = v.strip()
                text = line.decode("latin-1").rstrip("\r\n")
                if not raw[-1] or not text.startswith(("GET ", "HEAD ", "POST ")) or " HTTP/1." not in text or text.count(" ") != 2:
                    self.bad.append(b"".join(raw))
                n = int(headers.get("content-length", 0))
                if n:
                    await rd.readexactly(n)
                call = Call(self.loop.time(), text, headers)
                self.calls.append(call)
                self.new.set()
                for step in self.policy(call):
                    if isinstance(step, (int, float)):
                        await asyncio.sleep(step)
                    elif step == "close":
                        return
                    elif step == "reset":
                        wr.transport.abort()
                        return
                    elif step == "hang":
                        await rd.read(1)
                        self.gone += 1
                        return
                    else:
                        if call.answered is None:
                            call.answered = self.loop.time()
                        wr.write(step)
                        await wr.drain()
        except (ConnectionError, asyncio.IncompleteReadError, asyncio.CancelledError):
            pass
        finally:
            self.conns.discard(me)
            wr.close()

    async def wait(self, pred, timeout=20):
        """Wait for a call that satisfies pred."""
        end = self.loop.time() + timeout
        seen = 0
        while True:
            for c in self.calls[seen:]:
                seen += 1
                if pred(c):
                    return c
            self.new.clear()
            left = end - self.loop.time()
            if left <= 0:
                raise asyncio.TimeoutError("no such call")
            try:
                await asyncio.wait_for(self.new.wait(), left)
            except asyncio.TimeoutError:
                pass

    async def stop(self):
        self.server.close()
        for t in list(self.conns):
            t.cancel()
        await asyncio.sleep(0)
