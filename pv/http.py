"""A streaming HTTP client, and a strict FLV reader."""
import asyncio
import time
import json
import struct

from . import rtmp
from .rtmp import Msg


class HttpError(rtmp.RtmpError):
    pass


class Http:
    """One request; the body grows as it arrives."""

    def __init__(self, port, path, method="GET", headers=None, host="127.0.0.1", body=b"", version="1.1", rcvbuf=None):
        self.port, self.path, self.method, self.host = port, path, method, host
        self.hdrs = headers or {}
        self.reqbody, self.version, self.rcvbuf = body, version, rcvbuf
        self.status = None
        self.headers = {}
        self.body = bytearray()
        self.done = False        # the body is complete
        self.error = None
        self.new = asyncio.Event()
        self.task = None
        self.sink = None
        self.paused = None
        self.received = 0

    async def open(self):
        if self.rcvbuf:
            import socket
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, self.rcvbuf)
            s.setblocking(False)
            await asyncio.get_running_loop().sock_connect(s, ("127.0.0.1", self.port))
            self.rd, self.wr = await asyncio.open_connection(sock=s, limit=self.rcvbuf)
        else:
            self.rd, self.wr = await asyncio.wait_for(asyncio.open_connection("127.0.0.1", self.port), 20)
        h = {"Host": self.host, **self.hdrs}
        if self.reqbody:
            h["Content-Length"] = str(len(self.reqbody))
        self.wr.write((f"{self.method} {self.path} HTTP/{self.version}\r\n" + "".join(f"{k}: {v}\r\n" for k, v in h.items())
                       + "\r\n").encode("latin-1") + self.reqbody)
        await self.wr.drain()
        self.task = asyncio.create_task(self._run())
        return self

    def _add(self, data):
        self.received += len(data)
        if self.sink:
            self.sink(data)
        else:
            self.body += data
        self.new.set()

    async def _run(self):
        try:
            line = await self.rd.readline()
            if not line:
                raise HttpError("closed without a response")
            self.status = int(line.split()[1])
            while True:
                line = await self.rd.readline()
                if line in (b"\r\n", b"\n", b""):
                    break
                k, _, v = line.decode("latin-1").partition(":")
                self.headers.setdefault(k.strip().lower(), v.strip())
            self.new.set()
            if self.method == "HEAD" or self.status in (204, 304):
                self.done = True
            elif self.headers.get("transfer-encoding") == "chunked":
                while True:
                    if self.paused:
                        await self.paused.wait()
                    line = await self.rd.readline()
                    if not line:
                        raise HttpError("closed in the middle of a chunked body")
                    n = int(line.split(b";")[0], 16)
                    left = n
                    while left:
                        d = await self.rd.read(min(left, 65536))
                        if not d:
                            raise HttpError("closed in the middle of a chunk")
                        self._add(d)
                        left -= len(d)
                    if await self.rd.readline() != b"\r\n":
                        raise HttpError("chunk without an end")
                    if n == 0:
                        self.done = True
                        break
            elif "content-length" in self.headers:
                left = int(self.headers["content-length"])
                while left:
                    d = await self.rd.read(min(left, 65536))
                    if not d:
                        raise HttpError("closed in the middle of the body")
                    self._add(d)
                    left -= len(d)
                self.done = True
            else:
                while True:
                    if self.paused:
                        await self.paused.wait()
                    d = await self.rd.read(65536)
                    if not d:
                        break
                    self._add(d)
                self.done = True
        except (ConnectionError, OSError, ValueError, IndexError, rtmp.RtmpError, asyncio.IncompleteReadError) as e:
            self.error = e
        self.new.set()

    @property
    def ended(self):
        return self.done or self.error is not None

    async def wait(self, pred, timeout=20):
        loop = asyncio.get_running_loop()
        end = loop.time() + timeout
        while True:
            r = pred(self)
            if r:
                return r
            if self.ended:
                raise HttpError(f"{self.path}: ended ({self.status} {self.error}) after {self.received} bytes")
            self.new.clear()
            left = end - loop.time()
            if left <= 0:
                raise asyncio.TimeoutError(f"{self.path}: no answer ({self.status}, {self.received} bytes)")
            try:
                await asyncio.wait_for(self.new.wait(), left)
            except asyncio.TimeoutError:
                pass

    async def finish(self, timeout=20):
        """Wait for the end of the body."""
        loop = asyncio.get_running_loop()
        end = loop.time() + timeout
        while not self.ended:
            self.new.clear()
            left = end - loop.time()
            if left <= 0:
                raise asyncio.TimeoutError(f"{self.path}: no end of the body ({self.status}, {self.received} bytes)")
            try:
                await asyncio.wait_for(self.new.wait(), left)
            except asyncio.TimeoutError:
                pass
        return self

    async def close(self, abort=False):
        if self.task:
            self.task.cancel()
            try:
                await self.task
            except (asyncio.CancelledError, Exception):
                pass
        try:
            if abort:
                self.wr.transport.abort()
            else:
                self.wr.close()
                await asyncio.wait_for(self.wr.wait_closed(), 3)
        except (ConnectionError, OSError, asyncio.TimeoutError):
            pass


async def get(port, path, timeout=20, **kw):
    """(status, headers, body) of a complete response."""
    h = await Http(port, path, **kw).open()
    try:
        await h.finish(timeout)
        if h.error:
            raise HttpError(f"{path}: {h.error}")
        return h.status, h.headers, bytes(h.body)
    finally:
        await h.close()


class FlvError(rtmp.ChunkError):
    pass


class Flv:
    """A strict incremental FLV reader."""

    def __init__(self):
        self.buf = bytearray()
        self.flags = None
        self.tags = []           # Msg
        self.nbytes = 0

    def feed(self, data):
        self.nbytes += len(data)
        b = self.buf
        b += data
        out = []
        if self.flags is None:
            if len(b) < 13:
                if not b"FLV\1".startswith(bytes(b[:4])) and bytes(b[:4]) != b"FLV\1":
                    raise FlvError(f"not an FLV header: {bytes(b[:13])!r}")
                return out
            if b[:4] != b"FLV\1" or b[4] & ~5 or b[5:9] != b"\0\0\0\x09" or b[9:13] != b"\0\0\0\0":
                raise FlvError(f"bad FLV header {bytes(b[:13]).hex()}")
            self.flags = b[4]
            del b[:13]
        while len(b) >= 15:
            size = int.from_bytes(b[1:4], "big")
            if b[0] not in (8, 9, 18, 15):
                raise FlvError(f"tag type {b[0]} after {len(self.tags)} tags")
            if b[8:11] != b"\0\0\0":
                raise FlvError("stream id is not 0")
            if len(b) < 15 + size:
                break
            prev = int.from_bytes(b[11 + size:15 + size], "big")
            if prev != 11 + size:
                raise FlvError(f"previous tag size {prev}, tag was {11 + size}")
            ts = int.from_bytes(b[4:7], "big") | b[7] << 24
            m = Msg(b[0], ts, 0, bytes(b[11:11 + size]), 0, 0, time.monotonic())
            self.tags.append(m)
            out.append(m)
            del b[:15 + size]
        return out


class FlvPlayer(Http):
    """An HTTP-FLV subscriber with the interface live.judge and until_last want: .msgs, .wait(pred over messages)."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.flv = Flv()
        self.sink = self._flv
        self.name = self.path

    @property
    def msgs(self):
        return self.flv.tags

    def _flv(self, data):
        if self.status == 200:
            self.flv.feed(data)
        else:
            self.body += data

    async def wait_msg(self, pred, timeout=20, start=0):
        at = [start]

        def p(_):
            while at[0] < len(self.flv.tags):
                at[0] += 1
                if pred(self.flv.tags[at[0] - 1]):
                    return True
            return False

        return await self.wait(p, timeout)


class TsPlayer(Http):
    """An HTTP MPEG-TS subscriber: .ts.pes grows."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        from . import ts
        self.ts = ts.Ts()
        self.sink = self._ts

    def _ts(self, data):
        if self.status == 200:
            self.ts.feed(data)
        else:
            self.body += data


async def barrier(port, app="key"):
    """Every event the (single) worker had pending has been handled when this returns."""
    c = await rtmp.Client("127.0.0.1", port, "barrier").open()
    await c.connect(app)
    await c.create_stream()
    await c.close()


async def json_of(port, path, **kw):
    st, h, b = await get(port, path, **kw)
    if st != 200:
        raise HttpError(f"{path}: {st}")
    return json.loads(b)
