"""Independent RTMP implementation (handshake, chunk stream both ways, commands), asyncio."""
import asyncio
import os
import struct
import time

from . import amf

SET_CHUNK, ABORT, ACK, USER, WIN_ACK, BANDWIDTH = 1, 2, 3, 4, 5, 6
AUDIO, VIDEO, AMF0_META, AMF0_CMD, AGGREGATE = 8, 9, 18, 20, 22
AMF3_META, AMF3_CMD = 15, 17


class RtmpError(Exception):
    pass


class Closed(RtmpError):
    pass


class ChunkError(RtmpError):
    """The peer's chunk stream is not well formed."""


class Msg:
    __slots__ = ("type", "ts", "msid", "csid", "data", "t", "fmt")

    def __init__(self, type, ts, msid, data, csid=0, fmt=0, t=0.0):
        self.type, self.ts, self.msid, self.data, self.csid, self.fmt, self.t = type, ts, msid, data, csid, fmt, t

    def __repr__(self):
        return f"<{self.type} ts={self.ts} msid={self.msid} csid={self.csid} len={len(self.data)}>"


class Demux:
    """Strict reader of a chunk stream: feed bytes, get messages."""

    def __init__(self):
        self.buf = bytearray()
        self.chunk_size = 128
        self.cs = {}
        self.nbytes = 0
        self.nchunks = 0
        self.fmts = [0, 0, 0, 0]
        self.ext = 0

    def feed(self, data):
        self.buf += data
        self.nbytes += len(data)
        out = []
        while True:
            m = self._one()
            if m is None:
                return out
            if m is not False:
                out.append(m)
                if m.type == SET_CHUNK:
                    if len(m.data) < 4:
                        raise ChunkError("short set chunk size")
                    n = struct.unpack(">I", m.data[:4])[0]
                    if not 1 <= n <= 0x7fffffff:
                        raise ChunkError(f"chunk size {n}")
                    self.chunk_size = n

    def pending(self):
        """Bytes received that belong to no complete message."""
        return len(self.buf) + sum(len(c["data"]) for c in self.cs.values())

    def _one(self):
        b = self.buf
        if len(b) < 1:
            return None
        fmt, csid, i = b[0] >> 6, b[0] & 63, 1
        if csid == 0:
            if len(b) < 2:
                return None
            csid, i = 64 + b[1], 2
        elif csid == 1:
            if len(b) < 3:
                return None
            csid, i = 64 + b[1] + 256 * b[2], 3
        st = self.cs.get(csid)
        if st is None:
            if fmt != 0:
                raise ChunkError(f"chunk stream {csid} starts with fmt {fmt}")
            st = dict(ts=0, len=0, type=0, msid=0, data=bytearray(), delta=0, ext=False, field=0, fmt=0)
        new = dict(st)
        n = (11, 7, 3, 0)[fmt]
        if len(b) < i + n:
            return None
        mid = len(st["data"]) > 0
        if mid and fmt != 3:
            raise ChunkError(f"fmt {fmt} in the middle of a message on chunk stream {csid}")
        if fmt <= 2:
            field = int.from_bytes(b[i:i + 3], "big")
            new["ext"] = field == 0xffffff
            if fmt <= 1:
                new["len"] = int.from_bytes(b[i + 3:i + 6], "big")
                new["type"] = b[i + 6]
                if fmt == 0:
                    new["msid"] = int.from_bytes(b[i + 7:i + 11], "little")
            new["field"] = field
        i += n
        if new["ext"]:
            if len(b) < i + 4:
                return None
            e = int.from_bytes(b[i:i + 4], "big")
            i += 4
            if mid or fmt == 3:
                if e != new["field"]:
                    raise ChunkError(f"extended timestamp {e} of a continuation chunk differs from {new['field']}")
            new["field"] = e
        if not mid:
            if fmt == 0:
                new["ts"] = new["field"]
                new["delta"] = new["field"]
                new["fmt"] = 0
            elif fmt in (1, 2):
                new["delta"] = new["field"]
                new["ts"] = (st["ts"] + new["field"]) & 0xffffffff
                new["fmt"] = fmt
            else:
                # a new message with fmt 3 repeats the last delta (a fmt 0 one's timestamp as the delta)
                new["ts"] = (st["ts"] + new["delta"]) & 0xffffffff
        size = min(self.chunk_size, new["len"] - len(st["data"]))
        if len(b) < i + size:
            return None
        self.nchunks += 1
        self.fmts[fmt] += 1
        self.ext += new["ext"]
        new["data"] = st["data"] + b[i:i + size]
        del b[:i + size]
        if len(new["data"]) >= new["len"]:
            m = Msg(new["type"], new["ts"], new["msid"], bytes(new["data"]), csid, fmt, time.monotonic())
            new["data"] = bytearray()
            self.cs[csid] = new
            return m
        self.cs[csid] = new
        return False


def basic_header(fmt, csid, form=None):
    """form: force the 1, 2 or 3 byte form."""
    if form is None:
        form = 1 if csid < 64 else 2 if csid < 320 else 3
    if form == 1:
        return bytes([fmt << 6 | csid])
    if form == 2:
        return bytes([fmt << 6, csid - 64])
    return bytes([fmt << 6 | 1, (csid - 64) & 255, (csid - 64) >> 8])


class Mux:
    """Writer: messages to chunks; fmt=None picks 0 for the first and 1 afterwards."""

    def __init__(self):
        self.chunk_size = 128
        self.cs = {}

    def message(self, m, fmt=None, form=None):
        """The list of chunks of a message (each bytes)."""
        st = self.cs.get(m.csid)
        if fmt is None:
            fmt = 1 if st and st["msid"] == m.msid and m.ts >= st["ts"] else 0
        if fmt == 0:
            field = m.ts & 0xffffffff
        else:
            field = (m.ts - st["ts"]) & 0xffffffff
        f = min(field, 0xffffff)
        h = basic_header(fmt, m.csid, form)
        if fmt <= 2:
            h += f.to_bytes(3, "big")
        if fmt <= 1:
            h += len(m.data).to_bytes(3, "big") + bytes([m.type])
        if fmt == 0:
            h += m.msid.to_bytes(4, "little")
        ext = b""
        if f == 0xffffff:
            ext = field.to_bytes(4, "big")
        out = [h + ext + m.data[:self.chunk_size]]
        i = self.chunk_size
        while i < len(m.data):
            out.append(basic_header(3, m.csid, form) + ext + m.data[i:i + self.chunk_size])
            i += self.chunk_size
        self.cs[m.csid] = dict(ts=m.ts, msid=m.msid, len=len(m.data), type=m.type, delta=field)
        return out


class Client:
    """One RTMP connection."""

    def __init__(self, host="127.0.0.1", port=1935, name=""):
        self.host, self.port, self.name = host, port, name
        self.demux, self.mux = Demux(), Mux()
        self.msgs = []           # every message received
        self.closed = False
        self.error = None
        self.tx = 0
        self.window = 0
        self.acks = []
        self.new = asyncio.Event()
        self.auto_ack = True
        self.pong = True         # answer pings
        self.acked = 0
        self.on_msg = None
        self.rd = self.wr = self.task = None
        self.paused = None

    async def open(self, handshake=True, timeout=20, unix=None, rcvbuf=None, local=None, prefix=b""):
        """local: the address to connect from; prefix: bytes to send before the handshake."""
        if unix:
            self.rd, self.wr = await asyncio.wait_for(asyncio.open_unix_connection(unix), timeout)
        elif rcvbuf:
            import socket
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            s.setblocking(False)
            await asyncio.get_running_loop().sock_connect(s, (self.host, self.port))
            self.rd, self.wr = await asyncio.open_connection(sock=s, limit=rcvbuf)
        else:
            self.rd, self.wr = await asyncio.wait_for(asyncio.open_connection(
                self.host, self.port, local_addr=(local, 0) if local else None), timeout)
        if prefix:
            self.wr.write(prefix)
        if handshake:
            await asyncio.wait_for(self.handshake(), timeout)
            self.task = asyncio.create_task(self._reader())
        return self

    async def handshake(self, c1=None):
        c1 = c1 or (struct.pack(">II", 0, 0) + os.urandom(1528))
        self.wr.write(b"\x03" + c1)
        await self.wr.drain()
        try:
            s0 = await self.rd.readexactly(1)
            s1 = await self.rd.readexactly(1536)
            s2 = await self.rd.readexactly(1536)
        except (asyncio.IncompleteReadError, ConnectionError) as e:
            raise Closed(f"handshake: {e}")
        self.s0, self.s1, self.s2, self.c1 = s0, s1, s2, c1
        self.wr.write(s1)
        await self.wr.drain()
        self.tx = 0

    async def _reader(self):
        try:
            while True:
                if self.paused:
                    await self.paused.wait()
                data = await self.rd.read(65536)
                if not data:
                    break
                for m in self.demux.feed(data):
                    self.msgs.append(m)
                    if m.type == WIN_ACK and len(m.data) >= 4:
                        self.window = struct.unpack(">I", m.data[:4])[0]
                    elif m.type == ACK and len(m.data) >= 4:
                        self.acks.append((struct.unpack(">I", m.data[:4])[0], self.tx))
                    elif m.type == USER and len(m.data) >= 6 and m.data[:2] == b"\0\6" and self.pong:
                        self.send(Msg(USER, 0, 0, b"\0\7" + m.data[2:6], 2))
                    if self.on_msg:
                        self.on_msg(m)
                if self.auto_ack and self.window and self.demux.nbytes - self.acked > self.window // 2:
                    self.acked = self.demux.nbytes
                    self.send(Msg(ACK, 0, 0, struct.pack(">I", self.acked & 0xffffffff), 2))
                self.new.set()
        except (ConnectionError, OSError) as e:
            self.error = self.error or e
        except ChunkError as e:
            self.error = e
        self.closed = True
        self.new.set()

    def send(self, m, fmt=None):
        self.raw(b"".join(self.mux.message(m, fmt)))

    def raw(self, b):
        if self.wr.is_closing():
            return
        self.tx += len(b)
        self.wr.write(b)

    async def drain(self):
        try:
            await asyncio.wait_for(self.wr.drain(), 30)
        except (ConnectionError, OSError):
            self.closed = True

    def set_chunk_size(self, n):
        self.send(Msg(SET_CHUNK, 0, 0, struct.pack(">I", n), 2))
        self.mux.chunk_size = n

    def command(self, *args, msid=0, csid=3, ts=0):
        self.send(Msg(AMF0_CMD, ts, msid, amf.encs(*args), csid))

    async def wait(self, pred, timeout=20, start=0):
        """The first message from index start on for which pred holds."""
        end = time.monotonic() + timeout
        i = start
        while True:
            while i < len(self.msgs):
                r = pred(self.msgs[i])
                if r:
                    return r
                i += 1
            if self.closed:
                raise Closed(f"{self.name}: closed by the server ({self.error})")
            self.new.clear()
            left = end - time.monotonic()
            if left <= 0:
                raise asyncio.TimeoutError(f"{self.name}: no answer")
            try:
                await asyncio.wait_for(self.new.wait(), left)
            except asyncio.TimeoutError:
                pass

    @staticmethod
    def is_cmd(m, name=None):
        if m.type != AMF0_CMD:
            return None
        try:
            v = amf.decs(m.data)
        except amf.AmfError:
            return None
        return v if not name or v[0] in ((name,) if isinstance(name, str) else name) else None

    async def connect(self, app, tcurl=None, timeout=20, **kw):
        tcurl = tcurl or f"rtmp://{self.host}:{self.port}/{app}"
        n = len(self.msgs)
        self.command("connect", 1.0, dict(dict(app=app, flashVer="LNX 9,0,124,2", tcUrl=tcurl, fpad=False,
                                               capabilities=15.0, audioCodecs=4071.0, videoCodecs=252.0,
                                               videoFunction=1.0), **kw))
        await self.drain()
        r = await self.wait(lambda m: self.is_cmd(m, ("_result", "_error")), timeout, n)
        if r[0] != "_result":
            raise RtmpError(f"connect: {r}")
        return r

    async def create_stream(self, timeout=20, trans=2.0):
        n = len(self.msgs)
        self.command("createStream", trans, None)
        await self.drain()
        r = await self.wait(lambda m: self.is_cmd(m, ("_result", "_error")), timeout, n)
        if r[0] != "_result":
            raise RtmpError(f"createStream: {r}")
        self.msid = int(r[3])
        return self.msid

    async def publish(self, name, type="live", timeout=20):
        n = len(self.msgs)
        self.command("publish", 3.0, None, name, type, msid=self.msid, csid=8)
        await self.drain()
        return await self.status(timeout, n)

    async def status(self, timeout=20, start=0):
        def status(m):
            r = self.is_cmd(m, ("onStatus", "_error"))
            rec = r and len(r) > 3 and isinstance(r[3], dict) and str(r[3].get("code")).startswith("NetStream.Record")
            return None if rec else r

        r = await self.wait(status, timeout, start)
        info = r[3] if len(r) > 3 and isinstance(r[3], dict) else {}
        return info.get("code") if info.get("level") != "error" else "error:" + str(info.get("code"))

    async def play(self, name, timeout=20, start=-2000.0):
        n = len(self.msgs)
        self.command("play", 4.0, None, name, start, msid=self.msid, csid=8)
        await self.drain()
        return n

    def av(self, type, ts, data, csid=None):
        self.send(Msg(type, ts, self.msid, data, csid or {AUDIO: 4, VIDEO: 6, AMF0_META: 5}[type]))

    async def close(self, abort=False):
        if self.task:
            self.task.cancel()
            try:
                await self.task
            except (asyncio.CancelledError, Exception):
                pass
        if self.wr:
            try:
                if abort:
                    self.wr.transport.abort()
                else:
                    self.wr.close()
                    await asyncio.wait_for(self.wr.wait_closed(), 3)
            except (ConnectionError, OSError, asyncio.TimeoutError):
                pass
        self.closed = True


async def publisher(port, app, name, host="127.0.0.1", tcurl=None, chunk=None, **kw):
    c = await Client(host, port, "pub " + name).open()
    await c.connect(app, tcurl, **kw)
    if chunk:
        c.set_chunk_size(chunk)
    await c.create_stream()
    c.result = await c.publish(name)
    return c


async def player(port, app, name, host="127.0.0.1", tcurl=None, **kw):
    c = await Client(host, port, "play " + name).open()
    await c.connect(app, tcurl, **kw)
    await c.create_stream()
    await c.play(name)
    return c


def av(c):
    """The audio, video and metadata messages a client received."""
    return [m for m in c.msgs if m.type in (AUDIO, VIDEO, AMF0_META)]
