"""Servers that relays connect to: RTMP and HTTP-FLV, with scripted misbehaviour."""
import asyncio
import os
import struct
import time

from . import amf, media, rtmp
from .rtmp import AUDIO, VIDEO, AMF0_CMD, AMF0_META, USER, Msg


class Peer(rtmp.Client):
    """The server's end of a connection made by a relay."""

    def __init__(self, origin, rd, wr):
        super().__init__(name="origin peer")
        self.origin, self.rd, self.wr = origin, rd, wr
        self.cmds = []
        self.app = self.tcurl = self.stream = None
        self.connect_args = {}
        self.mode = None         # "publish" or "play" once accepted
        self.opened = time.monotonic()
        self.accepted = None
        self.msid = 1
        self.script = origin.script
        self.task = asyncio.create_task(self._serve())

    def stop_at(self, stage):
        """Whether the script makes this connection go wrong here."""
        s = self.script
        if s == "close@" + stage:
            self.wr.close()
            raise rtmp.Closed("script")
        if s == "abort@" + stage:
            self.wr.transport.abort()
            raise rtmp.Closed("script")
        return s == "hang@" + stage

    async def _serve(self):
        try:
            self.stop_at("accept")
            c0 = await self.rd.readexactly(1537)
            if self.stop_at("handshake"):
                await self.rd.read()
                raise rtmp.Closed("script")
            s1 = struct.pack(">II", 1, self.origin.version) + os.urandom(1528)
            self.wr.write(b"\x03" + s1 + c0[1:])
            await self.rd.readexactly(1536)
            self.tx = 0
            self.on_msg = self._msg
        except (asyncio.IncompleteReadError, ConnectionError, OSError, rtmp.RtmpError) as e:
            self.error = self.error or e
            self.closed = True
            self.wr.close()
            self.new.set()
            return
        try:
            await self._reader()
        except rtmp.Closed:
            self.closed = True
            self.new.set()
        self.wr.close()

    def _msg(self, m):
        if m.type != AMF0_CMD:
            return
        v = amf.decs(m.data)
        self.cmds.append(v)
        name = v[0]
        if name == "connect":
            self.connect_args = v[2]
            self.app, self.tcurl = v[2].get("app"), v[2].get("tcUrl")
            if self.stop_at("connect"):
                return
            self.send(Msg(rtmp.WIN_ACK, 0, 0, struct.pack(">I", 5000000), 2))
            self.set_chunk_size(self.origin.chunk_size)
            self.command("_result", v[1], dict(fmsVer="FMS/3,0,1,123", capabilities=31.0),
                         dict(level="status", code="NetConnection.Connect.Success", description="ok"))
        elif name == "createStream":
            if self.stop_at("create"):
                return
            self.command("_result", v[1], None, 1.0)
        elif name in ("publish", "play"):
            self.stream = v[3]
            if self.stop_at(name) or self.stop_at("stream"):
                return
            if self.script.startswith("error:"):
                code = self.script[6:]
                self.command("onStatus", 0.0, None, dict(level="error", code=code, description="no"), msid=1, csid=5)
                return
            self.send(Msg(USER, 0, 0, struct.pack(">HI", 0, 1), 2))
            self.command("onStatus", 0.0, None, dict(level="status", code=f"NetStream.{name.capitalize()}.Start", description="ok"), msid=1, csid=5)
            self.mode = name
            self.accepted = time.monotonic()
            self.origin.accepted(self)
        self.new.set()


class RtmpOrigin:
    """An RTMP server: .peers are all connections there ever were."""
    kind = "rtmp"

    def __init__(self, port, script="ok", chunk_size=4096, version=0):
        self.port, self.script, self.chunk_size, self.version = port, script, chunk_size, version
        self.peers = []
        self.server = None
        self.on_play = None
        self.once = False        # the script is for one connection

    async def up(self):
        if not self.server:
            self.server = await asyncio.start_server(self._client, "127.0.0.1", self.port)
        return self

    async def _client(self, rd, wr):
        self.peers.append(Peer(self, rd, wr))

    def accepted(self, p):
        if p.mode == "play" and self.on_play:
            self.on_play(p)

    def live(self):
        """Connections that relay a stream now."""
        return [p for p in self.peers if p.mode and not p.closed]

    def open(self):
        return [p for p in self.peers if not p.closed]

    async def down(self, abort=False):
        if self.server:
            self.server.close()
            self.server = None
        for p in self.open():
            await p.close(abort)


JUNK = {
    "status": b"HTTP/1.1 2x0 OK\r\n\r\n",
    "code": b"HTTP/1.1 200\x01OK\r\n\r\n",
    "rtmp": b"\x03" + bytes(1536),
    "text": b"hello world\r\n\r\n",
    "header": b"HTTP/1.1 200 OK\r\nA\x00b: c\r\n\r\n",
    "long": b"HTTP/1.1 200 OK\r\nX-Long: " + b"a" * 20000,
    "many": b"HTTP/1.1 200 OK\r\n" + b"".join(b"X-%d: %d\r\n" % (i, i) for i in range(5000)),
    "longstatus": b"HTTP/1.1 200 " + b"O" * 20000,
    "length": b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nFLV\1\5\0\0\0\x09\0\0\0\0",
    "empty": b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n",
    "chunked": b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n",
}


class HttpPeer:
    """A GET of a relay; frames given to av() become FLV tags."""

    def __init__(self, origin, rd, wr):
        self.origin, self.rd, self.wr = origin, rd, wr
        self.closed = False
        self.mode = None
        self.request = b""
        self.headers = {}
        self.script = origin.script
        self.task = asyncio.create_task(self._serve())

    def stop_at(self, stage):
        s = self.script
        if s == "close@" + stage:
            self.wr.close()
            raise rtmp.Closed("script")
        if s == "abort@" + stage:
            self.wr.transport.abort()
            raise rtmp.Closed("script")
        return s == "hang@" + stage

    async def _serve(self):
        try:
            self.stop_at("accept")
            head = await self.rd.readuntil(b"\r\n\r\n")
            lines = head.decode("latin-1").split("\r\n")
            self.request = lines[0]
            for x in lines[1:]:
                k, _, v = x.partition(":")
                if k:
                    self.headers[k.strip().lower()] = v.strip()
            if self.stop_at("request"):
                await self.rd.read()
                raise rtmp.Closed("script")
            o = self.origin
            if self.script.startswith("status:"):
                st = self.script[7:]
                self.wr.write(f"HTTP/1.1 {st} No\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".encode())
                await self.rd.read()
                raise rtmp.Closed("script")
            if self.script.startswith("junk:"):
                self.wr.write(JUNK[self.script[5:]])
                await self.rd.read()
                raise rtmp.Closed("script")
            h = "HTTP/1.1 200 OK\r\nContent-Type: video/x-flv\r\nConnection: close\r\n"
            if o.chunked:
                h += "Transfer-Encoding: chunked\r\n"
            self.wr.write((h + "\r\n").encode())
            if self.stop_at("header"):
                await self.rd.read()
                raise rtmp.Closed("script")
            self.body(b"FLV\1\5\0\0\0\x09\0\0\0\0")
            self.mode = "play"
            if o.on_play:
                o.on_play(self)
            await self.rd.read()
        except (asyncio.IncompleteReadError, ConnectionError, OSError, rtmp.RtmpError, asyncio.LimitOverrunError):
            pass
        self.closed = True
        self.wr.close()

    def body(self, data):
        if self.wr.is_closing():
            return
        if self.origin.chunked:
            r = self.origin.rng
            while data:
                n = r.choice((len(data), 1, 7, 100)) if r else len(data)
                d, data = data[:n], data[n:]
                self.wr.write(b"%x\r\n%s\r\n" % (len(d), d))
        else:
            self.wr.write(data)

    def av(self, type, ts, data, csid=None):
        self.body(bytes([type]) + len(data).to_bytes(3, "big") + (ts & 0xffffff).to_bytes(3, "big")
                  + bytes([ts >> 24 & 255]) + b"\0\0\0" + data + (len(data) + 11).to_bytes(4, "big"))

    async def drain(self):
        try:
            await asyncio.wait_for(self.wr.drain(), 30)
        except (ConnectionError, OSError):
            self.closed = True

    def finish(self):
        """The response is complete, the connection stays."""
        if self.origin.chunked and self.mode and not self.wr.is_closing():
            self.wr.write(b"0\r\n\r\n")
            self.mode = None
            return True

    async def close(self, abort=False):
        if not abort and self.origin.chunked and self.mode and not self.wr.is_closing():
            self.wr.write(b"0\r\n\r\n")
        if abort:
            self.wr.transport.abort()
        else:
            self.wr.close()
        self.closed = True
        self.task.cancel()


class HttpOrigin(RtmpOrigin):
    kind = "http"

    def __init__(self, port, script="ok", chunked=False, rng=None):
        super().__init__(port, script)
        self.chunked, self.rng = chunked, rng

    async def _client(self, rd, wr):
        self.peers.append(HttpPeer(self, rd, wr))
        if self.once:
            self.script, self.once = "ok", False
