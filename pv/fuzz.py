"""Hostile RTMP sessions, made from a random generator only: each is a list of byte strings to write."""
import struct

from . import amf, media
from .rtmp import Msg, Mux, basic_header

CMDS = ["connect", "createStream", "publish", "play", "play2", "deleteStream", "closeStream", "pause", "pauseraw",
        "seek", "releaseStream", "FCPublish", "FCUnpublish", "FCSubscribe", "_checkbw", "_result", "_error",
        "onStatus", "@setDataFrame", "onMetaData", "receiveAudio", "receiveVideo", "onFCPublish", "", "onBWDone"]


def rstr(rng, maxlen=40):
    k = rng.random()
    if k < 0.05:
        n = rng.choice([255, 256, 257, 511, 512, 513, 1023, 1024, 2000, 4096, 9000])
    else:
        n = rng.randrange(maxlen)
    if rng.random() < 0.5:
        return "".join(rng.choice("abc/?&=.%:*_-19 ") for _ in range(n))
    return "".join(chr(rng.randrange(1, 128)) for _ in range(n))


def rvalue(rng, depth=0):
    k = rng.randrange(12 if depth < 3 else 8)
    if k <= 1:
        return rng.choice([0.0, 1.0, -1.0, 1e300, -1e300, float("nan"), float("inf"), 4294967296.0, 0.5, 65536.0,
                           float(rng.randrange(1 << 32))])
    if k == 2:
        return rng.random() < 0.5
    if k in (3, 4):
        return rstr(rng)
    if k == 5:
        return None
    if k == 6:
        return amf.UNDEF
    if k == 7:
        return amf.LongStr(rstr(rng))
    if k == 8:
        return {rstr(rng, 12): rvalue(rng, depth + 1) for _ in range(rng.randrange(5))}
    if k == 9:
        return amf.EcmaArray({rstr(rng, 12): rvalue(rng, depth + 1) for _ in range(rng.randrange(5))})
    if k == 10:
        return [rvalue(rng, depth + 1) for _ in range(rng.randrange(5))]
    return amf.Date(rng.random() * 1e12)


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 4, 16])):
        k = rng.randrange(6)
        if not b:
            b += bytes([rng.randrange(256)])
        i = rng.randrange(len(b))
        if k == 0:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[i] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif k == 2:
            del b[i:i + rng.choice([1, 2, 4, 8, 64])]
        elif k == 3:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 8])))
        elif k == 4:
            b[i:] = b""
        else:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.randrange(1, 30)]
    return bytes(b)


def connect_body(rng, app="live", port=1935, wild=False):
    o = dict(app=app, flashVer="FMLE/3.0", swfUrl="", tcUrl=f"rtmp://127.0.0.1:{port}/{app}", fpad=False,
             capabilities=15.0, audioCodecs=4071.0, videoCodecs=252.0, videoFunction=1.0, pageUrl="",
             objectEncoding=rng.choice([0.0, 0.0, 3.0]))
    if wild:
        for _ in range(rng.randrange(1, 4)):
            k = rng.choice(list(o) + [rstr(rng, 10)])
            if rng.random() < 0.3:
                o.pop(k, None)
            else:
                o[k] = rng.choice([rvalue(rng), rstr(rng), "live?" + rstr(rng), "a/b/" + rstr(rng),
                                   "rtmp://" + rstr(rng), "rtmp://h:1/live?vhost=" + rstr(rng)])
    return amf.encs("connect", 1.0, o)


def command(rng, name=None, stream="s"):
    name = rng.choice(CMDS) if name is None else name
    args = [name, rng.choice([0.0, 1.0, 2.0, 5.0]), rng.choice([None, None, rvalue(rng)])]
    if name in ("publish", "play", "releaseStream", "FCPublish", "deleteStream", "FCSubscribe"):
        args.append(rng.choice([stream, stream, stream + "?" + rstr(rng), rstr(rng), rvalue(rng)]))
        args.append(rng.choice(["live", "record", "append", 0.0, -2000.0, rvalue(rng)]))
    elif name in ("pause", "pauseraw"):
        args += [rng.random() < .5, 0.0]
    elif name == "play2":
        args.append({"streamName": rng.choice([stream, rstr(rng)]), "start": rng.choice([0.0, -2.0]), "x": rvalue(rng)})
    else:
        args += [rvalue(rng) for _ in range(rng.randrange(4))]
    return amf.encs(*args)


def control(rng):
    t = rng.choice([1, 2, 3, 4, 4, 5, 6])
    if t == 4:
        return t, struct.pack(">H", rng.choice([0, 1, 2, 3, 4, 6, 7, 9, 31, 32, 65535])) + \
            bytes(rng.randrange(256) for _ in range(rng.choice([0, 2, 4, 4, 8, 8, 12])))
    v = rng.choice([0, 1, 2, 64, 128, 4096, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, rng.randrange(1 << 32)])
    b = struct.pack(">I", v)
    if t == 6:
        b += bytes([rng.randrange(4)])
    if rng.random() < 0.2:
        b = b[:rng.randrange(5)]
    return t, b


def av_body(rng, typ):
    k = rng.random()
    if typ == 9:
        base = rng.choice([media.avc_header(), media.hevc_header(), media.avc_frame(1, True, rng, 40),
                           media.avc_frame(2, False, rng, 40, nals=3), media.avc_frame(3, True, rng, 40, codec=12),
                           b"\x17\x02\0\0\0", b"\x57\x00", b"\x17", b"\x22abc", media.avc_frame(4, True, rng, 3000)])
    elif typ == 8:
        base = rng.choice([media.aac_header(), media.aac_frame(5, rng, 30), media.mp3_frame(1, rng, 30), b"\xaf",
                           b"\xaf\x00", b"\xaf\x01", media.aac_header(15, 2), b"\xaf\x00\x17\x88\x00\x00\x00\x00",
                           media.aac_header(4, 0), b"\x2f"])
    else:
        base = rng.choice([media.meta(), media.meta(width=rvalue(rng), audiocodecid=rvalue(rng), videocodecid="avc1"),
                           amf.encs("onMetaData", {"duration": 0.0, "a": rvalue(rng)}),
                           amf.encs("@setDataFrame", "onMetaData", {"server": rstr(rng)}),
                           amf.encs("onTextData", rvalue(rng)), amf.encs(rvalue(rng)), b""])
    if k < 0.5:
        return base
    if k < 0.6:
        return base[:rng.randrange(len(base) + 1)]
    if k < 0.64:
        return b""
    return mutate(rng, base)


def aggregate(rng):
    out = b""
    t = rng.choice([0, 1000, 0xfffff0, 0xfffffff0])
    for _ in range(rng.randrange(5)):
        typ = rng.choice([8, 9, 8, 9, 18, 20, 22, rng.randrange(256)])
        body = av_body(rng, typ) if typ in (8, 9, 18) else bytes(rng.randrange(256) for _ in range(rng.randrange(30)))
        out += bytes([typ]) + len(body).to_bytes(3, "big") + (t & 0xffffff).to_bytes(3, "big") + \
            bytes([t >> 24 & 255]) + b"\0\0\0" + body + (len(body) + 11).to_bytes(4, "big")
        t += rng.randrange(50)
    return mutate(rng, out) if rng.random() < 0.6 else out


def handshake(rng):
    k = rng.random()
    if k < 0.9:
        t = rng.choice([0, 0, 0, 0x80000702])
        return b"\x03" + struct.pack(">II", 0, t) + rng.randbytes(1528), True
    return rng.choice([b"", b"\x03", b"\x06" + rng.randbytes(1536), b"\x03" + rng.randbytes(700),
                       b"GET / HTTP/1.0\r\n\r\n", b"\x03" + b"\0" * 1536, b"PROXY TCP4 1.1.1.1 2.2.2.2 3 4\r\n"]), False


class Session:
    """hello: the bytes sent first; ok: whether the server may be expected to complete the handshake."""

    def __init__(self, rng, apps=("live",), port=1935, stream=None):
        self.rng = rng
        self.hello, self.ok = handshake(rng)
        self.app = rng.choice(apps)
        self.port = port
        self.stream = stream or "f" + str(rng.randrange(6))
        self.parts = []
        self.kinds = set()
        self.mux = Mux()
        self.style = rng.random()
        if self.ok:
            self.make()

    def put(self, typ, body, msid=1, csid=None, ts=None, fmt=None):
        rng = self.rng
        csid = csid if csid is not None else rng.choice([2, 3, 4, 5, 6, 7, 8, 31, 31])
        ts = self.ts if ts is None else ts
        st = self.mux.cs.get(csid)
        if fmt is None and st is None:
            fmt = 0
        self.kinds.add(typ)
        chunks = self.mux.message(Msg(typ, ts & 0xffffffff, msid, body, csid), fmt)
        if self.style < 0.25 and rng.random() < 0.15:
            # broken chunk level
            k = rng.randrange(5)
            i = rng.randrange(len(chunks))
            if k == 0:
                chunks[i] = mutate(rng, chunks[i])
            elif k == 1:
                del chunks[i]
            elif k == 2:    # another message begins in the middle of this one
                chunks[i:i] = self.mux.message(Msg(rng.choice([8, 9, 20, 1]), ts, msid, rng.randbytes(rng.randrange(400)), csid), 0)
            elif k == 3:
                chunks.append(basic_header(rng.randrange(4), rng.choice([2, 3, 63, 64, 319, 320, 65599])) + rng.randbytes(15))
            else:
                chunks.append(basic_header(1, csid) + rng.randbytes(3) + rng.choice([b"\0\0\0", b"\xff\xff\xff", b"\0\0\1"]) + rng.randbytes(20))
            self.kinds.add("chunk")
        self.parts.append(b"".join(chunks))

    def walk(self):
        """Well formed commands in an order of their own, with little or no media in between."""
        rng = self.rng
        names = [n for n in CMDS if n]
        todo = ["connect"] if rng.random() < 0.85 else []
        todo += ["createStream"] if rng.random() < 0.6 else []
        for _ in range(rng.randrange(1, 9)):
            n = rng.choice(["pause", "seek", "closeStream", "deleteStream", "publish", "play", "play2", "pause", "createStream",
                            "receiveAudio", "receiveVideo", "connect", "FCPublish", "FCUnpublish", rng.choice(names)])
            todo += [n] * rng.choice([1, 1, 1, 2])
            if rng.random() < 0.25:
                todo.append(rng.choice([8, 9, 18, 22, 4, 1, 3, 5]))
        if rng.random() < 0.4:
            todo += rng.sample([x for x in todo], len(todo))
        for n in todo:
            self.kinds.add("walk")
            if n == "connect":
                self.put(20, connect_body(rng, self.app, self.port), 0, 3)
            elif n == "createStream":
                self.put(20, amf.encs("createStream", 2.0, None), 0, 3)
            elif n in ("pause", "pauseraw"):
                self.put(20, amf.encs(n, 0.0, None, rng.random() < .5, 0.0), 1, 8)
            elif n == "seek":
                self.put(20, amf.encs(n, 0.0, None, rng.choice([0.0, 1000.0, -1.0, 1e12])), 1, 8)
            elif n == "publish":
                self.put(20, amf.encs(n, 3.0, None, self.stream, rng.choice(["live", "record", "append"])), 1, 8)
            elif n == "play":
                self.put(20, amf.encs(n, 3.0, None, self.stream, rng.choice([-2.0, -1.0, 0.0, 5.0])), 1, 8)
            elif n == "deleteStream":
                self.put(20, amf.encs(n, 3.0, None, rng.choice([1.0, 1.0, 0.0, 2.0, 1e9, -1.0])), rng.choice([0, 1]), 3)
            elif n in ("receiveAudio", "receiveVideo"):
                self.put(20, amf.encs(n, 3.0, None, rng.random() < .5), 1, 8)
            elif isinstance(n, str):
                self.put(20, command(rng, n, self.stream), 1, 3)
            elif n in (8, 9, 18):
                self.put(n, av_body(rng, n), 1, {8: 4, 9: 6, 18: 5}[n])
            elif n == 22:
                self.put(22, aggregate(rng), 1, 4)
            else:
                self.put(*control(rng), 0, 2)

    def make(self):
        rng = self.rng
        self.ts = rng.choice([0, 0, 0, 1000, 0xfffff0, 0xfffffff0, 5000000])
        if rng.random() < 0.3:
            return self.walk()
        order = rng.random()
        if order < 0.9:
            if rng.random() < 0.3:
                n = rng.choice([1, 128, 1000, 4096, 60000, 0x10000, 0xffffff])
                self.put(1, struct.pack(">I", n), 0, 2)
                self.mux.chunk_size = n
            if rng.random() < 0.1:
                self.pre()
            self.put(20, connect_body(rng, self.app, self.port, rng.random() < 0.15), 0, 3)
            if rng.random() < 0.95:
                self.put(20, amf.encs("createStream", 2.0, None), 0, 3)
            if rng.random() < 0.1:
                self.pre()
            role = rng.random()
            if role < 0.6:
                name = self.stream if rng.random() < 0.9 else self.stream + "?" + rstr(rng)
                self.put(20, amf.encs("publish", 3.0, None, name, rng.choice(["live", "live", "record", "append", rstr(rng)])), 1, 8)
            elif role < 0.9:
                self.put(20, amf.encs("play", 3.0, None, self.stream, -2000.0), 1, 8)
        else:
            self.pre()
        for _ in range(rng.randrange(2, 40)):
            self.step()
        if rng.random() < 0.5:
            self.put(20, command(rng, rng.choice(["deleteStream", "closeStream", "FCUnpublish", "publish", "play"]),
                                 self.stream), 1, 3)

    def pre(self):
        for _ in range(self.rng.randrange(1, 4)):
            self.step()

    def step(self):
        rng = self.rng
        self.ts += rng.choice([0, 10, 23, 40, 40, 40, 1000, 20000, -40, -5000])
        self.ts = max(0, self.ts) & 0xffffffff
        k = rng.random()
        if k < 0.62:
            t = rng.choice([8, 9, 9, 18])
            self.put(t, av_body(rng, t), 1, {8: 4, 9: 6, 18: 5}[t] if rng.random() < 0.9 else None)
        elif k < 0.72:
            b = command(rng, None, self.stream)
            self.put(rng.choice([20, 20, 20, 17]), b if rng.random() < 0.7 else mutate(rng, b), rng.choice([0, 1, 1, 2]), 3)
        elif k < 0.80:
            t, b = control(rng)
            self.put(t, b, 0, 2)
            if t == 1 and len(b) == 4:
                n = struct.unpack(">I", b)[0]
                if 0 < n <= 0xffffff:
                    self.mux.chunk_size = n
        elif k < 0.87:
            self.put(22, aggregate(rng), 1, 4)
        elif k < 0.92:
            self.put(rng.choice([15, 16, 17, 19, 0, 7, 255, rng.randrange(256)]), rng.randbytes(rng.randrange(60)), 1)
        else:
            t = rng.choice([8, 9, 18, 20])
            self.put(t, rng.randbytes(rng.choice([0, 1, 2, 3, 5, 12, 130, 5000])), 1)
