"""However a publisher cuts its messages into chunks and packets, subscribers get the same messages."""
import asyncio
import struct

from pv import live, media, rtmp
from pv.check import Scenario, Violation
from pv.nginx import free_ports
from pv.rtmp import AUDIO, VIDEO, AMF0_META, AGGREGATE, Msg

ID = "R01"
TITLE = "Messages survive any legal chunking, interleaving and packet boundaries"
STATEMENT = """A message sent over RTMP is received by the server, and passed on to subscribers, with exactly the type, timestamp
and payload the sender gave it, whatever chunk sizes (of 16 bytes or more), chunk stream ids, header formats, interleaving of chunks of
different streams, changes of chunk size or packet boundaries were used to send it; and whatever chunk size the server
uses, what it sends is a well-formed chunk stream."""
OVER = ("inputs", "schedules", "configurations")
QUANT = """All sequences of messages, all legal encodings of them as chunks, all cuts of the byte stream into segments, and
all chunk sizes configured on either side."""
WHY = "No existing test speaks RTMP; a few recorded streams would use one chunk size and never interleave."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_handler.c", "modules/nginx-rtmp-module/ngx_rtmp_receive.c",
         "modules/nginx-rtmp-module/ngx_rtmp_shared_module.c"]
MECH = [("reassembly per chunk stream", "ngx_rtmp_recv"), ("change of chunk size", "ngx_rtmp_set_chunk_size"),
        ("writing chunks", "ngx_rtmp_prepare_out_chain"), ("aggregate messages", "ngx_rtmp_aggregate_message_handler")]
TECHNIQUE = "offline equality monitor over sent and received message logs, random legal encodings"
NOTE = """Held on the encodings generated by an independent RTMP writer, as seen by an independent strict reader; abort
messages and format 3 headers that start a message right after a format 0 one are left out as ambiguous in practice."""
RULE = ("A case is one publisher whose message sequence is encoded at random (chunk sizes 16..65536 changing mid-message, "
        "formats 0-3, 1-3 byte basic headers, interleaved chunk streams, aggregates, random segments); non-trivial when "
        "the subscriber received every message; distinct by the bytes sent.")

CONF = """
worker_processes 1;
events { worker_connections 1024; }
rtmp { server { listen %(port)d; out_queue 4096; chunk_size %(chunk)d; max_streams 1000; max_message 2m;
    publish_time_fix on; play_time_fix on; ack_window 100000;
    application a { live on; wait_key off; } } }
"""


class Enc:
    """Random legal encoder of messages on several chunk streams."""

    def __init__(self, rng):
        self.rng = rng
        self.size = 128
        self.cs = {}
        self.fmts = [0, 0, 0, 0]
        self.ext = 0
        self.changes = 0

    def start(self, m, form):
        st = self.cs.get(m.csid)
        ok = [0]
        if st and st["msid"] == m.msid:
            d = (m.ts - st["ts"]) & 0xffffffff
            if d < 0x80000000:
                ok.append(1)
                if st["len"] == len(m.data) and st["type"] == m.type:
                    ok.append(2)
                    if st["delta"] is not None and st["delta"] == d:
                        ok.append(3)
        fmt = self.rng.choice(ok) if self.rng.random() < 0.5 else ok[-1]
        field = m.ts if fmt == 0 else (m.ts - st["ts"]) & 0xffffffff
        f = min(field, 0xffffff)
        h = rtmp.basic_header(fmt, m.csid, form)
        if fmt <= 2:
            h += f.to_bytes(3, "big")
        if fmt <= 1:
            h += len(m.data).to_bytes(3, "big") + bytes([m.type])
        if fmt == 0:
            h += m.msid.to_bytes(4, "little")
        ext = field.to_bytes(4, "big") if f == 0xffffff else b""
        self.fmts[fmt] += 1
        self.ext += bool(ext)
        self.cs[m.csid] = dict(ts=m.ts, msid=m.msid, len=len(m.data), type=m.type, delta=None if fmt == 0 else field)
        return h + ext, ext

    def control(self, data, type=1):
        """A message on chunk stream 2, with the current chunk size."""
        h, ext = self.start(Msg(type, 0, 0, data, 2), None)
        out = h + data[:self.size]
        i = self.size
        while i < len(data):
            out += rtmp.basic_header(3, 2) + data[i:i + self.size]
            self.fmts[3] += 1
            i += self.size
        return out

    def run(self, queues, change=0.02, sizes=(16, 17, 31, 50, 127, 128, 129, 500, 1024, 4095, 4096, 4097, 60000)):
        """queues: lists of messages, one per chunk stream; yields (bytes, message completed or None)."""
        rng = self.rng
        act = [[q, None] for q in queues if q]
        while act:
            a = rng.choice(act)
            q, cur = a
            if cur is None:
                m = q.pop(0)
                form = None
                if m.csid >= 64 and m.csid < 320 and rng.random() < 0.3:
                    form = 3
                h, ext = self.start(m, form)
                out = h + m.data[:self.size]
                cur = a[1] = [m, min(self.size, len(m.data)), ext, form]
            else:
                m, pos, ext, form = cur
                out = rtmp.basic_header(3, m.csid, form) + ext + m.data[pos:pos + self.size]
                self.fmts[3] += 1
                cur[1] = pos + self.size
            done = None
            if cur[1] >= len(m.data):
                done = m
                a[1] = None
                if not q:
                    act.remove(a)
            yield out, done
            if rng.random() < change:
                n = rng.choice(sizes)
                b = self.control(struct.pack(">I", n))
                self.size = n
                self.changes += 1
                yield b, None


def aggregate(rng, subs, csid, msid, ts):
    """An aggregate message whose parts are subs (type, ts, body); its own timestamp is ts."""
    out = b""
    base = rng.choice((subs[0][1], rng.randrange(1 << 24), (1 << 24) - rng.randrange(100), (1 << 32) - rng.randrange(100)))
    for t, sts, body in subs:
        x = (base + sts - subs[0][1]) & 0xffffffff
        out += (bytes([t]) + len(body).to_bytes(3, "big") + (x & 0xffffff).to_bytes(3, "big") + bytes([x >> 24]) +
                b"\0\0\0" + body + struct.pack(">I", 11 + len(body)))
    m = Msg(AGGREGATE, subs[0][1], msid, out, csid)
    return m


def make(rng, msid, n, aggs=True):
    """Queues of messages for several chunk streams, every payload unique."""
    start = rng.choice((0, 0, 5, 0xfffff0, 0xffffff, 0x1000000, 0x7fffff00, 0xffffff00))
    qa, qv, qg = [], [], []
    ca, cv, cg = rng.sample(list(range(3, 64)) + [64, 65, 319, 320, 321, 500, 999], 3)
    ts = start
    i = 0
    big = rng.random() < 0.3
    while i < n:
        i += 1
        ts = (ts + rng.choice((0, 1, 20, 23, 40, 40, 40, 1000))) & 0xffffffff
        if rng.random() < 0.002:
            ts = (ts + 0x1000001) & 0xffffffff
        k = rng.choice((1, 5, 12, 60, 127, 128, 129, 300, 300, 1000)) if not big else rng.choice((100, 5000, 40000))
        if rng.random() < 0.1:
            k += rng.randrange(200)
        if rng.random() < 0.5:
            qa.append(Msg(AUDIO, ts, msid, media.aac_frame(i, rng, k), ca))
        else:
            qv.append(Msg(VIDEO, ts, msid, media.avc_frame(i, rng.random() < 0.1, rng, k), cv))
        if aggs and rng.random() < 0.05:
            subs = []
            t2 = ts
            for _ in range(rng.randrange(1, 5)):
                i += 1
                subs.append((8, t2, media.aac_frame(i, rng, rng.randrange(1, 200))) if rng.random() < 0.5 else
                            (9, t2, media.avc_frame(i, False, rng, rng.randrange(1, 400))))
                t2 = (t2 + rng.randrange(30)) & 0xffffffff
            m = aggregate(rng, subs, cg, msid, ts)
            qg.append((m, subs))
    return qa, qv, qg


async def chunking(c, rng, chunk, n, msgs, packets):
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, chunk=chunk), wait_ports=[port]).start()
    for i in range(n):
        name = f"s{i}"
        sub = await rtmp.player(port, "a", name)
        await live.sync(sub)
        pub = await rtmp.publisher(port, "a", name)
        if pub.result != "NetStream.Publish.Start":
            raise rtmp.RtmpError(pub.result)
        enc = Enc(rng)
        qa, qv, qg = make(rng, pub.msid, msgs)
        agg = {id(m): subs for m, subs in qg}
        sent = []
        raw = bytearray()
        # the commands were sent on 3 and 8: nothing is known of their state here, so they start with format 0
        for out, done in enc.run([qa, qv, [m for m, _ in qg]]):
            raw += out
            if done is not None:
                sent += agg.get(id(done)) or [(done.type, done.ts, done.data)]
        raw += enc.control(struct.pack(">I", 128))
        enc.size = 128
        last = (VIDEO, 1, b"\x27\x01\0\0\0\0\0\0\x05\x41LAST")
        h, ext = enc.start(Msg(VIDEO, 1, pub.msid, last[2], 900), None)
        raw += h + last[2]
        sent.append(last)
        if packets == "whole":
            pub.raw(bytes(raw))
            await pub.drain()
        else:
            p = 0
            nseg = 0
            while p < len(raw):
                k = rng.choice((1, 2, 3, 4, 7, 11, 12, 13, 100, 128, 129, 140, 1000, 1460, 4096, 30000))
                if nseg > 400:
                    k += 20000
                pub.raw(bytes(raw[p:p + k]))
                await pub.drain()
                p += k
                nseg += 1
                if rng.random() < 0.5:
                    await asyncio.sleep(0.0003)
            c.saw("segments", nseg)
        pub.mux.cs = {}
        try:
            await sub.wait(lambda m: m.type == VIDEO and m.data == last[2], 15)
        except (asyncio.TimeoutError, rtmp.Closed) as e:
            got = live.got(sub)
            d = live.diff(sent, got)
            if sub.error or d is None:
                raise
            raise Violation("reassembly: messages lost", f"{name}: {e} {d}")
        got = live.got(sub)
        d = live.diff(sent, got)
        if d:
            raise Violation("reassembly: a message changed", f"{name} chunk={chunk}: {d}")
        c.case(bytes(raw), dict(messages=len(sent), formats=enc.fmts, extended=enc.ext, size_changes=enc.changes,
                                bytes=len(raw)) if i < 2 else None)
        c.saw("messages compared", len(sent))
        c.saw("chunk size changes", enc.changes)
        c.saw("extended timestamps", enc.ext)
        c.saw("aggregates", len(qg))
        for k in range(4):
            c.saw(f"format {k} chunks sent", enc.fmts[k])
        c.saw("chunks received", sub.demux.nchunks)
        await pub.close()
        await sub.close()


async def outgoing(c, rng, chunk):
    """What the server sends is well formed and acknowledges as asked, for its own chunk size."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, chunk=chunk), wait_ports=[port]).start()
    p = await live.Pub.start(port, "a", "x", chunk=rng.choice((100, 4096, 65536)))
    subs = []
    for i in range(3):
        s = await rtmp.player(port, "a", "x")
        await live.sync(s)
        subs.append(s)
    ts = rng.choice((0, 0xfffff0, 0xffffffff - 2000))
    total = 0
    for i in range(150):
        ts = (ts + 40) & 0xffffffff
        t = rng.choice((AUDIO, VIDEO))
        k = rng.choice((1, chunk - 1, chunk, chunk + 1, 2 * chunk - 7, 3 * chunk, rng.randrange(1, 20000)))
        k = max(13, min(k, 200000))
        body = (media.aac_frame(i + 1, rng, k - 2) if t == AUDIO else media.avc_frame(i + 1, i % 20 == 0, rng, max(k - 11, 10)))
        p.one(t, ts, body)
        total += len(body)
        if i % 10 == 9:
            await p.c.drain()
            await asyncio.sleep(0.01)
    last = (VIDEO, ts, b"\x27\x01\0\0\0\0\0\0\x05\x41LAST")
    p.one(*last)
    for s in subs:
        await s.wait(lambda m: m.data == last[2], 40)
        d = live.diff(p.sent, live.got(s))
        if d:
            raise Violation("output: a message changed", f"server chunk size {chunk}: {d}")
        if s.demux.pending():
            raise Violation("output: bytes after the last message", f"{s.demux.pending()} bytes")
        c.saw("chunks received", s.demux.nchunks)
        c.saw("messages compared", len(p.sent))
    c.case(("out", chunk, total), dict(server_chunk=chunk, messages=len(p.sent), chunks=subs[0].demux.nchunks))
    for s in subs:
        await s.close()
    await p.close()


async def acks(c, rng):
    """The server acknowledges what it received once per window the client asked for."""
    port, = free_ports(1)
    inst = c.nginx(CONF % dict(port=port, chunk=4096), wait_ports=[port]).start()
    for i in range(4):
        win = rng.choice((500, 2000, 20000, 65536))
        p = await live.Pub.start(port, "a", f"w{i}")
        p.c.send(Msg(rtmp.WIN_ACK, 0, 0, struct.pack(">I", win), 2))
        await live.sync(p.c)
        p.c.acks.clear()
        for k in range(60):
            p.one(AUDIO, k * 20, media.aac_frame(k + 1, rng, rng.randrange(20, 5000)))
            await p.c.drain()
            if k % 5 == 0:
                await live.sync(p.c)
        await live.sync(p.c)
        a = p.c.acks
        prev = 0
        for seq, tx in a:
            # the server counts what it read after the handshake, the client what it wrote after it
            if seq > tx:
                raise Violation("ack: more bytes than were sent", f"ack {seq} after {tx} bytes")
            if seq <= prev:
                raise Violation("ack: not increasing", f"{seq} after {prev}")
            if prev and seq - prev < win:
                raise Violation("ack: more often than the window", f"{seq - prev} bytes, window {win}")
            prev = seq
        # at most a window plus one read is unacknowledged
        if p.c.tx - prev > win + 70000:
            raise Violation("ack: missing", f"{p.c.tx} sent, {prev} acknowledged, window {win}")
        c.case(("ack", win, len(a)), dict(window=win, acks=len(a), sent=p.c.tx))
        c.saw("acknowledgements", len(a))
        await p.close()


def scenarios(c):
    for r in range(c.pick(1, 6)):
        for chunk in (128, 4096, 1000, 65536) if r == 0 else (c.rng.randrange(128, 3000), 130):
            yield Scenario(f"whole#{r}.{chunk}", chunking, chunk=chunk, n=c.pick(6, 12), msgs=120, packets="whole")
            yield Scenario(f"cut#{r}.{chunk}", chunking, chunk=chunk, n=c.pick(4, 8), msgs=60, packets="cut")
        for chunk in (128, 129, 500, 4096, 60000):
            yield Scenario(f"out#{r}.{chunk}", outgoing, chunk=chunk)
        yield Scenario(f"acks#{r}", acks)
