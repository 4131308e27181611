"""A DNS server that answers as told."""
import asyncio
import ipaddress
import random
import struct


class Dns(asyncio.DatagramProtocol):
    """names: name -> dict(a=[..], aaaa=[..], rcode=0, delay=0, drop=False, ttl=1, junk=0)"""

    def __init__(self, names, rng=None):
        self.names, self.rng = names, rng or random.Random(1)
        self.queries = {}
        self.total = 0

    async def start(self):
        loop = asyncio.get_running_loop()
        self.tr, _ = await loop.create_datagram_endpoint(lambda: self, local_addr=("127.0.0.1", 0))
        self.port = self.tr.get_extra_info("sockname")[1]
        return self

    def close(self):
        self.tr.close()

    def datagram_received(self, data, addr):
        if len(data) < 17:
            return
        labels, i = [], 12
        while data[i]:
            labels.append(data[i + 1:i + 1 + data[i]])
            i += 1 + data[i]
        name = b".".join(labels).decode("latin-1")
        qtype = struct.unpack(">H", data[i + 1:i + 3])[0]
        q = data[12:i + 5]
        self.total += 1
        self.queries[name] = self.queries.get(name, 0) + 1
        e = self.names.get(name, dict(rcode=3))
        if e.get("drop"):
            return
        ips = e.get("a" if qtype == 1 else "aaaa", []) if qtype in (1, 28) else []
        rcode = e.get("rcode", 0)
        ans = b"".join(b"\xc0\x0c" + struct.pack(">HHIH", qtype, 1, e.get("ttl", 1), len(p)) + p
                       for p in (ipaddress.ip_address(x).packed for x in ips))
        out = data[:2] + struct.pack(">HHHHH", 0x8180 | rcode, 1, 0 if rcode else len(ips), 0, 0) + q + (b"" if rcode else ans)
        if e.get("junk"):
            out = bytearray(out)
            for _ in range(e["junk"]):
                out[self.rng.randrange(2, len(out))] = self.rng.randrange(256)
            out = bytes(out)
        if e.get("delay"):
            asyncio.get_running_loop().call_later(e["delay"], self._send, out, addr)
        else:
            self._send(out, addr)

    def _send(self, out, addr):
        if not self.tr.is_closing():
            self.tr.sendto(out, addr)
