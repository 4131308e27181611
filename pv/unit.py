"""Drives the unit harness (harness/unit): commands run inside a real worker, one answer line each."""
import asyncio
import http.client

from .nginx import free_ports

CONF = """worker_processes 1;
%s
events {{ worker_connections 512; %s }}
http {{ access_log off; client_max_body_size 16m; client_body_buffer_size 8m;
server {{ listen 127.0.0.1:{port}; location /u {{ pv_unit; }} %s }} }}
"""


def h(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() if b else "-"


def unh(s):
    return b"" if s == "-" else bytes.fromhex(s)


class Unit:
    """An instance with the harness; run() sends commands and returns the lines of the answer."""

    def __init__(self, c, main="", events="", server="", **kw):
        self.port = free_ports(1)[0]
        conf = (CONF % (main, events, server)).replace("{port}", str(self.port)).replace("{{", "{").replace("}}", "}")
        self.inst = c.nginx(conf, harness=True, wait_ports=[self.port], **kw)
        self.conn = None

    def __enter__(self):
        self.inst.start()
        return self

    def __exit__(self, *a):
        self.close()
        self.inst.stop()

    def close(self):
        if self.conn:
            self.conn.close()
            self.conn = None

    def run(self, *lines):
        if self.conn is None:
            self.conn = http.client.HTTPConnection("127.0.0.1", self.port, timeout=60)
        try:
            self.conn.request("POST", "/u", "\n".join(lines).encode("latin-1"))
            r = self.conn.getresponse()
            text = r.read().decode("latin-1")
        except (OSError, http.client.HTTPException):
            self.close()
            raise
        if r.status != 200:
            raise http.client.HTTPException(f"status {r.status}")
        return text.split("\n")[:-1]

    def one(self, line):
        out = self.run(line)
        return out[0] if out else ""

    async def arun(self, *lines):
        return await asyncio.get_running_loop().run_in_executor(None, self.run, *lines)
