"""No RTMP client can make the server read or write outside its objects, or end a worker."""
import asyncio

from pv import fuzz, rtmp
from pv.check import Scenario
from pv.nginx import free_ports

ID = "M01"
TITLE = "No RTMP client input corrupts server memory or ends a worker process"
STATEMENT = """Whatever bytes a client sends over RTMP (handshake, chunk headers, commands, codec headers and media, in any
order and with any lengths), every process of the server keeps running and reads and writes only inside live objects of
its own, and the server goes on serving well-behaved clients."""
OVER = ("inputs", "histories")
QUANT = """Every byte sequence a client can send on one or several concurrent connections, with every split into TCP segments,
for every application type (live, GOP cache, HLS, in-memory HLS, DASH, recorders)."""
WHY = "No existing test sends RTMP at all; the parsers and the media modules are reached only by live traffic."
FILES = ["modules/nginx-rtmp-module/ngx_rtmp_handler.c", "modules/nginx-rtmp-module/ngx_rtmp_amf.c",
         "modules/nginx-rtmp-module/ngx_rtmp_receive.c", "modules/nginx-rtmp-module/ngx_rtmp_codec_module.c",
         "modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c", "modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c",
         "modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c", "modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c"]
MECH = [("chunk stream parser", "ngx_rtmp_recv in ngx_rtmp_handler.c"), ("AMF reader", "ngx_rtmp_amf_read in ngx_rtmp_amf.c"),
        ("codec header parsers", "ngx_rtmp_codec_parse_*_header in ngx_rtmp_codec_module.c"),
        ("reference counted frames", "ngx_rtmp_shared_*_frame in ngx_rtmp_shared_module.c")]
TECHNIQUE = "AddressSanitizer, UBSan and a buffer-recycling monitor over generated hostile sessions"
NOTE = """Held on the hostile sessions generated, with red zones around every pool allocation of the modules and poisoned
recycled buffers; nginx's own core is not instrumented, and overflows inside one object are not seen."""
RULE = ("A case is one hostile RTMP session (handshake, chunk stream, commands, media, all mutated) against the "
        "ASan+UBSan build; non-trivial when the server completed the handshake; distinct by the bytes sent.")

CONF = """
worker_processes 1;
events { worker_connections 4096; }
rtmp {
    log_format bw '$app $name $args $remote_addr $command $bytes_sent $bytes_received $tcurl $flashver';
    server {
        listen %(port)d; serverid 000; out_queue 512; chunk_size %(chunk)d; max_message 512k; max_streams 32;
        access_log {dir}/logs/rtmp.log bw;
        application live { live on; cache_time 2s; meta on; wait_key on; }
        application nogop { live on; meta copy; interleave on; sync 300ms; publish_notify on; play_restart on; idle_streams off; }
        application hls { live on; hls on; hls_path {dir}/hls; hls_fragment 1s; hls_playlist_length 4s; hls_nested on; }
        application dash { live on; dash on; dash_path {dir}/dash; dash_fragment 1s; dash_nested on; }
        application rec { live on;
            record all; record_path {dir}/rec; record_suffix -%%H.flv; record_max_size 64K;
            recorder r1 { record video keyframes; record_path {dir}/rec; record_suffix .k.flv; } }
        application lrec { live on; live_record on; live_record_path {dir}/lrec; live_record_interval 1s; }
        application ts { live on; hls2 on; hls2_fragment 1s; hls2_max_fragment 2s; hls2_playlist_length 4s; mpegts_cache_time 3s; }
        application * { live on; cache_time 1s; low_latency on; send_all on; merge_frame 4; }
    }
}
http {
    access_log off;
    server { listen %(http)d; location /stat { rtmp_stat all; } location /sys { sys_stat; }
        location /flv { flv_live %(port)d app=live; } location /ts { ts_live %(port)d app=ts; }
        location /hls2 { hls2_live %(port)d app=ts; } }
}
"""
APPS = ("live", "live", "nogop", "hls", "dash", "rec", "lrec", "ts", "other", "live")


async def one(port, s, rng, c):
    try:
        rd, wr = await asyncio.wait_for(asyncio.open_connection("127.0.0.1", port), 20)
    except (OSError, asyncio.TimeoutError):
        return False
    ok = False
    try:
        wr.write(s.hello)
        if s.ok:
            try:
                await asyncio.wait_for(rd.readexactly(3073), 20)
                ok = True
            except (asyncio.IncompleteReadError, asyncio.TimeoutError, OSError):
                pass
        if ok:
            wr.write(b"\0" * 1536)
            sink = asyncio.create_task(drain(rd))
            slow = rng.random() < 0.3
            for p in s.parts:
                if slow:
                    k = rng.randrange(len(p) + 1)
                    wr.write(p[:k])
                    await wr.drain()
                    await asyncio.sleep(0.002)
                    wr.write(p[k:])
                else:
                    wr.write(p)
                await wr.drain()
            await asyncio.sleep(rng.choice([0, 0.01, 0.05, 0.2]))
            sink.cancel()
    except (OSError, asyncio.TimeoutError):
        pass
    try:
        if rng.random() < 0.3:
            wr.transport.abort()
        else:
            wr.close()
    except OSError:
        pass
    return ok


async def drain(rd):
    try:
        while await rd.read(65536):
            pass
    except OSError:
        pass


async def batch(c, rng, n, par, chunk=4096):
    port, http = free_ports(2)
    inst = c.nginx(CONF % dict(port=port, http=http, chunk=chunk), wait_ports=[port, http])
    import os
    for x in ("hls", "dash", "rec", "lrec"):
        os.makedirs(f"{inst.dir}/{x}")
    inst.start()
    sem = asyncio.Semaphore(par)

    async def worker(i):
        r = __import__("random").Random(f"{c.seed}/{c.scn.name}/{i}")
        s = fuzz.Session(r, APPS, port)
        async with sem:
            ok = await one(port, s, r, c)
        c.case(b"".join(s.parts) + s.hello, dict(app=s.app, kinds=sorted(map(str, s.kinds)), bytes=sum(map(len, s.parts)))
               if i < 2 else None, nontrivial=ok)
        c.saw("handshakes completed" if ok else "sessions refused")
        c.saw("messages sent", len(s.parts))

    await asyncio.gather(*(worker(i) for i in range(n)))
    await asyncio.sleep(0.5)
    # the server still serves a well behaved client
    pub = await rtmp.publisher(port, "live", "after")
    if pub.result != "NetStream.Publish.Start":
        raise rtmp.RtmpError(f"publish after the batch: {pub.result}")
    await pub.close()


def scenarios(c):
    n = c.pick(12, 90)
    for i in range(n):
        yield Scenario(f"batch#{i}", batch, n=150, par=12, chunk=[4096, 128, 60000][i % 3])
