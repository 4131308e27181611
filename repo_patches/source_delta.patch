From bb164bed6735d36d3c7dc17cfeebeb9ec406d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 001/112] fix: terminate the codec module's list of variables

ngx_rtmp_codec_add_variables() reads on until it finds an empty name, past the
end of the array.
---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 37a3ecb..b05bcdf 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -102,7 +102,8 @@ static ngx_rtmp_variable_t  ngx_rtmp_codec_variabes[] = {
     { ngx_string("metadata"), NULL, ngx_rtmp_codec_variable_metadata,
       0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
     { ngx_string("metadata_"), NULL, ngx_rtmp_codec_variable_metadata_arg,
-      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 }
+      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
+    { ngx_null_string, NULL, NULL, 0, 0, 0 }
 };
 
 static const char *
-- 
2.43.0


From 1d1a264d9f93a4b3ab26b2822ca0a8b22a628fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 002/112] fix: do not read the type of an element nobody asked
 for at the end of AMF data

A message that ends after the name of an unknown property made
ngx_rtmp_amf_read() dereference a NULL element.
---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index 77521ec..e06ea64 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -328,7 +328,7 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         } else {
             switch (ngx_rtmp_amf_get(ctx, &type8, 1)) {
                 case NGX_DONE:
-                    if (elts->type & NGX_RTMP_AMF_OPTIONAL) {
+                    if (elts && (elts->type & NGX_RTMP_AMF_OPTIONAL)) {
                         return NGX_OK;
                     } else {
                         return NGX_ERROR;
-- 
2.43.0


From de58a73cb2161e6cc547e764da03126590052781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 003/112] fix: keep the read buffers as large as the data
 carried over to them

After a peer lowered its chunk size, data already read into a buffer of the
former size was moved to a smaller one. A chunk size of 0 made the reader loop
for ever, a huge one made it allocate gigabytes, and a message header in the
middle of a message could announce less than was already received of it.
---
 modules/nginx-rtmp-module/ngx_rtmp.h         |  1 +
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 30 ++++++++++++++++++--
 modules/nginx-rtmp-module/ngx_rtmp_receive.c |  3 +-
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 3ee5b1f..047cee6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -384,6 +384,7 @@ struct ngx_rtmp_session_s {
     ngx_rtmp_stream_t      *in_streams;
     uint32_t                in_csid;
     ngx_uint_t              in_chunk_size;
+    ngx_uint_t              in_buf_size;    /* largest in_chunk_size so far */
     ngx_pool_t             *in_pool;
     uint32_t                in_bytes;
     uint32_t                in_last_ack;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 0b1c02e..afb78ac 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -116,7 +116,8 @@ ngx_rtmp_alloc_in_buf(ngx_rtmp_session_t *s)
 
     cl->next = NULL;
     b = cl->buf;
-    size = s->in_chunk_size + NGX_RTMP_MAX_CHUNK_HEADER;
+    /* formerly read data may fill a buffer of a larger chunk size */
+    size = s->in_buf_size + NGX_RTMP_MAX_CHUNK_HEADER;
 
     b->start = b->last = b->pos = ngx_palloc(s->in_pool, size);
     if (b->start == NULL) {
@@ -456,6 +457,14 @@ ngx_rtmp_recv(ngx_event_t *rev)
                 ngx_rtmp_finalize_session(s);
                 return;
             }
+
+            if (h->mlen < st->len) {
+                ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                        "message shorter than what was received of it: "
+                        "%D < %D", h->mlen, st->len);
+                ngx_rtmp_finalize_session(s);
+                return;
+            }
         }
 
         size = b->last - b->pos;
@@ -896,8 +905,25 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
-    s->in_old_pool = s->in_pool;
+    if (size == 0) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0, "invalid chunk size 0");
+        return NGX_ERROR;
+    }
+
+    /* no message is longer than that */
+    if (size > 0xffffff) {
+        size = 0xffffff;
+    }
+
     s->in_chunk_size = size;
+    s->in_buf_size = ngx_max(s->in_buf_size, size);
+
+    if (s->in_chunk_size_changing) {
+        /* another change in the same message */
+        return NGX_OK;
+    }
+
+    s->in_old_pool = s->in_pool;
     s->in_pool = NGX_CREATE_POOL(4096, ngx_cycle->log);
 
     /* copy existing chunk data */
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index dbf662a..119c83c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -39,8 +39,7 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
     switch(h->type) {
         case NGX_RTMP_MSG_CHUNK_SIZE:
             /* set chunk size =val */
-            ngx_rtmp_set_chunk_size(s, val);
-            break;
+            return ngx_rtmp_set_chunk_size(s, val);
 
         case NGX_RTMP_MSG_ABORT:
             /* abort chunk stream =val */
-- 
2.43.0


From ab7be8748a6dea9611f6b909bc36632ad89176d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 004/112] fix: keep the codec header parsers within the bytes
 they were given

An empty message, an SPS that is longer than its configuration record, one
that ends in the middle, and one that counts more entries than it has, made
the parsers read and write past their buffers or loop for hours.
---
 modules/nginx-rtmp-module/ngx_rtmp_bitop.c    |  5 +++
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 33 ++++++++++++++-----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_bitop.c b/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
index 855d425..756c441 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
@@ -59,5 +59,10 @@ ngx_rtmp_bit_read_golomb(ngx_rtmp_bit_reader_t *br)
 
     for (n = 0; ngx_rtmp_bit_read(br, 1) == 0 && !br->err; n++);
 
+    if (n > 63) {
+        br->err = 1;
+        return 0;
+    }
+
     return ((uint64_t) 1 << n) + ngx_rtmp_bit_read(br, n) - 1;
 }
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index b05bcdf..a7871b9 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -220,6 +220,10 @@ ngx_rtmp_codec_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    if (in->buf->last - in->buf->pos < 1) {
+        return NGX_OK;
+    }
+
     if (h->type == NGX_RTMP_MSG_VIDEO) {
         frametype = in->buf->pos[0] & 0xf0;
         if (frametype != 0x10 && frametype != 0x20) {
@@ -236,10 +240,6 @@ ngx_rtmp_codec_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     /* save codec */
-    if (in->buf->last - in->buf->pos < 1) {
-        return NGX_OK;
-    }
-
     fmt =  in->buf->pos[0];
     if (h->type == NGX_RTMP_MSG_AUDIO) {
         ctx->audio_codec_id = (fmt & 0xf0) >> 4;
@@ -440,6 +440,13 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
     ngx_rtmp_bit_read(br, 6);
     ngx_rtmp_bit_read(br, 3);
 
+    if (br->err) {
+        return NGX_ERROR;
+    }
+
+    /* what is left of the NAL unit after its header */
+    nal_unit_len = br->last - br->pos;
+
     count = 0;
     rbsp_bytes = 0;
     for (i = 0; i < nal_unit_len; ++i) {
@@ -450,7 +457,9 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
                 return NGX_ERROR;
             }
 
-            if (br->pos[i] == 0x03 && br->pos[i + 1] > 0x03) {
+            if (br->pos[i] == 0x03 && i + 1 < nal_unit_len
+                && br->pos[i + 1] > 0x03)
+            {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
                         "four bytes sequence error");
                 return NGX_ERROR;
@@ -580,6 +589,14 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
     u_char                  buf[4096];
     ngx_int_t               rbsp_bytes;
 
+    if (nal_unit_len > sizeof(buf)
+        || nal_unit_len > (ngx_uint_t) (pbr->last - pbr->pos))
+    {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                "sps of %ui bytes is too long", nal_unit_len);
+        return;
+    }
+
     ngx_rtmp_bit_init_reader(&br, pbr->pos, pbr->pos + nal_unit_len);
     rbsp_bytes = ngx_rtmp_codec_parse_hevc_nal_to_rbsp(s, buf, &br, NAL_SPS,
                                                        nal_unit_len);
@@ -751,7 +768,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
      */
     num_arrays = (ngx_uint_t) ngx_rtmp_bit_read_8(&br);
 
-    for (i = 0; i < num_arrays; ++i) {
+    for (i = 0; i < num_arrays && !br.err; ++i) {
         /*
          * array_completeness                       1 bit
          * reserved                                 1 bit
@@ -761,7 +778,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         nal_unit_type = (ngx_uint_t) (ngx_rtmp_bit_read_8(&br) & 0x3f);
         num_nalus = (ngx_uint_t) ngx_rtmp_bit_read_16(&br);
 
-        for (j = 0; j < num_nalus; ++j) {
+        for (j = 0; j < num_nalus && !br.err; ++j) {
             /*
              * nalUnitLength                        2 bytes
              */
@@ -907,7 +924,7 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         /* num ref frames in pic order */
         num_ref_frames = (ngx_uint_t) ngx_rtmp_bit_read_golomb(&br);
 
-        for (n = 0; n < num_ref_frames; n++) {
+        for (n = 0; n < num_ref_frames && !br.err; n++) {
 
             /* offset for ref frame */
             ngx_rtmp_bit_read_golomb(&br);
-- 
2.43.0


From e3316b640104d8a5dbae5d88e0dd8e5952f69bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 005/112] fix: limit how deep AMF objects may be nested

Reading them recurses, so a message of a few megabytes made of nothing but
object starts ran the worker out of its stack.
---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 10 ++++++++++
 modules/nginx-rtmp-module/ngx_rtmp_amf.h |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index e06ea64..90b9f63 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -319,6 +319,12 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
     u_char                      buf[8];
     uint32_t                    max_index;
 
+    if (ctx->depth >= NGX_RTMP_AMF_MAX_DEPTH) {
+        return NGX_ERROR;
+    }
+
+    ctx->depth++;
+
     for(n = 0; n < nelts; ++n) {
 
         if (elts && elts->type & NGX_RTMP_AMF_TYPELESS) {
@@ -329,6 +335,7 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
             switch (ngx_rtmp_amf_get(ctx, &type8, 1)) {
                 case NGX_DONE:
                     if (elts && (elts->type & NGX_RTMP_AMF_OPTIONAL)) {
+                        ctx->depth--;
                         return NGX_OK;
                     } else {
                         return NGX_ERROR;
@@ -457,6 +464,7 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
                 break;
 
             case NGX_RTMP_AMF_END:
+                ctx->depth--;
                 return NGX_OK;
 
             default:
@@ -468,6 +476,8 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         }
     }
 
+    ctx->depth--;
+
     return NGX_OK;
 }
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.h b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
index 8f70a12..758e5fe 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
@@ -52,12 +52,17 @@ typedef ngx_chain_t * (*ngx_rtmp_amf_alloc_pt)(void *arg);
 typedef struct {
     ngx_chain_t                        *link, *first;
     size_t                              offset;
+    ngx_uint_t                          depth;
     ngx_rtmp_amf_alloc_pt               alloc;
     void                               *arg;
     ngx_log_t                          *log;
 } ngx_rtmp_amf_ctx_t;
 
 
+/* objects and arrays within one another */
+#define NGX_RTMP_AMF_MAX_DEPTH              64
+
+
 /* reading AMF */
 ngx_int_t ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx,
         ngx_rtmp_amf_elt_t *elts, size_t nelts);
-- 
2.43.0


From deb9aef8457e2a22de9547abbd55b36bddcf9bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 006/112] fix: refuse an aggregate message within an aggregate
 message

Handling them recurses, so deep enough nesting ran the worker out of stack.
---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index 119c83c..f97edb6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -296,6 +296,12 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
             return NGX_ERROR;
         }
 
+        if (ch.type == NGX_RTMP_MSG_AGGREGATE) {
+            ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                          "RTMP aggregate within an aggregate");
+            return NGX_ERROR;
+        }
+
         if (first) {
             base_time = timestamp;
             first = 0;
-- 
2.43.0


From 97427d06e8d5dfc25eea06d6fa52f43a84e097e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 007/112] fix: take no media and no commands from a client that
 has not connected

The handlers behind them use the configuration of the application, which is
not known before connect: the worker died of a null pointer.
---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 8 ++++++++
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index afb78ac..6f45a90 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -870,6 +870,14 @@ ngx_rtmp_receive_message(ngx_rtmp_session_t *s,
         return NGX_OK;
     }
 
+    if (s->app_conf == NULL
+        && (h->type == NGX_RTMP_MSG_AUDIO || h->type == NGX_RTMP_MSG_VIDEO))
+    {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "RTMP media message before connect");
+        return NGX_ERROR;
+    }
+
     evhs = &cmcf->events[h->type];
     evh = evhs->elts;
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index f97edb6..4224c2a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -430,6 +430,14 @@ ngx_rtmp_amf_message_handler(ngx_rtmp_session_t *s,
 
     len = ngx_strlen(func);
 
+    if (s->app_conf == NULL
+        && ngx_strcasecmp(func, (u_char *) "connect") != 0)
+    {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "AMF cmd '%s' before connect", func);
+        return NGX_ERROR;
+    }
+
     ch = ngx_hash_find(&cmcf->amf_hash,
             ngx_hash_strlow(func, func, len), func, len);
 
-- 
2.43.0


From 3d9f1598d7a6a6d4d61361b4fe044afa51f0eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 008/112] fix: do not loop in the live recorder over video that
 came without its header

The size of the NAL lengths is unknown then (zero), and the loop never moved
on; the presentation time was also computed in 32 bits, unlike the decoding
time, and wrapped after 13 hours.
---
 modules/nginx-rtmp-module/ngx_live_record.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 3ff27e2..550dcf1 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -887,6 +887,9 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
+    if (codec_ctx->avc_header == NULL || h->mlen < 5) {
+        return NGX_OK;
+    }
 
     p = in->buf->pos;
     if (ngx_live_record_copy(s, &fmt, &p, 1, &in) != NGX_OK) {
@@ -1088,7 +1091,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     frame.cc = ctx->video_cc;
     frame.dts = (uint64_t) h->timestamp * 90;
-    frame.pts = (h->timestamp + cts) * 90;
+    frame.pts = frame.dts + cts * 90;
     frame.pid = 0x100;
     frame.sid = 0xe0;
     frame.key = (ftype == 1);
@@ -1124,6 +1127,9 @@ ngx_live_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
+    if (codec_ctx == NULL) {
+        return NGX_OK;
+    }
 
     if (h->type == NGX_RTMP_MSG_AUDIO) {
         switch (codec_ctx->audio_codec_id) {
-- 
2.43.0


From 87b044d65089f4f3e449b4440e6c1638454549f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 009/112] fix: do not record into an index that could not be
 opened

The recorder went on as if the file was open: with no write buffer its loop
never ended, and the closed descriptors were used and closed again.
---
 modules/nginx-rtmp-module/ngx_live_record.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 550dcf1..8abef11 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -415,14 +415,14 @@ ngx_live_record_open_index(ngx_rtmp_session_t *s)
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record: failed to open index '%V'", &ctx->index.name);
 
-        return NGX_OK;
+        return NGX_ERROR;
     }
 
     if (lseek(ctx->index.fd, 0, SEEK_END) == (off_t) -1) {
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record, %V seek failed", &ctx->index.name);
 
-        return NGX_OK;
+        return NGX_ERROR;
     }
 
     return ngx_live_record_open_file(s);
@@ -467,12 +467,16 @@ ngx_live_record_reopen_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
 
         if (ctx->index.fd != -1) {
             ngx_close_file(ctx->index.fd);
+            ctx->index.fd = -1;
         }
 
         if (ctx->file.fd != -1) {
             ngx_close_file(ctx->file.fd);
+            ctx->file.fd = -1;
         }
 
+        ctx->ts.fd = -1;
+
         return;
     }
 }
@@ -765,10 +769,12 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
             if (ctx->index.fd != -1) {
                 ngx_close_file(ctx->index.fd);
+                ctx->index.fd = -1;
             }
 
             if (ctx->file.fd != -1) {
                 ngx_close_file(ctx->file.fd);
+                ctx->file.fd = -1;
             }
 
             return NGX_OK;
@@ -931,10 +937,12 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
             if (ctx->index.fd != -1) {
                 ngx_close_file(ctx->index.fd);
+                ctx->index.fd = -1;
             }
 
             if (ctx->file.fd != -1) {
                 ngx_close_file(ctx->file.fd);
+                ctx->file.fd = -1;
             }
 
             return NGX_OK;
-- 
2.43.0


From 34032020508683fda65ccc497828b15cea0c6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 010/112] fix: one stream per session, and media only while it
 is being published

A session that published and played, or that closed its stream before it
published, put its context on the stream's lists twice or left it there when
it went away; media of a session without a stream reached handlers that need
one; and a stream name that is too long for a stream was a null pointer.
---
 modules/nginx-rtmp-module/ngx_live.c          |  4 +++
 .../nginx-rtmp-module/ngx_rtmp_cmd_module.c   | 28 ++++++++++++++++++-
 modules/nginx-rtmp-module/ngx_rtmp_handler.c  | 10 +++----
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index 1e89270..8df9a00 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -303,6 +303,10 @@ ngx_live_create_stream(ngx_str_t *serverid, ngx_str_t *stream)
     }
 
     *pst = ngx_live_get_stream(stream);
+    if (*pst == NULL) {
+        return NULL;
+    }
+
     ++(*psrv)->n_stream;
 
     return *pst;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index b29d002..5d3fc50 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -214,6 +214,9 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
     }
 
     s->live_stream = ngx_live_create_stream(&s->serverid, &s->stream);
+    if (s->live_stream == NULL) {
+        return;
+    }
 
     ngx_live_create_ctx(s, publishing);
     s->publishing = publishing;
@@ -229,12 +232,21 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
         return NGX_OK;
     }
 
+    if (s->played || s->closed) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "publish in a session that has another stream");
+        return NGX_ERROR;
+    }
+
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp publish filter");
 
     s->published = 1;
 
     if (!s->relay) { /* relay pull */
         ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1);
+        if (s->live_stream == NULL) {
+            return NGX_ERROR;
+        }
     }
 
     return ngx_rtmp_publish(s, v);
@@ -248,12 +260,21 @@ ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
         return NGX_OK;
     }
 
+    if (s->published || s->closed) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "play in a session that has another stream");
+        return NGX_ERROR;
+    }
+
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp play filter");
 
     s->played = 1;
 
     if (!s->relay) { /* relay push */
         ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0);
+        if (s->live_stream == NULL) {
+            return NGX_ERROR;
+        }
     }
 
     return ngx_rtmp_play(s, v);
@@ -269,10 +290,15 @@ ngx_rtmp_close_stream_filter(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp close stream filter");
 
+    if (s->live_stream == NULL) {
+        /* there is nothing to close yet, the stream may still come */
+        return ngx_rtmp_close_stream(s, v);
+    }
+
     s->closed = 1;
 
     ngx_live_delete_ctx(s);
-    if (s->live_stream && s->live_stream->play_ctx == NULL
+    if (s->live_stream->play_ctx == NULL
             && s->live_stream->publish_ctx == NULL)
     {
         if (s->live_stream->pslot == ngx_process_slot) {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 6f45a90..df8f3fb 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -870,12 +870,12 @@ ngx_rtmp_receive_message(ngx_rtmp_session_t *s,
         return NGX_OK;
     }
 
-    if (s->app_conf == NULL
-        && (h->type == NGX_RTMP_MSG_AUDIO || h->type == NGX_RTMP_MSG_VIDEO))
+    if ((h->type == NGX_RTMP_MSG_AUDIO || h->type == NGX_RTMP_MSG_VIDEO)
+        && (!s->published || s->closed))
     {
-        ngx_log_error(NGX_LOG_INFO, s->log, 0,
-                "RTMP media message before connect");
-        return NGX_ERROR;
+        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+                "RTMP media message from a session that does not publish");
+        return NGX_OK;
     }
 
     evhs = &cmcf->events[h->type];
-- 
2.43.0


From 8263e90629e202749a9fa5065f3c6050c573d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 011/112] fix: keep the head of an AMF message that takes more
 than one chunk

---
 modules/nginx-rtmp-module/ngx_rtmp_send.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index cc54afc..17362b5 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -401,14 +401,15 @@ ngx_rtmp_append_amf(ngx_rtmp_session_t *s,
 
     rc = ngx_rtmp_amf_write(&act, elts, nelts);
 
-    if (first) {
-        *first = act.first;
-    }
-
     if (last) {
         *last = act.link;
     }
 
+    /* the caller may give one variable for both: the head is what it needs */
+    if (first) {
+        *first = act.first;
+    }
+
     return rc;
 }
 
-- 
2.43.0


From 7c18e7d7138bb1ef9ba5d70568b3826adceb300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 012/112] fix: go back to the buffer an HEVC NAL unit was
 peeked from

---
 .../nginx-rtmp-module/hls/ngx_rtmp_hls_module.c    | 14 ++++++++++----
 .../mpegts/ngx_mpegts_live_module.c                | 12 ++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 35f1c6e..7fa5f34 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2036,6 +2036,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_int_t                       aud_sent, sps_pps_sent, boundary;
     static u_char                   buffer[NGX_RTMP_HLS_BUFSIZE];
     ngx_rtmp_core_app_conf_t       *cacf;
+    u_char                         *nal_p, nal_header[3];
+    ngx_chain_t                    *nal_in;
 
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
 
@@ -2170,18 +2172,22 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
             }
         } else {
             if (src_nal_type == 0) {
-                if (ngx_rtmp_hls_copy(s, out.last, &p, 3, &in) != NGX_OK) {
+                nal_p = p;
+                nal_in = in;
+                if (ngx_rtmp_hls_copy(s, nal_header, &p, 3, &in) != NGX_OK) {
                     ngx_log_error(NGX_LOG_ERR, s->log, 0,
                                     "rtmp-hls: video| buffer error");
                     return NGX_ERROR;
                 }
-                if (out.last[0] == 0x00 && out.last[1] == 0x00 &&
-                    out.last[2] == 0x01)
+                if (nal_header[0] == 0x00 && nal_header[1] == 0x00 &&
+                    nal_header[2] == 0x01)
                 {
                     ngx_rtmp_hls_copy(s, &src_nal_type, &p, 1, &in);
                     len -= 4;
                 } else {
-                    p -= 3;
+                    /* the 3 bytes may be those of another buffer */
+                    p = nal_p;
+                    in = nal_in;
                 }
             }
 
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 1bac711..cc3ed95 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -949,6 +949,8 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         /* h264 format of rtmp_flv contains NAL header Prefix "00 00 00 01" */
         if (0 == nal_type) {
             u_char nal_header[4] = {0};
+            u_char *nal_p = p;
+            ngx_chain_t *nal_in = in;
             if (ngx_mpegts_live_copy(s, nal_header, &p, 3, &in) != NGX_OK) {
                 return NGX_OK;
             }
@@ -957,9 +959,10 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
                 ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                     "mpegts module: h265 hander| "
                     "is not h265 NAL header [00 00 00 01]");
-                p -= 3;
+                /* the 3 bytes may be those of another buffer */
+                p = nal_p;
+                in = nal_in;
                 goto NAL_TRAIL_N;
-                return NGX_OK;
             }
 
             if (ngx_mpegts_live_copy(s, &src_nal_type, &p, 1, &in) != NGX_OK) {
@@ -986,7 +989,8 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
             }
 #endif
             /* back to 00 00 01 nal_type*/
-            p = p - 4;
+            p = nal_p;
+            in = nal_in;
             if (ngx_mpegts_live_copy(s, out.last, &p, len - 1, &in) != NGX_OK) {
                 return NGX_ERROR;
             }
@@ -1012,7 +1016,7 @@ NAL_TRAIL_N:
         if ((nal_type >= 32 && nal_type <= 35)
             || nal_type == 39 || nal_type == 40)
         {
-            if (out.end - out.last < (5 + len -1)) {
+            if (out.end - out.last < (ngx_int_t) len + 4) {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
                         "hls: not enough buffer for AnnexB prefix");
                 return NGX_OK;
-- 
2.43.0


From e50b3f832257429d9df3a8d7f2ec176db5648685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 013/112] fix: do not look into the rest of a video message
 that ended too early

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 7fa5f34..9738168 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2260,8 +2260,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         if (ngx_rtmp_hls_copy(s, out.last, &p, len - 1, &in) != NGX_OK) {
             ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                        "rtmp-hls: video| copy nal, failed copy, len %d, in %d",
-                        len - 1, in->buf->last - in->buf->pos);
+                        "rtmp-hls: video| copy nal, failed copy, len %uD",
+                        len - 1);
             return NGX_ERROR;
         }
 
-- 
2.43.0


From f9c6ccd556b27563e78049cbe59ba14c7b5e9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 014/112] fix: leave room for the end of the string in the dump
 of a codec header

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index a7871b9..377db0a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -994,7 +994,7 @@ ngx_rtmp_codec_dump_header(ngx_rtmp_session_t *s, const char *type,
     u_char hex[] = "0123456789abcdef";
 
     for (pp = buf, p = in->buf->pos;
-         p < in->buf->last && pp < buf + sizeof(buf) - 1;
+         p < in->buf->last && pp < buf + sizeof(buf) - 2;
          ++p)
     {
         *pp++ = hex[*p >> 4];
-- 
2.43.0


From edbc6dfb928702fe2f61e197ae54ddbad6d511bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 015/112] fix: send to a client that has not connected yet
 without its application's settings

---
 modules/nginx-rtmp-module/ngx_rtmp_shared_module.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index cdbf5d0..0bbb7a0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -88,20 +88,25 @@ ngx_rtmp_prepare_merge_frame(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_core_app_conf_t   *cacf;
     ngx_chain_t                *ll, **ln;
-    ngx_uint_t                  n;
+    ngx_uint_t                  n, merge_frame;
 
     // merge frame not send completely
     if (s->out_chain) {
         return NGX_OK;
     }
 
-    cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
+    // no application is chosen before connect
+    merge_frame = 1;
+    if (s->app_conf) {
+        cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
+        merge_frame = cacf->merge_frame;
+    }
 
     ngx_rtmp_free_merge_frame(s);
 
     ln = &s->out_chain;
 
-    for (n = 0; n < cacf->merge_frame && s->out_pos != s->out_last; ++n) {
+    for (n = 0; n < merge_frame && s->out_pos != s->out_last; ++n) {
         // save frame chain with rtmp chunk or flv tag
         s->merge[n] = s->prepare_handler(s);
 
-- 
2.43.0


From 2f5b53cf4b00db17fe6cf517d0416684c1707802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 016/112] fix: write the init segment of a DASH stream that has
 no video yet

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
index 98efe14..ba234d6 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
@@ -498,7 +498,7 @@ ngx_rtmp_mp4_write_avcc(ngx_rtmp_session_t *s, ngx_buf_t *b)
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    if (codec_ctx == NULL) {
+    if (codec_ctx == NULL || codec_ctx->avc_header == NULL) {
         return NGX_ERROR;
     }
 
-- 
2.43.0


From 69229c5e95c0444d405815f701ad31804817a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 017/112] fix: serve the players of a publisher that has not
 sent anything with a codec

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 8cbee81..d1259b0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -484,6 +484,11 @@ ngx_rtmp_gop_send_meta(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     ssctx = ngx_rtmp_get_module_ctx(ss, ngx_rtmp_gop_module);
     cctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
+    /* nothing that tells a codec has been published yet */
+    if (cctx == NULL) {
+        return NGX_OK;
+    }
+
     /* meta */
     if (ssctx->meta_version != cctx->meta_version
             && ngx_rtmp_gop_link_frame(ss, cctx->meta) == NGX_AGAIN)
-- 
2.43.0


From b331bb1a973e4f743103faac373a6c025f594ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 018/112] fix: leave the message whole for the modules after
 DASH

---
 .../dash/ngx_rtmp_dash_module.c               | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index b494606..1641ebc 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1107,6 +1107,8 @@ ngx_rtmp_dash_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_chain_t *in)
 {
     u_char                     htype;
+    ngx_buf_t                  b;
+    ngx_chain_t                cl;
     ngx_rtmp_dash_ctx_t       *ctx;
     ngx_rtmp_codec_ctx_t      *codec_ctx;
     ngx_rtmp_dash_app_conf_t  *dacf;
@@ -1142,11 +1144,14 @@ ngx_rtmp_dash_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     ctx->has_audio = 1;
 
-    /* skip RTMP & AAC headers */
+    /* skip RTMP & AAC headers, the message itself is for others to read too */
 
-    in->buf->pos += 2;
+    b = *in->buf;
+    b.pos += 2;
+    cl.buf = &b;
+    cl.next = in->next;
 
-    return ngx_rtmp_dash_append(s, in, &ctx->audio, 0, h->timestamp, 0);
+    return ngx_rtmp_dash_append(s, &cl, &ctx->audio, 0, h->timestamp, 0);
 }
 
 
@@ -1157,6 +1162,8 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     u_char                    *p;
     uint8_t                    ftype, htype;
     uint32_t                   delay;
+    ngx_buf_t                  b;
+    ngx_chain_t                cl;
     ngx_rtmp_dash_ctx_t       *ctx;
     ngx_rtmp_codec_ctx_t      *codec_ctx;
     ngx_rtmp_dash_app_conf_t  *dacf;
@@ -1199,11 +1206,14 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     ctx->has_video = 1;
 
-    /* skip RTMP & H264 headers */
+    /* skip RTMP & H264 headers, the message itself is for others to read too */
 
-    in->buf->pos += 5;
+    b = *in->buf;
+    b.pos += 5;
+    cl.buf = &b;
+    cl.next = in->next;
 
-    return ngx_rtmp_dash_append(s, in, &ctx->video, ftype == 1, h->timestamp,
+    return ngx_rtmp_dash_append(s, &cl, &ctx->video, ftype == 1, h->timestamp,
                                 delay);
 }
 
-- 
2.43.0


From 7c2aa87b8013a00681707964e2d4cf548cb57af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 019/112] fix: deliver the frames between key frames of a
 stream without codec headers

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 688180f..4bd2863 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -937,11 +937,13 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                     ngx_rtmp_send_message(ss, dummy, 0);
                 }
 
-                cs->timestamp = lh.timestamp;
-                cs->active = 1;
-                ss->current_time = cs->timestamp;
-
+            } else if (dummy_audio) {
+                ngx_rtmp_send_message(ss, dummy, 0);
             }
+
+            cs->timestamp = lh.timestamp;
+            cs->active = 1;
+            ss->current_time = cs->timestamp;
         }
 
         /* send av packet */
-- 
2.43.0


From c200f99fed3b6f9f457bb001ca0923ab479ad4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 020/112] fix: keep the data moved to a new buffer when the
 chunk size changes

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index df8f3fb..91e8eff 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -910,6 +910,7 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
     ngx_chain_t                        *li, *fli, *lo, *flo;
     ngx_buf_t                          *bi, *bo;
     ngx_int_t                           n;
+    size_t                              len;
 
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
@@ -973,8 +974,9 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
                     continue;
                 }
 
-                bi->pos += (ngx_cpymem(bo->last, bi->pos,
-                            bo->end - bo->last) - bo->last);
+                len = bo->end - bo->last;
+                bo->last = ngx_cpymem(bo->last, bi->pos, len);
+                bi->pos += len;
                 lo->next = ngx_rtmp_alloc_in_buf(s);
                 lo = lo->next;
                 if (lo == NULL) {
-- 
2.43.0


From b4ffa9ead6a093c71d89ff20c9fdb261ccf512e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 021/112] fix: find the first buffer of a message within an
 aggregate

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index 4224c2a..b3dab1d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -313,6 +313,12 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                        (ngx_int_t) ch.type, ch.mlen, ch.timestamp,
                        timestamp - base_time, ch.msid);
 
+        /* the message starts in the next buffer */
+
+        while (in->buf->pos == in->buf->last && in->next) {
+            in = in->next;
+        }
+
         /* limit chain */
 
         len = 0;
-- 
2.43.0


From a143503297d69afb8a9f0a0e09e866fcb0b99afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 022/112] fix: do not look for the frame type of an empty video
 message

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 4bd2863..7985ab8 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -687,6 +687,10 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     if (h->type == NGX_RTMP_MSG_VIDEO) {
+        if (in->buf->pos == in->buf->last) {
+            return NGX_OK;
+        }
+
         frametype = in->buf->pos[0] & 0xf0;
         if (frametype != 0x10 && frametype != 0x20) {
             ngx_log_error(NGX_LOG_ERR, s->log, 0,
-- 
2.43.0


From 0982dfc97b62c3ec35770b43bef03cb179791ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 023/112] fix: serve the players of a new publisher whose first
 frame is not cached

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index d1259b0..92e968d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -623,7 +623,9 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     pos = ngx_rtmp_gop_prev(s, sctx->gop_last);
     /* new frame is video key frame */
-    if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header) {
+    if (sctx->cache[pos] && sctx->cache[pos]->keyframe
+            && !sctx->cache[pos]->av_header)
+    {
         if (gacf->low_latency && pos != ssctx->gop_pos) {
             ssctx->gop_pos = pos;
             ss->out_pos = ss->out_last;
-- 
2.43.0


From 47782fb492e2d8661932f42f45405929d43dd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 024/112] fix: send the cached frames on both sides of the end
 of the ring

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 92e968d..f2b4f0d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -291,6 +291,7 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
     {
         if (ctx->cache[pos]->av_header) {
             ngx_rtmp_gop_reset_avheader(ctx, ctx->cache[pos]);
+            ctx->cache[pos] = NULL;
             ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
             continue;
         }
@@ -559,7 +560,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     pos = ssctx->gop_pos;
     frame = sctx->cache[pos];
-    while (frame && pos != ssctx->gop_last) {
+    while (frame && pos != sctx->gop_last) {
         if (!gacf->send_all &&
             frame->hdr.timestamp - ssctx->first_timestamp >= gacf->cache_time)
         {
@@ -575,7 +576,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         frame = sctx->cache[pos];
     }
 
-    if (frame == NULL || pos == ssctx->gop_last) { /* send all frame in cache */
+    if (frame == NULL || pos == sctx->gop_last) { /* send all frame in cache */
         ssctx->send_gop = 3;
     }
 
-- 
2.43.0


From 3858f3e2872affbfedba256662acac7e1ba3d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 025/112] fix: set Cache-Control as the linked list it is since
 nginx 1.23

---
 .../http/ngx_http_set_header.c                | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_set_header.c b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
index ffef7aa..a92042a 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_set_header.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
@@ -1,6 +1,7 @@
 #include <ngx_config.h>
 #include <ngx_core.h>
 #include <ngx_http.h>
+#include <nginx.h>
 
 typedef struct ngx_http_header_val_s  ngx_http_header_val_t;
 
@@ -168,6 +169,36 @@ static ngx_int_t
 ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ngx_http_header_val_t *hv, ngx_str_t *value)
 {
+#if (nginx_version >= 1023000)
+    /* since 1.23.0 headers with several values are linked lists */
+    ngx_table_elt_t  *ho, **ph;
+
+    ph = (ngx_table_elt_t **) ((char *) &r->headers_out + hv->offset);
+
+    if (*ph) {
+        (*ph)->value = *value;
+        (*ph)->hash = value->len == 0 ? 0 : hv->hash;
+
+        for (ho = (*ph)->next; ho; ho = ho->next) { /* clear old value */
+            ho->hash = 0;
+            ho->value.len = 0;
+        }
+
+        return NGX_OK;
+    }
+
+    /* header does not set */
+    ho = ngx_list_push(&r->headers_out.headers);
+    if (ho == NULL) {
+        return NGX_ERROR;
+    }
+
+    ho->value = *value;
+    ho->hash = hv->hash;
+    ho->key = hv->key;
+    ho->next = NULL;
+    *ph = ho;
+#else
     ngx_array_t      *pa;
     ngx_table_elt_t  *ho, **ph;
     ngx_uint_t        i;
@@ -215,6 +246,7 @@ ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ho->hash = hv->hash;
     ho->key = hv->key;
     *ph = ho;
+#endif
 
     return NGX_OK;
 }
-- 
2.43.0


From c7d075e40e360d9440891ea13e3330c86bd9d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 026/112] fix: follow changes of the codec headers in MPEG-TS
 output

---
 .../mpegts/ngx_mpegts_live_module.c           | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index cc3ed95..c58acd2 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -1616,6 +1616,24 @@ ngx_mpegts_live_aac_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     return NGX_OK;
 }
 
+static void
+ngx_mpegts_live_free_codec(ngx_mpegts_live_ctx_t *ctx, ngx_uint_t type)
+{
+    if (type == NGX_RTMP_MSG_AUDIO) {
+        if (ctx->aac_codec) {
+            ngx_rtmp_shared_free_frame(ctx->aac_codec->aac_header);
+            ctx->aac_codec = NULL;
+        }
+
+        return;
+    }
+
+    if (ctx->avc_codec) {
+        ngx_rtmp_shared_free_frame(ctx->avc_codec->avc_header);
+        ctx->avc_codec = NULL;
+    }
+}
+
 static ngx_int_t
 ngx_mpegts_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                  ngx_chain_t *in)
@@ -1645,6 +1663,11 @@ ngx_mpegts_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* use the new codec header for the frames after it */
+    if (ngx_rtmp_is_codec_header(in)) {
+        ngx_mpegts_live_free_codec(ctx, h->type);
+    }
+
     ngx_memzero(&frame, sizeof(frame));
 
     frame.hdr = *h;
-- 
2.43.0


From 28e80362abd6269eca204689da5600d847ff95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 027/112] fix: release the codec headers MPEG-TS output keeps
 when the stream closes

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index c58acd2..4d15a8c 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -1854,6 +1854,9 @@ ngx_mpegts_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         goto next;
     }
 
+    ngx_mpegts_live_free_codec(ctx, NGX_RTMP_MSG_AUDIO);
+    ngx_mpegts_live_free_codec(ctx, NGX_RTMP_MSG_VIDEO);
+
     if (ctx->stream == NULL) {
         ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                 "mpegts-live: close_stream| not joined");
-- 
2.43.0


From 2ba2f6d9fb565a99e9be6490f8cd586446d6365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 028/112] fix: take the composition time of video frames as
 signed

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c  |  6 ++++--
 .../mpegts/ngx_mpegts_live_module.c                  | 12 ++++++++----
 modules/nginx-rtmp-module/ngx_live_record.c          |  6 ++++--
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 9738168..76ba7cb 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2030,7 +2030,7 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     uint8_t                         fmt, ftype, htype, nal_type, src_nal_type;
     uint32_t                        len, rlen;
     ngx_buf_t                       out, *b;
-    uint32_t                        cts;
+    int32_t                         cts;
     ngx_rtmp_mpegts_frame_t         frame;
     ngx_uint_t                      nal_bytes;
     ngx_int_t                       aud_sent, sps_pps_sent, boundary;
@@ -2095,6 +2095,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
+    /* composition time is signed */
+    cts = (int32_t) ((uint32_t) cts << 8) >> 8;
 
     ngx_memzero(&out, sizeof(out));
 
@@ -2272,7 +2274,7 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     frame.cc = ctx->video_cc;
     frame.dts = (uint64_t) h->timestamp * 90;
-    frame.pts = frame.dts + cts * 90;
+    frame.pts = frame.dts + (int64_t) cts * 90;
     frame.pid = 0x100;
     frame.sid = 0xe0;
     frame.key = (ftype == 1);
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 4d15a8c..aa00279 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -834,7 +834,7 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     uint8_t                     fmt, ftype, htype, nal_type, src_nal_type;
     uint32_t                    len, rlen;
     ngx_buf_t                   out;
-    uint32_t                    cts;
+    int32_t                     cts;
     ngx_mpegts_frame_t         *frame;
     ngx_uint_t                  nal_bytes;
     ngx_int_t                   aud_sent, sps_pps_sent;
@@ -909,6 +909,8 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     /* convert big end to little end */
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
+    /* composition time is signed */
+    cts = (int32_t) ((uint32_t) cts << 8) >> 8;
 
     ngx_memzero(&out, sizeof(out));
 
@@ -1125,7 +1127,7 @@ NAL_TRAIL_N:
     frame->cc = ctx->video_cc;
     frame->dts = (uint64_t) h->timestamp * 90;
     /* pts = dts + composition time */
-    frame->pts = frame->dts + cts * 90;
+    frame->pts = frame->dts + (int64_t) cts * 90;
     /* program id */
     frame->pid = 0x100;
     /* stream id, video range from 0xe0 to 0xef */
@@ -1172,7 +1174,7 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     uint8_t                       fmt, ftype, htype, nal_type, src_nal_type;
     uint32_t                      len, rlen;
     ngx_buf_t                     out;
-    uint32_t                      cts;
+    int32_t                       cts;
     ngx_mpegts_frame_t           *frame;
     ngx_uint_t                    nal_bytes;
     ngx_int_t                     aud_sent, sps_pps_sent;
@@ -1242,6 +1244,8 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
 
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
+    /* composition time is signed */
+    cts = (int32_t) ((uint32_t) cts << 8) >> 8;
 
     ngx_memzero(&out, sizeof(out));
 
@@ -1361,7 +1365,7 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
 
     frame->cc = ctx->video_cc;
     frame->dts = (uint64_t) h->timestamp * 90;
-    frame->pts = frame->dts + (cts * 90);
+    frame->pts = frame->dts + (int64_t) cts * 90;
     frame->pid = 0x100;
     frame->sid = 0xe0;
     frame->key = (ftype == 1);
diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 8abef11..8a30d33 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -881,7 +881,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     uint8_t                         fmt, ftype, nal_type, src_nal_type;
     uint32_t                        len, rlen;
     ngx_buf_t                       out;
-    uint32_t                        cts;
+    int32_t                         cts;
     ngx_rtmp_mpegts_frame_t         frame;
     ngx_uint_t                      nal_bytes;
     ngx_int_t                       aud_sent, sps_pps_sent;
@@ -960,6 +960,8 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     /* CompositionTime */
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
+    /* composition time is signed */
+    cts = (int32_t) ((uint32_t) cts << 8) >> 8;
 
     /* Data */
     ngx_memzero(&out, sizeof(out));
@@ -1099,7 +1101,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     frame.cc = ctx->video_cc;
     frame.dts = (uint64_t) h->timestamp * 90;
-    frame.pts = frame.dts + cts * 90;
+    frame.pts = frame.dts + (int64_t) cts * 90;
     frame.pid = 0x100;
     frame.sid = 0xe0;
     frame.key = (ftype == 1);
-- 
2.43.0


From 2c01796378d84a2609335a68a31544698a649d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 029/112] fix: keep the MPEG-TS cache by decoding times,
 presentation times are not in order

---
 .../mpegts/ngx_mpegts_gop_module.c            | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 0491679..46a48fe 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -237,7 +237,7 @@ ngx_mpegts_gop_reset_gop(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ctx,
 
     /* only audio in cache */
     if (ctx->keyframe == NULL) {
-        if (frame->pts - ctx->cache[ctx->gop_pos]->pts > cache_time * 90) {
+        if (frame->dts - ctx->cache[ctx->gop_pos]->dts > cache_time * 90) {
             ngx_rtmp_shared_free_mpegts_frame(f);
             ctx->cache[ctx->gop_pos] = NULL;
             ctx->gop_pos = ngx_mpegts_gop_next(s, ctx->gop_pos);
@@ -263,8 +263,8 @@ ngx_mpegts_gop_reset_gop(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ctx,
         return;
     }
 
-    if (frame->type == NGX_MPEGTS_MSG_VIDEO && frame->pts
-            - next_keyframe->pts < cache_time * 90)
+    if (frame->type == NGX_MPEGTS_MSG_VIDEO && frame->dts
+            - next_keyframe->dts < cache_time * 90)
     {
         return;
     }
@@ -372,7 +372,7 @@ ngx_mpegts_gop_cache(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
     }
 
     frame->pos = ctx->gop_last;
-    ctx->current_timestamp = frame->pts;
+    ctx->current_timestamp = frame->dts;
     ctx->cache[ctx->gop_last] = frame;
     ctx->gop_last = ngx_mpegts_gop_next(s, ctx->gop_last);
 
@@ -418,7 +418,7 @@ ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
 
         ssctx->send_gop = 1;
-        ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->pts;
+        ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->dts;
         ssctx->base_type = sctx->cache[ssctx->gop_pos]->type;
     } else {
         if (sctx->cache[ssctx->gop_pos] == NULL) {
@@ -430,7 +430,8 @@ ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     keyframe = sctx->keyframe;
     while (ss->roll_back && keyframe &&
-        ((sctx->current_timestamp - keyframe->pts) > ss->roll_back * 90))
+        ((int64_t) (sctx->current_timestamp - keyframe->dts)
+            > (int64_t) ss->roll_back * 90))
     {
         ngx_log_error(NGX_LOG_INFO, s->log, 0,
             "rtmp-gop: send_gop| curr %D - k %D, %D",
@@ -456,7 +457,7 @@ ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
 
         if (!gacf->send_all && frame->type == ssctx->base_type &&
-            frame->pts - ssctx->first_timestamp >= gacf->one_off_send * 90)
+            frame->dts - ssctx->first_timestamp >= gacf->one_off_send * 90)
         {
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                 "gone %D, type %d, first %D, curr %D, send %D",
@@ -562,7 +563,7 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         }
 
         ssctx->send_gop = 1;
-        ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->pts;
+        ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->dts;
         ssctx->base_type = sctx->cache[ssctx->gop_pos]->type;
     } else {
         if (sctx->cache[ssctx->gop_pos] == NULL) {
@@ -574,7 +575,8 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
 
     keyframe = sctx->keyframe;
     while (time_offset && keyframe &&
-        ((sctx->current_timestamp - keyframe->pts) > time_offset * 90))
+        ((int64_t) (sctx->current_timestamp - keyframe->dts)
+            > (int64_t) time_offset * 90))
     {
         ngx_log_error(NGX_LOG_DEBUG, ss->log, 0,
             "mpegts-gop: offset_frames| curr %D - k %D = %D, %D",
@@ -582,7 +584,7 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
             (sctx->current_timestamp - keyframe->pts) / 90, time_offset);
         frame = keyframe;
         keyframe = keyframe->next;
-        ssctx->first_timestamp = frame->pts;
+        ssctx->first_timestamp = frame->dts;
         ssctx->base_type = frame->type;
     }
 
@@ -600,7 +602,7 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         }
 
         if (frame->type == ssctx->base_type &&
-            frame->pts - ssctx->first_timestamp >= duration * 90)
+            frame->dts - ssctx->first_timestamp >= duration * 90)
         {
             ngx_log_error(NGX_LOG_INFO, ss->log, 0, "gone %D, first %D, curr %D",
                 frame->pts, ssctx->first_timestamp, sctx->current_timestamp);
-- 
2.43.0


From 79c448aa2338d3c6a0a75a3df9ee944c4c8e93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 030/112] fix: do not need the publisher for the tables of an
 HTTP MPEG-TS response

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 5 ++---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 64061d2..7f861f5 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -95,7 +95,7 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
     ngx_keyval_t            *h;
     ngx_chain_t              out;
     ngx_mpegts_http_ctx_t   *ctx;
-    ngx_rtmp_session_t      *s, *ps;
+    ngx_rtmp_session_t      *s;
 
     if (r->header_sent) {
         return NGX_OK;
@@ -103,7 +103,6 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
 
     ctx = ngx_http_get_module_ctx(r, ngx_mpegts_http_module);
     s = ctx->session;
-    ps = s->live_stream->publish_ctx->session;
 
     r->headers_out.status = NGX_HTTP_OK;
     r->keepalive = 0; /* set Connection to closed */
@@ -127,7 +126,7 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
     out.buf->last = ngx_cpymem(out.buf->pos,
         ngx_rtmp_mpegts_pat, 188);
 
-    ngx_rtmp_mpegts_gen_pmt(ps->vcodec, ps->acodec, s->log, out.buf->last);
+    ngx_rtmp_mpegts_gen_pmt(s->vcodec, s->acodec, s->log, out.buf->last);
     out.buf->last += 188;
 
     out.buf->flush = 1;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index aa00279..35050e6 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -1725,6 +1725,11 @@ ngx_mpegts_live_avframe(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 
     for (cctx = s->live_stream->mpegts_ctx; cctx; cctx = cctx->next) {
         ss = cctx->session;
+
+        /* the publisher may be gone when the header is sent */
+        ss->vcodec = s->vcodec;
+        ss->acodec = s->acodec;
+
         ngx_mpegts_gop_send(s, ss);
 
         if (!s->connection->write->active) {
-- 
2.43.0


From 13b07842da28ef08931024a24b923b1a131a45b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 031/112] fix: no huge HLS segment duration when a timestamp is
 a bit behind the segment's start

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 76ba7cb..1207148 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1731,7 +1731,8 @@ ngx_rtmp_hls_update_fragment(ngx_rtmp_session_t *s, uint64_t ts,
             force = 1;
 
         } else {
-            f->duration = (ts - ctx->frag_ts) / 90000.;
+            /* ts may be a bit behind the start or the last frame */
+            f->duration = ngx_max(f->duration, d / 90000.);
             discont = 0;
         }
     }
-- 
2.43.0


From 447162a905aee7cfcead75099c4bf6a708776c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 032/112] fix: no cut off audio frame in an HLS segment when
 the audio buffer is full before it starts

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 1207148..3c368cb 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1905,6 +1905,11 @@ ngx_rtmp_hls_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         ngx_rtmp_hls_flush_audio(s);
     }
 
+    if (b->last + size > b->end) {
+        /* there is no fragment yet, keep the latest audio */
+        b->pos = b->last = b->start;
+    }
+
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "hls: audio pts=%uL", pts);
 
-- 
2.43.0


From 63f8f27e163e4ebbbcc7b31f3c34396aa63d21be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 033/112] fix: forget the descriptor of a recording that is
 closed after a failed write

---
 .../ngx_rtmp_record_module.c                  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 4cff47e..0ac486c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -923,11 +923,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     if (ngx_write_file(&rctx->file, hdr, ph - hdr, rctx->file.offset)
         == NGX_ERROR)
     {
-        ngx_rtmp_record_notify_error(s, rctx);
-
-        ngx_close_file(rctx->file.fd);
-
-        return NGX_ERROR;
+        goto failed;
     }
 
     /* write tag body
@@ -945,7 +941,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                            - in->buf->pos, rctx->file.offset)
             == NGX_ERROR)
         {
-            return NGX_ERROR;
+            goto failed;
         }
     }
 
@@ -962,7 +958,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                        rctx->file.offset)
         == NGX_ERROR)
     {
-        return NGX_ERROR;
+        goto failed;
     }
 
     rctx->nframes += inc_nframes;
@@ -975,6 +971,15 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     }
 
     return NGX_OK;
+
+failed:
+
+    ngx_rtmp_record_notify_error(s, rctx);
+
+    ngx_close_file(rctx->file.fd);
+    rctx->file.fd = NGX_INVALID_FILE;
+
+    return NGX_ERROR;
 }
 
 
-- 
2.43.0


From 51d2a871648fc49a639622d07130b002e3eda1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 034/112] fix: keep the header flags of a recording that is
 appended to

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 0ac486c..f447a01 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -572,6 +572,12 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
         p[1] = buf[5];
         p[2] = buf[4];
 
+        /* what is in the file already */
+        if (ngx_read_file(&rctx->file, buf, 1, 4) == 1) {
+            rctx->video = buf[0] & 0x01;
+            rctx->audio = (buf[0] & 0x04) >> 2;
+        }
+
 done:
         rctx->file.offset = file_size;
         rctx->time_shift = timestamp;
-- 
2.43.0


From a981a62af6d880afec1bf498e1991de1f9c676c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 035/112] fix: write a new AAC header that comes while a manual
 recorder waits for its first frame

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index f447a01..c8fb670 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -1076,6 +1076,11 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
     if ((rracf->flags & NGX_RTMP_RECORD_MANUAL) &&
         !brkframe && rctx->nframes == 0)
     {
+        if (h->type == NGX_RTMP_MSG_AUDIO && ngx_rtmp_is_codec_header(in)) {
+            /* the first frame needs this header */
+            rctx->aac_header_sent = 0;
+        }
+
         return NGX_OK;
     }
 
-- 
2.43.0


From 9fa87822c82367c3bcef88e7a3e549ec140cbb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 036/112] fix: keep the whole address of an IPv6 client

The session kept the first sizeof(struct sockaddr) bytes only, so access
rules for IPv6 networks were matched against memory after them.
---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 2455f9e..40527b0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -196,8 +196,8 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
     s->remote_addr_text.data = ngx_pcalloc(s->pool, c->addr_text.len);
     s->remote_addr_text.len = c->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data, c->addr_text.data, c->addr_text.len);
-    s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-    ngx_memcpy(s->sockaddr, c->sockaddr, sizeof(struct sockaddr));
+    s->sockaddr = ngx_pcalloc(s->pool, c->socklen);
+    ngx_memcpy(s->sockaddr, c->sockaddr, c->socklen);
 
     ngx_rtmp_init_session(s, c);
 
-- 
2.43.0


From 4778fb23fe384f7df12d731d0312ff71658c3605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 037/112] fix: apply access rules to the client a PROXY header
 names

The session kept the address of the proxy, and took any six bytes for the
keyword that a header starts with.
---
 modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
index 1b24055..127b130 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
@@ -103,7 +103,7 @@ ngx_rtmp_proxy_protocol_recv(ngx_event_t *rev)
 
     p = buf;
 
-    if (n <= 8 && ngx_strncmp(p, "PROXY ", 6) != 0) {
+    if (n <= 8 || ngx_strncmp(p, "PROXY ", 6) != 0) {
         goto bad_header;
     }
 
@@ -179,6 +179,9 @@ skip:
         c->addr_text.data = text;
         c->addr_text.len = len;
 
+        s->sockaddr = c->sockaddr;
+        s->remote_addr_text = c->addr_text;
+
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, c->log, 0,
                        "proxy_protocol: remote_addr:'%V'", &c->addr_text);
     }
-- 
2.43.0


From acfc6d1d9424f899b01f60a27d5c8e16ad033c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 038/112] fix: count the connections that max_connections
 limits

Nothing announced a new connection to the modules, so the limit never
applied, and every session that ended was subtracted.
---
 modules/nginx-rtmp-module/ngx_rtmp_init.c         | 5 +++++
 modules/nginx-rtmp-module/ngx_rtmp_limit_module.c | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 40527b0..9db2de8 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -206,6 +206,11 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
 
     s->interprocess = unix_socket;
 
+    if (ngx_rtmp_fire_event(s, NGX_RTMP_CONNECT, NULL, NULL) != NGX_OK) {
+        ngx_rtmp_finalize_session(s);
+        return;
+    }
+
     if (addr_conf->proxy_protocol) {
         ngx_rtmp_proxy_protocol(s);
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
index dae8143..021f841 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
@@ -98,6 +98,9 @@ ngx_rtmp_limit_connect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     shpool = (ngx_slab_pool_t *) shm_zone->shm.addr;
     nconn = shm_zone->data;
 
+    /* the session is counted until it disconnects */
+    ngx_rtmp_set_ctx(s, nconn, ngx_rtmp_limit_module);
+
     ngx_shmtx_lock(&shpool->mutex);
     n = ++*nconn;
     ngx_shmtx_unlock(&shpool->mutex);
@@ -127,7 +130,10 @@ ngx_rtmp_limit_disconnect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     uint32_t                   *nconn, n;
 
     lmcf = ngx_rtmp_get_module_main_conf(s, ngx_rtmp_limit_module);
-    if (lmcf->max_conn == NGX_CONF_UNSET) {
+    if (lmcf->max_conn == NGX_CONF_UNSET
+        || ngx_rtmp_get_module_ctx(s, ngx_rtmp_limit_module) == NULL)
+    {
+        /* sessions of relays and of http clients are not counted */
         return NGX_OK;
     }
 
-- 
2.43.0


From 2df5d382606c0472318d2a7db2113024dd61a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 039/112] fix: use the serverid of the virtual server a client
 asked for

The serverid was taken before the virtual server was looked up, so it was
always the one of the default server, and in-memory HLS, which looks for
the virtual server's, did not find the streams.
---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index 5d3fc50..df347c7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -159,6 +159,11 @@ ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s)
     s->scheme = rurl.scheme;
     s->domain = rurl.host;
 
+    /* the serverid is the one of the virtual server */
+    if (ngx_rtmp_set_virtual_server(s, &s->domain) != NGX_OK) {
+        return;
+    }
+
     rcsf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
     rcsdf = ngx_rtmp_get_module_srv_dconf(s, &ngx_rtmp_core_module);
     if (rcsdf && rcsdf->serverid.len) {
-- 
2.43.0


From 26562aa84f529119c2b288cc51bc8c8463ffc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 040/112] fix: use the proxy_protocol setting of the address a
 client connected to

---
 modules/nginx-rtmp-module/ngx_rtmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.c b/modules/nginx-rtmp-module/ngx_rtmp.c
index 33170ff..0476700 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp.c
@@ -1083,7 +1083,7 @@ ngx_rtmp_add_addrs(ngx_conf_t *cf, ngx_rtmp_port_t *mport,
 
         addrs[i].conf.addr_text.len = len;
         addrs[i].conf.addr_text.data = p;
-        addrs[i].conf.proxy_protocol = addr->opt.proxy_protocol;
+        addrs[i].conf.proxy_protocol = addr[i].opt.proxy_protocol;
 
         if (addr[i].hash.buckets == NULL
             && (addr[i].wc_head == NULL
@@ -1161,7 +1161,7 @@ ngx_rtmp_add_addrs6(ngx_conf_t *cf, ngx_rtmp_port_t *mport,
 
         addrs6[i].conf.addr_text.len = len;
         addrs6[i].conf.addr_text.data = p;
-        addrs6[i].conf.proxy_protocol = addr->opt.proxy_protocol;
+        addrs6[i].conf.proxy_protocol = addr[i].opt.proxy_protocol;
 
         if (addr[i].hash.buckets == NULL
             && (addr[i].wc_head == NULL
-- 
2.43.0


From 4c7c3dabe584061a49df988e6cf93ecc99571202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 041/112] fix: create a port's listening sockets once, after
 the names of all its addresses

---
 modules/nginx-rtmp-module/ngx_rtmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.c b/modules/nginx-rtmp-module/ngx_rtmp.c
index 0476700..a23b15c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp.c
@@ -1031,10 +1031,10 @@ ngx_rtmp_optimize_servers(ngx_conf_t *cf, ngx_rtmp_core_main_conf_t *cmcf,
                     return NGX_ERROR;
                 }
             }
+        }
 
-            if (ngx_rtmp_init_listening(cf, &port[p]) != NGX_OK) {
-                return NGX_ERROR;
-            }
+        if (ngx_rtmp_init_listening(cf, &port[p]) != NGX_OK) {
+            return NGX_ERROR;
         }
     }
 
-- 
2.43.0


From a85a401edb9ff6627cfaeb70c582a9c470423b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 042/112] fix: end a session that leaves a ping unanswered

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 91e8eff..36e141d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -768,7 +768,10 @@ ngx_rtmp_send(ngx_event_t *wev)
         }
 
         s->out_bytes += n;
-        s->ping_reset = 1;
+        if (!s->ping_active) {
+            /* output, the ping itself among it, is no answer to a ping */
+            s->ping_reset = 1;
+        }
         ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, n);
         if (s->live_stream) {
             ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, n);
-- 
2.43.0


From 228cc921f6f241ec8f25b67e5319e3dd0b517314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 043/112] fix: drop the posted close of a session that is freed
 before it runs

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 9db2de8..f79b161 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -291,6 +291,10 @@ ngx_rtmp_close_session(ngx_rtmp_session_t *s)
         ngx_del_timer(&s->ping_evt);
     }
 
+    if (s->close.posted) {
+        ngx_delete_posted_event(&s->close);
+    }
+
     if (s->in_old_pool) {
         NGX_DESTROY_POOL(s->in_old_pool);
         s->in_old_pool = NULL;
-- 
2.43.0


From f2cac847db1989745ad3dfcef3835b51375ebed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 044/112] fix: skip a player whose cache position was reused to
 the start of the cache, with the headers

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 109 +++++++++++++-----
 1 file changed, 78 insertions(+), 31 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index f2b4f0d..2b59dbc 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -19,6 +19,9 @@ static char *ngx_rtmp_gop_merge_app_conf(ngx_conf_t *cf, void *parent,
 
 static ngx_int_t ngx_rtmp_gop_postconfiguration(ngx_conf_t *cf);
 
+static uint64_t                         ngx_rtmp_gop_publishers;
+
+
 #define ngx_rtmp_gop_next(s, pos) ((pos + 1) % s->out_queue)
 #define ngx_rtmp_gop_prev(s, pos) (pos == 0 ? s->out_queue - 1 : pos - 1)
 
@@ -44,6 +47,12 @@ typedef struct {
 
     uint32_t                    first_timestamp;
 
+    /* frames are numbered, those of different publishers never alike
+     * publisher: number of the frame to be cached at gop_last
+     * player: number of the frame at gop_pos
+     */
+    uint64_t                    seq;
+
     /* only for publisher, must at last of ngx_rtmp_gop_ctx_t */
     ngx_rtmp_frame_t           *cache[];
 } ngx_rtmp_gop_ctx_t;
@@ -426,6 +435,7 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
             return NGX_ERROR;
         }
         ngx_rtmp_set_ctx(s, ctx, ngx_rtmp_gop_module);
+        ctx->seq = ++ngx_rtmp_gop_publishers << 32;
     }
 
     nmsg = (s->out_queue + ctx->gop_last - ctx->gop_pos) % s->out_queue + 1;
@@ -466,6 +476,7 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 
     ctx->cache[ctx->gop_last] = frame;
     ctx->gop_last = ngx_rtmp_gop_next(s, ctx->gop_last);
+    ++ctx->seq;
 
     ngx_rtmp_shared_acquire_frame(frame);
 
@@ -501,6 +512,60 @@ ngx_rtmp_gop_send_meta(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_OK;
 }
 
+/* number of the first frame in publisher's cache */
+static uint64_t
+ngx_rtmp_gop_first_seq(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *sctx)
+{
+    return sctx->seq - (s->out_queue + sctx->gop_last - sctx->gop_pos)
+                       % s->out_queue;
+}
+
+/*
+ * A player that is too slow may find its position given up by the publisher,
+ * and used for newer frames: it goes on with the first frame in cache
+ */
+static ngx_int_t
+ngx_rtmp_gop_skip(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
+{
+    ngx_rtmp_gop_ctx_t         *sctx, *ssctx;
+    uint64_t                    first;
+
+    sctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
+    ssctx = ngx_rtmp_get_module_ctx(ss, ngx_rtmp_gop_module);
+
+    first = ngx_rtmp_gop_first_seq(s, sctx);
+
+    if (ssctx->seq >= first && ssctx->seq <= sctx->seq) {
+        return NGX_OK;
+    }
+
+    ngx_log_error(NGX_LOG_ERR, ss->log, 0,
+            "gop, current gop pos is not in cache, "
+            "skip to new postion [pos %d last %d] %d",
+            sctx->gop_pos, sctx->gop_last, ssctx->gop_pos);
+
+    if (sctx->aac_header
+            && sctx->aac_header != ssctx->latest_aac_header)
+    {
+        if (ngx_rtmp_gop_link_frame(ss, sctx->aac_header) == NGX_AGAIN) {
+            return NGX_AGAIN;
+        }
+    }
+
+    if (sctx->avc_header
+            && sctx->avc_header != ssctx->latest_avc_header)
+    {
+        if (ngx_rtmp_gop_link_frame(ss, sctx->avc_header) == NGX_AGAIN) {
+            return NGX_AGAIN;
+        }
+    }
+
+    ssctx->gop_pos = sctx->gop_pos;
+    ssctx->seq = first;
+
+    return NGX_OK;
+}
+
 static ngx_int_t
 ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -534,6 +599,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     /* link frame in s to ss */
     if (ssctx->send_gop == 1) {
         ssctx->gop_pos = sctx->gop_pos;
+        ssctx->seq = ngx_rtmp_gop_first_seq(s, sctx);
         if (sctx->cache[ssctx->gop_pos] == NULL) {
             return NGX_AGAIN;
         }
@@ -552,10 +618,8 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
         ssctx->send_gop = 2;
         ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->hdr.timestamp;
-    } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ssctx->gop_pos = sctx->gop_pos;
-        }
+    } else if (ngx_rtmp_gop_skip(s, ss) == NGX_AGAIN) {
+        return NGX_AGAIN;
     }
 
     pos = ssctx->gop_pos;
@@ -573,6 +637,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
 
         pos = ngx_rtmp_gop_next(s, pos);
+        ++ssctx->seq;
         frame = sctx->cache[pos];
     }
 
@@ -629,6 +694,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     {
         if (gacf->low_latency && pos != ssctx->gop_pos) {
             ssctx->gop_pos = pos;
+            ssctx->seq = sctx->seq - 1;
             ss->out_pos = ss->out_last;
             ngx_log_error(NGX_LOG_INFO, ss->log, 0,
                     "gop, low latency, chase to new keyframe");
@@ -653,35 +719,15 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
                 }
             }
         }
-    } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ngx_log_error(NGX_LOG_ERR, ss->log, 0,
-                    "gop, current gop pos is NULL, "
-                    "skip to new postion [pos %d last %d] %d",
-                    sctx->gop_pos, sctx->gop_last, ssctx->gop_pos);
-
-            if (sctx->aac_header
-                    && sctx->aac_header != ssctx->latest_aac_header)
-            {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->aac_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
-            }
+    }
 
-            if (sctx->avc_header
-                    && sctx->avc_header != ssctx->latest_avc_header)
-            {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->avc_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
-            }
+    if (ngx_rtmp_gop_skip(s, ss) == NGX_AGAIN) {
+        return NGX_AGAIN;
+    }
 
-            ssctx->gop_pos = sctx->gop_pos;
-        }
+    /* the new frame is not cached */
+    if (ssctx->seq == sctx->seq) {
+        return NGX_OK;
     }
 
     frame = sctx->cache[ssctx->gop_pos];
@@ -690,6 +736,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     }
 
     ssctx->gop_pos = ngx_rtmp_gop_next(s, ssctx->gop_pos);
+    ++ssctx->seq;
     ngx_rtmp_send_message(ss, NULL, 0);
 
     return NGX_OK;
-- 
2.43.0


From d4a962198eee17e22d777f7a51484ddae6d86773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 045/112] fix: leave a shared frame's timestamp alone when a
 player's time is adjusted

---
 modules/nginx-rtmp-module/ngx_rtmp.h          |  5 +
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 97 ++++++++++++-------
 .../ngx_rtmp_shared_module.c                  | 29 +++++-
 3 files changed, 94 insertions(+), 37 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 047cee6..d76eabd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -192,6 +192,9 @@ struct ngx_rtmp_frame_s {
 
     ngx_rtmp_frame_t       *next;
     ngx_chain_t            *chain;
+
+    /* the frame whose chain a clone uses */
+    ngx_rtmp_frame_t       *origin;
 };
 
 typedef struct ngx_mpegts_frame_s   ngx_mpegts_frame_t;
@@ -862,6 +865,8 @@ void ngx_rtmp_shared_append_chain(ngx_rtmp_frame_t *frame, size_t size,
         ngx_chain_t *cl, ngx_flag_t mandatory);
 ngx_rtmp_frame_t *ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *cl,
         ngx_flag_t mandatory);
+/* frame with the same chain, takes over the caller's reference to frame */
+ngx_rtmp_frame_t *ngx_rtmp_shared_clone_frame(ngx_rtmp_frame_t *frame);
 void ngx_rtmp_shared_free_frame(ngx_rtmp_frame_t *frame);
 
 #define ngx_rtmp_shared_acquire_frame(frame) ++frame->ref;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 2b59dbc..cf77746 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -168,55 +168,69 @@ ngx_rtmp_gop_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
     return NGX_CONF_OK;
 }
 
-static ngx_int_t
-ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
+/*
+ * Time of frame for a player. The frame itself is shared with other players
+ * and with the cache, so it must not be changed
+ */
+static uint32_t
+ngx_rtmp_gop_fix_timestamp(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 {
- ngx_uint_t                      nmsg;
     ngx_rtmp_live_chunk_stream_t   *cs;
     ngx_uint_t                      csidx;
     ngx_rtmp_live_ctx_t            *lctx;
-    ngx_rtmp_gop_ctx_t             *ctx;
     uint32_t                        delta;
     ngx_rtmp_gop_app_conf_t        *gacf;
 
-    if (frame == NULL) {
-        return NGX_OK;
+    gacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_gop_module);
+    if (gacf->fix_timestamp == 0) {
+        return frame->hdr.timestamp;
     }
 
-    gacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_gop_module);
-    if (gacf->fix_timestamp) {
-        lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
-        csidx = !(frame->hdr.type == NGX_RTMP_MSG_VIDEO);
+    if (frame->hdr.type == NGX_RTMP_MSG_AMF_META) {
+        return 0;
+    }
 
-        cs  = &lctx->cs[csidx];
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
+    csidx = !(frame->hdr.type == NGX_RTMP_MSG_VIDEO);
 
-        delta = frame->hdr.timestamp > cs->last_timestamp ?
-            frame->hdr.timestamp - cs->last_timestamp :
-            cs->last_timestamp - frame->hdr.timestamp;
+    cs  = &lctx->cs[csidx];
 
-        if (delta > gacf->fix_timestamp) {
-            delta = 0;
-        }
+    delta = frame->hdr.timestamp > cs->last_timestamp ?
+        frame->hdr.timestamp - cs->last_timestamp :
+        cs->last_timestamp - frame->hdr.timestamp;
 
-        if (!gacf->zero_start && cs->timestamp == 0) {
-            cs->timestamp = frame->hdr.timestamp;
-        } else if (frame->hdr.timestamp > cs->last_timestamp) {
-            cs->timestamp += delta;
-        } else if (cs->timestamp >= delta) {
-            cs->timestamp -= delta;
-        }
+    if (delta > gacf->fix_timestamp) {
+        delta = 0;
+    }
+
+    if (!gacf->zero_start && cs->timestamp == 0) {
+        cs->timestamp = frame->hdr.timestamp;
+    } else if (frame->hdr.timestamp > cs->last_timestamp) {
+        cs->timestamp += delta;
+    } else if (cs->timestamp >= delta) {
+        cs->timestamp -= delta;
+    }
 
-        cs->last_timestamp = frame->hdr.timestamp;
+    cs->last_timestamp = frame->hdr.timestamp;
 
-        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-            "gop: link_frame| type %d, delta %d,"
-            " timestamp %uD, fixed timestamp %uD",
-            frame->hdr.type, delta, frame->hdr.timestamp, cs->timestamp);
+    ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+        "gop: link_frame| type %d, delta %d,"
+        " timestamp %uD, fixed timestamp %uD",
+        frame->hdr.type, delta, frame->hdr.timestamp, cs->timestamp);
 
-        frame->hdr.timestamp = cs->timestamp;
-        if (frame->hdr.type == NGX_RTMP_MSG_AMF_META) {
-            frame->hdr.timestamp = 0;
-        }
+    return cs->timestamp;
+}
+
+static ngx_int_t
+ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
+{
+    ngx_uint_t                      nmsg;
+    ngx_rtmp_gop_ctx_t             *ctx;
+    ngx_rtmp_frame_t               *out;
+    uint32_t                        timestamp;
+
+    if (frame == NULL) {
+        return NGX_OK;
     }
 
     nmsg = (s->out_queue + s->out_last - s->out_pos) % s->out_queue + 1;
@@ -227,6 +241,19 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         return NGX_AGAIN;
     }
 
+    out = frame;
+    ngx_rtmp_shared_acquire_frame(frame);
+
+    timestamp = ngx_rtmp_gop_fix_timestamp(s, frame);
+    if (timestamp != frame->hdr.timestamp) {
+        out = ngx_rtmp_shared_clone_frame(frame);
+        if (out == NULL) {
+            ngx_rtmp_shared_free_frame(frame);
+            return NGX_AGAIN;
+        }
+        out->hdr.timestamp = timestamp;
+    }
+
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
 
     if (frame->hdr.type == NGX_RTMP_MSG_AUDIO && frame->av_header) {
@@ -237,11 +264,9 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         ctx->latest_avc_header = frame;
     }
 
-    s->out[s->out_last] = frame;
+    s->out[s->out_last] = out;
     s->out_last = ngx_rtmp_gop_next(s, s->out_last);
 
-    ngx_rtmp_shared_acquire_frame(frame);
-
     return NGX_OK;
 }
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index 0bbb7a0..c77af24 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -224,7 +224,7 @@ ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *cl, ngx_flag_t mandatory)
     frame = rscf->free_frame;
     if (frame) {
         rscf->free_frame = frame->next;
-        frame->chain = NULL;
+        ngx_memzero(frame, sizeof(ngx_rtmp_frame_t));
         --rscf->nfree_frame;
     } else {
         frame = ngx_pcalloc(rscf->pool, sizeof(ngx_rtmp_frame_t));
@@ -242,6 +242,26 @@ ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *cl, ngx_flag_t mandatory)
     return frame;
 }
 
+ngx_rtmp_frame_t *
+ngx_rtmp_shared_clone_frame(ngx_rtmp_frame_t *frame)
+{
+    ngx_rtmp_frame_t           *clone;
+
+    clone = ngx_rtmp_shared_alloc_frame(0, NULL, 0);
+    if (clone == NULL) {
+        return NULL;
+    }
+
+    clone->hdr = frame->hdr;
+    clone->av_header = frame->av_header;
+    clone->keyframe = frame->keyframe;
+    clone->mandatory = frame->mandatory;
+    clone->chain = frame->chain;
+    clone->origin = frame;
+
+    return clone;
+}
+
 void
 ngx_rtmp_shared_free_frame(ngx_rtmp_frame_t *frame)
 {
@@ -255,6 +275,13 @@ ngx_rtmp_shared_free_frame(ngx_rtmp_frame_t *frame)
         return;
     }
 
+    if (frame->origin) {
+        /* chain belongs to the origin */
+        frame->chain = NULL;
+        ngx_rtmp_shared_free_frame(frame->origin);
+        frame->origin = NULL;
+    }
+
     /* recycle chainbuf */
     cl = frame->chain;
     while (cl) {
-- 
2.43.0


From f525aefa74d9c5bb5bfaa03009798aae954a88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 046/112] fix: release the frames low_latency drops, and keep
 the headers among them

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index cf77746..513f3ab 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -676,6 +676,34 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_AGAIN;
 }
 
+/* drop frames waiting to be sent, but those a player can't do without */
+static void
+ngx_rtmp_gop_drop_frames(ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_frame_t           *frame;
+    size_t                      pos, last;
+
+    last = s->out_pos;
+
+    for (pos = s->out_pos; pos != s->out_last;
+            pos = ngx_rtmp_gop_next(s, pos))
+    {
+        frame = s->out[pos];
+
+        if (frame->mandatory || (frame->hdr.type != NGX_RTMP_MSG_AUDIO
+                                 && frame->hdr.type != NGX_RTMP_MSG_VIDEO))
+        {
+            s->out[last] = frame;
+            last = ngx_rtmp_gop_next(s, last);
+            continue;
+        }
+
+        ngx_rtmp_shared_free_frame(frame);
+    }
+
+    s->out_last = last;
+}
+
 ngx_int_t
 ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -720,7 +748,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         if (gacf->low_latency && pos != ssctx->gop_pos) {
             ssctx->gop_pos = pos;
             ssctx->seq = sctx->seq - 1;
-            ss->out_pos = ss->out_last;
+            ngx_rtmp_gop_drop_frames(ss);
             ngx_log_error(NGX_LOG_INFO, ss->log, 0,
                     "gop, low latency, chase to new keyframe");
 
-- 
2.43.0


From 136c8e6251cbcb0b13aaf3f814dfb126c4299ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 047/112] fix: escape names and arguments in the url of a
 callback

---
 .../ngx_rtmp_notify_module.c                  | 102 +++++++++++-------
 1 file changed, 63 insertions(+), 39 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index f7456ca..091221a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1088,67 +1088,91 @@ ngx_rtmp_notify_init_process(ngx_cycle_t *cycle)
 
 }
 
+/*
+ * append str to an url, but only bytes an url may have: those of a value are
+ * escaped if they are special in args, those of args only if they could not
+ * be in a request line
+ */
+static u_char *
+ngx_rtmp_notify_escape(u_char *p, u_char *last, ngx_str_t *str,
+    ngx_flag_t value)
+{
+    static u_char               hex[] = "0123456789ABCDEF";
+    size_t                      i;
+    u_char                      ch;
+
+    for (i = 0; i < str->len; ++i) {
+        ch = str->data[i];
+
+        if (ch <= ' ' || ch >= 0x7f
+            || (value && ngx_strchr("#%&+;?", ch) != NULL))
+        {
+            if (last - p < 3) {
+                break;
+            }
+
+            *p++ = '%';
+            *p++ = hex[ch >> 4];
+            *p++ = hex[ch & 0xf];
+
+            continue;
+        }
+
+        if (p == last) {
+            break;
+        }
+
+        *p++ = ch;
+    }
+
+    return p;
+}
+
 static void
 ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
     ngx_rtmp_notify_event_t *event, ngx_netcall_ctx_t *nctx, ngx_uint_t stage)
 {
     ngx_request_url_t           ru;
-    size_t                      len;
-    u_char                     *p, *buf;
+    u_char                     *p, *last;
     ngx_live_record_ctx_t      *lrctx;
-    unsigned                    fill = 0;
     ngx_str_t                   args;
 
     ngx_memzero(&ru, sizeof(ngx_request_url_t));
     ngx_parse_request_url(&ru, &event->url);
 
-    len = NGX_NETCALL_MAX_URL_LEN;
-    buf = url->data;
-    p = ngx_snprintf(buf, len , "%V", &event->url);
-    if (fill) {
-        *p++ = '/';
-    }
-    len -= p - buf;
-    buf = p;
-
-    if (ru.args.len) { // url already has args
-        p = ngx_snprintf(buf, len,
-                "&call=%s&act=%s&domain=%V&app=%V&name=%V&clientid=%D",
-                ngx_rtmp_notify_app_type[nctx->type],
-                ngx_rtmp_notify_stage[stage],
-                &s->domain, &s->app, &s->name, s->number);
-    } else {
-        p = ngx_snprintf(buf, len,
-                "?call=%s&act=%s&domain=%V&app=%V&name=%V&clientid=%D",
-                ngx_rtmp_notify_app_type[nctx->type],
-                ngx_rtmp_notify_stage[stage],
-                &s->domain, &s->app, &s->name, s->number);
-    }
-    len -= p - buf;
-    buf = p;
+    p = url->data;
+    last = url->data + NGX_NETCALL_MAX_URL_LEN;
+
+    /* url may already have args */
+    p = ngx_slprintf(p, last, "%V%ccall=%s&act=%s&domain=", &event->url,
+                     ru.args.len ? '&' : '?',
+                     ngx_rtmp_notify_app_type[nctx->type],
+                     ngx_rtmp_notify_stage[stage]);
+    p = ngx_rtmp_notify_escape(p, last, &s->domain, 1);
+    p = ngx_slprintf(p, last, "&app=");
+    p = ngx_rtmp_notify_escape(p, last, &s->app, 1);
+    p = ngx_slprintf(p, last, "&name=");
+    p = ngx_rtmp_notify_escape(p, last, &s->name, 1);
+    p = ngx_slprintf(p, last, "&clientid=%D", s->number);
 
     if (nctx->type == NGX_RTMP_OCLP_RECORD && stage != NGX_RTMP_OCLP_START) {
         lrctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
-        p = ngx_snprintf(buf, len, "&begintime=%M&endtime=%M&index=%V&file=%V",
-                lrctx->begintime, lrctx->endtime, &lrctx->index.name,
-                &lrctx->file.name);
-
-        len -= p - buf;
-        buf = p;
+        p = ngx_slprintf(p, last, "&begintime=%M&endtime=%M&index=",
+                lrctx->begintime, lrctx->endtime);
+        p = ngx_rtmp_notify_escape(p, last, &lrctx->index.name, 1);
+        p = ngx_slprintf(p, last, "&file=");
+        p = ngx_rtmp_notify_escape(p, last, &lrctx->file.name, 1);
     }
 
     if (event->groupid.len) {
-        p = ngx_snprintf(buf, len, "&groupid=%V", &event->groupid);
-        len -= p - buf;
-        buf = p;
+        p = ngx_slprintf(p, last, "&groupid=%V", &event->groupid);
     }
 
     if (event->args.len) {
         ngx_rtmp_fetch_variable(s, s->pool, &event->args, &args);
         if (args.len > 0) {
-            p = ngx_snprintf(buf, len, "&%V", &args);
-            len -= p - buf;
-            buf = p;
+            p = ngx_slprintf(p, last, "&");
+            p = ngx_rtmp_notify_escape(p, last, &args, 0);
         }
     }
 
-- 
2.43.0


From e93f397447537466e556216548a4d013a03e4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 048/112] fix: keep what a refused publisher sends out of
 recordings and segments

---
 .../nginx-rtmp-module/ngx_rtmp_cmd_module.c   | 14 +++++++
 .../nginx-rtmp-module/ngx_rtmp_live_module.c  | 41 ++++++++++++++-----
 .../nginx-rtmp-module/ngx_rtmp_live_module.h  |  4 ++
 3 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index df347c7..0cadaf3 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -8,6 +8,7 @@
 #include <ngx_core.h>
 #include "ngx_rtmp_cmd_module.h"
 #include "ngx_rtmp_notify_module.h"
+#include "ngx_rtmp_live_module.h"
 #include "ngx_rtmp_streams.h"
 #include "ngx_stream_zone_module.h"
 #include "ngx_dynamic_conf.h"
@@ -252,6 +253,19 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
         if (s->live_stream == NULL) {
             return NGX_ERROR;
         }
+
+        if (ngx_rtmp_live_published(s)) {
+            ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                    "\"%V\" is already published", &s->stream);
+
+            /* nothing this session sends is for the stream */
+            ngx_live_delete_ctx(s);
+            s->live_stream = NULL;
+            s->closed = 1;
+
+            return ngx_rtmp_send_status(s, "NetStream.Publish.BadName",
+                                        "error", "Already publishing");
+        }
     }
 
     return ngx_rtmp_publish(s, v);
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 7985ab8..7704a74 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -422,13 +422,41 @@ next:
 }
 
 
+static ngx_int_t
+ngx_rtmp_live_priority(ngx_rtmp_session_t *s)
+{
+    ngx_str_t                       pubpri;
+    ngx_int_t                       pri;
+
+    if (s->relay) { // relay pull
+        return -1;
+    }
+
+    if (ngx_rtmp_arg(s, (u_char *) "pubpri", 6, &pubpri) != NGX_OK) {
+        return 0;
+    }
+
+    pri = ngx_atoi(pubpri.data, pubpri.len);
+
+    // invalid publish priority
+    return pri == NGX_ERROR ? 0 : pri;
+}
+
+
+ngx_flag_t
+ngx_rtmp_live_published(ngx_rtmp_session_t *s)
+{
+    return ngx_map_find(&s->live_stream->pubctx,
+                        (intptr_t) ngx_rtmp_live_priority(s)) != NULL;
+}
+
+
 static void
 ngx_rtmp_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
 {
     ngx_rtmp_live_ctx_t            *ctx;
     ngx_live_stream_t              *st;
     ngx_rtmp_live_app_conf_t       *lacf;
-    ngx_str_t                       pubpri;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
     if (lacf == NULL) {
@@ -471,16 +499,7 @@ ngx_rtmp_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
 
     if (publisher) {
         // set publish priority
-        if (s->relay) { // relay pull
-            ctx->pubpri = -1;
-        } else {
-            if (ngx_rtmp_arg(s, (u_char *) "pubpri", 6, &pubpri) == NGX_OK) {
-                ctx->pubpri = ngx_atoi(pubpri.data, pubpri.len);
-                if (ctx->pubpri == NGX_ERROR) { // invalid publish priority
-                    ctx->pubpri = 0;
-                }
-            }
-        }
+        ctx->pubpri = ngx_rtmp_live_priority(s);
 
         // duplicate publish priority
         if (ngx_map_find(&st->pubctx, (intptr_t) ctx->pubpri)) {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.h b/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
index cd9896a..478c734 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.h
@@ -60,6 +60,10 @@ typedef struct {
 } ngx_rtmp_live_app_conf_t;
 
 
+/* stream of s has a publisher of the same priority as s would have */
+ngx_flag_t ngx_rtmp_live_published(ngx_rtmp_session_t *s);
+
+
 extern ngx_module_t  ngx_rtmp_live_module;
 
 
-- 
2.43.0


From 58c3a74aa42bca8afc9582916f3cbeab3a7d16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 049/112] fix: give subscribers the headers of the publisher
 that takes over, and disturb nobody when another leaves

---
 .../nginx-rtmp-module/ngx_rtmp_live_module.c  | 118 +++++++++++++-----
 1 file changed, 86 insertions(+), 32 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 7704a74..c9c5e89 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -218,50 +218,83 @@ ngx_rtmp_live_idle(ngx_event_t *pev)
 }
 
 
+static void
+ngx_rtmp_live_set_active(ngx_rtmp_session_t *s, unsigned active)
+{
+    ngx_rtmp_live_app_conf_t   *lacf;
+    ngx_rtmp_live_ctx_t        *ctx;
+    ngx_event_t                *e;
+
+    lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
+
+    ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
+
+    ctx->active = active;
+
+    if (lacf->idle_timeout) {
+        e = &ctx->idle_evt;
+
+        if (active && !ctx->idle_evt.timer_set) {
+            e->data = s->connection;
+            e->log = s->log;
+            e->handler = ngx_rtmp_live_idle;
+
+            ngx_add_timer(e, lacf->idle_timeout);
+
+        } else if (!active && ctx->idle_evt.timer_set) {
+            ngx_del_timer(e);
+        }
+    }
+}
+
+
+/* another publisher is heard now: subscribers need its headers first */
+static void
+ngx_rtmp_live_takeover(ngx_live_stream_t *st)
+{
+    ngx_rtmp_live_ctx_t        *pctx;
+
+    for (pctx = st->ctx; pctx; pctx = pctx->next) {
+        if (pctx->publishing) {
+            continue;
+        }
+
+        pctx->cs[0].active = 0;
+        pctx->cs[0].dropped = 0;
+
+        pctx->cs[1].active = 0;
+        pctx->cs[1].dropped = 0;
+    }
+}
+
+
 static void
 ngx_rtmp_live_set_status(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *control,
                          ngx_rtmp_frame_t **status, size_t nstatus,
                          unsigned active)
 {
-    ngx_rtmp_live_app_conf_t   *lacf;
     ngx_rtmp_live_ctx_t        *ctx, *pctx;
     ngx_rtmp_frame_t          **frame;
-    ngx_event_t                *e;
     size_t                      n;
 
-    lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
-
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "live: set active=%ui", active);
 
-    if (ctx->active == active) {
+    if (ctx->active == active
+        && (!ctx->publishing || ctx->stream->active == active))
+    {
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                        "live: unchanged active=%ui", active);
         return;
     }
 
-    ctx->active = active;
-
     if (ctx->publishing) {
 
         /* publisher */
 
-        if (lacf->idle_timeout) {
-            e = &ctx->idle_evt;
-
-            if (active && !ctx->idle_evt.timer_set) {
-                e->data = s->connection;
-                e->log = s->log;
-                e->handler = ngx_rtmp_live_idle;
-
-                ngx_add_timer(e, lacf->idle_timeout);
-
-            } else if (!active && ctx->idle_evt.timer_set) {
-                ngx_del_timer(e);
-            }
-        }
+        ngx_rtmp_live_set_active(s, active);
 
         ctx->stream->active = active;
 
@@ -277,6 +310,8 @@ ngx_rtmp_live_set_status(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *control,
 
     /* subscriber */
 
+    ctx->active = active;
+
     if (control && ngx_rtmp_send_message(s, control, 0) != NGX_OK) {
         ngx_rtmp_finalize_session(s);
         return;
@@ -515,6 +550,10 @@ ngx_rtmp_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
         ctx->node.raw_key = (intptr_t) ctx->pubpri;
         ngx_map_insert(&st->pubctx, &ctx->node, 0);
 
+        if (ngx_map_rbegin(&st->pubctx) == &ctx->node) {
+            ngx_rtmp_live_takeover(st);
+        }
+
         st->publishing = 1;
     }
 
@@ -543,6 +582,7 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_rtmp_session_t             *ss;
     ngx_rtmp_live_ctx_t            *ctx, **cctx, *pctx;
     ngx_rtmp_live_app_conf_t       *lacf;
+    ngx_flag_t                      heard, others;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
     if (lacf == NULL) {
@@ -563,12 +603,20 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "live: leave '%s'", ctx->stream->name);
 
-    if (s->publishing) {
-        ngx_map_delete(&s->live_stream->pubctx, (intptr_t) ctx->pubpri);
-    }
+    others = 0;
+
+    if (ctx->publishing) {
+        heard = ngx_map_rbegin(&ctx->stream->pubctx) == &ctx->node;
+        ngx_map_delete(&ctx->stream->pubctx, (intptr_t) ctx->pubpri);
 
-    if (ctx->stream->publishing && ctx->publishing) {
-        ctx->stream->publishing = 0;
+        if (ngx_map_rbegin(&ctx->stream->pubctx) == NULL) {
+            ctx->stream->publishing = 0;
+        } else {
+            others = 1;
+            if (heard) {
+                ngx_rtmp_live_takeover(ctx->stream);
+            }
+        }
     }
 
     for (cctx = &ctx->stream->ctx; *cctx; cctx = &(*cctx)->next) {
@@ -578,14 +626,16 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         }
     }
 
-    if (ctx->publishing || ctx->stream->active) {
+    if (others) {
+        ngx_rtmp_live_set_active(s, 0);
+    } else if (ctx->publishing || ctx->stream->active) {
         ngx_rtmp_live_stop(s);
     }
 
     if (ctx->publishing) {
         ngx_rtmp_send_status(s, "NetStream.Unpublish.Success",
                              "status", "Stop publishing");
-        if (!lacf->idle_streams) {
+        if (!lacf->idle_streams && !others) {
             for (pctx = ctx->stream->ctx; pctx; pctx = pctx->next) {
                 if (pctx->publishing == 0) {
                     ss = pctx->session;
@@ -731,6 +781,8 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     if (!ctx->stream->active) {
         ngx_rtmp_live_start(s);
+    } else if (!ctx->active) {
+        ngx_rtmp_live_set_active(s, 1);
     }
 
     if (ctx->idle_evt.timer_set) {
@@ -1048,7 +1100,7 @@ ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 {
     ngx_rtmp_live_app_conf_t   *lacf;
     ngx_rtmp_live_ctx_t        *ctx;
-    ngx_rtmp_session_t         *ps;
+    ngx_map_node_t             *node;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
 
@@ -1080,9 +1132,11 @@ ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
         ngx_rtmp_send_sample_access(s);
     }
 
-    if (s->live_stream->publish_ctx && s->live_stream->publish_ctx->session) {
-        ps = s->live_stream->publish_ctx->session;
-        ngx_rtmp_gop_send(ps, s);
+    /* the publisher that is heard */
+    node = ngx_map_rbegin(&s->live_stream->pubctx);
+    if (node) {
+        ctx = (ngx_rtmp_live_ctx_t *) node;
+        ngx_rtmp_gop_send(ctx->session, s);
     }
 
 next:
-- 
2.43.0


From dcb67287dd5db211f6283c372e4917da2400bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 050/112] fix: send the cache of a publisher that takes over at
 once

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 513f3ab..2c51af6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -731,6 +731,11 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ngx_rtmp_set_ctx(ss, ssctx, ngx_rtmp_gop_module);
     }
 
+    /* another publisher: its cache has not been sent yet */
+    if (ssctx->send_gop > 1 && (ssctx->seq >> 32) != (sctx->seq >> 32)) {
+        ssctx->send_gop = 1;
+    }
+
     if (ngx_rtmp_gop_send_gop(s, ss) == NGX_AGAIN) {
         return NGX_OK;
     }
-- 
2.43.0


From 0e3c4f9d8a747c9f4180d175fe12bc60a258819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 051/112] fix: order negative integer keys of a map before
 others

A relay pull publishes with priority -1, which sorted as the highest one, so a
publisher in a worker that already pulled the stream was never heard.
---
 modules/nginx-toolkit-module/ngx_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-toolkit-module/ngx_map.c b/modules/nginx-toolkit-module/ngx_map.c
index c41bc16..6855569 100644
--- a/modules/nginx-toolkit-module/ngx_map.c
+++ b/modules/nginx-toolkit-module/ngx_map.c
@@ -311,7 +311,9 @@ ngx_cmp_uint(intptr_t key1, intptr_t key2)
 ngx_rbtree_key_t
 ngx_map_hash_int(intptr_t key)
 {
-    return (ngx_rbtree_key_t) key;
+    /* keys are unsigned in the tree, keep negative ones before others */
+    return (ngx_rbtree_key_t) key
+           ^ ((ngx_rbtree_key_t) 1 << (sizeof(ngx_rbtree_key_t) * 8 - 1));
 }
 
 int
-- 
2.43.0


From e79854fc4b0dbacc09af18155337fad218b16db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 052/112] fix: no empty array for the names of an AMF object

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index 90b9f63..dc3bd25 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -189,7 +189,7 @@ ngx_rtmp_amf_read_object(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
     for( ;; ) {
 
 #if !(NGX_WIN32)
-        char    name[maxlen];
+        char    name[maxlen + 1];
 #else
         char    name[1024];
         if (maxlen > sizeof(name)) {
-- 
2.43.0


From 862209c3bf63d8c45cb00fe241d33251ac2a7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 053/112] fix: push a publisher's stream though the worker
 already pulls the stream

A relay pull counted as the first publisher, so the stream of a publisher that
came later was not pushed to the worker that owns it, nor to push relays.
---
 modules/nginx-rtmp-module/ngx_live_relay.c    | 30 +++++++++++++++----
 modules/nginx-rtmp-module/ngx_live_relay.h    |  6 ++++
 .../nginx-rtmp-module/ngx_live_relay_inner.c  |  5 ++--
 .../nginx-rtmp-module/ngx_live_relay_simple.c |  5 ++--
 .../ngx_rtmp_notify_module.c                  |  8 +++--
 5 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay.c b/modules/nginx-rtmp-module/ngx_live_relay.c
index 148c9ff..e12f1b0 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay.c
@@ -201,17 +201,35 @@ ngx_live_relay_publish_local(ngx_rtmp_session_t *rs)
 }
 
 
+ngx_flag_t
+ngx_live_relay_published(ngx_live_stream_t *st, ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_core_ctx_t        *ctx;
+
+    for (ctx = st->publish_ctx; ctx; ctx = ctx->next) {
+        if (ctx->session == s) {
+            continue;
+        }
+
+        // stream of relay pull is never pushed
+        if (!ctx->session->relay || ctx->session->static_pull) {
+            return 1;
+        }
+    }
+
+    return 0;
+}
+
+
 static ngx_int_t
 ngx_live_relay_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
     ngx_live_relay_ctx_t       *ctx;
 
     // second publish will not trigger push
-    if (s->live_stream->publish_ctx->next != NULL) {
-        goto next;
-    }
-
-    if (ngx_live_push(s) != NGX_OK) {
+    if (!ngx_live_relay_published(s->live_stream, s)
+        && ngx_live_push(s) != NGX_OK)
+    {
         return NGX_ERROR;
     }
 
@@ -289,7 +307,7 @@ ngx_live_relay_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         ngx_live_pull_close(s);
 
         // all publishers close, close push (play + relay)
-        if (s->live_stream->publish_ctx == NULL) {
+        if (!ngx_live_relay_published(s->live_stream, s)) {
             for (ctx = s->live_stream->play_ctx; ctx; ctx = ctx->next) {
                 if (ctx->session->relay) {
                     ctx->session->finalize_reason = NGX_LIVE_RELAY_CLOSE;
diff --git a/modules/nginx-rtmp-module/ngx_live_relay.h b/modules/nginx-rtmp-module/ngx_live_relay.h
index b52405b..b2c88c0 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.h
+++ b/modules/nginx-rtmp-module/ngx_live_relay.h
@@ -79,6 +79,12 @@ ngx_int_t ngx_live_relay_create_rtmp(ngx_rtmp_session_t *rs,
 ngx_int_t ngx_live_relay_create(ngx_rtmp_session_t *rs,
         ngx_live_relay_t *relay);
 
+/*
+ * has publisher besides s whose stream is pushed
+ */
+ngx_flag_t ngx_live_relay_published(ngx_live_stream_t *st,
+        ngx_rtmp_session_t *s);
+
 ngx_int_t ngx_live_relay_play_local(ngx_rtmp_session_t *rs);
 
 ngx_int_t ngx_live_relay_publish_local(ngx_rtmp_session_t *rs);
diff --git a/modules/nginx-rtmp-module/ngx_live_relay_inner.c b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
index 235b3f1..2da13af 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_inner.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
@@ -174,7 +174,8 @@ ngx_live_relay_inner_handler(ngx_event_t *ev)
 
     // relay pull, no player or relay push no publisher
     if ((s->publishing && s->live_stream->play_ctx == NULL)
-            || (!s->publishing && s->live_stream->publish_ctx == NULL))
+            || (!s->publishing
+                && !ngx_live_relay_published(s->live_stream, s)))
     {
         return;
     }
@@ -347,7 +348,7 @@ ngx_live_relay_inner_push_close(ngx_rtmp_session_t *s)
     }
 
     // relay push and has publisher in stream
-    if (!ctx->giveup && s->live_stream->publish_ctx) {
+    if (!ctx->giveup && ngx_live_relay_published(s->live_stream, s)) {
         ngx_live_relay_inner_relay(s, 0);
     }
 
diff --git a/modules/nginx-rtmp-module/ngx_live_relay_simple.c b/modules/nginx-rtmp-module/ngx_live_relay_simple.c
index 43c0e0f..6099cd4 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_simple.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_simple.c
@@ -135,7 +135,8 @@ ngx_live_relay_simple_handler(ngx_event_t *ev)
 
     // relay pull, no player or relay push no publisher
     if ((s->publishing && s->live_stream->play_ctx == NULL)
-            || (!s->publishing && s->live_stream->publish_ctx == NULL))
+            || (!s->publishing
+                && !ngx_live_relay_published(s->live_stream, s)))
     {
         return;
     }
@@ -306,7 +307,7 @@ ngx_live_relay_simple_push_close(ngx_rtmp_session_t *s)
     }
 
     // relay push and has publisher in stream
-    if (!ctx->giveup && s->live_stream->publish_ctx) {
+    if (!ctx->giveup && ngx_live_relay_published(s->live_stream, s)) {
         sctx = ngx_rtmp_get_module_ctx(s, ngx_live_relay_simple_module);
         relay = sctx->relay;
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 091221a..4f08a07 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1513,7 +1513,8 @@ ngx_rtmp_notify_relay_start_handle(ngx_netcall_ctx_t *nctx, ngx_int_t code)
     s = nctx->data;
     // relay pull, no player or relay push no publisher
     if ((s->publishing && s->live_stream->play_ctx == NULL)
-            || (!s->publishing && s->live_stream->publish_ctx == NULL))
+            || (!s->publishing
+                && !ngx_live_relay_published(s->live_stream, s)))
     {
         return;
     }
@@ -1695,7 +1696,8 @@ ngx_rtmp_notify_relay_handler(ngx_event_t *ev)
 
     // relay pull, no player or relay push no publisher
     if ((s->publishing && s->live_stream->play_ctx == NULL)
-            || (!s->publishing && s->live_stream->publish_ctx == NULL))
+            || (!s->publishing
+                && !ngx_live_relay_published(s->live_stream, s)))
     {
         return;
     }
@@ -2118,7 +2120,7 @@ ngx_rtmp_notify_push_close(ngx_rtmp_session_t *s)
     ngx_rtmp_notify_relay_done(s); // nctx will close in relay done
 
     // relay push and has publisher in stream
-    if (!ctx->giveup && s->live_stream->publish_ctx) {
+    if (!ctx->giveup && ngx_live_relay_published(s->live_stream, s)) {
         octx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_notify_module);
 
         ngx_rtmp_notify_relay_start(s, octx->event, octx->type, 0);
-- 
2.43.0


From 5eeae34b5c5dd9d2501cbf0281d1aabaebd73007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 054/112] fix: pull from the stream's owner again when the last
 publisher leaves

The players of a worker whose publisher left never got the stream of a new
publisher in another worker.
---
 modules/nginx-rtmp-module/ngx_live_relay_inner.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_inner.c b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
index 2da13af..72400a0 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_inner.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
@@ -364,6 +364,13 @@ ngx_live_relay_inner_pull_close(ngx_rtmp_session_t *s)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_relay_module);
     if (ctx == NULL) {
+        // last publisher close, players need to pull from stream owner
+        if (s->live_stream->publish_ctx == NULL
+            && s->live_stream->pslot != ngx_process_slot)
+        {
+            s->live_stream->pslot = -1;
+        }
+
         goto next;
     }
 
-- 
2.43.0


From 5c942579446d67050713a3959d63b670bdc7b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 055/112] fix: forget the cache of a pulled stream when its
 publisher leaves

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 2c51af6..31b6a60 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -11,6 +11,7 @@
 
 
 static ngx_rtmp_close_stream_pt         next_close_stream;
+static ngx_rtmp_stream_eof_pt           next_stream_eof;
 
 
 static void *ngx_rtmp_gop_create_app_conf(ngx_conf_t *cf);
@@ -800,46 +801,71 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_OK;
 }
 
-static ngx_int_t
-ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
+/* forget what a publisher has published */
+static void
+ngx_rtmp_gop_free_cache(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_gop_ctx_t         *ctx;
     ngx_rtmp_live_ctx_t        *lctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
     if (ctx == NULL) {
-        goto next;
+        return;
     }
 
     lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
 
     if (!lctx->publishing) {
-        goto next;
+        return;
     }
 
     if (ctx->avc_header) {
         ngx_rtmp_shared_free_frame(ctx->avc_header);
+        ctx->avc_header = NULL;
     }
 
     if (ctx->aac_header) {
         ngx_rtmp_shared_free_frame(ctx->aac_header);
+        ctx->aac_header = NULL;
     }
 
-    /* free cache in publisher */
     while (ctx->gop_pos != ctx->gop_last) {
         ngx_rtmp_shared_free_frame(ctx->cache[ctx->gop_pos]);
+        ctx->cache[ctx->gop_pos] = NULL;
         ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
     }
 
-next:
+    ctx->keyframe = NULL;
+    ctx->latest_aac_header = NULL;
+    ctx->latest_avc_header = NULL;
+    ctx->seq = ++ngx_rtmp_gop_publishers << 32;
+}
+
+static ngx_int_t
+ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
+{
+    ngx_rtmp_gop_free_cache(s);
+
     return next_close_stream(s, v);
 }
 
+/* what a relay pulls ends here, and may be of another publisher hereafter */
+static ngx_int_t
+ngx_rtmp_gop_stream_eof(ngx_rtmp_session_t *s, ngx_rtmp_stream_eof_t *v)
+{
+    ngx_rtmp_gop_free_cache(s);
+
+    return next_stream_eof(s, v);
+}
+
 static ngx_int_t
 ngx_rtmp_gop_postconfiguration(ngx_conf_t *cf)
 {
     next_close_stream = ngx_rtmp_close_stream;
     ngx_rtmp_close_stream = ngx_rtmp_gop_close_stream;
 
+    next_stream_eof = ngx_rtmp_stream_eof;
+    ngx_rtmp_stream_eof = ngx_rtmp_gop_stream_eof;
+
     return NGX_OK;
 }
\ No newline at end of file
-- 
2.43.0


From 9cbaca3771fb94264d54f9a45871fcb09efa1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 056/112] fix: no crash when a chunked response has no body yet

---
 modules/nginx-client-module/ngx_http_client.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 3a94803..e55b142 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1229,6 +1229,10 @@ ngx_http_client_body_chunked(ngx_http_request_t *r, ngx_chain_t *cl)
 
     while (1) {
 
+        if (cl == NULL) {
+            return NGX_AGAIN;
+        }
+
         b = cl->buf;
         rc = ngx_http_parse_chunked(r, b, &ctx->chunked);
 
-- 
2.43.0


From 1eac15219bb56b1096c3eb532498bdf543887622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 057/112] fix: pass on the body received together with the end
 of the connection

---
 modules/nginx-client-module/ngx_http_client.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index e55b142..9ea7ad2 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -114,6 +114,8 @@ typedef struct {
 
     ngx_http_client_handler_pt      read_handler;
     ngx_http_client_handler_pt      write_handler;
+
+    ngx_int_t                       closed; // connection end after body read
 } ngx_http_client_ctx_t;
 
 
@@ -1729,6 +1731,11 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
     ngx_chain_t                *cl, **ll, *ln;
 
     ctx = r->ctx[0];
+
+    if (ctx->closed) { // found when the last part of body was read
+        return ctx->closed == NGX_DONE ? 0 : NGX_ERROR;
+    }
+
     s = ctx->session;
     rev = r->connection->read;
     hccf = (ngx_http_client_conf_t *) ngx_get_conf(ngx_cycle->conf_ctx,
@@ -1737,11 +1744,11 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
     // recycle bufs
     while (ctx->in) {
         cl = ctx->in;
-        ctx->in = cl->next;
         if (cl->buf->pos != cl->buf->last) {
             break;
         }
 
+        ctx->in = cl->next;
         ngx_put_chainbuf(cl);
     }
 
@@ -1777,6 +1784,15 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
 
         n = ngx_client_read(s, buf);
 
+        if ((n == 0 || n == NGX_ERROR) && cl) {
+            // pass on what has been read first, close will be reported after it
+            ngx_put_chainbuf(ln);
+            ctx->closed = n == 0 ? NGX_DONE : NGX_ERROR;
+            ngx_post_event(rev, &ngx_posted_events);
+
+            break;
+        }
+
         if (n == 0) {
             ngx_put_chainbuf(ln);
             ngx_put_chainbufs(cl);
-- 
2.43.0


From 74785b2f3fc183f60467b574102096af9606b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 058/112] fix: end an HTTP request whose response header
 exceeds the buffer

---
 modules/nginx-client-module/ngx_http_client.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 9ea7ad2..ef194fc 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -736,6 +736,13 @@ ngx_http_client_process_header(ngx_client_session_t *s)
         if (rc == NGX_AGAIN) {
             n = ngx_client_read(s, b);
 
+            if (n == NGX_DECLINED) {
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                        "http client, http server sent too big header");
+                ngx_http_client_finalize_request(r, 1);
+                return;
+            }
+
             if (n == NGX_ERROR || n == 0) {
                 ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "http client, process header read error");
@@ -807,6 +814,13 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
         if (rc == NGX_AGAIN) {
             n = ngx_client_read(s, b);
 
+            if (n == NGX_DECLINED) {
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                        "http client, http server sent too big header");
+                ngx_http_client_finalize_request(r, 1);
+                return;
+            }
+
             if (n == NGX_ERROR || n == 0) {
                 ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "http client, process status line read error");
-- 
2.43.0


From 7390f6c3374c305b1e4c6b2f0ad12840779f4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 059/112] fix: end an HTTP request whose response has no valid
 status line

---
 modules/nginx-client-module/ngx_http_client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index ef194fc..8ac5f91 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -853,7 +853,8 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
             ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                     "http client, recv no valid HTTP/1.0 header");
 
-            r->http_version = NGX_HTTP_VERSION_9;
+            ngx_http_client_finalize_request(r, 1);
+            return;
         }
 
         /* NGX_OK */
-- 
2.43.0


From ba6c40034d4c9b2923b880e207f1afaf2e8237b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 060/112] fix: end an HTTP request when its response header
 times out

---
 modules/nginx-client-module/ngx_http_client.c | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 8ac5f91..6c40ee9 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -631,6 +631,13 @@ ngx_http_client_process_header(ngx_client_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process header");
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, wait for response header timeout");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     for (;;) {
 
         rc = ngx_http_parse_header_line(r, b, 1);
@@ -808,6 +815,13 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process status line");
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, wait for response header timeout");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     for (;;) {
         rc = ngx_http_parse_status_line(r, b, &ctx->status);
 
@@ -901,6 +915,13 @@ ngx_http_client_wait_response_handler(ngx_client_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process response handler");
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, wait for response header timeout");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     if (b == NULL) {
         b = ngx_create_temp_buf(c->pool, size);
         if (b == NULL) {
-- 
2.43.0


From b8380449b8d4423570c778806af0e827c333479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 061/112] fix: copy no more than the host of a peer with a port

---
 modules/nginx-client-module/ngx_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-client-module/ngx_client.c b/modules/nginx-client-module/ngx_client.c
index e14e8b9..2cd7c25 100644
--- a/modules/nginx-client-module/ngx_client.c
+++ b/modules/nginx-client-module/ngx_client.c
@@ -927,7 +927,7 @@ ngx_client_create(ngx_str_t *peer, ngx_str_t *local, ngx_flag_t udp,
     if (s->server.data == NULL) {
         goto clear;
     }
-    ngx_memcpy(s->server.data, peer->data, peer->len);
+    ngx_memcpy(s->server.data, peer->data, s->server.len);
 
     if (p != last) { /* has port */
         if (*p != ':') {
-- 
2.43.0


From 838f3f96edf703e3b86e5b30fe469d47c53b155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 062/112] fix: no crash when the request of an HTTP relay
 cannot be sent

---
 modules/nginx-rtmp-module/ngx_live_relay_httpflv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c b/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
index 8053bb7..3dc548d 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
@@ -569,6 +569,10 @@ ngx_live_relay_httpflv_send_request(ngx_rtmp_session_t *s,
     s->connect_time = ngx_current_msec;
 
     hcr = ngx_http_client_get(s->log, &request_url, headers, s);
+    if (hcr == NULL) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0, "http relay, send request failed");
+        return NGX_ERROR;
+    }
     ngx_http_client_set_read_handler(hcr, ngx_live_relay_httpflv_recv);
 
     cln = ngx_http_client_cleanup_add(hcr, 0);
-- 
2.43.0


From b07a2f39d33b07ed30fc50e5d9ad86950c38c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 063/112] fix: end the session of an HTTP relay when its
 response is complete

---
 modules/nginx-rtmp-module/ngx_live_relay_httpflv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c b/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
index 3dc548d..fa57ad8 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
@@ -354,7 +354,7 @@ done:
 static void
 ngx_live_relay_httpflv_recv_body(void *request, ngx_http_request_t *hcr)
 {
-    ngx_int_t                   n;
+    ngx_int_t                   n, rc;
     ngx_rtmp_session_t         *s;
     ngx_chain_t                *cl, *l, *in;
     ngx_rtmp_header_t          *h;
@@ -363,6 +363,7 @@ ngx_live_relay_httpflv_recv_body(void *request, ngx_http_request_t *hcr)
     s = request;
 
     n = ngx_http_client_read_body(hcr, &cl);
+    rc = n;
 
     if (n == 0 || n == NGX_ERROR) {
         s->finalize_reason = n == 0? NGX_LIVE_NORMAL_CLOSE:
@@ -380,6 +381,10 @@ ngx_live_relay_httpflv_recv_body(void *request, ngx_http_request_t *hcr)
         }
 
         if (l == NULL) {
+            if (rc == NGX_DONE) { // response is complete
+                s->finalize_reason = NGX_LIVE_NORMAL_CLOSE;
+                ngx_rtmp_finalize_session(s);
+            }
             return;
         }
 
-- 
2.43.0


From 6e00ca3848e9f8ea9ff4853643f1eba0a6bb06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 064/112] fix: no more of an HTTP response body than its length

---
 modules/nginx-client-module/ngx_http_client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 6c40ee9..9965393 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1219,6 +1219,11 @@ ngx_http_client_body_length(ngx_http_request_t *r, ngx_chain_t *cl)
 
     ctx = r->ctx[0];
 
+    if (ctx->length == 0) { // all body has been read
+        ngx_put_chainbufs(cl);
+        return NGX_DONE;
+    }
+
     for (ll = &ctx->in; *ll; ll = &(*ll)->next);
 
     while (cl) {
@@ -1236,6 +1241,7 @@ ngx_http_client_body_length(ngx_http_request_t *r, ngx_chain_t *cl)
                 if (cl || buf->last - buf->pos > len) {
                     ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
                             "http client, read unexpected data");
+                    buf->last = buf->pos + len;
                     ngx_put_chainbufs(cl);
                 }
                 return NGX_DONE;
-- 
2.43.0


From d06e18bfc146e6823ea3540151219ddac886c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 065/112] fix: hand out a recycled buffer without the flags of
 its former use

---
 modules/nginx-toolkit-module/ngx_rbuf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 6b80bd5..92ae791 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -168,6 +168,7 @@ ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc_rbuf, char *file, int line)
         ngx_rbuf_free_chain = cl->next;
         cl->next = NULL;
         cb = (ngx_chainbuf_t *) cl;
+        ngx_memzero(cl->buf, sizeof(ngx_buf_t));
 
         --ngx_rbuf_nfree_chain;
     } else {
-- 
2.43.0


From 334f4522e18a779605761f10e1d5ce8387d2cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 066/112] fix: detect a buffer put back twice before it is
 linked twice

---
 modules/nginx-toolkit-module/ngx_rbuf.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 92ae791..0d29ed5 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -217,13 +217,6 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
 
     cb = (ngx_chainbuf_t *) cl;
 
-    if (cb->alloc) {
-        ngx_rbuf_free(cl->buf->start);
-    }
-    cl->next = ngx_rbuf_free_chain;
-    ngx_rbuf_free_chain = cl;
-    ++ngx_rbuf_nfree_chain;
-
     // delete chainbuf from using map
     if (ngx_map_find(&ngx_rbuf_using, (intptr_t) cl) == NULL) {
         ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
@@ -231,6 +224,13 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
         return;
     }
     ngx_map_delete(&ngx_rbuf_using, (intptr_t) cl);
+
+    if (cb->alloc) {
+        ngx_rbuf_free(cl->buf->start);
+    }
+    cl->next = ngx_rbuf_free_chain;
+    ngx_rbuf_free_chain = cl;
+    ++ngx_rbuf_nfree_chain;
 }
 
 ngx_chain_t *
-- 
2.43.0


From 12418473bde39df028d971af2150edae2b80da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 067/112] fix: room for any address in the dynamic resolver

---
 .../ngx_dynamic_resolver.c                    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index 6f1592f..81831ae 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -33,7 +33,7 @@ struct ngx_dynamic_resolver_ctx_s {
 };
 
 typedef struct {
-    struct sockaddr                     sockaddr;
+    ngx_sockaddr_t                      sockaddr;
     socklen_t                           socklen;
     u_short                             priority;
     u_short                             weight;
@@ -282,7 +282,7 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
             ctx = domain->ctx;
             domain->ctx = ctx->next;
 
-            ctx->h(ctx->data, &domain->addrs[n].sockaddr,
+            ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
                    domain->addrs[n].socklen);
             ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
 
@@ -344,7 +344,7 @@ ngx_dynamic_resolver_add_domain(ngx_str_t *domain, ngx_cycle_t *cycle)
     ngx_dynamic_resolver_conf_t    *drcf;
     ngx_dynamic_resolver_domain_t  *d;
     ngx_uint_t                      idx;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -354,7 +354,7 @@ ngx_dynamic_resolver_add_domain(ngx_str_t *domain, ngx_cycle_t *cycle)
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is IP address */
     if (len) {
         ngx_log_error(NGX_LOG_DEBUG_CORE, cycle->log, 0,
@@ -416,7 +416,7 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
     ngx_dynamic_resolver_domain_t **pd, *d;
     ngx_dynamic_resolver_ctx_t     *ctx;
     ngx_uint_t                      idx;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -426,7 +426,7 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is IP address */
     if (len) {
         ngx_log_debug0(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
@@ -489,7 +489,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
     ngx_dynamic_resolver_domain_t  *d;
     ngx_dynamic_resolver_ctx_t     *ctx;
     ngx_uint_t                      idx, n;
-    struct sockaddr                 sa;
+    ngx_sockaddr_t                  sa;
     socklen_t                       len;
     u_char                          temp[MAX_DOMAIN_LEN];
 
@@ -499,13 +499,13 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
         return;
     }
 
-    len = ngx_sock_pton(&sa, domain->data, domain->len);
+    len = ngx_sock_pton(&sa.sockaddr, domain->data, domain->len);
     /* addr is ipv4/ipv6/unix address */
     if (len) {
         ngx_log_debug0(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
                 "dynamic resolver async, domain is ipv4/ipv6/unix address");
 
-        h(data, &sa, len);
+        h(data, &sa.sockaddr, len);
 
         return;
     }
@@ -582,7 +582,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
 
     /* call callback */
     n = ngx_random() % d->naddrs;
-    h(data, &d->addrs[n].sockaddr, d->addrs[n].socklen);
+    h(data, &d->addrs[n].sockaddr.sockaddr, d->addrs[n].socklen);
 
     return;
 
-- 
2.43.0


From 4373610c081b9269ef0df5d4068021119dc3efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 068/112] fix: store all the addresses of a name before one is
 handed out

---
 .../ngx_dynamic_resolver.c                    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index 81831ae..c97ac3a 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -272,23 +272,23 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
         domain->addrs[i].socklen = addrs[i].socklen;
         domain->addrs[i].priority = addrs[i].priority;
         domain->addrs[i].weight = addrs[i].weight;
+    }
 
-        n = ngx_random() % domain->naddrs;
+    n = ngx_random() % domain->naddrs;
 
-        while (domain->ctx) {
-            ngx_log_debug1(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
-                    "dynamic resolver, resolver '%V' successd",
-                    &domain->domain);
-            ctx = domain->ctx;
-            domain->ctx = ctx->next;
+    while (domain->ctx) {
+        ngx_log_debug1(NGX_LOG_DEBUG_CORE, ngx_cycle->log, 0,
+                "dynamic resolver, resolver '%V' successd",
+                &domain->domain);
+        ctx = domain->ctx;
+        domain->ctx = ctx->next;
 
-            ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
-                   domain->addrs[n].socklen);
-            ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
+        ctx->h(ctx->data, &domain->addrs[n].sockaddr.sockaddr,
+               domain->addrs[n].socklen);
+        ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
 
-            ++n;
-            n %= domain->naddrs;
-        }
+        ++n;
+        n %= domain->naddrs;
     }
 }
 
-- 
2.43.0


From 4fbf31f446f80b554b04d734bf7dffe6890dc2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 069/112] fix: keep a deleted name until its running resolution
 ends

---
 .../ngx_dynamic_resolver.c                    | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
index c97ac3a..b274ec7 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_resolver.c
@@ -48,6 +48,9 @@ struct ngx_dynamic_resolver_domain_s {
 
     ngx_dynamic_resolver_ctx_t         *ctx;
 
+    ngx_uint_t                          running;
+    unsigned                            deleted;
+
     ngx_dynamic_resolver_domain_t      *next;
 };
 
@@ -244,9 +247,16 @@ ngx_dynamic_resolver_on_result(void *data, ngx_resolver_addr_t *addrs,
 
     domain = data;
 
-    if (domain == NULL) {
+    --domain->running;
+
+    if (domain->deleted) {
         ngx_log_error(NGX_LOG_INFO, ngx_cycle->log, 0, "dynamic resolver, "
                 "%V has been deleted", &domain->domain);
+
+        if (domain->running == 0) {
+            ngx_dynamic_resolver_put_domain(domain, (ngx_cycle_t *) ngx_cycle);
+        }
+
         return;
     }
 
@@ -312,6 +322,7 @@ ngx_dynamic_resolver_on_timer(void *data)
                     "dynamic resolver, on timer start resolver %V",
                     &domain->domain);
 
+            ++domain->running;
             ngx_event_resolver_start_resolver(&domain->domain,
                     ngx_dynamic_resolver_on_result, domain);
             domain = domain->next;
@@ -471,7 +482,12 @@ ngx_dynamic_resolver_del_domain(ngx_str_t *domain)
                 ngx_dynamic_resolver_put_ctx(ctx, (ngx_cycle_t *) ngx_cycle);
             }
 
-            ngx_dynamic_resolver_put_domain(d, (ngx_cycle_t *) ngx_cycle);
+            /* a running resolver still refers to the domain */
+            if (d->running) {
+                d->deleted = 1;
+            } else {
+                ngx_dynamic_resolver_put_domain(d, (ngx_cycle_t *) ngx_cycle);
+            }
 
             return;
         }
@@ -570,6 +586,7 @@ ngx_dynamic_resolver_start_resolver(ngx_str_t *domain,
         ctx->next = d->ctx;
         d->ctx = ctx;
 
+        ++d->running;
         ngx_event_resolver_start_resolver(&d->domain,
                 ngx_dynamic_resolver_on_result, d);
 
-- 
2.43.0


From d22345edb9572ff9940637f9fd2b9642926d66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 070/112] fix: no crash when a resolution cannot be started

---
 modules/nginx-toolkit-module/ngx_event_resolver.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_event_resolver.c b/modules/nginx-toolkit-module/ngx_event_resolver.c
index acd194e..b4b0e06 100644
--- a/modules/nginx-toolkit-module/ngx_event_resolver.c
+++ b/modules/nginx-toolkit-module/ngx_event_resolver.c
@@ -207,6 +207,7 @@ ngx_event_resolver_start_resolver(ngx_str_t *domain,
 
     erctx = ngx_event_resolver_get_ctx();
     if (erctx == NULL) {
+        h(data, NULL, 0);
         return;
     }
     erctx->handler = h;
@@ -240,10 +241,7 @@ ngx_event_resolver_start_resolver(ngx_str_t *domain,
 failed:
     h(data, NULL, 0);
 
-    if (ctx == NULL || ctx == NGX_NO_RESOLVER) {
-        ngx_resolve_name_done(ctx);
-        ngx_event_resolver_put_ctx(erctx);
-    }
+    ngx_event_resolver_put_ctx(erctx);
 }
 
 ngx_chain_t *
-- 
2.43.0


From 21169ffac6536e89b3a6af9b1c3e60bae322a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 071/112] fix: find the stream of in-memory HLS whose name has
 a dash or dot

---
 .../nginx-rtmp-module/mpegts/ngx_hls_http_module.c   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 53732ae..e7fc089 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -189,10 +189,14 @@ ngx_hls_http_ctx_init(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
 
     p++;
     name->data = p;
-    if (ngx_strncmp(&e[-5], ".m3u8", 5) == 0) {
-        p = ngx_strlchr(p, e, '.');
-    } else if (ngx_strncmp(&e[-3], ".ts", 3) == 0) {
-        p = ngx_strlchr(p, e, '-');
+    if (e - p >= 5 && ngx_strncmp(&e[-5], ".m3u8", 5) == 0) {
+        p = &e[-5];
+    } else if (e - p >= 3 && ngx_strncmp(&e[-3], ".ts", 3) == 0) {
+        /* name-id.ts */
+        for (p = &e[-3]; p != name->data && *p != '-'; --p);
+        if (*p != '-') {
+            p = NULL;
+        }
     } else {
         p = NULL;
     }
-- 
2.43.0


From e018e85a1c015753428e8c3e7eb55fe97fc75982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 072/112] fix: no overflow by long names, sessions or args of
 in-memory HLS

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index e7fc089..a27153d 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -523,6 +523,14 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
     ngx_http_arg(r, NGX_HLS_LIVE_ARG_SESSION, NGX_HLS_LIVE_ARG_SESSION_LENGTH,
         &ctx->sid);
 
+    if (ctx->name.len >= NGX_RTMP_MAX_NAME
+        || ctx->sid.len >= NGX_RTMP_MAX_SESSION)
+    {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+            "hls-http: create_ctx| name or session too long, uri %V", &r->uri);
+        return NULL;
+    }
+
     return ctx;
 }
 
@@ -642,7 +650,7 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-            ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+            ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_memcpy(v->session, ctx->sid.data, ctx->sid.len);
-- 
2.43.0


From ae35744ac50298a60c3d0cf2cb6a60bcc1cbce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 073/112] fix: serve no unfinished segment of in-memory HLS

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index efab067..6ddf2a4 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -303,8 +303,8 @@ ngx_hls_live_find_frag(ngx_rtmp_session_t *s, ngx_str_t *name)
 
     hacf = ngx_rtmp_get_module_app_conf(s, ngx_hls_live_module);
 
-    if (frag_id > ctx->nfrag + ctx->nfrags ||
-        ctx->nfrag + ctx->nfrags - frag_id > hacf->winfrags * 2 + 1)
+    if (frag_id >= ctx->nfrag + ctx->nfrags ||
+        ctx->nfrag + ctx->nfrags - frag_id > hacf->winfrags * 2)
     {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
             "hls-live: find_frag| invalid frag id[%d], curr id [%d]",
@@ -313,6 +313,9 @@ ngx_hls_live_find_frag(ngx_rtmp_session_t *s, ngx_str_t *name)
     }
 
     frag = ctx->frags[frag_id % (hacf->winfrags * 2 + 1)];
+    if (frag == NULL) {
+        return NULL;
+    }
 
     ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
         "hls-live: find_frag| find frag %p [%d] [frag %d] length %ui",
-- 
2.43.0


From 59e5ff942a6bcb7625226ee41f2f7f017a79dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 074/112] fix: give back what was not sent of an in-memory HLS
 segment

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index a27153d..1c352a9 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -549,13 +549,11 @@ ngx_hls_http_cleanup(void *data)
         return;
     }
 
-    if (ctx->out_chain == NULL) {
+    cl = ctx->out_chain;
+    while (cl) {
+        ctx->out_chain = cl->next;
+        ngx_put_chainbuf(cl);
         cl = ctx->out_chain;
-        while (cl) {
-            ctx->out_chain = cl->next;
-            ngx_put_chainbuf(cl);
-            cl = ctx->out_chain;
-        }
     }
 
     ctx->content_pos = 0;
-- 
2.43.0


From 2d2552bf66a472d5ef0846113ffc47d4f19eef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 075/112] fix: in-memory HLS goes on to the next session after
 ending one

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 6ddf2a4..6293330 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -970,7 +970,7 @@ static ngx_int_t
 ngx_hls_live_av(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 {
     ngx_live_stream_t         *live_stream;
-    ngx_hls_live_ctx_t        *ctx;
+    ngx_hls_live_ctx_t        *ctx, *next;
     ngx_rtmp_session_t        *ss;
     ngx_rtmp_codec_ctx_t      *codec_ctx;
     ngx_hls_live_app_conf_t   *hacf;
@@ -983,7 +983,9 @@ ngx_hls_live_av(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
             frame->dts/90, frame->type, frame->key);
 
     live_stream = s->live_stream;
-    for (ctx = live_stream->hls_ctx; ctx; ctx = ctx->next) {
+    for (ctx = live_stream->hls_ctx; ctx; ctx = next) {
+        /* ctx is freed with its session */
+        next = ctx->next;
         ss = ctx->session;
 
         switch (ngx_mpegts_gop_link(s, ss, hacf->playlen, hacf->playlen)) {
-- 
2.43.0


From d85156198c4cb39827c4ad82313cada93fd05e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 076/112] fix: room for an IPv6 client address of in-memory HLS

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 1c352a9..1e52ad3 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -783,8 +783,9 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
 
             return NGX_HTTP_INTERNAL_SERVER_ERROR;
         }
-        s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-        ngx_memcpy(s->sockaddr, r->connection->sockaddr, sizeof(struct sockaddr));
+        s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+        ngx_memcpy(s->sockaddr, r->connection->sockaddr,
+            r->connection->socklen);
     }
 
     s->request = r;
-- 
2.43.0


From 0cee28b0f698a4638bde7c77c3ba6e6c1f458381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 077/112] fix: free the queued frames of an in-memory HLS
 session as what they are

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index f79b161..e5f8e8a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -313,7 +313,7 @@ ngx_rtmp_close_session(ngx_rtmp_session_t *s)
 
     ngx_rtmp_free_merge_frame(s);
 
-    if (s->live_type == NGX_MPEGTS_LIVE) {
+    if (s->live_type == NGX_MPEGTS_LIVE || s->live_type == NGX_HLS_LIVE) {
         while (s->out_pos != s->out_last) {
             ngx_rtmp_shared_free_mpegts_frame(s->mpegts_out[s->out_pos++]);
             s->out_pos %= s->out_queue;
-- 
2.43.0


From 64ea8077b7139ecd644b5b7ba4ea4e371fdc2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:43 +0000
Subject: [PATCH 078/112] fix: any number of requests of an in-memory HLS
 session at a time

---
 .../mpegts/ngx_hls_http_module.c              | 140 ++++++++++++------
 1 file changed, 94 insertions(+), 46 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 1e52ad3..dfc51bc 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -46,6 +46,9 @@ typedef struct {
     ngx_str_t                   serverid;
     ngx_str_t                   sid;
     ngx_rtmp_session_t         *session;
+    ngx_http_request_t         *next;   /* of the requests of the session */
+    unsigned                    waiting:1;  /* for the playlist */
+    ngx_uint_t                  out_queue;
     ngx_msec_t                  timeout;
     ngx_uint_t                  content_pos;
     ngx_chain_t                *m3u8;
@@ -535,6 +538,52 @@ ngx_hls_http_create_ctx(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
 }
 
 
+/* s->request is the list of requests that refer to the session */
+static void
+ngx_hls_http_attach(ngx_http_request_t *r, ngx_rtmp_session_t *s)
+{
+    ngx_hls_http_ctx_t   *ctx;
+
+    ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
+
+    ctx->session = s;
+    ctx->out_queue = s->out_queue;
+    ctx->next = s->request;
+    s->request = r;
+}
+
+
+static void
+ngx_hls_http_detach(ngx_http_request_t *r)
+{
+    ngx_hls_http_ctx_t   *ctx, *c;
+    ngx_http_request_t   *hr;
+    ngx_rtmp_session_t   *s;
+
+    ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
+
+    s = ctx->session;
+    if (s == NULL) {
+        return;
+    }
+
+    ctx->session = NULL;
+
+    if (s->request == r) {
+        s->request = ctx->next;
+        return;
+    }
+
+    for (hr = s->request; hr; hr = c->next) {
+        c = ngx_http_get_module_ctx(hr, ngx_hls_http_module);
+        if (c->next == r) {
+            c->next = ctx->next;
+            return;
+        }
+    }
+}
+
+
 static void
 ngx_hls_http_cleanup(void *data)
 {
@@ -558,10 +607,7 @@ ngx_hls_http_cleanup(void *data)
 
     ctx->content_pos = 0;
 
-    if (ctx->session) {
-        ctx->session->request = NULL;
-        ctx->session->connection = NULL;
-    }
+    ngx_hls_http_detach(r);
 
     ngx_log_error(NGX_LOG_DEBUG, r->connection->log, 0,
             "hls-http: cleanup_handler| http cleanup");
@@ -788,9 +834,7 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
             r->connection->socklen);
     }
 
-    s->request = r;
-
-    ctx->session = s;
+    ngx_hls_http_attach(r, s);
 
     if (!ctx->m3u8) {
         ctx->m3u8 = ngx_pcalloc(r->connection->pool, sizeof(ngx_chain_t));
@@ -833,6 +877,7 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
     return rc;
 
 again:
+    ctx->waiting = 1;
     r->count++;
 
     return NGX_DONE;
@@ -890,14 +935,12 @@ static ngx_chain_t *
 ngx_hls_http_prepare_out_chain(ngx_http_request_t *r, ngx_int_t nframes)
 {
     ngx_hls_http_ctx_t   *ctx;
-     ngx_hls_live_frag_t *frag;
-    ngx_rtmp_session_t   *s;
+    ngx_hls_live_frag_t  *frag;
     ngx_chain_t          *out, *cl, **ll;
     ngx_mpegts_frame_t   *frame;
     ngx_int_t             i = 0;
 
     ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
-    s = ctx->session;
     frag = ctx->frag;
 
     out = NULL;
@@ -916,7 +959,7 @@ ngx_hls_http_prepare_out_chain(ngx_http_request_t *r, ngx_int_t nframes)
         }
 
         *ll = NULL;
-        ctx->content_pos = ngx_hls_live_next(s, ctx->content_pos);
+        ctx->content_pos = ngx_hls_live_next(ctx, ctx->content_pos);
         i++;
     }
 
@@ -940,10 +983,10 @@ ngx_hls_http_write_handler(ngx_http_request_t *r)
     }
 
     ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
-    s = ctx->session;
+    s = ctx->session;   /* NULL if it ended meanwhile */
 
     if (wev->timedout) {
-        ngx_log_error(NGX_LOG_INFO, s->log, NGX_ETIMEDOUT,
+        ngx_log_error(NGX_LOG_INFO, r->connection->log, NGX_ETIMEDOUT,
                 "hls_http: write_handler| client timed out");
         r->connection->timedout = 1;
         if (r->header_sent) {
@@ -978,14 +1021,14 @@ ngx_hls_http_write_handler(ngx_http_request_t *r)
         sent = r->connection->sent - present;
 
         ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, sent);
-        if (s->live_stream) {
+        if (s && s->live_stream) {
             ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, sent);
         }
 
         if (rc == NGX_AGAIN) {
-            ngx_add_timer(wev, s->timeout);
+            ngx_add_timer(wev, ctx->timeout);
             if (ngx_handle_write_event(wev, 0) != NGX_OK) {
-                ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "hls_http: write_handler| handle write event failed");
                 ngx_http_finalize_request(r, NGX_ERROR);
             }
@@ -993,7 +1036,7 @@ ngx_hls_http_write_handler(ngx_http_request_t *r)
         }
 
         if (rc == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+            ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                     "hls_http: write_handler| send error");
             ngx_http_finalize_request(r, NGX_ERROR);
 
@@ -1045,8 +1088,7 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
             "hls-http: ts_handler| hls session %V not found", &ctx->sid);
         return NGX_DECLINED;
     }
-    ctx->session = s;
-    s->request = r;
+    ngx_hls_http_attach(r, s);
 
 //    ngx_rtmp_set_combined_log(s, r->connection->log->data,
 //            r->connection->log->handler);
@@ -1168,26 +1210,15 @@ ngx_hls_http_handler(ngx_http_request_t *r)
 }
 
 static ngx_int_t
-ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
+ngx_hls_http_send_m3u8(ngx_rtmp_session_t *s, ngx_http_request_t *r)
 {
-    ngx_http_request_t                 *r;
     ngx_int_t                           rc;
     ngx_hls_http_ctx_t                 *ctx;
     ngx_buf_t                          *buf;
     ngx_chain_t                        *out;
 
-    r = s->request;
-    if (!r) {
-        return NGX_ERROR;
-    }
-
     ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
 
-    if (!ctx->m3u8) {
-        ctx->m3u8 = ngx_pcalloc(r->connection->pool, sizeof(ngx_chain_t));
-        ctx->m3u8->buf = ngx_create_temp_buf(r->connection->pool, 1024*512);
-    }
-
     out = ctx->m3u8;
     buf = out->buf;
     buf->last = buf->pos = buf->start;
@@ -1216,7 +1247,24 @@ ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
         return rc;
     }
 
-    ngx_http_finalize_request(r, NGX_HTTP_OK);
+    return NGX_HTTP_OK;
+}
+
+static ngx_int_t
+ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
+{
+    ngx_http_request_t                 *r, *next;
+    ngx_hls_http_ctx_t                 *ctx;
+
+    for (r = s->request; r; r = next) {
+        ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
+        next = ctx->next;
+
+        if (ctx->waiting) {
+            ctx->waiting = 0;
+            ngx_http_finalize_request(r, ngx_hls_http_send_m3u8(s, r));
+        }
+    }
 
     return NGX_OK;
 }
@@ -1224,27 +1272,27 @@ ngx_hls_http_m3u8(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
 static ngx_int_t
 ngx_hls_http_close(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
 {
-    ngx_http_request_t   *r;
+    ngx_http_request_t   *r, *next;
     ngx_hls_http_ctx_t   *ctx;
 
     r = s->request;
-    if (!r) {
-        return NGX_OK;
-    }
-
-    ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
-    if (!ctx) {
-        return NGX_OK;
-    }
-
     s->request = NULL;
     s->connection = NULL;
-    ctx->session = NULL;
 
-    ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
-        "hls-http: close| finalize http request");
+    for ( /* void */ ; r; r = next) {
+        ctx = ngx_http_get_module_ctx(r, ngx_hls_http_module);
+        next = ctx->next;
+        ctx->session = NULL;
 
-    ngx_http_finalize_request(r, NGX_HTTP_GONE);
+        /* a fragment being sent is kept by its own reference */
+        if (ctx->waiting) {
+            ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
+                "hls-http: close| finalize http request");
+
+            ctx->waiting = 0;
+            ngx_http_finalize_request(r, NGX_HTTP_GONE);
+        }
+    }
 
     return NGX_OK;
 }
-- 
2.43.0


From c29925aa8d9d831c72a94a8bcc401cc33421f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 079/112] fix: in-memory HLS sessions keep their own client
 information

---
 .../mpegts/ngx_hls_http_module.c              | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index dfc51bc..c697056 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -621,6 +621,24 @@ ngx_hls_http_cleanup(void *data)
 }
 
 
+static ngx_int_t
+ngx_hls_http_copy_str(ngx_rtmp_session_t *s, ngx_str_t *str)
+{
+    u_char  *p;
+
+    p = ngx_pnalloc(s->pool, str->len + 1);
+    if (p == NULL) {
+        return NGX_ERROR;
+    }
+
+    ngx_memcpy(p, str->data, str->len);
+    p[str->len] = '\0';
+    str->data = p;
+
+    return NGX_OK;
+}
+
+
 static ngx_int_t
 ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
         ngx_rtmp_play_t *v)
@@ -648,6 +666,11 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
         s->flashver = hlcf->flashver;
     }
 
+    /* the session outlives the request */
+    if (ngx_hls_http_copy_str(s, &s->flashver) != NGX_OK) {
+        return NGX_HTTP_INTERNAL_SERVER_ERROR;
+    }
+
     /* tc_url */
 #if (NGX_HTTP_SSL)
     if (r->connection->ssl) {
@@ -660,7 +683,7 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
     tcurl_len += r->headers_in.server.len + 1 + s->app.len;
 
     s->tc_url.len = tcurl_len;
-    s->tc_url.data = ngx_pcalloc(r->pool, tcurl_len);
+    s->tc_url.data = ngx_pcalloc(s->pool, tcurl_len);
     if (s->tc_url.data == NULL) {
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
@@ -687,6 +710,10 @@ ngx_hls_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
         s->page_url = hlcf->page_url;
     }
 
+    if (ngx_hls_http_copy_str(s, &s->page_url) != NGX_OK) {
+        return NGX_HTTP_INTERNAL_SERVER_ERROR;
+    }
+
     s->acodecs = 0x0DF7;
     s->vcodecs = 0xFC;
 
-- 
2.43.0


From af5165634a19fb92a79e42c29cdd025f3f3575cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 080/112] fix: no body in the answer to a HEAD request of
 in-memory HLS

---
 .../mpegts/ngx_hls_http_module.c               | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index c697056..f89d538 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -386,6 +386,10 @@ ngx_hls_http_master_m3u8_handler(ngx_http_request_t *r,
                 "hls-http: master_m3u8_handler| redirect url %V", &m3u8_url);
     }
 
+    if (r->header_only) {
+        return rc;
+    }
+
     return ngx_http_output_filter(r, &out);
 }
 
@@ -894,6 +898,10 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
         }
     }
 
+    if (r->header_only) {
+        return rc;
+    }
+
     rc = ngx_http_output_filter(r, out);
     if (rc != NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
@@ -1134,7 +1142,9 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
         return NGX_HTTP_NOT_FOUND;
     }
 
+    /* given back by the cleanup, whatever happens to the request */
     ctx->frag = frag;
+    ngx_rtmp_shared_acquire_frag(frag);
 
     r->headers_out.content_length_n = frag->length;
     r->headers_out.last_modified_time = frag->last_modified_time;
@@ -1147,7 +1157,9 @@ ngx_hls_http_ts_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf)
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
 
-    ngx_rtmp_shared_acquire_frag(frag);
+    if (r->header_only) {
+        return rc;
+    }
 
     if (1) {
         r->write_event_handler = ngx_hls_http_write_handler;
@@ -1267,6 +1279,10 @@ ngx_hls_http_send_m3u8(ngx_rtmp_session_t *s, ngx_http_request_t *r)
         return rc;
     }
 
+    if (r->header_only) {
+        return NGX_HTTP_OK;
+    }
+
     rc = ngx_http_output_filter(r, out);
     if (rc != NGX_OK) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
-- 
2.43.0


From ebc66bd55593c82ed15cc7b9c27aa5f9021b48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:53 +0000
Subject: [PATCH 081/112] fix: no crash by a request without a host to
 in-memory HLS

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index f89d538..0bb84b8 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -299,6 +299,11 @@ ngx_hls_http_master_m3u8_handler(ngx_http_request_t *r,
     ngx_str_t                            https = ngx_string("https");
     u_char                              *p;
 
+    /* HTTP/1.0 */
+    if (r->headers_in.host == NULL) {
+        return NGX_HTTP_BAD_REQUEST;
+    }
+
     host = r->headers_in.host->value;
 
     rc = ngx_http_discard_request_body(r);
@@ -410,6 +415,11 @@ ngx_hls_http_redirect_handler(ngx_http_request_t *r,
     ngx_str_t                            https = ngx_string("https");
     u_char                              *p;
 
+    /* HTTP/1.0 */
+    if (r->headers_in.host == NULL) {
+        return NGX_HTTP_BAD_REQUEST;
+    }
+
     host = r->headers_in.host->value;
 
     rc = ngx_http_discard_request_body(r);
-- 
2.43.0


From d67110fee18dc5ccafed7af22eda3b0875baa980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 082/112] fix: end a refused in-memory HLS session only when
 its callers are done with it

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index e5f8e8a..32d36a9 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -400,6 +400,13 @@ ngx_rtmp_async_finalize_http_request(ngx_event_t *ev)
 }
 
 
+static void
+ngx_rtmp_async_finalize_fake_session(ngx_event_t *ev)
+{
+    ngx_rtmp_finalize_fake_session(ev->data);
+}
+
+
 void
 ngx_rtmp_finalize_session(ngx_rtmp_session_t *s)
 {
@@ -448,7 +455,12 @@ ngx_rtmp_finalize_session(ngx_rtmp_session_t *s)
             break;
 
         case NGX_HLS_LIVE:
-            ngx_rtmp_finalize_fake_session(s);
+            e = &s->close;
+            e->data = s;
+            e->handler = ngx_rtmp_async_finalize_fake_session;
+            e->log = s->log;
+
+            ngx_post_event(e, &ngx_posted_events);
             break;
     }
 }
-- 
2.43.0


From 68c278ed729ea5a6797c6eefffa66e608bb205b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 083/112] fix: answer in-memory HLS requests whose session is
 refused, and end that session

---
 .../mpegts/ngx_hls_http_module.c                  | 15 ++++++++++++++-
 .../mpegts/ngx_hls_live_module.c                  | 12 +++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 0bb84b8..debbdcc 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -768,11 +768,14 @@ ngx_hls_http_create_session(ngx_http_request_t *r)
         return NULL;
     }
 
+    s->live_type = NGX_HLS_LIVE;
+
     /* get host, app, stream name */
     ngx_memzero(&v, sizeof(ngx_rtmp_play_t));
 
     rc = ngx_hls_http_parse(r, s, &v);
     if (rc != NGX_OK) {
+        ngx_rtmp_finalize_fake_session(s);
         return NULL;
     }
 
@@ -780,13 +783,13 @@ ngx_hls_http_create_session(ngx_http_request_t *r)
         ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
             "hls-http: create_session| set virtual server failed, %V",
             &s->domain);
+        ngx_rtmp_finalize_fake_session(s);
         return NULL;
     }
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
     s->log->connection = r->connection->number;
     s->number = r->connection->number;
-    s->live_type = NGX_HLS_LIVE;
     s->live_server = ngx_live_create_server(&s->serverid);
     s->remote_addr_text.data = ngx_pcalloc(s->pool, r->connection->addr_text.len);
     s->remote_addr_text.len = r->connection->addr_text.len;
@@ -828,10 +831,12 @@ ngx_hls_http_create_session(ngx_http_request_t *r)
     s->variables = ngx_pcalloc(s->pool, cmcf->variables.nelts
             * sizeof(ngx_http_variable_value_t));
     if (s->variables == NULL) {
+        ngx_rtmp_finalize_session(s);
         return NULL;
     }
 
     if (ngx_rtmp_play_filter(s, &v) != NGX_OK) {
+        ngx_rtmp_finalize_session(s);
         return NULL;
     }
 
@@ -1328,6 +1333,10 @@ ngx_hls_http_close(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
     ngx_http_request_t   *r, *next;
     ngx_hls_http_ctx_t   *ctx;
 
+    if (s->live_type != NGX_HLS_LIVE) {
+        return NGX_OK;
+    }
+
     r = s->request;
     s->request = NULL;
     s->connection = NULL;
@@ -1416,6 +1425,10 @@ ngx_hls_http_postconfiguration(ngx_conf_t *cf)
     h = ngx_array_push(&cmcf->events[NGX_MPEGTS_MSG_CLOSE]);
     *h = ngx_hls_http_close;
 
+    /* sessions that were not let in */
+    h = ngx_array_push(&cmcf->events[NGX_RTMP_DISCONNECT]);
+    *h = ngx_hls_http_close;
+
     return NGX_OK;
 }
 
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 6293330..4c6cb7f 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -735,12 +735,18 @@ ngx_hls_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 //    ngx_rtmp_codec_ctx_t           *codec_ctx;
 
     hacf = ngx_rtmp_get_module_app_conf(s, ngx_hls_live_module);
-    if (hacf == NULL || !hacf->hls || s->live_type != NGX_HLS_LIVE) {
+    if (s->interprocess || s->live_type != NGX_HLS_LIVE) {
         goto next;
     }
 
-    if (s->interprocess || s->live_type != NGX_HLS_LIVE) {
-        goto next;
+    if (hacf == NULL || !hacf->hls) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0, "hls-live: play| not enabled");
+
+        s->status = 404;
+
+        ngx_rtmp_finalize_session(s);
+
+        return NGX_ERROR;
     }
 
     if (ngx_hls_live_join(s, v->name, 0) == NGX_ERROR) {
-- 
2.43.0


From 3f53696b922a093749f791d45ccb6bbad6563431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 084/112] fix: free the document of the system state after
 printing it

---
 modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
index 96e36d9..92c708f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
@@ -183,6 +183,12 @@ ngx_rtmp_sys_stat_handler(ngx_http_request_t *r)
 
     json_out = (u_char *) cJSON_Print(root);
 
+    cJSON_Delete(root);
+
+    if (json_out == NULL) {
+        return NGX_ERROR;
+    }
+
     len = ngx_strlen(json_out);
 
     out = ngx_alloc_chain_link(r->pool);
-- 
2.43.0


From e9f291ba864547c45e7adf750d0d57cf2ac9a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 085/112] fix: no crash by a record request for a publisher
 that waits for its admission

---
 modules/nginx-rtmp-module/ngx_live_record.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 8a30d33..ce1e6ff 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1192,6 +1192,9 @@ ngx_live_record_open(ngx_rtmp_session_t *s)
     }
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
+    if (ctx == NULL) { /* not admitted yet */
+        return NGX_CONF_OK;
+    }
 
     if (ctx->open) {
         return NGX_CONF_OK;
@@ -1215,6 +1218,9 @@ ngx_live_record_close(ngx_rtmp_session_t *s)
     }
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
+    if (ctx == NULL) { /* not admitted yet */
+        return NGX_CONF_OK;
+    }
 
     if (ctx->open == 0) {
         return NGX_CONF_OK;
-- 
2.43.0


From eb0649205d645f5580c76cd0506f9788f583f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 086/112] fix: a control request for a long application name
 reads no further than the names of the streams

---
 modules/nginx-rtmp-module/ngx_rtmp_control_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
index 4966ec5..925d662 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
@@ -398,7 +398,7 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
     if (name.len == 0) {
         for (n = 0; n < lcf->stream_buckets; ++n) {
             for (st = srv->streams[n]; st; st = st->next) {
-                if (ngx_memcmp(stream.data, st->name, stream.len) == 0) {
+                if (ngx_strncmp(stream.data, st->name, stream.len) == 0) {
                     s = ngx_rtmp_control_walk_stream(r, st);
                     if (s != NGX_CONF_OK) {
                         return s;
-- 
2.43.0


From 121e1dcd7e2afc76c0f83edcd689a738911a2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 087/112] fix: start no relay in a session that is about to be
 closed

---
 modules/nginx-rtmp-module/ngx_live_relay.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay.c b/modules/nginx-rtmp-module/ngx_live_relay.c
index e12f1b0..8994e32 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay.c
@@ -135,6 +135,10 @@ ngx_live_relay_create(ngx_rtmp_session_t *rs, ngx_live_relay_t *relay)
     ngx_live_relay_url_t       *url;
     relay_create_pt             create;
 
+    if (rs->finalized) { // session will be closed in this event cycle
+        return NGX_ERROR;
+    }
+
     ctx = ngx_rtmp_get_module_ctx(rs, ngx_live_relay_module);
     if (ctx->idx >= relay->urls.nelts) {
         ctx->idx = 0;
-- 
2.43.0


From d6a9d3188f18dcc9cef2f0e508e01626f5996f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 088/112] fix: queue no RTMP messages in sessions of HTTP-TS
 and in-memory HLS players

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 36e141d..29161fe 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -801,6 +801,11 @@ ngx_rtmp_send_message(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *out,
         goto send;
     }
 
+    // players of mpegts and hls queue mpegts frames only
+    if (s->live_type == NGX_MPEGTS_LIVE || s->live_type == NGX_HLS_LIVE) {
+        return NGX_OK;
+    }
+
 //    nmsg = (s->out_last - s->out_pos) % s->out_queue + 1;
     nmsg = (s->out_last + s->out_queue - s->out_pos) % s->out_queue + 1;
 
-- 
2.43.0


From d2ffc0d94e1776aef84dd61866be795da8fe4ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:28 +0000
Subject: [PATCH 089/112] fix: notice HTTP-FLV and HTTP-TS players that left
 right after their request

---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 5 +++++
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 91862f6..8a1d381 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -693,6 +693,11 @@ ngx_http_flv_live_handler(ngx_http_request_t *r)
     r->read_event_handler = ngx_http_test_reading;
     r->write_event_handler = ngx_http_flv_live_write_handler;
 
+    // client closed with its request, there will be no further read event
+    if (r->connection->read->ready) {
+        ngx_post_event(r->connection->read, &ngx_posted_events);
+    }
+
     ++r->count;
 
     return NGX_DONE;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 7f861f5..96d14e7 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -546,6 +546,11 @@ ngx_mpegts_http_handler(ngx_http_request_t *r)
     r->read_event_handler = ngx_http_test_reading;
     r->write_event_handler = ngx_mpegts_http_write_handler;
 
+    // client closed with its request, there will be no further read event
+    if (r->connection->read->ready) {
+        ngx_post_event(r->connection->read, &ngx_posted_events);
+    }
+
     ++r->count;
 
     return NGX_DONE;
-- 
2.43.0


From 522c621e41e95bc1f793f9fcaadcb440e0375e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:36 +0000
Subject: [PATCH 090/112] fix: bytes of a partial write count as sent

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 29161fe..e40b688 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -759,6 +759,12 @@ ngx_rtmp_send(ngx_event_t *wev)
             cl = s->out_chain;
         }
 
+        s->out_bytes += n;
+        ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, n);
+        if (s->live_stream) {
+            ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, n);
+        }
+
         if (chain) { /* NGX_AGAIN */
             ngx_add_timer(c->write, s->timeout);
             if (ngx_handle_write_event(c->write, 0) != NGX_OK) {
@@ -767,15 +773,10 @@ ngx_rtmp_send(ngx_event_t *wev)
             return;
         }
 
-        s->out_bytes += n;
         if (!s->ping_active) {
             /* output, the ping itself among it, is no answer to a ping */
             s->ping_reset = 1;
         }
-        ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, n);
-        if (s->live_stream) {
-            ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, n);
-        }
 
         if (ngx_rtmp_prepare_merge_frame(s) == NGX_ERROR) {
             ngx_rtmp_finalize_session(s);
-- 
2.43.0


From 55208782e706d2a7677e19fb6893683003961c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 091/112] fix: read metadata that follows its command's name in
 another buffer, forward it with its name in copy mode

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 377db0a..3acf11c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -1139,6 +1139,10 @@ ngx_rtmp_codec_copy_meta(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 {
     ngx_rtmp_codec_ctx_t      *ctx;
     ngx_rtmp_core_srv_conf_t  *cscf;
+    ngx_chain_t                name;
+    ngx_buf_t                  name_buf;
+
+    static u_char              on_meta_data[] = "\x02\x00\x0aonMetaData";
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
@@ -1148,6 +1152,18 @@ ngx_rtmp_codec_copy_meta(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         ngx_rtmp_shared_free_frame(ctx->meta);
     }
 
+    /* players need the name the publisher left out in front of the object */
+    if (in->buf->pos == in->buf->last
+        || *in->buf->pos != NGX_RTMP_AMF_STRING)
+    {
+        ngx_memzero(&name_buf, sizeof(ngx_buf_t));
+        name_buf.pos = on_meta_data;
+        name_buf.last = on_meta_data + sizeof(on_meta_data) - 1;
+        name.buf = &name_buf;
+        name.next = in;
+        in = &name;
+    }
+
     ctx->meta = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, in, 0);
 
     if (ctx->meta == NULL) {
@@ -1293,6 +1309,11 @@ ngx_rtmp_codec_meta_data(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
      * 0 is a valid value for uncompressed audio */
     v.audio_codec_id_n = -1;
 
+    /* the command's name may have used up the first buffers */
+    while (in->next && in->buf->pos == in->buf->last) {
+        in = in->next;
+    }
+
     /* FFmpeg sends a string in front of actal metadata; ignore it */
     skip = !(in->buf->last > in->buf->pos
             && *in->buf->pos == NGX_RTMP_AMF_STRING);
-- 
2.43.0


From dee61c8e6792be9834928df0b55427848ffce8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:36 +0000
Subject: [PATCH 092/112] fix: dash: no endless loop when less was stored than
 is to be copied

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index 1641ebc..5f2149a 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -602,7 +602,7 @@ ngx_rtmp_dash_close_fragment(ngx_rtmp_session_t *s, ngx_rtmp_dash_track_t *t)
     while (left > 0) {
 
         n = ngx_read_fd(t->fd, buffer, ngx_min(sizeof(buffer), left));
-        if (n == NGX_ERROR) {
+        if (n == NGX_ERROR || n == 0) {
             break;
         }
 
-- 
2.43.0


From 9e82bad04fffcf8e561da9730f666bee1d4920d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:36 +0000
Subject: [PATCH 093/112] fix: dash: negative composition offsets

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 2 +-
 modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c         | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index 5f2149a..21443a3 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1202,7 +1202,7 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     p[0] = in->buf->pos[4];
     p[1] = in->buf->pos[3];
     p[2] = in->buf->pos[2];
-    p[3] = 0;
+    p[3] = (in->buf->pos[2] & 0x80) ? 0xff : 0; /* signed 24 bits */
 
     ctx->has_video = 1;
 
diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
index ba234d6..d8dfb19 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
@@ -1016,6 +1016,9 @@ ngx_rtmp_mp4_write_trun(ngx_buf_t *b, uint32_t sample_count,
     if (sample_mask & NGX_RTMP_MP4_SAMPLE_DELAY) {
         nitems++;
         flags |= 0x000800;
+
+        /* version 1: composition offsets are signed */
+        flags |= 0x01000000;
     }
 
     offset = (pos - moof_pos) + 20 + (sample_count * nitems * 4) + 8;
-- 
2.43.0


From 1f32f4d4a073b5abed1db7e3b876288658cde492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 094/112] fix: reuse an HLS fragment only where its frame list
 is long enough

---
 .../mpegts/ngx_hls_live_module.c              | 28 ++++++++++++++-----
 .../mpegts/ngx_hls_live_module.h              |  1 +
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 4c6cb7f..7782dc0 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -554,19 +554,32 @@ ngx_hls_live_free_frag(ngx_hls_live_frag_t *frag)
 
 static ngx_hls_live_frag_t*
 ngx_hls_live_create_frag(ngx_rtmp_session_t *s) {
-    ngx_hls_live_frag_t       *frag;
+    ngx_hls_live_frag_t       *frag, **pfrag;
+    ngx_uint_t                 size;
+
+    /* free fragments may come from a server with a shorter out_queue */
+    pfrag = &ngx_hls_live_main_conf->free_frag;
+    while (*pfrag && (*pfrag)->content_size < s->out_queue) {
+        pfrag = &(*pfrag)->next;
+    }
 
-    if (ngx_hls_live_main_conf->free_frag) {
-        frag = ngx_hls_live_main_conf->free_frag;
-        ngx_hls_live_main_conf->free_frag =
-            ngx_hls_live_main_conf->free_frag->next;
+    frag = *pfrag;
 
+    if (frag) {
+        *pfrag = frag->next;
+
+        size = frag->content_size;
         ngx_memzero(frag, sizeof(ngx_hls_live_frag_t) +
             sizeof(ngx_mpegts_frame_t*) * s->out_queue);
+        frag->content_size = size;
     } else {
         frag = ngx_pcalloc(ngx_hls_live_main_conf->pool,
             sizeof(ngx_hls_live_frag_t) +
             sizeof(ngx_mpegts_frame_t*) * s->out_queue);
+        if (frag == NULL) {
+            return NULL;
+        }
+        frag->content_size = s->out_queue;
     }
 
     ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
@@ -607,8 +620,9 @@ ngx_hls_live_open_fragment(ngx_rtmp_session_t *s, uint64_t ts,
     *ffrag = ngx_hls_live_create_frag(s);
 
     frag = *ffrag;
-
-    ngx_memzero(frag, sizeof(*frag));
+    if (frag == NULL) {
+        return NGX_ERROR;
+    }
 
     frag->ref = 1;
     frag->active = 1;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
index b019c88..874cc4c 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.h
@@ -43,6 +43,7 @@ struct ngx_hls_live_frag_s {
     ngx_chain_t            *out;
     ngx_uint_t              content_last;
     ngx_uint_t              content_pos;
+    ngx_uint_t              content_size; /* places in content */
     ngx_mpegts_frame_t     *content[0];
 };
 
-- 
2.43.0


From 15208b1d6e61a3e618f9c47f9d4873d49e7709d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 095/112] fix: cut an HLS segment before its frame list wraps
 around

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index 7782dc0..d6081dd 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -875,6 +875,14 @@ ngx_hls_live_update_fragment(ngx_rtmp_session_t *s, uint64_t ts,
             frag->duration = (ts - ctx->frag_ts) / 90000.;
             discont = 0;
         }
+
+        /* one place must stay free, or the ring would look empty */
+        if (frag->content_last + 1 >= s->out_queue) {
+            ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                        "hls: force fragment split: %ui frames",
+                        frag->content_last);
+            force = 1;
+        }
     }
 
     switch (hacf->slicing) {
-- 
2.43.0


From 90054ce87589539912d4cd04a0e50bbed92cce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 096/112] fix: do not read past a short argument of access_log

---
 modules/nginx-rtmp-module/ngx_rtmp_log_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_log_module.c b/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
index 80c978f..8060839 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_log_module.c
@@ -779,7 +779,7 @@ ngx_rtmp_log_set_log(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
 
     for (n = 2; n < cf->args->nelts; ++n) {
         /* sizeof("trunc=") - 1 = 6 */
-        if (ngx_memcmp("trunc=", value[n].data, 6) == 0) {
+        if (ngx_strncmp(value[n].data, "trunc=", 6) == 0) {
             timer.data = value[n].data + 6;
             timer.len = value[n].len - 6;
 
-- 
2.43.0


From 05ba9ca4f8f80be4239646f016dfc1ec316a7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 097/112] fix: compare every name= option of an exec command

---
 modules/nginx-rtmp-module/ngx_rtmp_exec_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
index 2d6c2fe..b2550fd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
@@ -1103,7 +1103,7 @@ ngx_rtmp_exec_filter(ngx_rtmp_session_t *s, ngx_rtmp_exec_conf_t *ec)
     len = ngx_strlen(ctx->name);
 
     v = ec->names.elts;
-    for (n = 0; n < ec->names.nelts; n++, s++) {
+    for (n = 0; n < ec->names.nelts; n++, v++) {
         if (v->len == len && ngx_strncmp(v->data, ctx->name, len) == 0) {
             return NGX_OK;
         }
-- 
2.43.0


From 4af984ef58c6782d9d395a97ae6bf82460a7eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 098/112] fix: variables of an exec command cannot become
 redirections

---
 .../nginx-rtmp-module/ngx_rtmp_exec_module.c  | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
index b2550fd..56e37c6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
@@ -694,6 +694,21 @@ ngx_rtmp_exec_kill(ngx_rtmp_exec_t *e, ngx_int_t kill_signal)
 }
 
 
+static ngx_int_t
+ngx_rtmp_exec_redirects(ngx_str_t *arg)
+{
+    size_t  n;
+
+    for (n = 0; n < arg->len; n++) {
+        if (arg->data[n] < '0' || arg->data[n] > '9') {
+            return arg->data[n] == '<' || arg->data[n] == '>';
+        }
+    }
+
+    return 0;
+}
+
+
 static ngx_int_t
 ngx_rtmp_exec_run(ngx_rtmp_exec_t *e)
 {
@@ -813,7 +828,13 @@ ngx_rtmp_exec_run(ngx_rtmp_exec_t *e)
                     ngx_rtmp_eval(e->eval_ctx, arg_in, e->eval, &a, e->log);
                 }
 
-                if (ngx_rtmp_eval_streams(&a) != NGX_DONE) {
+                /*
+                 * only what the configuration says is a redirection,
+                 * not what a client put into a variable
+                 */
+                if (ngx_rtmp_exec_redirects(arg_in)
+                    && ngx_rtmp_eval_streams(&a) != NGX_DONE)
+                {
                     continue;
                 }
 
-- 
2.43.0


From 3607c14274f9d9c1f2239c30bc522a4b44bbaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:28 +0000
Subject: [PATCH 099/112] fix: only the publisher's process records a stream
 that others pull from it

---
 modules/nginx-rtmp-module/ngx_live_relay_inner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_inner.c b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
index 72400a0..c817388 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_inner.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
@@ -227,6 +227,8 @@ ngx_live_relay_inner_relay(ngx_rtmp_session_t *s, unsigned publishing)
         return NGX_DECLINED;
     }
     rs->publishing = publishing;
+    /* recorders and the like run in the publisher's process only */
+    rs->interprocess = 1;
     rs->live_stream = s->live_stream;
     ngx_live_create_ctx(rs, publishing);
 
-- 
2.43.0


From 6990b239c78f683cd56e4d2d1373826d9ee3421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:46 +0000
Subject: [PATCH 100/112] fix: players that are other workers run no exec
 commands

---
 modules/nginx-rtmp-module/ngx_rtmp_exec_module.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
index 56e37c6..f532f24 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
@@ -1234,6 +1234,10 @@ ngx_rtmp_exec_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
         goto next;
     }
 
+    if (s->interprocess) {
+        goto next;
+    }
+
     if (ngx_rtmp_exec_init_ctx(s, v->name, v->args, NGX_RTMP_EXEC_PLAYING)
         != NGX_OK)
     {
-- 
2.43.0


From f88bc94173f962fc6f00c1b67f98938c03696070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:22 +0000
Subject: [PATCH 101/112] fix: a signal for an exec command is not lost in the
 forked child

---
 .../nginx-rtmp-module/ngx_rtmp_exec_module.c  | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
index f532f24..b8800d9 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_exec_module.c
@@ -717,6 +717,8 @@ ngx_rtmp_exec_run(ngx_rtmp_exec_t *e)
     ngx_pid_t               pid;
     ngx_str_t              *arg_in, a;
     ngx_uint_t              n;
+    sigset_t                set, oset;
+    struct sigaction        sa;
     ngx_rtmp_exec_conf_t   *ec;
 
     ec = e->conf;
@@ -763,8 +765,18 @@ ngx_rtmp_exec_run(ngx_rtmp_exec_t *e)
         }
     }
 
+    /* until it executes the command, the child has nginx's signal handlers:
+     * a signal meant for the command must wait */
+
+    sigfillset(&set);
+    sigprocmask(SIG_BLOCK, &set, &oset);
+
     pid = fork();
 
+    if (pid != 0) {
+        sigprocmask(SIG_SETMASK, &oset, NULL);
+    }
+
     switch (pid) {
 
         case -1:
@@ -788,6 +800,14 @@ ngx_rtmp_exec_run(ngx_rtmp_exec_t *e)
 
             /* child */
 
+            for (n = 1; n < NSIG; n++) {
+                if (sigaction(n, NULL, &sa) == 0 && sa.sa_handler != SIG_IGN) {
+                    signal(n, SIG_DFL);
+                }
+            }
+
+            sigprocmask(SIG_SETMASK, &oset, NULL);
+
 #if (NGX_LINUX)
             if (e->managed) {
                 prctl(PR_SET_PDEATHSIG, e->kill_signal, 0, 0, 0);
-- 
2.43.0


From 833af7e1ff11eaab9f60e854613dc9318960898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 102/112] fix: the index of a live record names the file as it
 is called

---
 modules/nginx-rtmp-module/ngx_live_record.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index ce1e6ff..5c2fd35 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -346,7 +346,7 @@ ngx_live_record_write_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
     ctx->endsize = ctx->ts.file_size - 1;
 
     p = ngx_snprintf(buf, sizeof(buf) - 1,
-            "%V-%D.ts?startsize=%O&endsize=%O&starttime=%M&endtime=%M\n",
+            "%V_%D.ts?startsize=%O&endsize=%O&starttime=%M&endtime=%M\n",
             &s->name, ctx->last_time, ctx->startsize, ctx->endsize,
             ctx->starttime, ctx->endtime);
     *p = 0;
-- 
2.43.0


From b41f60802cdf127945fa560899ff189d99c303ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 103/112] fix: live record reckons in real time, not in time
 since boot

---
 modules/nginx-rtmp-module/ngx_live_record.c | 28 +++++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 5c2fd35..476e7d6 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -181,6 +181,18 @@ ngx_live_record_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
 }
 
 
+static ngx_msec_t
+ngx_live_record_current_msec(void)
+{
+    ngx_time_t                     *tp;
+
+    /* real time, ngx_current_msec may be monotonic */
+    tp = ngx_timeofday();
+
+    return (ngx_msec_t) tp->sec * 1000 + tp->msec;
+}
+
+
 static ssize_t
 ngx_live_record_flush(ngx_rtmp_mpegts_file_t *file)
 {
@@ -755,13 +767,13 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     lracf = ngx_rtmp_get_module_app_conf(s, ngx_live_record_module);
 
     if (ctx->last_time == 0) {
-        ctx->publish_epoch = ngx_current_msec;
+        ctx->publish_epoch = ngx_live_record_current_msec();
         ctx->last_time = ngx_time() - ngx_time() % (lracf->interval / 1000);
         ctx->basetime = ctx->publish_epoch - h->timestamp;
 
-        ctx->begintime = ngx_current_msec;
-        ctx->starttime = ngx_current_msec;
-        ctx->endtime = ngx_current_msec;
+        ctx->begintime = ngx_live_record_current_msec();
+        ctx->starttime = ngx_live_record_current_msec();
+        ctx->endtime = ngx_live_record_current_msec();
 
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
@@ -923,13 +935,13 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     lracf = ngx_rtmp_get_module_app_conf(s, ngx_live_record_module);
 
     if (ctx->last_time == 0) {
-        ctx->publish_epoch = ngx_current_msec;
+        ctx->publish_epoch = ngx_live_record_current_msec();
         ctx->last_time = ngx_time() - ngx_time() % (lracf->interval / 1000);
         ctx->basetime = ctx->publish_epoch - h->timestamp;
 
-        ctx->begintime = ngx_current_msec;
-        ctx->starttime = ngx_current_msec;
-        ctx->endtime = ngx_current_msec;
+        ctx->begintime = ngx_live_record_current_msec();
+        ctx->starttime = ngx_live_record_current_msec();
+        ctx->endtime = ngx_live_record_current_msec();
 
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
-- 
2.43.0


From 312a9a082d26a3d525ef6b1ee2e1b2a706c7cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 104/112] fix: live record stays within its directory

---
 modules/nginx-rtmp-module/ngx_live_record.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 476e7d6..a26f9ba 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1261,6 +1261,12 @@ ngx_live_record_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
         return next_publish(s, v);
     }
 
+    if (ngx_strstr(v->name, "..")) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                      "record: bad stream name: '%s'", v->name);
+        return next_publish(s, v);
+    }
+
     ctx = ngx_pcalloc(s->pool, sizeof(ngx_live_record_ctx_t));
     if (ctx == NULL) {
         return NGX_ERROR;
-- 
2.43.0


From 577bcadd8a00f22b86fc57a27965cacfd15751e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 105/112] fix: no overflow by an audio frame longer than live
 record's buffer

---
 modules/nginx-rtmp-module/ngx_live_record.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index a26f9ba..94db3dd 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -756,6 +756,12 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    if (h->mlen - 2 + 7 > sizeof(buffer)) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                      "record: not enough buffer for audio frame");
+        return NGX_OK;
+    }
+
     if (ctx->open == 2) {
         if (codec_ctx->avc_header == NULL) { // pure audio
             ctx->open = 1;
-- 
2.43.0


From dc7460ae702646f3c5a486fb0a3f93f3b8b2426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 106/112] fix: live record starts a file without frames left
 from another

---
 modules/nginx-rtmp-module/ngx_live_record.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 94db3dd..74a927e 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -319,11 +319,14 @@ ngx_live_record_open_file(ngx_rtmp_session_t *s)
             return NGX_ERROR;
         }
 
-        ctx->ts.wbuf.pos = ctx->ts.wbuf.last = ctx->ts.wbuf.start;
         ctx->ts.wbuf.end = ctx->ts.wbuf.start + lracf->buffer;
 
         ctx->ts.whandle = ngx_live_record_write_buf;
     }
+
+    /* what could not be written belongs to another file */
+    ctx->ts.wbuf.pos = ctx->ts.wbuf.last = ctx->ts.wbuf.start;
+
     ctx->ts.fd = ctx->file.fd;
     ctx->ts.log = s->log;
     ctx->ts.file_size = file_size;
-- 
2.43.0


From 1fe80576e66b01e4ad0eb5e27f6ff7c67f821552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:22 +0000
Subject: [PATCH 107/112] fix: live record loses nothing by a partial write

---
 modules/nginx-rtmp-module/ngx_live_record.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 74a927e..febc725 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -207,7 +207,10 @@ ngx_live_record_flush(ngx_rtmp_mpegts_file_t *file)
     }
 
     file->file_size += rc;
-    file->wbuf.last = file->wbuf.pos;
+
+    /* keep what was not written */
+    file->wbuf.last = ngx_movemem(file->wbuf.pos, file->wbuf.pos + rc,
+                                  file->wbuf.last - file->wbuf.pos - rc);
 
     return rc;
 }
-- 
2.43.0


From 67b1e9ae34b7ebff5f6fc86837b520f326f8414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:30 +0000
Subject: [PATCH 108/112] fix: the callback for a recording ends with its
 publisher, and once

---
 .../nginx-rtmp-module/ngx_rtmp_notify_module.c    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 4f08a07..0f4b519 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -2042,6 +2042,7 @@ ngx_rtmp_notify_record_done(ngx_rtmp_session_t *s)
         ngx_netcall_create(nctx, s->log);
     }
 
+    octx->rctx = NULL;
     ngx_netcall_destroy(nctx);
 
 next:
@@ -2250,6 +2251,9 @@ next:
 static ngx_int_t
 ngx_rtmp_notify_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
 {
+    ngx_rtmp_notify_ctx_t        *octx;
+    ngx_int_t                     rc;
+
     if (s->relay || s->interprocess) {
         goto next;
     }
@@ -2258,7 +2262,16 @@ ngx_rtmp_notify_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_rtmp_notify_pnotify_done(s);
 
 next:
-    return next_close_stream(s, v);
+    rc = next_close_stream(s, v);
+
+    /* on_record without an answer, or refused */
+    octx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_notify_module);
+    if (octx && octx->rctx) {
+        ngx_netcall_destroy(octx->rctx);
+        octx->rctx = NULL;
+    }
+
+    return rc;
 }
 
 static ngx_int_t
-- 
2.43.0


From 01cdde9e784de64a3ec13a924adbebb586026540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:54 +0000
Subject: [PATCH 109/112] fix: nested locations inherit the replacement of a
 broadcast's prefix

---
 modules/nginx-multiport-module/ngx_http_broadcast_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index ffac1a5..107ab67 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -118,7 +118,7 @@ ngx_http_broadcast_merge_conf(ngx_conf_t *cf, void *parent, void *child)
     ngx_conf_merge_str_value(conf->multiport, prev->multiport, "");
     ngx_conf_merge_str_value(conf->uri, prev->uri, "");
     ngx_conf_merge_str_value(conf->prefix, prev->prefix, "");
-    ngx_conf_merge_str_value(conf->prefix, prev->new_prefix, "");
+    ngx_conf_merge_str_value(conf->new_prefix, prev->new_prefix, "");
     ngx_conf_merge_str_value(conf->suffix, prev->suffix, "");
 
     return NGX_CONF_OK;
-- 
2.43.0


From 3c2022bfd90b68c0744e976272a9bd4cbf692de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:54 +0000
Subject: [PATCH 110/112] fix: terminate the broadcast module's list of
 directives

---
 modules/nginx-multiport-module/ngx_http_broadcast_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index 107ab67..49ebfcd 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -57,7 +57,9 @@ static ngx_command_t  ngx_http_broadcast_commands[] = {
       ngx_conf_set_str_slot,
       NGX_HTTP_LOC_CONF_OFFSET,
       offsetof(ngx_http_broadcast_conf_t, suffix),
-      NULL }
+      NULL },
+
+      ngx_null_command
 };
 
 
-- 
2.43.0


From 89d123fb6529449001fd75ff9005c97d99d32817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:40 +0000
Subject: [PATCH 111/112] fix: a broadcast's answer goes on and ends once,
 however often its client makes it wait

---
 .../nginx-multiport-module/ngx_http_broadcast_module.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index 49ebfcd..264d0b6 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -21,6 +21,7 @@ typedef struct {
     ngx_int_t                           workerid;
     ngx_http_request_t                 *sr;
     ngx_flag_t                          has_rewrite;
+    ngx_flag_t                          done;
 } ngx_http_broadcast_ctx_t;
 
 
@@ -282,6 +283,14 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
         ngx_http_set_ctx(r, ctx, ngx_http_broadcast_module);
     }
 
+    /*
+     * called again while a worker's answer, or what has been sent before,
+     * waits for the client
+     */
+    if (r->postponed || ctx->done) {
+        return ngx_http_next_body_filter(r, NULL);
+    }
+
     /* send to all process */
 
     ccf = (ngx_core_conf_t *) ngx_get_conf(ngx_cycle->conf_ctx,
@@ -309,6 +318,7 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
     }
 
     b->last_buf = 1;
+    ctx->done = 1;
 
     cl.buf = b;
     cl.next = NULL;
-- 
2.43.0


From 31ef21d6775fdccf5db825b8fd8aa8a0437f249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:33 +0000
Subject: [PATCH 112/112] fix: what a broadcast does not pass on is consumed,
 so that its request can end

---
 .../ngx_http_broadcast_module.c                     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index 264d0b6..7432e95 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -219,6 +219,16 @@ ngx_http_broadcast_send_subrequest(ngx_http_request_t *r, ngx_int_t pslot)
     return rc;
 }
 
+/* what is not passed on counts as sent, for the filters before wait for it */
+static void
+ngx_http_broadcast_discard(ngx_chain_t *in)
+{
+    for (/* void */; in; in = in->next) {
+        in->buf->pos = in->buf->last;
+        in->buf->file_pos = in->buf->file_last;
+    }
+}
+
 static ngx_int_t
 ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
 {
@@ -243,6 +253,7 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
             ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                     "broadcast subrequest send non 200 response: %i",
                     r->headers_out.status);
+            ngx_http_broadcast_discard(in);
             return NGX_OK;
         }
 
@@ -272,6 +283,8 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
         return ngx_http_next_body_filter(r, in);
     }
 
+    ngx_http_broadcast_discard(in);
+
     ctx = ngx_http_get_module_ctx(r, ngx_http_broadcast_module);
 
     if (ctx == NULL) {
-- 
2.43.0

