/* What the modules count: the same texts their state functions make. */
#include "pv_unit.h"
#include "ngx_rbuf.h"
#include "ngx_poold.h"
#include "ngx_timerd.h"
#include "ngx_event_timer_module.h"
#include "ngx_event_resolver.h"
#include "ngx_dynamic_resolver.h"
#include "ngx_stream_zone_module.h"
#include "ngx_client.h"
#include "ngx_live.h"
#include "ngx_live_relay.h"
#include "ngx_rtmp.h"

extern ngx_chain_t *ngx_live_relay_static_state(ngx_http_request_t *r);

static void
out(ngx_chain_t *cl)
{
    u_char  *p;

    for (; cl; cl = cl->next) {
        for (p = cl->buf->pos; p < cl->buf->last; p++) {
            pv_out("%c", *p == '\n' ? ';' : *p);
        }
    }
}

static void
sys_state(int argc, char **argv)
{
    out(ngx_live_sys_state(pv_request));
    out(ngx_live_relay_static_state(pv_request));
    out(ngx_rtmp_shared_state(pv_request));
    out(ngx_rbuf_state(pv_request, 0));
    out(ngx_stream_zone_state(pv_request, 0));
    out(ngx_event_timer_state(pv_request));
    out(ngx_event_resolver_state(pv_request));
    out(ngx_client_state(pv_request, 0));
    out(ngx_poold_state(pv_request, 0));
    pv_out("connections free: %lu;\n", (unsigned long) ngx_cycle->free_connection_n);
}

static void
timers_walk(ngx_rbtree_node_t *n, ngx_rbtree_node_t *s, unsigned *count)
{
    if (n != s) {
        (*count)++;
        timers_walk(n->left, s, count);
        timers_walk(n->right, s, count);
    }
}

static void
sys_timers(int argc, char **argv)
{
    unsigned  n = 0;

    timers_walk(ngx_event_timer_rbtree.root, ngx_event_timer_rbtree.sentinel, &n);
    pv_out("timers: %u;\n", n);
}

/* Heap in use, as the sanitizer counts it. */
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

static void
sys_heap(int argc, char **argv)
{
    pv_out("heap: %lu;\n", (unsigned long)
        (&__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0));
}

static void
sys_fds(int argc, char **argv)
{
    struct stat  st;
    int          fd, n = 0;

    for (fd = 0; fd < 65536; fd++) {
        n += fstat(fd, &st) == 0;
    }
    pv_out("fds: %d;\n", n);
}

pv_cmd_t  pv_state_cmds[] = {
    { "sys.heap", 0, sys_heap },
    { "sys.fds", 0, sys_fds },
    { "sys.state", 0, sys_state },
    { "sys.timers", 0, sys_timers },
    { NULL, 0, NULL }
};
