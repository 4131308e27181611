#include "pv_unit.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>

typedef struct {
    char    *p;
    size_t   n, cap;
} pv_buf_t;

static pv_buf_t  pv_answer, pv_log;
static int       pv_in_event;
ngx_http_request_t  *pv_request;

static void
pv_vadd(pv_buf_t *b, const char *fmt, va_list ap)
{
    va_list  cp;
    int      n;

    va_copy(cp, ap);
    n = vsnprintf(NULL, 0, fmt, cp);
    va_end(cp);

    if (b->n + n + 1 > b->cap) {
        b->cap = (b->n + n + 1) * 2;
        b->p = realloc(b->p, b->cap);
    }

    vsnprintf(b->p + b->n, n + 1, fmt, ap);
    b->n += n;
}

void
pv_out(const char *fmt, ...)
{
    va_list  ap;

    va_start(ap, fmt);
    pv_vadd(pv_in_event ? &pv_log : &pv_answer, fmt, ap);
    va_end(ap);
}

void
pv_event(const char *fmt, ...)
{
    va_list  ap;

    va_start(ap, fmt);
    pv_vadd(&pv_log, fmt, ap);
    va_end(ap);
}

void
pv_hex(const void *p, size_t n)
{
    const unsigned char  *c = p;

    if (n == 0) {
        pv_out("-");
    }

    while (n--) {
        pv_out("%02x", *c++);
    }
}

void
pv_event_hex(const void *p, size_t n)
{
    int  save = pv_in_event;

    pv_in_event = 1;
    pv_hex(p, n);
    pv_in_event = save;
}

static int
pv_nibble(int c)
{
    return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}

u_char *
pv_bytes(const char *hex, size_t *len)
{
    size_t   n, i;
    u_char  *p;

    n = strcmp(hex, "-") == 0 ? 0 : strlen(hex) / 2;
    p = malloc(n ? n : 1);

    for (i = 0; i < n; i++) {
        p[i] = pv_nibble(hex[2 * i]) * 16 + pv_nibble(hex[2 * i + 1]);
    }

    *len = n;

    return p;
}

void
pv_str(ngx_str_t *s, const char *hex)
{
    s->data = pv_bytes(hex, &s->len);
}

static void
pv_line(char *line)
{
    char      *argv[PV_ARGS], *save, *t;
    int        argc = 0;
    pv_cmd_t  *c, *sets[] = { pv_toolkit_cmds, pv_net_cmds, pv_state_cmds, NULL };
    unsigned   i;

    for (t = strtok_r(line, " ", &save); t && argc < PV_ARGS; t = strtok_r(NULL, " ", &save)) {
        argv[argc++] = t;
    }

    if (argc == 0) {
        return;
    }

    if (strcmp(argv[0], "log") == 0) {
        if (pv_log.n) {
            pv_out("%.*s", (int) pv_log.n, pv_log.p);
        }
        pv_log.n = 0;
        return;
    }

    if (strcmp(argv[0], "now") == 0) {
        pv_out("%lu\n", (unsigned long) ngx_current_msec);
        return;
    }

    for (i = 0; sets[i]; i++) {
        for (c = sets[i]; c->name; c++) {
            if (strcmp(c->name, argv[0]) == 0) {
                if (argc - 1 < c->argc) {
                    pv_out("bad %s\n", argv[0]);
                    return;
                }
                c->fn(argc - 1, argv + 1);
                return;
            }
        }
    }

    pv_out("unknown %s\n", argv[0]);
}

static void
pv_lines(char *text)
{
    char  *save, *l;

    for (l = strtok_r(text, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
        pv_line(l);
    }
}

void
pv_script(const char *hex)
{
    size_t   n;
    u_char  *p;
    char    *text;
    int      save = pv_in_event;

    if (strcmp(hex, "-") == 0) {
        return;
    }

    p = pv_bytes(hex, &n);
    text = strndup((char *) p, n);
    free(p);

    pv_in_event = 1;
    pv_lines(text);
    pv_in_event = save;

    free(text);
}

static void
pv_unit_body(ngx_http_request_t *r)
{
    ngx_chain_t  *in, out;
    ngx_buf_t    *b;
    size_t        n = 0;
    char         *text, *p;

    for (in = r->request_body ? r->request_body->bufs : NULL; in; in = in->next) {
        n += in->buf->last - in->buf->pos;
    }

    p = text = malloc(n + 1);

    for (in = r->request_body ? r->request_body->bufs : NULL; in; in = in->next) {
        p = (char *) ngx_cpymem(p, in->buf->pos, in->buf->last - in->buf->pos);
    }
    *p = 0;

    pv_answer.n = 0;
    pv_request = r;
    pv_lines(text);
    pv_request = NULL;
    free(text);

    r->headers_out.status = NGX_HTTP_OK;
    r->headers_out.content_length_n = pv_answer.n;
    if (ngx_http_send_header(r) == NGX_ERROR || pv_answer.n == 0) {
        ngx_http_finalize_request(r, ngx_http_send_special(r, NGX_HTTP_LAST));
        return;
    }

    b = ngx_calloc_buf(r->pool);
    b->start = b->pos = ngx_palloc(r->pool, pv_answer.n);
    ngx_memcpy(b->pos, pv_answer.p, pv_answer.n);
    b->end = b->last = b->pos + pv_answer.n;
    b->memory = 1;
    b->last_buf = 1;
    out.buf = b;
    out.next = NULL;

    ngx_http_finalize_request(r, ngx_http_output_filter(r, &out));
}

static ngx_int_t
pv_unit_handler(ngx_http_request_t *r)
{
    ngx_int_t  rc;

    r->request_body_in_single_buf = 1;
    rc = ngx_http_read_client_request_body(r, pv_unit_body);

    return rc >= NGX_HTTP_SPECIAL_RESPONSE ? rc : NGX_DONE;
}

static char *
pv_unit(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    ngx_http_core_loc_conf_t  *clcf;

    clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);
    clcf->handler = pv_unit_handler;

    return NGX_CONF_OK;
}

static ngx_command_t  pv_unit_commands[] = {

    { ngx_string("pv_unit"),
      NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS,
      pv_unit,
      0,
      0,
      NULL },

      ngx_null_command
};

static ngx_http_module_t  pv_unit_ctx = { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL };

ngx_module_t  ngx_http_pv_unit_module = {
    NGX_MODULE_V1,
    &pv_unit_ctx,
    pv_unit_commands,
    NGX_HTTP_MODULE,
    NULL, NULL, NULL, NULL, NULL, NULL, NULL,
    NGX_MODULE_V1_PADDING
};
