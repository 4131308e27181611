/* addresses, URLs, files, resolvers */
#include "pv_unit.h"
#include "ngx_toolkit_misc.h"
#include "ngx_event_resolver.h"
#include "ngx_dynamic_resolver.h"
#include "ngx_multiport.h"
#include <stdlib.h>

static void
out_str(ngx_str_t *s)
{
    pv_out(" ");
    pv_hex(s->data, s->len);
}

static void
misc_url(int argc, char **argv)
{
    ngx_request_url_t  u;
    ngx_str_t          s, s2;
    ngx_int_t          rc;

    pv_str(&s, argv[0]);
    ngx_memzero(&u, sizeof(u));
    rc = ngx_parse_request_url(&u, &s);

    pv_out("%ld", (long) rc);
    if (rc == NGX_OK) {
        out_str(&u.scheme);
        out_str(&u.user);
        out_str(&u.host);
        out_str(&u.port);
        out_str(&u.path);
        out_str(&u.args);
        out_str(&u.fragment);
        out_str(&u.host_with_port);
        out_str(&u.uri_with_args);
        s2 = u.port;
        pv_out(" %d", ngx_request_port(&u.scheme, &s2));
    }
    pv_out("\n");
    free(s.data);
}

static void
misc_port(int argc, char **argv)
{
    ngx_str_t  a, b;

    pv_str(&a, argv[0]);
    pv_str(&b, argv[1]);
    pv_out("%d\n", ngx_request_port(&a, &b));
    free(a.data);
    free(b.data);
}

static void
misc_pton(int argc, char **argv)
{
    ngx_str_t        s;
    socklen_t        n;
    struct sockaddr  *sa;
    u_char           text[NGX_SOCKADDR_STRLEN];
    size_t           len;

    pv_str(&s, argv[0]);
    sa = calloc(1, sizeof(ngx_sockaddr_t));
    n = ngx_sock_pton(sa, s.data, s.len);
    pv_out("%d", (int) n);
    if (n) {
        pv_out(" %d ", sa->sa_family);
        len = ngx_sock_ntop(sa, n, text, sizeof(text), 1);
        pv_hex(text, len);
    }
    pv_out("\n");
    free(sa);
    free(s.data);
}

static void
misc_md5(int argc, char **argv)
{
    ngx_fd_t  fd;
    u_char   *key;

    fd = ngx_open_file(argv[0], NGX_FILE_RDONLY, NGX_FILE_OPEN, 0);
    key = calloc(1, NGX_MD5KEY_LEN);
    pv_out("%ld ", (long) ngx_md5_file(fd, key));
    pv_out("%.32s\n", key);
    free(key);
    if (fd != NGX_INVALID_FILE) {
        ngx_close_file(fd);
    }
}

static void
misc_copy(int argc, char **argv)
{
    ngx_str_t    s, d = ngx_null_string;
    ngx_pool_t  *pool;
    ngx_int_t    rc;

    pv_str(&s, argv[0]);
    pool = ngx_create_pool(1024, ngx_cycle->log);
    rc = ngx_copy_str(pool, &d, &s);
    ngx_memset(s.data, 'X', s.len);
    free(s.data);
    pv_out("%ld ", (long) rc);
    pv_hex(d.data, d.len);
    pv_out("\n");
    ngx_destroy_pool(pool);
}

static void
misc_mport(int argc, char **argv)
{
    ngx_str_t    s, d = ngx_null_string;
    ngx_pool_t  *pool;
    ngx_int_t    rc;

    pv_str(&s, argv[0]);
    pool = ngx_create_pool(1024, ngx_cycle->log);
    rc = ngx_multiport_get_port(pool, &d, &s, atoi(argv[1]));
    pv_out("%ld ", (long) rc);
    pv_hex(d.data, rc == NGX_OK ? d.len : 0);
    pv_out("\n");
    ngx_destroy_pool(pool);
    free(s.data);
}

static void
out_addr(struct sockaddr *sa, socklen_t n)
{
    u_char            text[NGX_SOCKADDR_STRLEN];
    struct sockaddr  *copy;
    size_t            len;

    copy = malloc(n ? n : 1);
    memcpy(copy, sa, n);        /* reads as much as it says it is */
    len = ngx_sock_ntop(copy, n, text, sizeof(text), 0);
    pv_event(" %d:%.*s", copy->sa_family, (int) len, text);
    free(copy);
}

/* --- resolvers */
typedef struct {
    long        tag;
    char       *script;
    ngx_str_t   domain;
} ures_t;

static ures_t *
res_new(char **argv)
{
    ures_t  *u;

    u = malloc(sizeof(ures_t));
    pv_str(&u->domain, argv[0]);
    u->tag = atol(argv[1]);
    u->script = strdup(argv[2]);

    return u;
}

static void
res_done(ures_t *u)
{
    pv_event("\n");
    pv_script(u->script);
    free(u->script);
    free(u->domain.data);
    free(u);
}

static void
eres_result(void *data, ngx_resolver_addr_t *addrs, ngx_uint_t n)
{
    ures_t      *u = data;
    ngx_uint_t   i;

    pv_event("resolved %ld %lu", u->tag, (unsigned long) n);
    for (i = 0; i < n; i++) {
        out_addr(addrs[i].sockaddr, addrs[i].socklen);
    }
    res_done(u);
}

static void
eres_start(int argc, char **argv)
{
    ures_t  *u = res_new(argv);
    long     tag = u->tag;

    pv_event("started %ld\n", tag);
    ngx_event_resolver_start_resolver(&u->domain, eres_result, u);
    pv_out("ok %ld\n", tag);
}

static void
dres_result(void *data, struct sockaddr *sa, socklen_t n)
{
    ures_t  *u = data;

    pv_event("resolved %ld %d", u->tag, n && sa ? 1 : 0);
    if (sa) {
        out_addr(sa, n);
    }
    res_done(u);
}

static void
dres_start(int argc, char **argv)
{
    ures_t  *u = res_new(argv);
    long     tag = u->tag;

    pv_event("started %ld\n", tag);
    ngx_dynamic_resolver_start_resolver(&u->domain, dres_result, u);
    pv_out("ok %ld\n", tag);
}

static void
dres_add(int argc, char **argv)
{
    ngx_str_t  s;

    pv_str(&s, argv[0]);
    ngx_dynamic_resolver_add_domain(&s, (ngx_cycle_t *) ngx_cycle);
    ngx_memset(s.data, 'X', s.len);
    free(s.data);
    pv_out("ok\n");
}

static void
dres_del(int argc, char **argv)
{
    ngx_str_t  s;

    pv_str(&s, argv[0]);
    ngx_dynamic_resolver_del_domain(&s);
    free(s.data);
    pv_out("ok\n");
}

static void
dres_get(int argc, char **argv)
{
    ngx_str_t         s;
    ngx_sockaddr_t   *sa;
    socklen_t         n;
    u_char            text[NGX_SOCKADDR_STRLEN];
    size_t            len;

    pv_str(&s, argv[0]);
    sa = calloc(1, sizeof(ngx_sockaddr_t));
    n = ngx_dynamic_resolver_gethostbyname(&s, &sa->sockaddr);
    if (n) {
        len = ngx_sock_ntop(&sa->sockaddr, n, text, sizeof(text), 0);
        pv_out("%d:%.*s\n", sa->sockaddr.sa_family, (int) len, text);
    } else {
        pv_out("none\n");
    }
    free(sa);
    free(s.data);
}

static void
out_chain(ngx_chain_t *cl)
{
    u_char  *p;

    for (; cl; cl = cl->next) {
        for (p = cl->buf->pos; p < cl->buf->last; p++) {
            pv_out("%c", *p == '\n' ? '|' : *p);
        }
    }
    pv_out("\n");
}

static void
res_state(int argc, char **argv)
{
    out_chain(ngx_event_resolver_state(pv_request));
    out_chain(ngx_dynamic_resolver_state(pv_request));
}

pv_cmd_t  pv_net_cmds[] = {
    { "misc.url", 1, misc_url },
    { "misc.port", 2, misc_port },
    { "misc.pton", 1, misc_pton },
    { "misc.md5", 1, misc_md5 },
    { "misc.copy", 1, misc_copy },
    { "misc.mport", 2, misc_mport },
    { "eres.start", 3, eres_start },
    { "dres.start", 3, dres_start },
    { "dres.add", 1, dres_add },
    { "dres.del", 1, dres_del },
    { "dres.get", 1, dres_get },
    { "res.state", 0, res_state },
    { NULL, 0, NULL }
};
