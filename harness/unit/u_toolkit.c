/* maps, buffers, pools, timers */
#include "pv_unit.h"
#include "ngx_map.h"
#include "ngx_rbuf.h"
#include "ngx_poold.h"
#include "ngx_timerd.h"
#include "ngx_event_timer_module.h"
#include <stdlib.h>

/* --- maps: nodes are malloc blocks, freed as soon as the map must not know them any more */
typedef struct unode_s  unode_t;

struct unode_s {
    ngx_map_node_t  n;
    ngx_str_t       s;
    long            tag;
};

typedef struct {
    ngx_map_t  m;
    int        kind;
} umap_t;

static umap_t  *umaps[64];

static ngx_rbtree_key_t
coll_hash(intptr_t key)
{
    return (ngx_rbtree_key_t) key & 3;
}

static void
map_new(int argc, char **argv)
{
    umap_t  *m;

    m = calloc(1, sizeof(umap_t));
    m->kind = argv[1][0];

    switch (m->kind) {
    case 's':
        ngx_map_init(&m->m, ngx_map_hash_str, ngx_cmp_str);
        break;
    case 'u':
        ngx_map_init(&m->m, ngx_map_hash_uint, ngx_cmp_uint);
        break;
    case 'i':
        ngx_map_init(&m->m, ngx_map_hash_int, ngx_cmp_int);
        break;
    default:
        ngx_map_init(&m->m, coll_hash, ngx_cmp_uint);
    }

    umaps[atoi(argv[0]) & 63] = m;
    pv_out("ok\n");
}

static intptr_t
map_key(umap_t *m, char *arg, ngx_str_t *s)
{
    if (m->kind == 's') {
        pv_str(s, arg);
        return (intptr_t) s;
    }

    return m->kind == 'i' ? (intptr_t) strtoll(arg, NULL, 10) : (intptr_t) strtoull(arg, NULL, 10);
}

static void
map_free(unode_t *n)
{
    free(n->s.data);
    free(n);
}

static void
map_ins(int argc, char **argv)
{
    umap_t   *m = umaps[atoi(argv[0]) & 63];
    unode_t  *n, *old;
    int       cover = atoi(argv[2]);

    n = calloc(1, sizeof(unode_t));
    n->tag = atol(argv[3]);
    n->n.raw_key = map_key(m, argv[1], &n->s);

    old = (unode_t *) ngx_map_find(&m->m, n->n.raw_key);
    ngx_map_insert(&m->m, &n->n, cover);

    if (old == NULL) {
        pv_out("new\n");

    } else if (cover) {
        map_free(old);
        pv_out("replaced\n");

    } else {
        map_free(n);
        pv_out("kept\n");
    }
}

static void
map_del(int argc, char **argv)
{
    umap_t     *m = umaps[atoi(argv[0]) & 63];
    ngx_str_t   s = ngx_null_string;
    intptr_t    k = map_key(m, argv[1], &s);
    unode_t    *n = (unode_t *) ngx_map_find(&m->m, k);

    ngx_map_delete(&m->m, k);
    if (n) {
        pv_out("%ld\n", n->tag);
        map_free(n);
    } else {
        pv_out("none\n");
    }
    free(s.data);
}

static void
map_find(int argc, char **argv)
{
    umap_t     *m = umaps[atoi(argv[0]) & 63];
    ngx_str_t   s = ngx_null_string;
    unode_t    *n, *x;

    n = (unode_t *) ngx_map_find(&m->m, map_key(m, argv[1], &s));
    if (n) {
        pv_out("%ld", n->tag);
        x = (unode_t *) ngx_map_prev(&n->n);
        pv_out(x ? " %ld" : " none", x ? x->tag : 0);
        x = (unode_t *) ngx_map_next(&n->n);
        pv_out(x ? " %ld\n" : " none\n", x ? x->tag : 0);
    } else {
        pv_out("none\n");
    }
    free(s.data);
}

static void
map_walk(int argc, char **argv)
{
    umap_t          *m = umaps[atoi(argv[0]) & 63];
    ngx_map_node_t  *n;
    int              i, limit = 100000;
    ngx_map_t       *mm = &m->m;

    pv_out("%d", (int) ngx_map_empty(mm));

    for (i = 0; i < 2; i++) {
        pv_out(" /");
        for (n = i ? ngx_map_rbegin(mm) : ngx_map_begin(mm); n && limit--; n = i ? ngx_map_prev(n) : ngx_map_next(n)) {
            pv_out(" %ld", ((unode_t *) n)->tag);
        }
    }
    pv_out("\n");
}

static void
map_destroy(int argc, char **argv)
{
    umap_t          *m = umaps[atoi(argv[0]) & 63];
    ngx_map_node_t  *n;

    while ((n = ngx_map_begin(&m->m)) != NULL) {
        ngx_map_delete(&m->m, n->raw_key);
        map_free((unode_t *) n);
    }
    free(m);
    pv_out("ok\n");
}


/* --- recycled buffers */
static ngx_chain_t  *ubuf[4096];
static size_t        ubufn[4096];
static int           ubuft[4096];

static void
pat(u_char *p, size_t n, unsigned seed)
{
    while (n--) {
        seed = seed * 1103515245 + 12345;
        *p++ = seed >> 16;
    }
}

/* slot size alloc pattern: takes a buffer, and fills it */
static void
rbuf_get(int argc, char **argv)
{
    int           i = atoi(argv[0]) & 4095;
    size_t        n = strtoul(argv[1], NULL, 10);
    ngx_chain_t  *cl;
    ngx_buf_t    *b;

    cl = ngx_get_chainbuf(n, atoi(argv[2]));
    b = cl->buf;
    ubuf[i] = cl;
    ubufn[i] = atoi(argv[2]) ? n : 0;
    ubuft[i] = atoi(argv[3]);
    pv_out("%d %ld %ld %ld %d%d%d%d%d%d%d%d\n", cl->next == NULL, (long) (b->end - b->start), (long) (b->pos - b->start),
           (long) (b->last - b->start), b->memory, b->temporary, b->flush, b->last_buf, b->sync, b->in_file, b->last_in_chain, b->recycled);

    if (ubufn[i]) {
        pat(b->start, n, ubuft[i]);
        b->last = b->end;
        b->pos = b->start + n / 3;
    }
    cl->next = cl;      /* users leave what they like here */
    if (argc > 4) {
        b->flush = b->last_buf = b->last_in_chain = b->sync = b->recycled = b->temporary = 1;
        b->tag = b;
    }
}

static int
rbuf_same(int i)
{
    u_char  *t;
    int      same;

    if (ubufn[i] == 0) {
        return 1;
    }

    t = malloc(ubufn[i]);
    pat(t, ubufn[i], ubuft[i]);
    same = memcmp(t, ubuf[i]->buf->start, ubufn[i]) == 0;
    free(t);

    return same;
}

static void
rbuf_put(int argc, char **argv)
{
    int  i = atoi(argv[0]) & 4095;

    pv_out("%s\n", rbuf_same(i) ? "same" : "changed");
    ngx_put_chainbuf(ubuf[i]);
    if (argc == 1) {
        ubuf[i] = NULL;
    }
}

/* several at once */
static void
rbuf_puts(int argc, char **argv)
{
    int           i, k;
    ngx_chain_t  *head = NULL;

    for (k = 0; k < argc; k++) {
        i = atoi(argv[k]) & 4095;
        if (!rbuf_same(i)) {
            pv_out("changed\n");
            return;
        }
        ubuf[i]->next = head;
        head = ubuf[i];
        ubuf[i] = NULL;
    }
    ngx_put_chainbufs(head);
    pv_out("same\n");
}

static void
rbuf_overlap(int argc, char **argv)
{
    int  i, j, bad = 0, n = 0;

    for (i = 0; i < 4096; i++) {
        if (ubuf[i] == NULL) {
            continue;
        }
        n++;
        bad += !rbuf_same(i);
        for (j = 0; j < i; j++) {
            if (ubuf[j] && ubuf[j] == ubuf[i]) {
                bad++;
            }
        }
    }
    pv_out("%d %d\n", n, bad);
}

static void
out_chain(ngx_chain_t *cl)
{
    char  *p;

    for (; cl; cl = cl->next) {
        for (p = (char *) cl->buf->pos; p < (char *) cl->buf->last; p++) {
            pv_out("%c", *p == '\n' ? '|' : *p);
        }
    }
    pv_out("\n");
}

static void
rbuf_state(int argc, char **argv)
{
    out_chain(ngx_rbuf_state(pv_request, argc ? 1 : 0));
}


/* --- pools */
static ngx_pool_t  *upool[1024];

static void
pool_new(int argc, char **argv)
{
    int  i = atoi(argv[0]) & 1023;

    upool[i] = NGX_CREATE_POOL(strtoul(argv[1], NULL, 10), ngx_cycle->log);
    pv_out("%s\n", upool[i] ? "ok" : "null");
}

static void
pool_use(int argc, char **argv)
{
    u_char  *p;
    size_t   n = strtoul(argv[1], NULL, 10);

    p = ngx_palloc(upool[atoi(argv[0]) & 1023], n);
    if (p) {
        memset(p, 0x5a, n);
    }
    pv_out("%s\n", p ? "ok" : "null");
}

static void
pool_del(int argc, char **argv)
{
    NGX_DESTROY_POOL(upool[atoi(argv[0]) & 1023]);
    pv_out("ok\n");
}

static void
pool_state(int argc, char **argv)
{
    out_chain(ngx_poold_state(pv_request, argc ? 1 : 0));
}


/* --- timers with a number */
typedef struct {
    long   tag;
    char  *script;
} utimer_t;

static void
timer_fired(void *data)
{
    utimer_t  *t = data;

    pv_event("fire %ld %lu\n", t->tag, (unsigned long) ngx_current_msec);
    pv_script(t->script);
    pv_event("end\n");
    free(t->script);
    free(t);
}

static void
timer_add(int argc, char **argv)
{
    utimer_t   *t;
    ngx_int_t   id;

    t = malloc(sizeof(utimer_t));
    t->tag = atol(argv[1]);
    t->script = strdup(argv[2]);

    ngx_time_update();
    id = ngx_event_timer_add_timer(strtoul(argv[0], NULL, 10), timer_fired, t);
    pv_event("added %ld %ld %lu %s\n", t->tag, (long) id, (unsigned long) ngx_current_msec, argv[0]);
    if (id == NGX_ERROR) {
        free(t->script);
        free(t);
    }
}

static void
timer_del(int argc, char **argv)
{
    ngx_event_timer_del_timer(strtoul(argv[0], NULL, 10));
    pv_event("deleted %s\n", argv[0]);
}

static void
timer_state(int argc, char **argv)
{
    out_chain(ngx_event_timer_state(pv_request));
}


/* --- timers with an owner */
typedef struct {
    ngx_event_t  ev;
    ngx_uint_t   fp;
    long         tag;
    char        *script;
} uowned_t;

static uowned_t  *uowned[256];

static void
owned_fired(ngx_event_t *ev)
{
    uowned_t  *o = ev->data;
    char      *script = o->script;

    pv_event("fire %ld %lu %d %d\n", o->tag, (unsigned long) ngx_current_msec, ev->timer_set, ev->timedout);
    o->script = strdup("-");
    pv_script(script);
    pv_event("end\n");
    free(script);
}

static void
owned_new(int argc, char **argv)
{
    int        i = atoi(argv[0]) & 255;
    uowned_t  *o;

    o = calloc(1, sizeof(uowned_t));
    o->ev.data = o;
    o->ev.handler = owned_fired;
    o->ev.log = ngx_cycle->log;
    o->fp = ngx_timerd_footprint();
    o->tag = atol(argv[1]);
    o->script = strdup("-");
    uowned[i] = o;
    pv_out("%lu\n", (unsigned long) o->fp);
}

/* slot ms script */
static void
owned_add(int argc, char **argv)
{
    uowned_t  *o = uowned[atoi(argv[0]) & 255];

    free(o->script);
    o->script = strdup(argv[2]);
    ngx_time_update();
    NGX_ADD_TIMER(&o->ev, strtoul(argv[1], NULL, 10), offsetof(uowned_t, fp));
    pv_event("added %ld %d %lu %s\n", o->tag, o->ev.timer_set, (unsigned long) ngx_current_msec, argv[1]);
}

/* slot [wrong]: as its owner, or as another */
static void
owned_del(int argc, char **argv)
{
    uowned_t  *o = uowned[atoi(argv[0]) & 255];

    NGX_DEL_TIMER(&o->ev, o->fp + (argc > 1 ? 12345 : 0));
    pv_event("deleted %ld %d %d\n", o->tag, o->ev.timer_set, argc > 1);
}

static void
owned_free(int argc, char **argv)
{
    int  i = atoi(argv[0]) & 255;

    free(uowned[i]->script);
    free(uowned[i]);
    uowned[i] = NULL;
    pv_out("freed\n");
}

static void
owned_state(int argc, char **argv)
{
    out_chain(ngx_timerd_state(pv_request, argc ? 1 : 0));
}

pv_cmd_t  pv_toolkit_cmds[] = {
    { "map.new", 2, map_new },
    { "map.ins", 4, map_ins },
    { "map.del", 2, map_del },
    { "map.find", 2, map_find },
    { "map.walk", 1, map_walk },
    { "map.destroy", 1, map_destroy },
    { "rbuf.get", 4, rbuf_get },
    { "rbuf.put", 1, rbuf_put },
    { "rbuf.puts", 1, rbuf_puts },
    { "rbuf.overlap", 0, rbuf_overlap },
    { "rbuf.state", 0, rbuf_state },
    { "pool.new", 2, pool_new },
    { "pool.use", 2, pool_use },
    { "pool.del", 1, pool_del },
    { "pool.state", 0, pool_state },
    { "timer.add", 3, timer_add },
    { "timer.del", 1, timer_del },
    { "timer.state", 0, timer_state },
    { "owned.new", 2, owned_new },
    { "owned.add", 3, owned_add },
    { "owned.del", 1, owned_del },
    { "owned.free", 1, owned_free },
    { "owned.state", 0, owned_state },
    { NULL, 0, NULL }
};
