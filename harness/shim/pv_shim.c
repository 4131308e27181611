/*
 * Allocation shim of the monitors.
 *
 * nginx pools carve many objects out of one malloc block, and the modules recycle
 * their buffers on free lists: both hide overflows and use-after-free from
 * AddressSanitizer.  Linked into the sanitized module with ld --wrap, these functions
 * give every pool allocation a malloc block of its own (still owned, and freed, by
 * the pool), and poison a recycled buffer between put and get.
 */
#include <ngx_config.h>
#include <ngx_core.h>
#include <stdio.h>
#include <stdlib.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define PV_POISON(p, n)    ASAN_POISON_MEMORY_REGION((p), (n))
#define PV_UNPOISON(p, n)  ASAN_UNPOISON_MEMORY_REGION((p), (n))
#else
#define PV_POISON(p, n)
#define PV_UNPOISON(p, n)
#endif

void *__real_ngx_palloc(ngx_pool_t *pool, size_t size);
ngx_chain_t *__real_ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc,
    char *file, int line);
void __real_ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line);

void *__wrap_ngx_palloc(ngx_pool_t *pool, size_t size);
void *__wrap_ngx_pnalloc(ngx_pool_t *pool, size_t size);
void *__wrap_ngx_pcalloc(ngx_pool_t *pool, size_t size);
ngx_buf_t *__wrap_ngx_create_temp_buf(ngx_pool_t *pool, size_t size);
ngx_chain_t *__wrap_ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc,
    char *file, int line);
void __wrap_ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line);


static void *
pv_alloc(ngx_pool_t *pool, size_t size, int zero)
{
    ngx_pool_large_t  *large;
    void              *p;

    large = __real_ngx_palloc(pool, sizeof(ngx_pool_large_t));
    if (large == NULL) {
        return NULL;
    }

    p = zero ? calloc(1, size) : malloc(size);
    if (p == NULL) {
        return NULL;
    }

    large->alloc = p;
    large->next = pool->large;
    pool->large = large;

    return p;
}


void *
__wrap_ngx_palloc(ngx_pool_t *pool, size_t size)
{
    return pv_alloc(pool, size, 0);
}


void *
__wrap_ngx_pnalloc(ngx_pool_t *pool, size_t size)
{
    return pv_alloc(pool, size, 0);
}


void *
__wrap_ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    return pv_alloc(pool, size, 1);
}


ngx_buf_t *
__wrap_ngx_create_temp_buf(ngx_pool_t *pool, size_t size)
{
    ngx_buf_t  *b;

    b = pv_alloc(pool, sizeof(ngx_buf_t), 1);
    if (b == NULL) {
        return NULL;
    }

    b->start = pv_alloc(pool, size, 0);
    if (b->start == NULL) {
        return NULL;
    }

    b->pos = b->start;
    b->last = b->start;
    b->end = b->last + size;
    b->temporary = 1;

    return b;
}



/* the buffers handed out and not yet given back: chain link -> its own memory */

typedef struct pv_cb_s  pv_cb_t;

struct pv_cb_s {
    ngx_chain_t  *cl;
    u_char       *start;
    size_t        size;
    pv_cb_t      *next;
};

#define PV_BUCKETS  4096

static pv_cb_t  *pv_using[PV_BUCKETS];

#define pv_bucket(cl)  (((uintptr_t) (cl) >> 4) % PV_BUCKETS)


ngx_chain_t *
__wrap_ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc, char *file, int line)
{
    ngx_chain_t  *cl;
    pv_cb_t      *cb, **b;

    cl = __real_ngx_get_chainbuf_debug(size, alloc, file, line);
    if (cl == NULL) {
        return NULL;
    }

    b = &pv_using[pv_bucket(cl)];
    for (cb = *b; cb; cb = cb->next) {
        if (cb->cl == cl) {
            fprintf(stderr, "PV-MONITOR: a buffer in use was handed out again at "
                            "%s:%d\n", file, line);
            abort();
        }
    }

    cb = malloc(sizeof(pv_cb_t));
    if (cb == NULL) {
        return NULL;
    }

    cb->cl = cl;
    cb->start = alloc ? cl->buf->start : NULL;
    cb->size = alloc ? size : 0;
    cb->next = *b;
    *b = cb;

    if (cb->size) {
        PV_UNPOISON(cb->start, cb->size);
    }

    return cl;
}


void
__wrap_ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
{
    pv_cb_t  *cb, **b;

    if (cl == NULL) {
        __real_ngx_put_chainbuf_debug(cl, file, line);
        return;
    }

    for (b = &pv_using[pv_bucket(cl)]; *b; b = &(*b)->next) {
        if ((*b)->cl == cl) {
            break;
        }
    }

    cb = *b;
    if (cb == NULL) {
        fprintf(stderr, "PV-MONITOR: a buffer was given back twice at %s:%d\n",
                file, line);
        abort();
    }

    *b = cb->next;

    __real_ngx_put_chainbuf_debug(cl, file, line);

    if (cb->size) {
        PV_POISON(cb->start, cb->size);
    }

    free(cb);
}
