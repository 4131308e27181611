#ifndef PV_UNIT_H
#define PV_UNIT_H

#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_event.h>
#include <ngx_http.h>

#define PV_ARGS  24

typedef struct {
    const char  *name;
    int          argc;          /* at least so many arguments */
    void       (*fn)(int argc, char **argv);
} pv_cmd_t;

extern pv_cmd_t  pv_toolkit_cmds[], pv_net_cmds[], pv_state_cmds[];
extern ngx_http_request_t  *pv_request;     /* the request being served, or NULL */

/* what a command answers; in a callback, what the log of events is told */
void pv_out(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void pv_event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void pv_hex(const void *p, size_t n);       /* appended to the answer */
void pv_event_hex(const void *p, size_t n);

/* a malloc block with exactly the bytes that the hex text says ("-" is none), NULL for "" */
u_char *pv_bytes(const char *hex, size_t *len);
void pv_str(ngx_str_t *s, const char *hex);
void pv_script(const char *hex);            /* runs commands from a callback */

#endif
