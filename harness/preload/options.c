/*
 * UBSan reads its options at its first report, when nginx has already cleared its
 * environment: keep what it was at start.
 */
#include <stdlib.h>
#include <string.h>

static char  options[1024];

__attribute__((constructor)) static void
keep(void)
{
    const char  *v = getenv("UBSAN_OPTIONS");

    if (v) {
        strncpy(options, v, sizeof(options) - 1);
    }
}

const char *
__ubsan_default_options(void)
{
    return options;
}
