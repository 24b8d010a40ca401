/* read_strn() and read_type(): the next bytes of the file, or an error; any size */
#include "conf_env.h"
#include <pwd.h>
#include "fcron.h"
ssize_t fv_read(int fd, void *buf, size_t n);
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
#define read fv_read
#define calloc fv_calloc
#define free fv_free
#include "conf.c"
#undef read
#undef calloc
#undef free
#include "stubs_log.h"
#include "fcron_globals.h"
char *fcronconf, *fcrontabs;
#define FV_NO_LISTS
#include "conf_stubs.h"
void *alloc_safe(size_t n, const char *w) { (void)n; (void)w; FV_STOP(); return NULL; }
char *strdup2(const char *s) { (void)s; FV_STOP(); return NULL; }

static char *g_mem;
static size_t g_alloc, g_asked;
static long g_ret;
static char *g_to;
static int g_freed, g_reads;
static unsigned char g_file[4];
void *
fv_calloc(size_t n, size_t s)
{
    g_alloc = n * s;
    ENSURE(g_alloc >= 1 && g_alloc <= 32768, "strn: no more than a string of the format");
    if (nd_bool())
        return NULL;
    g_mem = malloc(g_alloc);
    REQUIRE(g_mem != NULL);
    g_mem[g_alloc - 1] = 0;     /* calloc clears; the byte that matters */
    return g_mem;
}
void fv_free(void *p) { if (p != NULL) g_freed++; }
ssize_t
fv_read(int fd, void *buf, size_t n)
{
    g_reads++;
    ENSURE(fd == 5, "strn: from the file");
    g_ret = nd_range(-1, 32767);
    REQUIRE(g_ret <= (long)n);
#if STRN
    g_to = buf;
    g_asked = n;
    if (g_ret > 0)
        g_mem[g_ret - 1] = 'x';         /* the last byte that is read */
#else
    ENSURE(n == 2, "type: two bytes each");
    if (g_ret == 2)
        memcpy(buf, g_file + 2 * (g_reads - 1), 2);
#endif
    return g_ret;
}
void
harness(void)
{
    short size = (short)nd_range(-32768, 32767), type, sz;
    char *s = (char *)1;
    int rc, i;
    g_freed = g_reads = 0;
    g_alloc = 0;
#if STRN
    rc = read_strn(5, &s, size);
    COVER(rc == OK && size == 32767, "longest string");
    ENSURE(IMPLIES(size < 0, rc != OK && g_reads == 0), "strn: no string of negative size");
    ENSURE(IMPLIES(rc == OK, s == g_mem && g_reads == 1 && g_to == s && g_asked == (size_t)size && g_ret == size
           && g_alloc >= (size_t)size + 1 && s[size] == 0 && !g_freed), "strn: exactly the bytes of the file, terminated");
    ENSURE(IMPLIES(rc != OK, s == NULL && g_freed == (g_reads > 0)), "strn: nothing is left after an error");
    ENSURE(IMPLIES(g_reads && g_ret < size, rc != OK), "strn: a short read is an error");
#else
    for (i = 0; i < 4; i++)
        g_file[i] = nd_u8();
    rc = read_type(5, &type, &sz);
    COVER(rc == OK, "type");
    ENSURE(IMPLIES(g_ret != 2, rc != OK), "type: a short read is an error");
    ENSURE(IMPLIES(rc == OK, g_reads == 2 && (unsigned short)type == g_file[0] + 256 * g_file[1]
           && (unsigned short)sz == g_file[2] + 256 * g_file[3]), "type: type and size");
#endif
}
