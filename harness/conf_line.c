/* add_line_to_file(): no line gets into the database with more rights than the owner of
 * its file, or with a mail address that could be taken for an option or a command */
#include "conf_env.h"
#include <pwd.h>
#include "fcron.h"
void fv_free(void *p);
#define free fv_free
#define strcspn fv_strcspn
size_t fv_strcspn(const char *s, const char *r);
#include "conf.c"
#undef free
#include "stubs_log.h"
#include "fcron_globals.h"
char *fcronconf, *fcrontabs;
#define FV_NO_LISTS
#define FV_OWN_set_next_exe_startup
#include "conf_stubs.h"
void *alloc_safe(size_t n, const char *w) { (void)n; (void)w; FV_STOP(); return NULL; }

#define SL 5
static cl_t C, OLD;
static cf_t F;
static char g_runas[SL + 1], g_owner[SL + 1], g_user[SL + 1], g_mt[SL + 1], g_mf[SL + 1], g_sh[2];
static char g_dup[4][SL + 1];
static char *g_dup_of[4];
static int g_ndup, g_next, g_ctx, g_next_ok;
static long g_sleep;
char *
strdup2(const char *s)
{
    int i, k = g_ndup;
    if (s == NULL)
        return NULL;
    ENSURE(k < 4, "line: copies few strings");
    g_ndup++;
    g_dup_of[k] = (char *)s;
    for (i = 0; i < SL && s[i]; i++)
        g_dup[k][i] = s[i];
    g_dup[k][i] = 0;
    return g_dup[k];
}
void fv_free(void *p) { (void)p; }
/* contract of set_next_exe_startup (startup.c): needs a line of a file, with a period */
void
set_next_exe_startup(cl_t *c, const int ctx, const time_t sl)
{
    g_next++;
    g_ctx = ctx;
    g_sleep = sl;
    g_next_ok = c == &C && c->cl_file == &F && (is_td(c->cl_option) || c->cl_timefreq >= 1);
}
size_t
fv_strcspn(const char *s, const char *r)
{
    int i, j;
    for (i = 0; i < SL && s[i]; i++)
        for (j = 0; j < 8 && r[j]; j++)
            if (s[i] == r[j])
                return i;
    return i;
}
static void
any(char *s)
{
    int i;
    for (i = 0; i < SL; i++)
        s[i] = (char)nd_range(-128, 127);
    s[SL] = 0;
}
static int
eq(const char *a, const char *b)
{
    int i;
    if (a == NULL || b == NULL)
        return 0;
    for (i = 0; i <= SL; i++) {
        if (a[i] != b[i])
            return 0;
        if (a[i] == 0)
            return 1;
    }
    return 1;
}
static int
unsafe(const char *s)
{
    int i;
    if (s[0] == '-')
        return 1;
    for (i = 0; i < SL && s[i]; i++)
        if (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == ';' || s[i] == '|')
            return 1;
    return 0;
}
void
harness(void)
{
    int i, rc, startup = nd_bool(), ok, mfn, nid;
    uid_t runas = (uid_t)nd_range(0, 2);
    long tf, save = nd_range(0, 4102444800L);
    memset(&C, 0, sizeof C);
    memset(&F, 0, sizeof F);
    g_ndup = g_next = 0;
    rootuid = 0;
    now = (time_t)nd_range(0, 4102444800L);
    next_id = (unsigned long)nd_long();
    any(g_runas); any(g_mt); any(g_mf);
    memcpy(g_owner, "own", 4);
    memcpy(g_user, "usr", 4);
    F.cf_user = g_user;
    F.cf_line_base = nd_bool() ? &OLD : NULL;
    C.cl_shell = nd_bool() ? g_sh : NULL;
    C.cl_runas = nd_bool() ? g_runas : NULL;
    C.cl_mailto = nd_bool() ? g_mt : NULL;
    mfn = nd_bool();
    C.cl_mailfrom = mfn ? g_mf : NULL;
    for (i = 0; i < OPTION_SIZE; i++)
        C.cl_option[i] = nd_u8();
    tf = C.cl_timefreq = nd_long();
    ok = C.cl_shell != NULL && C.cl_runas != NULL && C.cl_mailto != NULL;
    {
        cl_t *base = F.cf_line_base;
        rc = add_line_to_file(&C, &F, runas, runas == 0 ? NULL : g_owner, save, startup);
        COVER(rc == 0 && runas != 0 && unsafe(g_mt) && mfn && !unsafe(g_mf), "line of a user");
        ENSURE((rc == 0) == ok, "line: refused exactly when the command, runas or mailto is missing");
        if (rc != 0) {
            ENSURE(F.cf_line_base == base && g_next == 0, "line: a refused line is not in the database");
            return;
        }
        ENSURE(F.cf_line_base == &C && C.cl_next == base && C.cl_file == &F, "line: in its file, in front of the others");
    }
    ENSURE(eq(C.cl_runas, runas == 0 ? g_runas : g_owner), "line: runs as the owner of the file unless root wrote it");
    ENSURE(eq(C.cl_mailto, unsafe(g_mt) ? g_user : g_mt), "line: an unsafe mailto is replaced by the user");
    ENSURE(mfn && !unsafe(g_mf) ? eq(C.cl_mailfrom, g_mf) : C.cl_mailfrom == NULL, "line: an unsafe mailfrom is dropped");
    ENSURE(C.cl_timefreq == (is_td(C.cl_option) || tf >= 1 ? tf : 86400), "line: an elapsed-time line has a period");
    ENSURE(g_next == 1 && g_next_ok && g_ctx == (startup ? CONTEXT_BOOT : CONTEXT_DEFAULT) && g_sleep == now - save,
           "line: scheduled once, with the time the system was down");
    for (i = 0; i < OPTION_SIZE; i++)
        ;
}
