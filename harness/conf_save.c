/* save_file() of the daemon: each file is saved under its own user's name */
#include "conf_env.h"
#include "conf.c"
#include "stubs_log.h"
#include "fcron_globals.h"
char *fcronconf, *fcrontabs;
#define FV_NO_LISTS
#define FV_OWN_save_file_safe
#include "conf_stubs.h"
char *strdup2(const char *s) { (void)s; FV_STOP(); return NULL; }
void *alloc_safe(size_t n, const char *w) { (void)w; return malloc(n); }
#define NF 3
static cf_t F[NF];
static char g_n[NF][2] = { "a", "b", "c" };
static int g_saved[NF];
int
save_file_safe(cf_t *f, char *path, char *prog, uid_t u, gid_t g, time_t t)
{
    int i;
    for (i = 0; i < NF; i++)
        if (f == &F[i]) {
            g_saved[i]++;
            ENSURE(path == g_n[i], "save: under the name of its user");
        }
    ENSURE(u == rootuid && g == rootgid && t == now, "save: owned by root, dated now");
    return nd_bool() ? OK : ERR;
}
void
harness(void)
{
    int n = (int)nd_range(0, NF), a = (int)nd_range(-1, NF - 1), i;
    memset(F, 0, sizeof F); memset(g_saved, 0, sizeof g_saved);
    rootuid = (uid_t)nd_range(0, 5); rootgid = (gid_t)nd_range(0, 5);
    now = (time_t)nd_range(0, 4102444800L);
    for (i = 0; i < NF; i++) {
        F[i].cf_user = g_n[i];
        F[i].cf_next = i + 1 < n ? &F[i + 1] : NULL;
    }
    file_base = n ? &F[0] : NULL;
    REQUIRE(a < n);
    COVER(n == NF && a == 1, "one of three");
    save_file(a >= 0 ? &F[a] : NULL);
    for (i = 0; i < NF; i++)
        ENSURE(g_saved[i] == (a >= 0 ? i == a : i < n), "save: every file once, or the one asked for");
}
