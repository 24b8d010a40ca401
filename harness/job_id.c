/* become_user(), change_user_setup_env(). OP: 0 become_user, 1 change_user_setup_env */
#define FV_OWN_DIE
#include "job_env.h"
#include "stubs_log.h"
#include "fcron_globals.h"
static int g_fail, g_cwd, g_setup;
static long g_uid, g_gid, g_grp, g_step;
static struct passwd P;
static cl_t L;
static cf_t F;
static char HOME[] = "/h", NAME[] = "ann", *g_home;
void die(char *f, ...) { (void)f; ENSURE(g_fail, "identity: stops only if the identity could not be taken"); FV_STOP(); }
void die_e(char *f, ...) { (void)f; ENSURE(g_fail, "identity: stops only if the identity could not be taken"); FV_STOP(); }
int
fv_initgroups(const char *n, gid_t g)
{
    ENSURE(n == P.pw_name && g == P.pw_gid, "identity: the groups of the user");
    if (g_uid != 0 || nd_bool()) { g_fail = 1; return -1; }
    g_grp = g;
    return 0;
}
int fv_setgid(gid_t g) { ENSURE(g == P.pw_gid, "identity: the group of the user"); if (g_uid != 0 || nd_bool()) { g_fail = 1; return -1; } g_gid = g; return 0; }
int fv_setuid(uid_t u) { ENSURE(u == P.pw_uid, "identity: the user"); if (nd_bool()) { g_fail = 1; return -1; } g_uid = u; return 0; }
int
fv_chdir(const char *d)
{
    ENSURE(g_uid == P.pw_uid && g_gid == P.pw_gid && g_grp == P.pw_gid, "identity: the directory is entered with the rights of the user");
    if (nd_bool()) { if (d[0] == '/' && d[1] == 0) g_fail = 1; g_step++; return -1; }
    g_cwd = d == g_home ? 1 : d[0] == '/' && d[1] == 0 ? 2 : 3;
    return 0;
}
#if OP == 1
struct passwd *fv_getpwnam(const char *n) { ENSURE(n == L.cl_runas, "identity: the user of the line"); if (nd_bool()) { g_fail = 1; return NULL; } return &P; }
static char **E1, **E2;
void
contract_setup(struct cl_t *cl, struct passwd *pas, char ***a, char ***b, char **c, char **d, char **e, char **f)
{
    ENSURE(cl == &L && pas == &P && a == &E1 && b == &E2, "identity: the environment of this user");
    ENSURE(g_uid == 0, "identity: the environment is made before the rights are given up");
    (void)c; (void)e; (void)f;
    if (d) *d = HOME;
    g_setup = 1;
}
void
contract_become_user(struct cl_t *cl, struct passwd *pas, char *home)
{
    ENSURE(cl == &L && pas == &P && g_setup && g_uid == 0, "identity: becomes the user of the line");
    ENSURE(home == HOME || (home[0] == '/' && home[1] == 0), "identity: goes to a directory of the user or to /");
    g_uid = P.pw_uid;
}
#endif
void
harness(void)
{
    memset(&L, 0, sizeof L);
    L.cl_file = &F;
    L.cl_runas = NAME;
    P.pw_name = NAME;
    P.pw_uid = (uid_t)nd_range(0, 70000);
    P.pw_gid = (gid_t)nd_range(0, 70000);
    g_fail = g_cwd = g_setup = 0;
    g_uid = 0; g_gid = g_grp = -5;
    g_step = 0;
    g_home = HOME;
#if OP == 0
    become_user(&L, &P, HOME);
    ENSURE(g_uid == P.pw_uid && g_gid == P.pw_gid && g_grp == P.pw_gid, "identity: uid, gid and groups are those of the user");
    ENSURE(g_cwd == (g_step ? 2 : 1), "identity: in the home directory, or in / if that fails");
    COVER(g_step == 1 && P.pw_uid, "no home");
#else
    {
        char *sh = NULL, *home = NULL;
        int wh = nd_bool();
        change_user_setup_env(&L, &E1, &E2, &sh, wh ? &home : NULL, NULL, NULL);
        ENSURE(g_uid == P.pw_uid && g_setup, "identity: has become the user of the line");
        COVER(wh, "with home");
    }
#endif
}
