/* parseopt() of fcrontab: who may act on whose fcrontab, and one action only */
#include "fct_env.h"
#include <pwd.h>
int fv_getopt(int, char *const *, const char *);
char *fv_optarg;
int fv_optind;
struct passwd *fv_getpwnam(const char *);
struct passwd *fv_getpwuid(uid_t);
#define getopt fv_getopt
#define optarg fv_optarg
#define optind fv_optind
#define getpwnam fv_getpwnam
#define getpwuid fv_getpwuid
#define snprintf(b, n, ...) ((b)[0] = 0)
#define fprintf(...) (0)
#define free(p) ((void)(p))
#define exit fv_exit
void fv_exit(int);
#define LONGNAME
#include "fcrontab.c"
#undef getopt
#undef optarg
#undef optind
#undef getpwnam
#undef getpwuid
#undef snprintf
#undef fprintf
#undef free
#undef exit
#include "stubs_log.h"
char *fcronconf, *fcrontabs, *pidfile, *suspendfile, *fifofile, *fcronallow, *fcrondeny, *shell, *sendmail, *editor, *maildisplayname;
static char N_ANN[] = "ann", N_ROOT[] = "root", N_SYS[] = SYSFCRONTAB, N_NO[] = "zed", N_BOB[] = "bob", N_FILE[] = "/f";
static struct passwd P_ANN, P_ROOT, P_BOB;
static uid_t g_uid;
static int g_k, g_allow, g_conf, g_nopt;
static char g_ops[4];
static int is(const char *a, const char *b) { int i; for (i = 0; i < 8; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
static char *
name(void)
{
    switch (nd_range(0, 4)) {
    case 0: return N_ANN;
    case 1: return N_ROOT;
    case 2: return N_SYS;
    case 3: return N_BOB;
    default: return N_NO;
    }
}
int
fv_getopt(int c, char *const *v, const char *o)
{
    static const char OPS[] = "udlrezncVh";
    int k;
    (void)c; (void)v;
    ENSURE(o[0] != 0, "options");
    if (g_k == g_nopt)
        return -1;
    k = (int)nd_range(0, 9);
    fv_optarg = OPS[k] == 'u' ? name() : OPS[k] == 'c' ? N_FILE : NULL;
    g_ops[g_k++] = OPS[k];
    return OPS[k];
}
void contract_xexit(int r) { (void)r; FV_STOP(); }
void fv_exit(int r) { (void)r; FV_STOP(); }
char *strdup2(const char *s) { return (char *)s; }
void read_conf(void) { g_conf = 1; }
int
is_allowed(char *u)
{
    ENSURE(g_conf, "options: fcron.allow and fcron.deny are those of fcron.conf");
    ENSURE(user != NULL && is(u, user), "options: asks for the user whose fcrontab it is");
    return g_allow = nd_bool();
}
struct passwd *
fv_getpwnam(const char *n)
{
    return is(n, N_ANN) ? &P_ANN : is(n, N_ROOT) ? &P_ROOT : is(n, N_BOB) ? &P_BOB : NULL;
}
struct passwd *
fv_getpwuid(uid_t u)
{
    return u == 5 ? &P_ANN : u == 0 ? &P_ROOT : u == 6 ? &P_BOB : NULL;
}
void
harness(void)
{
    char *argv[8];
    int argc, i, nargs;
    P_ANN.pw_name = N_ANN; P_ANN.pw_uid = 5; P_ANN.pw_gid = 15;
    P_BOB.pw_name = N_BOB; P_BOB.pw_uid = 6; P_BOB.pw_gid = 16;
    P_ROOT.pw_name = N_ROOT; P_ROOT.pw_uid = 0; P_ROOT.pw_gid = 0;
    g_k = g_conf = g_allow = 0;
    g_nopt = (int)nd_range(0, 3);
    user = runas = NULL;
    list_opt = rm_opt = edit_opt = reinstall_opt = ignore_prev = 0;
    file_opt = 0;
    fcronconf = NULL;
    rootuid = 0; rootgid = 0;
    asuid = asgid = 77;
    useruid = (uid_t)nd_range(0, 7);
    usergid = 15;
    nargs = (int)nd_range(0, 3);
    fv_optind = 1;
    argc = 1 + nargs;
    argv[0] = N_FILE;
    for (i = 1; i < 8; i++)
        argv[i] = i < argc ? name() : NULL;
    parseopt(argc, argv);
    ENSURE((list_opt != 0) + (rm_opt != 0) + (edit_opt != 0) + (reinstall_opt != 0) + (file_opt != 0) == 1, "options: exactly one action");
    ENSURE(IMPLIES(file_opt != 0, file_opt == 1 && nargs >= 1), "options: the file is the first argument");
    ENSURE(user != NULL && g_conf, "options: the user is known and fcron.conf was read");
    if (is(user, SYSFCRONTAB)) {
        ENSURE(useruid == rootuid, "options: only root may act on the system fcrontab");
        ENSURE(asuid == rootuid && asgid == rootgid && is(runas, ROOTNAME), "options: the system fcrontab belongs to root");
        COVER(1, "system fcrontab");
    }
    else {
        struct passwd *p = fv_getpwnam(user);
        ENSURE(p != NULL && asuid == p->pw_uid && asgid == p->pw_gid && is(runas, user), "options: acts as the user whose fcrontab it is");
        ENSURE(useruid == rootuid || asuid == useruid, "options: only root may act on the fcrontab of another user");
        ENSURE(g_allow, "options: a user who is not allowed to is refused");
        /* the user is the last argument, or the one of -u, or else the caller */
        if (nargs == 2) ENSURE(user == argv[2], "options: the user given as argument");
        if (nargs == 1 && !file_opt) ENSURE(user == argv[1], "options: the user given as argument");
        COVER(nargs == 2 && useruid == 0 && asuid == 6, "root for bob");
        COVER(useruid == 6 && rm_opt, "bob removes");
    }
    for (i = 0; i < 3; i++)
        if (i < g_k) {
            ENSURE(IMPLIES(g_ops[i] == 'l', list_opt) && IMPLIES(g_ops[i] == 'r', rm_opt) && IMPLIES(g_ops[i] == 'e', edit_opt)
                   && IMPLIES(g_ops[i] == 'z', reinstall_opt), "options: the action asked for");
            ENSURE(IMPLIES(g_ops[i] == 'u', useruid == rootuid), "options: -u is for root");
        }
    ENSURE(IMPLIES(ignore_prev, g_k > 0 && (g_ops[0] == 'n' || g_ops[1] == 'n' || g_ops[2] == 'n' || reinstall_opt)), "options: the previous version is dropped only on request");
}
