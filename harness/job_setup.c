/* setup_user_and_env(): the environment of the job and of the mailer */
#include "job_env.h"
#include "stubs_log.h"
#include "fcron_globals.h"
enum { V_USER, V_LOGNAME, V_HOME, V_PATH, V_TZ, V_SHELL, V_CT, V_CTE, V_X, V_P, NVAR };
static const char *const VN[NVAR] = {"USER", "LOGNAME", "HOME", "PATH", "TZ", "SHELL", "CONTENT_TYPE", "CONTENT_TRANSFER_ENCODING", "X", "P"};
static char *g_v[NVAR], *g_mail[NVAR], *g_job[NVAR], *g_accsh;
static env_list_t LIST, UL;
static cl_t L;
static cf_t F;
static struct passwd P;
static env_t U[3];
static int g_nu, g_pos, g_destroyed, g_exp, g_badpam, g_dead, g_access, g_open;
static char **const ENVS[3] = {(char **)&U[0], (char **)&U[1], (char **)&U[2]};
static int g_pam_step;
static pam_handle_t *PH;
static char PATH0[] = "/p", SH_CONF[] = "/c", SH_PW[] = "/w", HOME_PW[] = "/h", TZV[] = "tz", ANN[] = "ann", EMPTY[] = "";
static int
var(const char *n, int sep)
{
    int v, i;
    for (v = 0; v < NVAR; v++)
        for (i = 0; i < 30; i++) {
            if (VN[v][i] == 0) {
                if (n[i] == sep)
                    return v;
                break;
            }
            if (VN[v][i] != n[i])
                break;
        }
    ENSURE(0, "environment: no other variable");
    return V_X;
}
/* the list keeps its own copy of a value (modelled for SHELL, which is read back) */
static char CP1[2] = "/", CP0[1] = "", *g_src;
static char *copy(int k, char *v) { if (k != V_SHELL) return v; g_src = v; return v[0] ? CP1 : CP0; }
static char *orig(char *v) { return v == CP1 || v == CP0 ? g_src : v; }
env_list_t *env_list_init(void) { return &LIST; }
env_t *
env_list_setenv(env_list_t *l, char *n, char *v, int o)
{
    int k = var(n, 0);
    static env_t e;
    ENSURE(l == &LIST && v != NULL && !g_destroyed, "environment: set in the new list");
    ENSURE(v != CP1 && v != CP0, "environment: a value is not set from itself");
    if (o || g_v[k] == NULL)
        g_v[k] = copy(k, v);
    return &e;
}
env_t *
env_list_putenv(env_list_t *l, char *s, int o)
{
    int k = var(s, '='), i;
    static env_t e;
    ENSURE(l == &LIST && !g_destroyed, "environment: set in the new list");
    if (o || g_v[k] == NULL) {
        for (i = 0; s[i] != '='; i++) ;
        g_v[k] = copy(k, s + i + 1);
    }
    return &e;
}
char *env_list_getenv(env_list_t *l, char *n) { ENSURE(l == &LIST && !g_destroyed, "environment: read from the new list"); return g_v[var(n, 0)]; }
env_t *env_list_first(env_list_t *l) { ENSURE(l == &UL, "environment: of the fcrontab"); g_pos = 0; return g_nu > 0 ? &U[0] : NULL; }
env_t *env_list_next(env_list_t *l) { ENSURE(l == &UL, "environment: of the fcrontab"); g_pos++; return g_pos == 1 && g_nu > 1 ? &U[1] : NULL; }
env_list_t *env_list_destroy(env_list_t *l) { ENSURE(l == &LIST && !g_destroyed, "environment: the working list is freed"); g_destroyed = 1; return NULL; }
char **
env_list_export_envp(env_list_t *l)
{
    static char *A[2], *B[2];
    int i;
    ENSURE(l == &LIST && g_exp < 2, "environment: exported once for the mailer, once for the job");
    for (i = 0; i < NVAR; i++)
        *(g_exp ? &g_job[i] : &g_mail[i]) = orig(g_v[i]);
    return g_exp++ ? B : A;
}
char *strdup2(const char *s) { return orig((char *)s); }
char *fv_getenv(const char *n) { ENSURE(n[0] == 'P', "environment: PATH of the daemon"); return g_open ? PATH0 : NULL; }
int fv_access(const char *p, int m) { ENSURE(m == X_OK, "environment: the shell must be executable"); g_accsh = orig((char *)p); errno = nd_bool() ? ENOENT : EACCES; return g_access; }
#define STEP(n) do { ENSURE(h == PH, "pam handle"); ENSURE(g_pam_step == n, "environment: PAM in order"); g_pam_step = n + 1; if (nd_bool()) { g_badpam = 1; return PAM_SYSTEM_ERR; } return PAM_SUCCESS; } while (0)
const struct pam_conv apamconv;
pam_handle_t *pamh;
int
pam_start(const char *s, const char *u, const struct pam_conv *c, pam_handle_t **h)
{
    (void)s; (void)c;
    ENSURE(u == P.pw_name, "environment: PAM for the user of the line");
    *h = PH;
    g_pam_step = 1;
    if (nd_bool()) { g_badpam = 1; return PAM_SYSTEM_ERR; }
    return PAM_SUCCESS;
}
int pam_authenticate(pam_handle_t *h, int f) { (void)f; STEP(1); }
int pam_acct_mgmt(pam_handle_t *h, int f) { (void)f; STEP(2); }
int pam_setcred(pam_handle_t *h, int f) { (void)f; STEP(3); }
int pam_open_session(pam_handle_t *h, int f) { (void)f; STEP(4); }
static char PAMV[] = "P=pam";
char **pam_getenvlist(pam_handle_t *h) { static char *E[2]; (void)h; E[0] = nd_bool() ? PAMV : NULL; E[1] = NULL; return E; }
void die_pame(pam_handle_t *p, int e, char *f, ...) { (void)p; (void)e; (void)f; ENSURE(g_badpam, "environment: refused only by PAM"); FV_STOP(); }
void contract_die_mail_pame(cl_t *c, int e, struct passwd *p, char *s, env_list_t *l) { (void)e; (void)s; (void)l; ENSURE(g_badpam && c == &L && p == &P, "environment: refused only by PAM"); FV_STOP(); }
static char U_HOME[] = "HOME=/x", U_SHELL[] = "SHELL=/y", U_PATH[] = "PATH=/z", U_TZ[] = "TZ=u", U_CT[] = "CONTENT_TYPE=t", U_CTE[] = "CONTENT_TRANSFER_ENCODING=b", U_X[] = "X=1", U_SH0[] = "SHELL=", U_HOME2[] = "HOME=/v";
static char *
uenv(void)
{
    switch (nd_range(0, 8)) {
    case 0: return U_HOME; case 1: return U_SHELL; case 2: return U_PATH; case 3: return U_TZ; case 4: return U_CT;
    case 5: return U_CTE; case 6: return U_X; case 7: return U_SH0; default: return U_HOME2;
    }
}
/* the last assignment of the fcrontab to variable v */
static char *
user_set(int v)
{
    char *r = NULL;
    int i, k;
    for (i = 0; i < 2; i++)
        if (i < g_nu && var(U[i].e_envvar, '=') == v) {
            for (k = 0; U[i].e_envvar[k] != '='; k++) ;
            r = U[i].e_envvar + k + 1;
        }
    return r;
}
void
harness(void)
{
    char **me = NULL, **je = NULL, *sh = NULL, *home = NULL, *ct = NULL, *cte = NULL, *e;
    int i, wm = nd_bool(), wj = nd_bool(), wx = nd_bool();
    static char HANDLE;
    PH = (pam_handle_t *)&HANDLE;
    for (i = 0; i < NVAR; i++)
        g_v[i] = g_mail[i] = g_job[i] = NULL;
    g_destroyed = g_exp = g_badpam = g_pam_step = g_pos = 0;
    g_accsh = g_src = NULL;
    g_access = nd_bool() ? 0 : -1;
    g_open = nd_bool();
    memset(&L, 0, sizeof L); memset(&F, 0, sizeof F);
    L.cl_file = &F; F.cf_env_list = &UL;
    L.cl_runas = ANN;
    L.cl_tz = nd_bool() ? TZV : NULL;
    P.pw_name = ANN; P.pw_dir = HOME_PW; P.pw_shell = SH_PW;
    shell = nd_bool() ? SH_CONF : EMPTY;
    g_nu = (int)nd_range(0, 2);
    U[0].e_envvar = uenv();
    U[1].e_envvar = uenv();
    setup_user_and_env(&L, &P, wm ? &me : NULL, wj ? &je : NULL, wx ? &sh : NULL, wx ? &home : NULL, wx ? &ct : NULL, wx ? &cte : NULL);
    ENSURE(g_destroyed && !g_badpam && g_pam_step == 5, "environment: PAM agreed, the working list is freed");
    ENSURE((me != NULL) == wm && (je != NULL) == wj && g_exp == wm + wj, "environment: those which are asked for");
    if (wm) {
        char **m = g_mail;
        ENSURE(m[V_USER] == ANN && m[V_LOGNAME] == ANN && m[V_HOME] == HOME_PW, "environment: the mailer runs for the user");
        ENSURE(m[V_PATH] != NULL && IMPLIES(g_open, m[V_PATH] == PATH0), "environment: the mailer has the PATH of the daemon");
        ENSURE(m[V_SHELL] == (shell[0] ? SH_CONF : SH_PW) && m[V_X] == NULL && m[V_CT] == NULL, "environment: the mailer does not get the settings of the fcrontab");
    }
    if (wj && wm) {
        char **j = g_job;
        ENSURE(j[V_USER] == ANN && j[V_LOGNAME] == ANN, "environment: USER is the user of the job");
        e = user_set(V_HOME);
        ENSURE(j[V_HOME] == (e ? e : HOME_PW), "environment: HOME of the fcrontab, or else of the password file");
        e = user_set(V_PATH);
        ENSURE(e ? j[V_PATH] == e : j[V_PATH] != PATH0 && j[V_PATH] != NULL, "environment: PATH of the fcrontab, or else the default one, not that of the daemon");
        e = user_set(V_TZ);
        ENSURE(j[V_TZ] == (e ? e : L.cl_tz), "environment: TZ is the one of the line unless the fcrontab sets it");
        ENSURE(j[V_X] == user_set(V_X) && j[V_CT] == user_set(V_CT) && j[V_CTE] == user_set(V_CTE), "environment: the assignments of the fcrontab");
        e = user_set(V_SHELL);
        if (e == NULL) e = shell[0] ? SH_CONF : SH_PW;
        if (e[0] == 0) e = shell;
        else {
            ENSURE(g_accsh == e, "environment: the shell is checked");
            if (g_access != 0) e = shell;
        }
        ENSURE(j[V_SHELL] == e, "environment: SHELL is the shell of the fcrontab, of fcron.conf or of the user");
        if (wx) {
            ENSURE(sh == e && home == j[V_HOME], "environment: the shell and home directory in use");
            COVER(g_nu == 2 && sh == U_SHELL + 6 && home == U_HOME2 + 5, "both set");
            COVER(g_access && sh == SH_CONF, "bad shell");
        }
    }
    if (wx && wj)
        ENSURE(ct == user_set(V_CT) && cte == user_set(V_CTE), "environment: content type and encoding of the mails");
}
