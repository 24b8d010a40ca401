/* set_next_exe_notrun(), mail_notrun_time_t(), mail_notrun(): who is told what about a run
 * that was missed. OP: 0 set_next_exe_notrun, 1 mail_notrun_time_t, 2 mail_notrun */
#include "db_env.h"
int fv_fprintf(FILE *f, const char *fmt, ...);
#define fprintf fv_fprintf
#include "database.c"
#undef fprintf
#include "stubs_log.h"
#include "fcron_globals.h"
#define FV_OWN_LIBC
#define FV_OWN_MAIL
#define FV_OWN_SETENV
#define FV_LIST_SMALL
#include "db_ext.h"
#include "spec_cal.h"
#include "nd_line.h"
#include "cl_same.h"
static cl_t L;
static cf_t F;
static int g_sne, g_opt, g_mail, g_ctx, g_moved, g_tz, g_pid, g_created, g_user, g_text;
static long g_since, g_period, g_next;
int fv_rand(void) { return 0; }
char *fv_getenv(const char *n) { (void)n; return g_tz ? "TZ" : "orig"; }
void my_setenv_overwrite(const char *n, const char *v) { (void)n; ENSURE(v == L.cl_tz || v == orig_tz_envvar, "notrun: timezone"); g_tz = v == L.cl_tz; }
void my_unsetenv(const char *n) { (void)n; g_tz = 0; }
pid_t fv_fork(void) { return g_pid; }
pid_t fv_waitpid(pid_t p, int *s, int o) { (void)p; (void)s; (void)o; return -1; }
int fv_getloadavg(double *l, int n) { (void)l; (void)n; return 0; }
time_t fv_mktime(struct tm *t) { (void)t; return 0; }
int fv_fprintf(FILE *f, const char *fmt, ...) { (void)f; (void)fmt; g_text++; return 0; }
/* a calendar date stands for its time; the fields are libc's business */
struct tm *
fv_localtime(const time_t *t)
{
    static struct tm r;
    ENSURE(*t <= TIME_T_MAX, "notrun: a time that localtime() can convert");
    ENSURE(IMPLIES(L.cl_tz != NULL, g_tz), "notrun: in the timezone of the line");
    r.tm_gmtoff = *t;
    r.tm_sec = 30;
    return &r;
}
time_t contract_mktime_no_dst(struct tm *t) { return t->tm_gmtoff; }
void
contract_move_time_to(int where, cl_t *l, struct tm *f)
{
    ENSURE(where == BEGIN_NEXT_PERIOD && l == &L && f->tm_sec == 0, "notrun: looks for the next period");
    ENSURE(f->tm_gmtoff == g_since, "notrun: of the run that was due");
    f->tm_gmtoff = g_period;
    g_moved++;
}
void
contract_set_next_exe(cl_t *l, char o, int fd)
{
    (void)fd;
    ENSURE(l == &L, "notrun: this line");
    g_sne++;
    g_opt = o;
    l->cl_nextexe = g_next;
}
void
contract_mail_notrun(cl_t *l, char ctx, struct tm *s)
{
    ENSURE(l == &L && ctx == g_ctx, "notrun: reports this line and why");
    ENSURE(s->tm_gmtoff == g_since, "notrun: reports when it was due");
    ENSURE(OP == 1 || l->cl_nextexe == g_next, "notrun: after it was scheduled again");
    g_mail++;
}
FILE *
create_mail(struct cl_t *l, char *s, char *c, char *e, char **env)
{
    static FILE f;
    (void)s; (void)c; (void)e; (void)env;
    ENSURE(l == &L && g_pid == 0, "notrun: the child writes the mail about this line");
    g_created++;
    return &f;
}
void
change_user_setup_env(struct cl_t *cl, char ***a, char ***b, char **c, char **d, char **e, char **f)
{
    (void)a; (void)b; (void)c; (void)d; (void)e; (void)f;
    ENSURE(cl == &L && g_pid == 0 && g_created, "notrun: the child becomes the user");
    g_user++;
}
void
launch_mailer(struct cl_t *l, FILE *m, char **e)
{
    (void)e;
    ENSURE(l == &L && m != NULL && g_user == 1 && g_created == 1 && g_text, "notrun: the mail is sent as the user");
#if OP == 2
    COVER(1, "mail sent");
#endif
    FV_STOP();
}
void
harness(void)
{
    static struct tm since;
    static cl_t B;
    memset(&L, 0, sizeof L); memset(&F, 0, sizeof F);
    L.cl_file = &F; L.cl_shell = "x"; F.cf_user = "u";
    F.cf_tzdiff = (signed char)nd_range(-24, 24);
    L.cl_tz = nd_bool() ? "TZ" : NULL;
    L.cl_option[0] = nd_u8(); L.cl_option[2] = nd_u8();
    orig_tz_envvar = nd_bool() ? "orig" : NULL;
    L.cl_nextexe = nd_range(100000, 34359738368L);
    now = nd_range(100000, 34359738368L);
    g_period = nd_range(0, 34359738368L);
    g_next = nd_range(0, 34359738368L);
    g_sne = g_mail = g_moved = g_tz = g_created = g_user = g_text = 0;
    g_pid = (int)nd_range(-1, 5);
    g_ctx = (int)nd_range(SYSDOWN, SYSDOWN_RUNATREBOOT > QUEUE_FULL ? SYSDOWN_RUNATREBOOT : QUEUE_FULL);
    B = L;
#if OP == 0
    g_since = ((g_ctx == SYSDOWN || g_ctx == SYSDOWN_RUNATREBOOT) ? L.cl_nextexe : now) - F.cf_tzdiff * 3600;
    if (g_ctx == SYSDOWN_RUNATREBOOT)
        g_next = now;
    REQUIRE(g_ctx != QUEUE_FULL);
    COVER(g_ctx == SYSDOWN_RUNATREBOOT && g_next < g_period, "period not over");
    set_next_exe_notrun(&L, (char)g_ctx);
    ENSURE(g_sne == (g_ctx != SYSDOWN_RUNATREBOOT) && IMPLIES(g_sne, g_opt == (g_ctx == SYSDOWN ? NO_GOTO : NO_GOTO_LOG)),
           "notrun: scheduled again in the same period if possible");
    ENSURE(g_moved == 1 && g_mail == (g_next >= g_period + F.cf_tzdiff * 3600), "notrun: reported when its period is over without a run, and only then");
    ENSURE(L.cl_nextexe == g_next && !g_tz, "notrun: next run, timezone restored");
    B.cl_nextexe = L.cl_nextexe;
    ENSURE(cl_same(&B, &L), "notrun: nothing else changes");
#elif OP == 1
    L.cl_tz = NULL;     /* the conversion precedes the switch of the timezone */
    g_since = nd_range(0, 34359738368L);
    g_ctx = SYSDOWN;
    mail_notrun_time_t(&L, SYSDOWN, g_since);
    ENSURE(g_mail == 1 && L.cl_nextexe == B.cl_nextexe && !g_tz, "notrun: one report");
#else
    {
        int n0;
        exe_t *e;
        exe_list = exe_list_init();
        n0 = exe_list->num_entries;
        mail_notrun(&L, (char)g_ctx, &since);
        ENSURE(g_pid != 0, "notrun: the child never comes back into the daemon");
        ENSURE(g_created + g_user + g_text == 0, "notrun: the daemon itself writes nothing");
        e = exe_list_first(exe_list);
        ENSURE(g_pid < 0 ? exe_list->num_entries == n0 : exe_list->num_entries == n0 + 1 && e->e_line == NULL
               && e->e_ctrl_pid == g_pid, "notrun: the mailer is waited for");
    }
#endif
}
