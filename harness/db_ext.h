/* what database.c calls outside itself: the real list containers and allocator, and
 * recording contracts for the process/mail side. Include after database.c. */
#include "mem.c"
#ifdef FV_LIST_SMALL
#include "list_small.h"
#else
#include "u_list.c"
#endif
#include "exe_list.c"
#include "lavg_list.c"

/* the globals of fcronconf.c that are referenced */
char *fcronconf, *fcrontabs, *pidfile, *fifofile, *fcronallow, *fcrondeny, *shell,
    *sendmail, *editor, *maildisplayname, *suspendfile, *rebootlock;

time_t tmax(time_t x, time_t y) { return x > y ? x : y; }
time_t tmin(time_t x, time_t y) { return x < y ? x : y; }
int imax(int x, int y) { return x > y ? x : y; }
int imin(int x, int y) { return x < y ? x : y; }

static int g_run_job_calls;
static cl_t *g_run_job_line[8];
#ifndef FV_OWN_RUN_JOB
static int g_run_job_result;    /* OK or ERR, chosen by the harness */
int
run_job(struct exe_t *e)
{
    if (g_run_job_calls < 8)
        g_run_job_line[g_run_job_calls] = e->e_line;
    g_run_job_calls++;
    if (g_run_job_result == OK) {
        e->e_ctrl_pid = 1000 + g_run_job_calls;
        e->e_job_pid = 2000 + g_run_job_calls;
    }
    return g_run_job_result;
}
#endif

#ifndef FV_OWN_MAIL
FILE *
create_mail(struct cl_t *l, char *s, char *c, char *e, char **env)
{
    (void)l; (void)s; (void)c; (void)e; (void)env;
    return NULL;
}
void
change_user_setup_env(struct cl_t *cl, char ***a, char ***b, char **c, char **d,
                      char **e, char **f)
{
    (void)cl; (void)a; (void)b; (void)c; (void)d; (void)e; (void)f;
}
void
launch_mailer(struct cl_t *l, FILE *m, char **e)
{
    (void)l; (void)m; (void)e;
    FV_STOP();
}
#endif
#ifndef FV_OWN_SETENV
static int g_setenv, g_unsetenv;
void my_setenv_overwrite(const char *n, const char *v) { (void)n; (void)v; g_setenv++; }
void my_unsetenv(const char *n) { (void)n; g_unsetenv++; }
#endif
