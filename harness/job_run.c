/* run_job(): how the job is started, watched and its output collected */
#define FV_OWN_DIE
#include <stdarg.h>
#include "job_env.h"
#include "stubs_log.h"
#include "fcron_globals.h"
static cl_t L;
static cf_t F;
static struct passwd P;
static exe_t E;
static FILE MAILF, PIPEF;
static char SH[] = "/s", HOME[] = "/h", CMD[] = "cmd", ANN[] = "ann", CT[] = "t", CTE[] = "b", *JE[1], *ME[1];
static int g_f1, g_f2, g_nfork, g_npipe, g_open[4], g_setup, g_mailc, g_id, g_umask, g_sig, g_fail, g_out, g_err, g_null, g_nice, g_nice_set;
static int g_told, g_told_ok, g_lines, g_pend, g_eof, g_role, g_rd, g_rd_rc, g_got, g_status, g_sid, g_close_early, g_putfail, g_fds;
static long g_pos, g_pid_in_pipe;
void die(char *f, ...) { (void)f; ENSURE(g_fail, "run: stops only on an error"); ENSURE(g_role, "run: the daemon goes on"); FV_STOP(); }
void die_e(char *f, ...) { (void)f; ENSURE(g_fail, "run: stops only on an error"); ENSURE(g_role, "run: the daemon goes on"); FV_STOP(); }
void fv_exit(int r) { (void)r; ENSURE(g_role, "run: the daemon goes on"); ENSURE(g_role == 1 && g_fail, "run: the watching process gives up only on an error"); FV_STOP(); }
/* fds: 10,11 the pid pipe; 12,13 the output pipe */
int
fv_pipe(int *p)
{
    int n = g_npipe++;
    ENSURE(n < 2 && IMPLIES(n == 1, g_role == 1 && g_id == 0), "run: pipes");
    if (nd_bool()) { g_fail = 1; if (n == 0) g_fds = 0; return -1; }
    p[0] = 10 + 2 * n; p[1] = 11 + 2 * n;
    g_open[2 * n] = g_open[2 * n + 1] = 1;
    return 0;
}
int
xclose_check(int *fd, const char *d)
{
    (void)d;
    if (*fd != -1) {
        ENSURE(*fd >= 10 && *fd <= 13 && g_open[*fd - 10], "run: closes what is open");
        g_open[*fd - 10] = 0;
        *fd = -1;
    }
    return 0;
}
pid_t
fv_fork(void)
{
    int n = g_nfork++;
    pid_t r = n ? g_f2 : g_f1;
    ENSURE(n < 2 && IMPLIES(n, g_role == 1), "run: one watching process and one job");
    if (n) ENSURE(g_id == 1 && g_umask && g_sig == 63, "run: the job is started as its user, with its umask and default signals");
    if (r < 0) g_fail = 1;
    if (r == 0) g_role = n + 1;
    return r;
}
struct passwd *fv_getpwnam(const char *n) { ENSURE(n == L.cl_runas, "run: the user of the line"); if (nd_bool()) { g_fail = 1; return NULL; } return &P; }
void
contract_setup(struct cl_t *cl, struct passwd *pas, char ***a, char ***b, char **c, char **d, char **e, char **f)
{
    ENSURE(cl == &L && pas == &P && g_id == 0 && g_role == 1, "run: the environment of this user");
    *a = ME; *b = JE; *c = SH; *d = HOME; *e = CT; *f = CTE;
    g_setup = 1;
}
static char g_fg0;
static int want_mail(void) { return is_mail(L.cl_option) && !(g_fg0 && is_stdout(L.cl_option)); }
FILE *
contract_create_mail(cl_t *l, char *s, char *ct, char *enc, char **env)
{
    ENSURE(l == &L && s == NULL && ct == CT && enc == CTE && env == JE && g_id == 0, "run: the mail of this job");
    ENSURE(want_mail() && !g_mailc, "run: a mail is prepared only if asked for");
    g_mailc = 1;
    return &MAILF;
}
void
contract_become_user(struct cl_t *cl, struct passwd *pas, char *home)
{
    ENSURE(cl == &L && pas == &P && home == HOME && g_setup && g_id == 0 && g_role == 1, "run: becomes the user of the line, in its home");
    g_id = 1;
}
mode_t fv_umask(mode_t m) { ENSURE(m == saved_umask, "run: the umask fcron was started with"); g_umask = 1; return 0; }
void
fv_sig(int s, int d)
{
    ENSURE(d, "run: default signals");
    g_sig |= s == SIGTERM ? 1 : s == SIGCHLD ? 2 : s == SIGHUP ? 4 : s == SIGUSR1 ? 8 : s == SIGUSR2 ? 16 : s == SIGPIPE ? 32 : 0;
}
long fv_ftell(FILE *f) { ENSURE(f == &MAILF && !g_got, "run: size of the empty mail"); return g_pos; }
int
fv_dup2(int a, int b)
{
    ENSURE(g_role == 2, "run: output of the job");
    if (nd_bool()) { g_fail = 1; return -1; }
    if (b == 1) { ENSURE(a == 13 && g_open[3], "run: its output goes to the pipe"); g_out = 1; }
    else { ENSURE(b == 2 && ((a == 1 && g_out) || (a == 13 && g_open[3])), "run: its errors go to the pipe"); g_err = 1; }
    return b;
}
void fv_setlinebuf(FILE *f) { (void)f; }
FILE *fv_freopen(const char *n, const char *m, FILE *f) { (void)m; ENSURE(n[0] == '/' && n[5] == 'n' && g_role == 2, "run: no output"); g_null |= f == stdout ? 1 : 2; return f; }
int fv_nice(int n) { ENSURE(n == L.cl_nice && g_role == 2 && !g_nice, "run: the nice value of the line"); g_nice = 1; return n; }
int is_selinux_enabled(void) { return 0; }
int setexeccon(const char *c) { (void)c; return 0; }
pid_t fv_setsid(void) { return 5; }
int
fv_execle(const char *p, const char *a0, const char *a1, ...)
{
    va_list ap;
    const char *c, *z;
    char *const *env;
    va_start(ap, a1);
    c = va_arg(ap, const char *);
    z = va_arg(ap, const char *);
    env = va_arg(ap, char *const *);
    va_end(ap);
    ENSURE(g_role == 2 && g_id == 1, "run: only the job process executes, as its user");
    ENSURE(p == SH && a0 == SH && a1[0] == '-' && a1[1] == 'c' && a1[2] == 0 && c == CMD && z == NULL && env == (char *const *)JE, "run: shell -c command, with the environment of the job");
    if (want_mail())
        ENSURE(g_out && g_err, "run: the output is collected");
    else if (!(g_fg0 && is_stdout(L.cl_option)))
        ENSURE(!g_out && !g_err && IMPLIES(g_fg0, g_null == 3), "run: no output on the terminal of fcron");
    else
        ENSURE(!g_out && !g_err && !g_null, "run: the output goes to the terminal");
    ENSURE(!g_open[0] && !g_open[1] && !g_open[2] && !g_open[3], "run: the job inherits no pipe of fcron");
    ENSURE(IMPLIES(L.cl_nice != 0, g_nice), "run: the nice value is set");
    COVER(want_mail() && L.cl_nice < 0, "mailed job");
    g_fail = 1;
    return -1;
}
int
contract_write_pipe(int fd, void *b, size_t n)
{
    ENSURE(fd == 11 || fd == -1, "run: to the daemon");
    ENSURE(n == sizeof(pid_t) && *(pid_t *)b == g_f2 && g_role == 1, "run: tells the daemon the pid of the job");
    g_told = 1;
    return g_fds ? OK : EBADF;
}
ssize_t fv_write(int fd, const void *b, size_t n) { ENSURE(g_role == 1 && g_f2 == -1 && *(const pid_t *)b == -1, "run: tells the daemon that there is no job"); (void)fd; return (ssize_t)n; }
int
contract_read_pipe(int fd, void *b, size_t n)
{
    ENSURE(g_role == 0 && n == sizeof(pid_t) && b == &E.e_job_pid && !g_open[1], "run: the daemon learns the pid of the job");
    ENSURE((fd == 10 && g_open[0]) || !g_fds, "run: from its own pipe");
    g_rd_rc = !g_fds ? EBADF : (int)nd_range(0, 40) == 0 ? ERR : nd_bool() ? OK : EIO;
    if (g_rd_rc == OK)
        *(pid_t *)b = (pid_t)g_pid_in_pipe;
    g_rd++;
    return g_rd_rc;
}
FILE *fv_fdopen(int fd, const char *m) { ENSURE(fd == 12 && g_open[2] && m[0] == 'r', "run: reads the output of the job"); if (nd_bool()) { g_fail = 1; return NULL; } return &PIPEF; }
char *
fv_fgets(char *b, int n, FILE *f)
{
    ENSURE(f == &PIPEF && n >= 2 && !g_open[3], "run: reads the output of the job, of which it keeps no writing end");
    ENSURE(!g_pend, "run: every line of output is put into the mail");
    if (g_got >= g_lines) { g_eof = 1; return NULL; }
    g_got++;
    b[0] = 'x'; b[1] = 0;
    g_pend = 1;
    return b;
}
int fv_fputs(const char *b, FILE *f) { ENSURE(f == &MAILF && g_pend && b[0] == 'x' && b[1] == 0, "run: what was read is put into the mail"); g_pend = 0; return nd_bool() ? 1 : -1; }
int xfclose_check(FILE **f, const char *d) { (void)d; ENSURE(*f == &PIPEF && g_eof, "run: up to its end"); g_open[2] = 0; *f = NULL; return 0; }
pid_t
fv_waitpid(pid_t p, int *s, int o)
{
    ENSURE((p == -1 || p == g_f2) && o == 0 && g_role == 1 && g_told, "run: waits for the job, whose pid the daemon knows");
    ENSURE(IMPLIES(want_mail(), g_eof && !g_pend), "run: after its output was read");
    ENSURE(!g_open[1] && !g_open[0], "run: the daemon is not kept waiting");
    if (nd_bool()) { g_fail = 1; return -1; }
    *s = g_status;
    return g_f2;
}
void
contract_end_job(cl_t *l, int st, FILE *m, long pos, char **env)
{
    ENSURE(l == &L && st == g_status && env == ME, "run: the end of this job");
    ENSURE(m == (want_mail() ? &MAILF : NULL) && IMPLIES(m, pos == g_pos), "run: its mail and the size of the empty mail");
    COVER(m && g_got == 2 && pos > 40000, "output");
    COVER(!m, "no mail");
    FV_STOP();
}
void
harness(void)
{
    int rc, i;
    memset(&L, 0, sizeof L);
    for (i = 0; i < 4; i++) g_open[i] = 0;
    g_nfork = g_npipe = g_setup = g_mailc = g_id = g_umask = g_sig = g_fail = g_out = g_err = g_null = g_nice = 0;
    g_told = g_pend = g_eof = g_role = g_rd = g_got = 0;
    g_f1 = (int)nd_range(-1, 3) * 100;
    if (g_f1 < 0) g_f1 = -1;
    g_f2 = (int)nd_range(-1, 3) * 70;
    if (g_f2 < 0) g_f2 = -1;
    g_lines = (int)nd_range(0, 2);
    g_status = (int)nd_range(0, 65535);
    g_pos = nd_range(1, 100000);
    g_pid_in_pipe = nd_range(-1, 99999);
    L.cl_file = &F; F.cf_user = ANN;
    L.cl_runas = ANN; L.cl_shell = CMD;
    L.cl_nice = (char)nd_range(-20, 19);
    for (i = 0; i < OPTION_SIZE; i++) L.cl_option[i] = (unsigned char)nd_range(0, 255);
    foreground = g_fg0 = (char)nd_range(0, 1);
    saved_umask = (mode_t)nd_range(0, 0777);
    E.e_line = &L; E.e_ctrl_pid = E.e_job_pid = -7;
    g_fds = 1;
    rc = run_job(&E);
    ENSURE(g_role == 0, "run: only the daemon comes back");
    ENSURE(!g_open[0] && !g_open[1], "run: the daemon keeps no pipe open");
    ENSURE(rc == (g_f1 == -1 ? ERR : OK), "run: a fork() that fails is reported");
    if (rc == OK) {
        ENSURE(E.e_ctrl_pid == g_f1, "run: the daemon knows the watching process");
        ENSURE(g_rd == 1 && E.e_job_pid == (g_rd_rc == OK ? g_pid_in_pipe : -1), "run: the daemon knows the pid of the job, or that there is none");
        COVER(g_rd_rc == OK, "known");
    }
    ENSURE(E.e_line == &L, "run: the line is kept");
}
