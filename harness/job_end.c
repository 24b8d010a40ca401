/* OP: 0 end_job, 1 launch_mailer, 2 read_write_pipe (one step of its loop) */
#define FV_OWN_DIE
#include <stdarg.h>
#include "fv.h"
#if OP == 2
#define FCRON_VERIFY
#define FV_LOOP_rw_pipe(fd, buf, sz, sp, nr) fv_cut(fd, buf, sz, sp, nr)
static void fv_cut(int fd, void *buf, unsigned long sz, int *sp, int *nr);
#endif
#include "job_env.h"
#include "stubs_log.h"
#include "fcron_globals.h"
static cl_t L;
static FILE MAILF;
static char MT[] = "to", SM[] = "/m", CMD[] = "c", *ENVP[1];
static int g_fail, g_seek, g_lseek, g_dup, g_cwd, g_pam, g_told, g_exit, g_logclosed, g_status, g_seek_fail;
static long g_end, g_pos0;
void die(char *f, ...) { (void)f; ENSURE(g_fail, "mail: stops only on an error"); FV_STOP(); }
void die_e(char *f, ...) { (void)f; ENSURE(g_fail, "mail: stops only on an error"); FV_STOP(); }
#if OP == 0
int pam_setcred(pam_handle_t *h, int f) { (void)h; (void)f; g_pam |= 1; return 0; }
int pam_close_session(pam_handle_t *h, int f) { (void)h; (void)f; g_pam |= 2; return 0; }
int pam_end(pam_handle_t *h, int f) { (void)h; (void)f; g_pam |= 4; return 0; }
pam_handle_t *pamh;
int fv_fseek(FILE *f, long o, int w) { ENSURE(f == &MAILF && o == 0 && w == SEEK_END && !g_told, "mail: size of the output"); g_seek = 1; return g_seek_fail ? -1 : 0; }
long fv_ftell(FILE *f) { ENSURE(f == &MAILF && g_seek, "mail: size of the output"); return g_end; }
int fv_fprintf(FILE *f, const char *m, ...) { (void)m; ENSURE(f == &MAILF, "mail: tells about the failure in the mail"); g_told++; return 0; }
int xfclose_check(FILE **f, const char *d) { (void)d; *f = NULL; return 0; }
static int g_has;
static int failed(void) { return !((g_status & 0x7f) == 0 && ((g_status >> 8) & 0xff) == 0); }
/* the documentation: options mail, mailzerolength and erroronlymail */
static int
expected(void)
{
    int output = !g_seek_fail && g_end > g_pos0;
    if (!g_has) return 0;
    if (is_mailzerolength(L.cl_option)) return 1;
    if (!is_mail(L.cl_option)) return 0;
    return failed() || (output && !is_erroronlymail(L.cl_option));
}
void
contract_launch_mailer(cl_t *l, FILE *m, char **env)
{
    ENSURE(l == &L && m == &MAILF && env == ENVP, "mail: of this job");
    ENSURE(expected(), "mail: nothing is mailed that was not asked for");
    ENSURE(g_pam == 7, "mail: the session of the job is closed");
    ENSURE(g_told == failed(), "mail: a failure is reported in the mail");
    COVER(g_end == g_pos0, "failure without output");
    COVER(g_end > g_pos0 && !g_told, "output");
    FV_STOP();
}
void
fv_exit(int r)
{
    ENSURE(r == 0 && !expected(), "mail: the output is mailed when it has to be");
    ENSURE(g_pam == 7, "mail: the session of the job is closed");
    COVER(g_has && g_end > g_pos0, "errors only");
    FV_STOP();
}
#elif OP == 1
int fv_fileno(FILE *f) { ENSURE(f == &MAILF, "mailer: the mail"); return 6; }
int fv_fseek(FILE *f, long o, int w) { ENSURE(f == &MAILF && o == 0 && w == SEEK_SET, "mailer: from the start of the mail"); if (nd_bool()) { g_fail = 1; return -1; } g_seek = 1; return 0; }
off_t fv_lseek(int f, off_t o, int w) { ENSURE(f == 6 && o == 0 && w == SEEK_SET && g_seek, "mailer: from the start of the mail"); if (nd_bool()) { g_fail = 1; return -1; } g_lseek = 1; return 0; }
int fv_dup2(int a, int b) { ENSURE(a == 6 && b == 0, "mailer: reads the mail"); if (nd_bool()) { g_fail = 1; return -1; } g_dup = 1; return 0; }
int fv_chdir(const char *d) { ENSURE(d[0] == '/' && d[1] == 0, "mailer: in /"); if (nd_bool()) { g_fail = 1; return -1; } g_cwd = 1; return 0; }
int
fv_execle(const char *p, const char *a0, const char *a1, ...)
{
    va_list ap;
    const char *c, *last = a1;
    char *const *env;
    int i, n = 0;
    va_start(ap, a1);
    for (i = 0; i < 6; i++) {
        c = va_arg(ap, const char *);
        if (c == NULL)
            break;
        last = c;
        n++;
    }
    env = va_arg(ap, char *const *);
    va_end(ap);
    ENSURE(p == sendmail && a0 == sendmail && last == MT && n >= 1 && env == (char *const *)ENVP, "mailer: the mailer, for the addressee of the line, with its environment");
    ENSURE(g_seek && g_lseek && g_dup && g_cwd, "mailer: reads the whole mail, in /");
    COVER(1, "mailed");
    g_fail = 1;
    return -1;
}
#else
/* read_write_pipe: one arbitrary visit of the loop */
static char BUF[64];
static int g_calls, g_visit, g_action, g_nz, g_rc, g_err;
static unsigned long g_sz;
static int g_sp;
static void
fv_cut(int fd, void *buf, unsigned long sz, int *sp, int *nr)
{
    ENSURE(*nr >= 0 && *nr <= 3, "pipe: a bounded number of retries");
    ENSURE(sz == g_sz && buf == BUF && fd == 7, "pipe: what it was asked for");
    ENSURE(*sp >= 0 && (unsigned long)*sp < sz, "pipe: something remains");
    if (g_visit == 0) {
        ENSURE(*sp == 0, "pipe: from the start");
        *sp = (int)nd_range(0, 63);
        REQUIRE((unsigned long)*sp < sz);
        g_sp = *sp;
        *nr = (int)nd_range(0, 3);
        g_visit = 1;
    }
    else {
        ENSURE(*sp == g_sp, "pipe: counts what was transferred");
        FV_STOP();
    }
}
static ssize_t
xfer(int w, int fd, const void *b, size_t n)
{
    ssize_t r;
    ENSURE(w == (g_action == PIPE_WRITE) && fd == 7, "pipe: the direction");
    ENSURE(b == BUF + g_sp && n == g_sz - (unsigned long)g_sp, "pipe: exactly what remains");
    REQUIRE(++g_calls < 200);
    r = nd_range(-1, 63);
    REQUIRE(r <= (ssize_t)n);
    errno = r < 0 ? (nd_bool() ? EINTR : EIO) : 0;
    if (r > 0) g_sp += (int)r;
    if (r < 0 && errno == EIO) g_err = 1;
    if (r == 0) g_nz++;
    return r;
}
ssize_t fv_read(int fd, void *b, size_t n) { return xfer(0, fd, b, n); }
ssize_t fv_write(int fd, const void *b, size_t n) { return xfer(1, fd, b, n); }
#endif
void
harness(void)
{
    int i;
    memset(&L, 0, sizeof L);
    g_fail = g_seek = g_lseek = g_dup = g_cwd = g_pam = g_told = g_exit = 0;
    L.cl_mailto = MT; L.cl_shell = CMD;
    sendmail = SM;
    for (i = 0; i < OPTION_SIZE; i++) L.cl_option[i] = (unsigned char)nd_range(0, 255);
#if OP == 0
    { static char h; pamh = (pam_handle_t *)&h; }
    g_has = nd_bool();
    g_status = (int)nd_range(0, 65535);
    g_seek_fail = nd_range(0, 9) == 0;
    g_pos0 = nd_range(0, 100000);
    g_end = g_pos0 + nd_range(0, 3);
    end_job(&L, g_status, g_has ? &MAILF : NULL, g_pos0, ENVP);
    ENSURE(0, "mail: the watching process ends");
#elif OP == 1
    launch_mailer(&L, &MAILF, ENVP);
    ENSURE(0, "mailer: does not come back");
#else
    {
        int rc;
        g_calls = g_visit = g_nz = g_err = 0;
        g_action = nd_bool() ? PIPE_READ : PIPE_WRITE;
        g_sz = (unsigned long)nd_range(0, 64);
        g_sp = 0;
        rc = g_action == PIPE_READ ? read_pipe(7, BUF, g_sz) : write_pipe(7, BUF, g_sz);
        ENSURE((rc == OK) == ((unsigned long)g_sp == g_sz), "pipe: success means that everything was transferred");
        ENSURE(IMPLIES(rc != OK, rc == ERR || (g_err && rc == EIO)), "pipe: the error is reported");
        COVER(rc == OK && g_sz > 4 && g_visit, "all");
    }
#endif
}
