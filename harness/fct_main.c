/* main() of fcrontab: rights are dropped before anything is read, then one action is done */
#include "fct_env.h"
#include <pwd.h>
#include <security/pam_appl.h>
struct passwd *fv_getpwnam(const char *);
uid_t fv_getuid(void);
gid_t fv_getgid(void);
char *fv_getcwd(char *, size_t);
int fv_chdir(const char *);
mode_t fv_umask(mode_t);
int fv_snprintf(char *b, size_t n, const char *f, ...);
int fv_putenv(char *);
#define getpwnam fv_getpwnam
#define getuid fv_getuid
#define getgid fv_getgid
#define getcwd fv_getcwd
#define chdir fv_chdir
#define umask fv_umask
#define snprintf fv_snprintf
#define putenv fv_putenv
#define strdup(s) ((char *)(s))
#define fprintf(...) (0)
#include "fcrontab.c"
#undef getpwnam
#undef getuid
#undef getgid
#undef getcwd
#undef chdir
#undef umask
#undef snprintf
#undef putenv
#undef strdup
#undef fprintf
#include "stubs_log.h"
#include "fmt_small.h"
char *fcronconf, *fcrontabs, *pidfile, *suspendfile, *fifofile, *fcronallow, *fcrondeny, *shell, *sendmail, *editor, *maildisplayname;
static long g_ruid, g_euid, g_egid, g_rgid;
static struct passwd PF;
static int g_parsed, g_step, g_chdir, g_umask, g_made, g_op, g_pam, g_opened, g_mk;
static char *g_args[3], DASH[] = "-", ABS[] = "/x", REL[] = "y", FCT[] = "/t", PROG[] = "/bin/fcrontab", ANN[] = "ann", PATHB[8];
struct passwd *fv_getpwnam(const char *n) { (void)n; return &PF; }
uid_t fv_getuid(void) { return (uid_t)g_ruid; }
gid_t fv_getgid(void) { return (gid_t)g_rgid; }
char *fv_getcwd(char *b, size_t n) { ENSURE(n > 4, "main: cwd"); b[0] = '/'; b[1] = 'd'; b[2] = 0; return b; }
uid_t get_user_uid_safe(char *n) { (void)n; return 0; }
gid_t get_group_gid_safe(char *n) { (void)n; return 0; }
void seteuid_safe(uid_t u) { ENSURE(u == g_ruid || u == PF.pw_uid, "main: an identity of this program"); g_euid = u; }
void setegid_safe(gid_t u) { ENSURE(u == g_rgid, "main: an identity of this program"); g_egid = u; }
static int eq(const char *a, const char *b) { int i; for (i = 0; i < 12; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
void
contract_parseopt(int c, char **v)
{
    (void)c; (void)v;
    ENSURE(g_euid == g_ruid, "main: reads its options and configuration without the rights of fcron");
    ENSURE(useruid == g_ruid && usergid == g_rgid && rootuid == 0, "main: knows its caller");
    ENSURE(eq(orig_dir, "/d"), "main: knows where it was started");
    g_parsed = 1;
    fcrontabs = FCT;
    user = runas = ANN;
    file_opt = 0;
    switch (g_op) {
    case 0: case 1: case 2: file_opt = 1; break;
    case 3: rm_opt = 1; break;
    case 4: list_opt = 1; break;
    case 5: edit_opt = 1; break;
    default: reinstall_opt = 1;
    }
    asuid = (uid_t)nd_range(0, 3);
}
int pam_start(const char *s, const char *u, const struct pam_conv *c, pam_handle_t **h) { static char x; (void)s; (void)c; ENSURE(u == runas && g_parsed, "main: PAM for the user"); *h = (pam_handle_t *)&x; g_pam = 1; return nd_bool() ? PAM_SUCCESS : PAM_SYSTEM_ERR; }
#define ST(n) do { (void)h; (void)f; ENSURE(g_pam == n, "main: PAM in order"); g_pam = n + 1; return nd_bool() ? PAM_SUCCESS : PAM_SYSTEM_ERR; } while (0)
int pam_authenticate(pam_handle_t *h, int f) { ST(1); }
int pam_acct_mgmt(pam_handle_t *h, int f) { ST(2); }
int pam_setcred(pam_handle_t *h, int f) { ST(3); }
int pam_open_session(pam_handle_t *h, int f) { ST(4); }
char **pam_getenvlist(pam_handle_t *h) { (void)h; return NULL; }
int fv_putenv(char *s) { (void)s; return 0; }
void die_pame(pam_handle_t *p, int e, char *f, ...) { (void)p; (void)e; (void)f; FV_STOP(); }
int fv_chdir(const char *d) { ENSURE(d == FCT && g_pam == 5, "main: works in the directory of the fcrontabs"); if (nd_bool()) return -1; g_chdir = 1; return 0; }
mode_t fv_umask(mode_t m) { ENSURE((m & 026) == 026 && (asuid != 0 || (m & 066) == 066), "main: files of others are private"); g_umask = 1; return 0; }
void *alloc_safe(size_t n, const char *d) { (void)d; ENSURE(n >= 5 && n <= 8, "main: room for the path"); return PATHB; }
/* the state in which every action is started */
static void
start(int op)
{
    ENSURE(g_parsed && g_chdir && g_umask && g_pam == 5, "main: acts once everything is checked");
    ENSURE(g_euid == g_ruid && g_egid == g_rgid, "main: acts with the rights of its caller");
    ENSURE(op == g_op, "main: does what was asked for");
    g_made++;
    COVER(1, "acted");
}
int
open_as_user(const char *p, uid_t u, gid_t g, int fl, ...)
{
    ENSURE(u == g_ruid && g == g_rgid && fl == O_RDONLY, "main: the file is read with the rights of the caller");
    ENSURE(eq(p, g_op == 1 ? "/x" : "/d/y"), "main: the file which was named");
    if (nd_bool()) return -1;
    g_opened = 1;
    return 4;
}
int contract_make_file(char *p, int fd) { start(g_op == 1 ? 1 : 2); ENSURE(g_opened && fd == 4 && eq(p, g_op == 1 ? "/x" : "/d/y"), "main: installs the file which was named"); return g_mk = nd_bool() ? OK : ERR; }
int contract_install_stdin(void) { start(0); return g_mk = nd_bool() ? OK : ERR; }
int contract_remove_fcrontab(char o) { start(3); ENSURE(o == 1, "main: with the source"); return g_mk = OK; }
void contract_list_file(const char *f) { start(4); ENSURE(eq(f, "ann.orig"), "main: the source of this user"); g_mk = OK; }
void contract_edit_file(const char *f) { start(5); ENSURE(eq(f, "ann.orig"), "main: the source of this user"); g_mk = OK; }
void contract_reinstall(char *f) { start(6); ENSURE(eq(f, "ann.orig"), "main: the source of this user"); g_mk = OK; }
void contract_xexit(int r) { ENSURE(r != EXIT_OK || (g_made == 1 && g_mk == OK), "main: success means that the action was done"); FV_STOP(); }
void
harness(void)
{
    char *argv[4];
    g_ruid = nd_range(0, 3); g_rgid = nd_range(0, 3);
    PF.pw_uid = 7; PF.pw_gid = 8;
    g_euid = 7; g_egid = 8;
    g_parsed = g_step = g_chdir = g_umask = g_made = g_pam = g_opened = 0;
    g_mk = -9;
    list_opt = rm_opt = edit_opt = reinstall_opt = ignore_prev = 0;
    file_opt = 0;
    g_op = OPX;
    argv[0] = PROG; argv[1] = g_op == 0 ? DASH : g_op == 1 ? ABS : REL; argv[2] = NULL;
    fcrontab_main(2, argv);
    ENSURE(0, "main: leaves by an exit");
}
