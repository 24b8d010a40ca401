/* files are opened, removed and renamed with the rights of the user, which are then given back.
 * OP: 0 open_as_user, 1 remove_as_user, 2 rename_as_user */
#include "fv.h"
#include <stdarg.h>
#include <errno.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <pwd.h>
#include <grp.h>
#include <sys/types.h>
#include <sys/stat.h>
uid_t fv_geteuid(void);
gid_t fv_getegid(void);
int fv_seteuid(uid_t), fv_setegid(gid_t), fv_open(const char *, int, ...), fv_fstat(int, struct stat *), fv_remove(const char *), fv_rename(const char *, const char *);
#define geteuid fv_geteuid
#define getegid fv_getegid
#define seteuid fv_seteuid
#define setegid fv_setegid
#define open fv_open
#define fstat fv_fstat
#define remove fv_remove
#define rename fv_rename
#include "subs.c"
#undef geteuid
#undef getegid
#undef seteuid
#undef setegid
#undef open
#undef fstat
#undef remove
#undef rename
#define FV_OWN_DIE
#include "stubs_log.h"
static long g_ruid, g_euid, g_suid, g_rgid, g_egid, g_sgid, g_u, g_g, g_e0, g_eg0;
static int g_denied, g_done, g_open, g_errno, g_flags, g_mode, g_rc, g_errc;
static struct stat g_st;
static int g_fstat_rc;
static char PATH1[] = "/a", PATH2[] = "/b";
void die(char *f, ...) { (void)f; ENSURE(g_denied, "as user: stops only when the identity is refused"); ENSURE(!g_done || 1, ""); FV_STOP(); }
void die_e(char *f, ...) { (void)f; ENSURE(g_denied, "as user: stops only when the identity is refused"); FV_STOP(); }
uid_t fv_geteuid(void) { return (uid_t)g_euid; }
gid_t fv_getegid(void) { return (gid_t)g_egid; }
/* what the kernel allows */
int
fv_seteuid(uid_t u)
{
    if (g_euid != 0 && u != g_ruid && u != g_suid) { g_denied = 1; errno = EPERM; return -1; }
    g_euid = u;
    return 0;
}
int
fv_setegid(gid_t g)
{
    if (g_euid != 0 && g != g_rgid && g != g_sgid) { g_denied = 1; errno = EPERM; return -1; }
    g_egid = g;
    return 0;
}
static void act(void) { ENSURE(g_euid == g_u && g_egid == g_g, "as user: with exactly the rights of that user"); ENSURE(!g_done, "as user: once"); g_done = 1; }
int
fv_open(const char *p, int fl, ...)
{
    act();
    ENSURE(p == PATH1 && fl == g_flags, "as user: this file, this way");
    if (fl & O_CREAT) {
        va_list ap;
        va_start(ap, fl);
        ENSURE(va_arg(ap, int) == g_mode, "as user: with this mode");
        va_end(ap);
    }
    if (g_rc < 0) { errno = g_errno; return -1; }
    g_open = 1;
    return 8;
}
int fv_fstat(int fd, struct stat *s) { ENSURE(fd == 8 && g_open, "as user: checks the opened file"); if (g_fstat_rc) { errno = EIO; return -1; } *s = g_st; errno = (int)nd_range(0, 100); return 0; }
int xclose(int *fd) { ENSURE(*fd == 8 && g_open, "as user: closes its file"); g_open = 0; *fd = -1; errno = (int)nd_range(0, 100); return 0; }
int fv_remove(const char *p) { act(); ENSURE(p == PATH1, "as user: this file"); return g_rc; }
int fv_rename(const char *a, const char *b) { act(); ENSURE(a == PATH1 && b == PATH2, "as user: this file"); return g_rc; }
int xclose_check(int *fd, const char *d) { (void)d; return xclose(fd); }
void
harness(void)
{
    int r;
    g_ruid = nd_range(0, 5); g_euid = nd_range(0, 5); g_suid = nd_range(0, 5);
    g_rgid = nd_range(0, 5); g_egid = nd_range(0, 5); g_sgid = nd_range(0, 5);
    g_u = nd_range(0, 5); g_g = nd_range(0, 5);
    g_e0 = g_euid; g_eg0 = g_egid;
    g_denied = g_done = g_open = 0;
    g_rc = nd_bool() ? 0 : -1;
    g_errno = (int)nd_range(1, 120);
    g_flags = (int)nd_range(0, 07777);
    g_mode = (int)nd_range(0, 0777);
    g_fstat_rc = nd_bool() ? 0 : -1;
    memset(&g_st, 0, sizeof g_st);
    g_st.st_mode = (mode_t)nd_range(0, 0177777);
    g_st.st_nlink = (nlink_t)nd_range(0, 3);
#if OP == 0
    r = open_as_user(PATH1, (uid_t)g_u, (gid_t)g_g, g_flags, g_mode);
    {
        int ok = g_rc == 0 && g_fstat_rc == 0 && (g_st.st_mode & S_IFMT) == S_IFREG && g_st.st_nlink == 1;
        ENSURE(r == (ok ? 8 : -1), "as user: only a regular file with a single name is opened");
        ENSURE(g_open == ok, "as user: any other one is closed");
        ENSURE(IMPLIES(g_rc < 0, errno == g_errno), "as user: the error of open() is reported");
        COVER(ok && g_u != g_e0 && g_e0 != 0, "opened");
        COVER(!ok && g_rc == 0, "not regular");
    }
#elif OP == 1
    r = remove_as_user(PATH1, (uid_t)g_u, (gid_t)g_g);
    ENSURE(r == g_rc, "as user: the result is reported");
    COVER(r == 0 && g_u != g_e0, "removed");
#else
    r = rename_as_user(PATH1, PATH2, (uid_t)g_u, (gid_t)g_g);
    ENSURE(r == g_rc, "as user: the result is reported");
    COVER(r == 0 && g_u != g_e0, "renamed");
#endif
    ENSURE(g_done, "as user: done");
    ENSURE(g_euid == g_e0 && g_egid == g_eg0, "as user: the former rights are back");
}
