/* copy_src(): the source of a fcrontab is replaced only by a complete copy of the new one */
#include "fct_env.h"
ssize_t fv_read(int fd, void *b, size_t n);
ssize_t fv_write(int fd, const void *b, size_t n);
int fv_fchown(int fd, uid_t u, gid_t g);
int fv_fchmod(int fd, mode_t m);
off_t fv_lseek(int fd, off_t o, int w);
#define read fv_read
#define write fv_write
#define fchown fv_fchown
#define fchmod fv_fchmod
#define lseek fv_lseek
#include "fcrontab.c"
#undef read
#undef write
#undef fchown
#undef fchmod
#undef lseek
#define FV_OWN_GLOBALS
#include "stubs_log.h"

#define NREAD 3
enum { NONE, OLD, PARTIAL, NEW };
static int g_final, g_temp, g_open, g_fail, g_reads, g_eof, g_done, g_rd_fail, g_seek, g_chown, g_chmod, g_pend, g_final0;
static char g_path[8], g_tmp[24];
static int g_tset;
static const void *g_buf;
static ssize_t g_nb;

static int
is_final(const char *p)
{
    int i;
    for (i = 0; i < 8; i++) {
        if (p[i] != g_path[i])
            return 0;
        if (!p[i])
            return 1;
    }
    return 0;
}
static int
is_temp(const char *p)
{
    int i, n = 0;
    for (i = 0; i < 22; i++) {
        if (!g_tset) g_tmp[i] = p[i];
        else if (g_tmp[i] != p[i]) return 0;
        if (!p[i]) break;
        n++;
    }
    if (g_tset)
        return 1;
    g_tset = 1;
    if (p[i])
        return 0;
    for (i = 0; i < 22; i++)
        if (i < n && (p[i] == '/') != (i < 7 && g_path[i] == '/'))
            return 0;
    return 1;
}
off_t
fv_lseek(int fd, off_t o, int w)
{
    ENSURE(fd == 4 && o == 0 && w == SEEK_SET, "copy: from the beginning");
    g_seek = 1;
    return 0;
}
int
open_as_user(const char *p, uid_t u, gid_t g, int flags, ...)
{
    ENSURE(!g_open && !is_final(p) && is_temp(p), "copy: written to a temporary file beside the final one");
    ENSURE((flags & O_CREAT) && (flags & O_TRUNC) && (flags & (O_WRONLY | O_RDWR)), "copy: from scratch");
    ENSURE(u == (asuid == rootuid ? rootuid : fcrontab_uid) && g == fcrontab_gid, "copy: its owner");
    if (nd_bool()) { g_fail = 1; if (nd_bool()) g_temp = PARTIAL; return -1; }
    g_temp = PARTIAL;
    g_open = 1;
    return 5;
}
int fv_fchown(int fd, uid_t u, gid_t g) { ENSURE(fd == 5 && g_open, "copy: fd"); if (nd_bool()) { g_fail = 1; return -1; } g_chown = u == rootuid; return 0; }
int fv_fchmod(int fd, mode_t m) { ENSURE(fd == 5 && g_open && !(m & 077), "copy: the fcrontab of root is private"); if (nd_bool()) { g_fail = 1; return -1; } g_chmod = 1; return 0; }
ssize_t
fv_read(int fd, void *b, size_t n)
{
    ssize_t r = nd_range(-1, n < 100000 ? (long)n : 100000);
    ENSURE(fd == 4 && g_seek, "copy: reads the source from its start");
    ENSURE(!g_pend, "copy: everything that was read is written before the next read");
    g_reads++;
    REQUIRE(r <= 0 || g_reads < NREAD);
    g_buf = b;
    g_nb = r;
    if (r < 0) { g_fail = 1; g_rd_fail = 1; }
    else if (r == 0)
        g_eof = 1;
    else {
        g_pend = 1;
        ((char *)b)[0] = 1;
        ((char *)b)[r - 1] = 2;
    }
    return r;
}
ssize_t
fv_write(int fd, const void *b, size_t n)
{
    ssize_t r = nd_range(-1, (long)n);
    ENSURE(fd == 5 && g_open && g_pend, "copy: writes to the temporary file");
    ENSURE(b == g_buf && (ssize_t)n == g_nb, "copy: writes what was read");
    if (r < (ssize_t)n) { g_fail = 1; return r; }
    g_pend = 0;
    return r;
}
int xclose(int *fd) { ENSURE(*fd == 5 || *fd == -1, "copy: closes its file"); if (*fd == 5) g_open = 0; *fd = -1; return 0; }
int xclose_check(int *fd, const char *d) { (void)d; return xclose(fd); }
int
remove_as_user(const char *p, uid_t u, gid_t g)
{
    (void)u; (void)g;
    ENSURE(!is_final(p) && is_temp(p), "copy: removes nothing but its temporary file");
    g_temp = NONE;
    return 0;
}
int
rename_as_user(const char *a, const char *b, uid_t u, gid_t g)
{
    (void)u; (void)g;
    ENSURE(!g_open && !is_final(a) && is_temp(a) && is_final(b), "copy: the temporary file becomes the source");
    ENSURE(g_eof && !g_pend && !g_rd_fail && !g_fail, "copy: only a complete copy replaces the source");
    ENSURE(IMPLIES(asuid == rootuid, g_chown && g_chmod), "copy: the fcrontab of root belongs to root");
    if (nd_bool()) { g_fail = 1; return -1; }
    g_final = NEW;
    return 0;
}
void
harness(void)
{
    int i, n, rc;
    memset(g_path, 0, sizeof g_path); memset(g_tmp, 0, sizeof g_tmp);
    g_temp = NONE; g_final0 = g_final = nd_bool() ? OLD : NONE;
    g_open = g_fail = g_reads = g_eof = g_rd_fail = g_seek = g_chown = g_chmod = g_pend = g_tset = 0;
    rootuid = 0; asuid = (uid_t)nd_range(0, 2); fcrontab_uid = 1; fcrontab_gid = 9; useruid = 2;
    n = (int)nd_range(1, 7);
    for (i = 0; i < n; i++)
        g_path[i] = (char)nd_range(1, 126);
    COVER(n == 7, "long name");
    rc = copy_src(4, g_path);
    COVER(rc == OK && g_reads == 3, "three reads");
    ENSURE(rc == OK || rc == ERR, "copy: result");
    ENSURE(!g_open, "copy: closed");
    ENSURE((rc == OK) == (g_final == NEW), "copy: success means the new source is there");
    ENSURE(IMPLIES(rc != OK, g_final == g_final0), "copy: a failure keeps the old source");
    ENSURE(IMPLIES(!g_fail, rc == OK), "copy: succeeds when nothing fails");
}
