/* save_file_safe() and save_one_file(): at every instant a complete version of the file is
 * on the disk. Ghost file system: what the final name and the temporary name hold. */
#define FV_OWN_fs
#include "save_env.h"
int fv_fchown(int fd, uid_t u, gid_t g);
#define fchown fv_fchown
#include "save.c"
#undef fchown
#include "stubs_log.h"
#include "save_stubs.h"
#ifndef MAXL
#define MAXL 6
#define MINL 0
#endif

enum { NONE, OLD, PARTIAL, NEW };
static int g_final, g_temp, g_temp_owned, g_fd_final, g_open, g_nopen, g_ren, g_ren_fail, g_any_fail, g_chown, g_wrote, g_final0;
static char g_path[MAXL + 1];
static const char *g_tname;
static char g_tmp[MAXL + 16];
static int g_tset;
static cf_t F;

static int
is_final(const char *p)
{
    int i;
    for (i = 0; i <= MAXL; i++) {
        if (p[i] != g_path[i])
            return 0;
        if (!p[i])
            return 1;
    }
    return 0;
}
/* every other name is the temporary one, which must be the same each time, not longer than
 * the final one and its suffix, and in the same directory */
static int
is_temp(const char *p)
{
    int i, n = 0;
    for (i = 0; i < MAXL + 15; i++) {
        if (!g_tset)
            g_tmp[i] = p[i];
        else if (g_tmp[i] != p[i])
            return 0;
        if (!p[i])
            break;
        n++;
    }
    if (g_tset)
        return 1;
    g_tset = 1;
    if (p[i])
        return 0;
    for (i = 0; i < MAXL; i++)
        if (g_path[i] == '/' && i < n && p[i] != '/')
            return 0;
    for (i = 0; i < MAXL + 15; i++)
        if (i < n && p[i] == '/' && (i >= MAXL || g_path[i] != '/'))
            return 0;
    return 1;
}
#define INV() ENSURE(g_final == g_final0 || g_final == NEW || (g_temp == NEW && g_ren_fail), \
    "safe: the file, its old version or the complete temporary copy is on the disk")
int
open_as_user(const char *p, uid_t u, gid_t g, int flags, ...)
{
    int f = is_final(p);
    ENSURE(!g_open, "safe: one file at a time");
    ENSURE(u == 7 && g == 8, "safe: opened as the owner");
    ENSURE((flags & O_CREAT) && (flags & (O_WRONLY | O_RDWR)), "safe: open for writing");
    if (!f)
        ENSURE(is_temp(p), "safe: temporary file beside the final one");
    ENSURE(!f || g_ren_fail, "safe: the final file is only written when it could not be renamed");
    g_nopen++;
    if (nd_bool()) {
        g_any_fail = 1;
        /* may have truncated or created it before failing */
        if (nd_bool()) { if (f) g_final = PARTIAL; else g_temp = PARTIAL; }
        INV();
        return -1;
    }
    if (f) g_final = PARTIAL; else g_temp = PARTIAL;
    g_open = 1;
    g_fd_final = f;
    g_chown = g_wrote = 0;
    INV();
    return 5;
}
int
fv_fchown(int fd, uid_t u, gid_t g)
{
    ENSURE(fd == 5 && g_open && u == 7 && g == 8, "safe: given to its owner");
    if (nd_bool()) { g_any_fail = 1; return -1; }
    g_chown = 1;
    return 0;
}
int
contract_write_file_to_disk(int fd, struct cf_t *f, time_t t)
{
    ENSURE(fd == 5 && g_open && f == &F && t == 1234 && !g_wrote, "safe: writes this file once");
    g_wrote = 1;
    if (nd_bool()) { g_any_fail = 1; INV(); return ERR; }
    if (g_fd_final) g_final = NEW; else g_temp = NEW;
    INV();
    return OK;
}
int
xclose(int *fd)
{
    ENSURE(*fd == 5 && g_open, "safe: closes the file it opened");
    g_open = 0;
    *fd = -1;
    return nd_bool() ? -1 : 0;
}
int
remove_as_user(const char *p, uid_t u, gid_t g)
{
    ENSURE(u == 7 && g == 8, "safe: removed as the owner");
    if (is_final(p)) {
        ENSURE(g_final == PARTIAL, "safe: only an incomplete file is removed");
        g_final = NONE;
    }
    else {
        ENSURE(is_temp(p) && !g_ren_fail, "safe: only an incomplete temporary file is removed");
        g_temp = NONE;
    }
    INV();
    return nd_bool() ? -1 : 0;
}
int
rename_as_user(const char *a, const char *b, uid_t u, gid_t g)
{
    ENSURE(!g_open && !is_final(a) && is_temp(a) && is_final(b), "safe: the temporary file becomes the final one");
    ENSURE(u == 7 && g == 8, "safe: renamed as the owner");
    ENSURE(g_temp == NEW && g_chown, "safe: only a complete file which belongs to its owner is renamed");
    g_ren++;
    if (nd_bool()) { g_ren_fail = 1; g_any_fail = 1; return -1; }
    g_final = NEW;
    g_temp = NONE;
    return 0;
}
void
harness(void)
{
    int i, n, rc;
    memset(g_path, 0, sizeof g_path); memset(g_tmp, 0, sizeof g_tmp); memset(&F, 0, sizeof F);
    g_temp = NONE; g_final0 = g_final = nd_bool() ? OLD : NONE;
    g_open = g_nopen = g_ren = g_ren_fail = g_any_fail = g_chown = g_wrote = g_tset = g_fd_final = 0;
    F.cf_user = "u";
    n = (int)nd_range(MINL, MAXL);
    for (i = 0; i < n; i++) {
#if MAXL > 20
        g_path[i] = 'a';
#else
        g_path[i] = (char)nd_range(1, 126);
#endif
    }
    COVER(n == MAXL, "long name");
    rc = save_file_safe(&F, g_path, "fcron", 7, 8, 1234);
    COVER(rc == OK && g_ren_fail, "written directly after a failed rename");
    COVER(rc == ERR && g_ren_fail, "nothing but the temporary file");
    INV();
    ENSURE(!g_open, "safe: closed");
    ENSURE(IMPLIES(rc == OK, g_final == NEW), "safe: success means the new version is there");
    ENSURE(rc == OK || rc == ERR, "safe: result");
    ENSURE(IMPLIES(!g_any_fail, rc == OK && g_ren == 1 && g_temp == NONE), "safe: without a failure the file is replaced");
    ENSURE(IMPLIES(rc == ERR && !g_ren_fail, g_final == g_final0), "safe: a failure keeps the previous version");
}
