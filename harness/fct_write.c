/* write_file(): the binary fcrontab follows the source, and a failure is reported */
#include "fct_env.h"
int fv_snprintf(char *b, size_t n, const char *f, ...);
#define snprintf fv_snprintf
#include "fcrontab.c"
#undef snprintf
#include "stubs_log.h"
#include "fmt_small.h"
static int g_copy, g_copy_rc, g_save, g_save_rc, g_rm, g_rm0, g_seq;
static cf_t F;
static cl_t L;
static int eq(const char *a, const char *b) { int i; for (i = 0; i < 12; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
int
contract_copy_src(int from, const char *dest)
{
    ENSURE(from == 4 && eq(dest, "bob.orig"), "write: the source of this user");
    ENSURE(!g_save, "write: the source first");
    g_copy++;
    return g_copy_rc = nd_bool() ? OK : ERR;
}
int
save_file(char *path)
{
    ENSURE(g_copy == 1 && g_copy_rc == OK, "write: nothing is installed when the source could not be written");
    ENSURE(eq(path, "new.bob"), "write: the new binary fcrontab of this user");
    g_save++;
    return g_save_rc = nd_bool() ? OK : ERR;
}
int
contract_remove_fcrontab(char rm)
{
    ENSURE(!rm, "write: the source is kept");
    if (g_copy) g_rm++; else g_rm0++;
    return nd_bool() ? OK : ENOENT;
}
void
harness(void)
{
    int rc;
    g_copy = g_copy_rc = g_save = g_save_rc = g_rm = g_rm0 = 0;
    memset(&F, 0, sizeof F); memset(&L, 0, sizeof L);
    file_base = &F;
    F.cf_line_base = nd_bool() ? &L : NULL;
    user = "bob";
    ignore_prev = (char)nd_range(0, 1);
    rc = write_file(4);
    COVER(g_save && rc == ERR, "binary not written");
    ENSURE(g_copy == 1, "write: writes the source");
    ENSURE(rc == (g_copy_rc == OK && IMPLIES(g_save, g_save_rc == OK) ? OK : ERR), "write: a failure is reported");
    ENSURE(g_save == (g_copy_rc == OK && F.cf_line_base), "write: a file with lines is installed");
    ENSURE(g_rm == (g_copy_rc == OK && !F.cf_line_base), "write: a file without any line removes the old one");
    ENSURE(IMPLIES(g_rm0, ignore_prev == 1), "write: the old version is dropped first only on request");
}
