/* read_conf(): fcron.conf (get_word, remove_blanks, format_maildisplayname by contract) */
#include "fv.h"
#include <errno.h>
#include <stdio.h>
#include <ctype.h>
#include <grp.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string.h>
#undef isspace
#define isspace fv_isspace
static int fv_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
FILE *fv_fopen(const char *, const char *);
char *fv_fgets(char *, int, FILE *);
struct group *fv_getgrnam(const char *);
int fv_fstat(int, struct stat *);
#define fopen fv_fopen
#define fgets fv_fgets
#define getgrnam fv_getgrnam
#define fstat fv_fstat
#undef fileno
#define fileno(f) 7
#define free(p) ((void)(p))
#include "fcronconf.c"
#undef fopen
#undef fgets
#undef getgrnam
#undef fstat
#undef free
#define FV_OWN_DIE
#include "stubs_log.h"
#include "blanks_spec.h"
static int g_mode, g_grp, g_c, g_pos, g_n, g_open, g_init, g_sets, g_fmt;
static struct stat g_st;
static struct group g_gr;
static int g_stat_rc;
uid_t rootuid; gid_t rootgid;
static int die_ok(void) { return (g_mode == 1 && g_c) || (g_mode == 0 && !g_grp); }
void die(char *f, ...) { (void)f; ENSURE(die_ok(), "fcron.conf: stops only without the file of option -c or without group"); FV_STOP(); }
void die_e(char *f, ...) { (void)f; ENSURE(die_ok(), "fcron.conf: stops only without the file of option -c or without group"); FV_STOP(); }
#define LN 24
static char LINE[LN + 1], VAL[LN + 1], FMT[2] = "F";
/* one arbitrary character of the value which is set */
static int g_at;
static char g_exp;
static void value(const char *s) { if (g_at >= 0) ENSURE(s[g_at] == g_exp, "fcron.conf: its value is what follows, without blanks"); }
char *
strdup2(const char *s)
{
    if (g_init > 0) { g_init--; return (char *)s; }
    g_sets++;
    if (g_fmt) { ENSURE(s == FMT, "fcron.conf: the formatted name is kept"); return FMT; }
    value(s);
    return VAL;
}
FILE *
fv_fopen(const char *n, const char *m)
{
    static FILE f;
    ENSURE(n == fcronconf && m[0] == 'r' && m[1] == 0, "fcron.conf: opened for reading");
    errno = g_mode == 1 ? ENOENT : EACCES;
    g_init = 0;
    g_open = g_mode == 0;
    return g_mode == 0 ? &f : NULL;
}
char *
fv_fgets(char *b, int n, FILE *f)
{
    int i;
    (void)f;
    ENSURE(g_open && n > LN, "fcron.conf: reads the file");
    if (g_pos++ >= 1 || !g_n)
        return NULL;
    for (i = 0; i <= LN; i++)
        b[i] = LINE[i];
    return b;
}
struct group *fv_getgrnam(const char *n) { ENSURE(n[0] == GROUPNAME[0], "fcron.conf: group of fcron"); return g_grp ? &g_gr : NULL; }
int fv_fstat(int fd, struct stat *s) { ENSURE(fd == 7, "fcron.conf: checks the opened file"); if (g_stat_rc == 0) *s = g_st; return g_stat_rc; }
int xfclose_check(FILE **f, const char *d) { (void)d; ENSURE(g_open, "fcron.conf: closed once"); g_open = 0; *f = NULL; return 0; }
/* contracts discharged by the jobs remove_blanks and get_word */
int remove_blanks(char *s) { int n = spec_trim(s); s[n] = 0; return n; }
static int wch(char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || c == '-'; }
int
get_word(char **p)
{
    int n = 0;
    Skip_blanks(*p);
    while (wch((*p)[n]))
        n++;
    return n;
}
char *
format_maildisplayname(char *s)
{
    g_fmt = 1;
    value(s);
    return FMT;
}
#define NV 10
static const char *const NAMES[NV] = {"fcrontabs", "pidfile", "suspendfile", "fifofile", "fcronallow", "fcrondeny", "shell", "sendmail", "editor", "maildisplayname"};
static char **const VARS[NV] = {&fcrontabs, &pidfile, &suspendfile, &fifofile, &fcronallow, &fcrondeny, &shell, &sendmail, &editor, &maildisplayname};
static char *g_def[NV];
static int
eqn(const char *a, const char *b, int n)
{
    int i;
    for (i = 0; i < n; i++)
        if (b[i] == 0 || a[i] != b[i])
            return 0;
    return b[i] == 0;
}
static void
run(int W, int S)
{
    int i, k, n, s, w, v, e, which = -1, ok;
    static char CONF[] = "C";
    g_mode = (int)nd_range(0, 2);
    g_c = nd_bool();
    g_grp = nd_bool();
    g_gr.gr_gid = 9;
    g_pos = g_open = g_sets = g_fmt = 0;
    g_n = (int)nd_range(0, 1);
    g_init = 20;
    rootuid = 0;
    memset(&g_st, 0, sizeof g_st);
    g_st.st_uid = (uid_t)nd_range(0, 2);
    g_st.st_gid = (gid_t)nd_range(8, 10);
    g_st.st_mode = S_IFREG | (mode_t)nd_range(0, 0777);
    g_stat_rc = (int)nd_range(-1, 0);
    debug_opt = 0;
    /* S blanks, the beginning of a name, then arbitrary characters */
    for (i = 0; i < S; i++)
        LINE[i] = i ? '\t' : ' ';
    n = S;
    if (W < NV)
        for (k = 0; NAMES[W][k + 1]; k++)
            LINE[n++] = NAMES[W][k];
    for (i = 0; i < 7; i++) {
        LINE[n + i] = (char)nd_range(0, 127);
        REQUIRE(i == 0 || (LINE[n + i - 1] != 0 && LINE[n + i - 1] != '\n') || LINE[n + i] == 0);
    }
    REQUIRE(W < NV || S == 0 || (LINE[n] != ' ' && LINE[n] != '\t'));
    LINE[n + 7] = 0;
    VAL[0] = 0;
    fcronconf = g_c ? CONF : NULL;
    for (i = 0; i < NV; i++) *VARS[i] = NULL;
    init_conf();
    for (i = 0; i < NV; i++) { g_def[i] = *VARS[i]; ENSURE(g_def[i] != NULL, "fcron.conf: every variable has a default"); *VARS[i] = NULL; }
    fcronconf = g_c ? CONF : NULL;
    g_init = 20;
    /* the line, as the documentation of fcron.conf reads it */
    for (s = 0; LINE[s] == ' ' || LINE[s] == '\t'; s++) ;
    for (w = s; wch(LINE[w]); w++) ;
    for (v = w; spec_blank(LINE[v]); v++) ;
    e = s + spec_trim(LINE + s);
    if (v > e) v = e;
    if (v < e && LINE[v] == '=') v++;
    for (; v < e && spec_blank(LINE[v]); v++) ;
    for (i = 0; i < NV; i++)
        if (eqn(LINE + s, NAMES[i], w - s))
            which = i;
    g_at = v <= e ? (int)nd_range(0, 25) : -1;
    if (g_at > e - v) g_at = -1;
    g_exp = g_at >= 0 && v + g_at < e ? LINE[v + g_at] : 0;
    read_conf();
    ENSURE(!g_open, "fcron.conf: closed");
    ENSURE(!die_ok(), "fcron.conf: a file given by option -c must exist");
    ok = g_mode == 0 && g_n && g_stat_rc == 0 && g_st.st_uid == 0 && g_st.st_gid == 9 && !(g_st.st_mode & 022);
    for (i = 0; i < NV; i++) {
        if (ok && which == i) {
            ENSURE(*VARS[i] == (i == 9 ? FMT : VAL), "fcron.conf: the variable is set");
        }
        else
            ENSURE(*VARS[i] == g_def[i], "fcron.conf: no other variable changes, and an unsafe file is ignored");
    }
    COVER(W >= NV || (ok && which == W && v + 1 < e), "set");
    COVER(W != 0 || (ok && which == 0 && v > w + 2), "with blanks around =");
}
void
harness(void)
{
    run(WHICH, BL);
}
