/* allow.c. OP: 0 is_allowed (in_file by contract), 1 in_file, 2 remove_blanks, 3 get_word */
#include "fv.h"
#include <errno.h>
#include <stdio.h>
#include <ctype.h>
#include <pwd.h>
#include <sys/stat.h>
#include <unistd.h>
#undef isspace
#undef isalnum
#undef isdigit
#undef isalpha
#define isspace fv_isspace
#define isalnum fv_isalnum
static int fv_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int fv_isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
#define getpwnam fv_getpwnam
#define fopen fv_fopen
#define fgets fv_fgets
struct passwd *fv_getpwnam(const char *);
FILE *fv_fopen(const char *, const char *);
char *fv_fgets(char *, int, FILE *);
#include "allow.c"
#undef getpwnam
#undef fopen
#undef fgets
#define FV_OWN_DIE
#include "stubs_log.h"
static int g_die_ok;
void die(char *f, ...) { (void)f; ENSURE(g_die_ok, "allow: stops only on an error"); FV_STOP(); }
void die_e(char *f, ...) { (void)f; ENSURE(g_die_ok, "allow: stops only on an error"); FV_STOP(); }
#ifdef WITH_AUDIT
int audit_open(void) { return 3; }
int audit_log_user_message(int a, int t, const char *m, const char *h, const char *ad, const char *tty, int r)
{ (void)a; (void)t; (void)m; (void)h; (void)ad; (void)tty; (void)r; return 0; }
#endif
int xclose_check(int *fd, const char *d) { (void)d; *fd = -1; return 0; }
char *fcronallow = "A", *fcrondeny = "D", *fcronconf, *fcrontabs;
static int g_in[2], g_exists, g_asked;
static char g_user[] = "ann";
struct passwd *
fv_getpwnam(const char *u)
{
    static struct passwd p;
    ENSURE(u == g_user, "allow: looks the user up");
    return g_exists ? &p : NULL;
}
#if OP != 2 && OP != 3
int
contract_in_file(char *s, char *f)
{
    ENSURE(s == g_user && (f == fcronallow || f == fcrondeny), "allow: looks for the user in the two files");
    g_asked |= f == fcronallow ? 1 : 2;
    return g_in[f == fcrondeny];
}
#endif
#ifndef LN
#define LN 7
#endif
#define NL 2
static char L0[LN + 1], L1[LN + 1], U[4], *const LINE[NL] = {L0, L1};
static int g_len[NL], g_n, g_pos, g_mode, g_closed, g_opened;
FILE *
fv_fopen(const char *n, const char *m)
{
    static FILE f;
    ENSURE(m[0] == 'r' && m[1] == 0 && n == fcronallow, "allow: opens the file for reading");
    errno = g_mode == 0 ? 0 : g_mode == 1 ? ENOENT : (int)nd_range(1, 130);
    REQUIRE(g_mode < 2 || errno != ENOENT);
    g_opened = g_mode == 0;
    return g_mode == 0 ? &f : NULL;
}
char *
fv_fgets(char *b, int n, FILE *f)
{
    int i;
    (void)f;
    ENSURE(n > LN && !g_closed && g_opened, "allow: reads the file");
    if (g_pos >= g_n)
        return NULL;
    for (i = 0; i <= LN; i++)
        b[i] = LINE[g_pos][i];
    g_pos++;
    return b;
}
int xfclose_check(FILE **f, const char *d) { (void)d; ENSURE(!g_closed, "allow: closed once"); g_closed = 1; *f = NULL; return 0; }
#include "blanks_spec.h"
#if OP == 2 || OP == 3
#undef debug
#include "subs.c"
#elif OP == 1
/* contract of remove_blanks (discharged by job remove_blanks) */
int
remove_blanks(char *s)
{
    int n = spec_trim(s);
    s[n] = 0;
    return n;
}
#else
int remove_blanks(char *s) { (void)s; return 0; }
#endif
/* does this line, without surrounding blanks, say w */
static int
says(const char *l, const char *w)
{
    int i = 0, j, n;
    while (l[i] == ' ' || l[i] == '\t')
        i++;
    if (l[i] == '#' || l[i] == 0)
        return 0;
    n = i + spec_trim(l + i);
    for (j = 0; i + j < n; j++)
        if (w[j] == 0 || w[j] != l[i + j])
            return 0;
    return w[j] == 0;
}
void
harness(void)
{
#if OP == 0
    int r, e, a, d;
    a = g_in[0] = (int)nd_range(-1, 2);
    d = g_in[1] = (int)nd_range(-1, 2);
    g_exists = nd_bool();
    g_asked = 0;
    r = is_allowed(g_user);
    ENSURE(r == 0 || r == 1, "is_allowed: yes or no");
    /* fcron.deny takes precedence (a name in fcron.allow against "all" in fcron.deny is
     * left open); a name or "all" in fcron.allow, or no fcron.allow, allows */
    e = g_exists && d <= 0 && (a > 0 || a == -1);
    ENSURE((a == 1 && d == 2) || r == e, "is_allowed: the rules of fcron.allow and fcron.deny");
    ENSURE(g_exists || r == 0, "is_allowed: an unknown user is not allowed");
    ENSURE(!g_exists || g_asked == 3, "is_allowed: looks at both files");
    COVER(r && a == 2, "all");
    COVER(!r && a == 1 && g_exists, "denied");
#elif OP == 1
    int i, k, r, first = 0;
    g_n = (int)nd_range(0, NL);
    g_pos = g_closed = g_opened = 0;
    g_mode = (int)nd_range(0, 2);
    g_die_ok = g_mode == 2;
    for (i = 0; i < NL; i++) {
        g_len[i] = (int)nd_range(1, LN);
        for (k = 0; k < LN; k++) {
            LINE[i][k] = (char)nd_range(1, 127);
            /* a newline ends the line */
            if (k >= g_len[i] || (k > 0 && (LINE[i][k - 1] == '\n' || LINE[i][k - 1] == 0)))
                LINE[i][k] = 0;
        }
        LINE[i][LN] = 0;
    }
    for (k = 0; k < 3; k++)
        U[k] = (char)nd_range(33, 126);
    U[nd_range(1, 3)] = 0;
    U[3] = 0;
    REQUIRE(U[0] != '#');
    r = in_file(U, fcronallow);
    for (i = 0; i < g_n && first == 0; i++)
        first = says(LINE[i], U) ? 1 : says(LINE[i], "all") ? 2 : 0;
    ENSURE(r == (g_mode == 1 ? -1 : first), "in_file: whether the file lists the user or all");
    ENSURE(g_opened == g_closed, "in_file: the file is closed");
    COVER(r == 1 && g_pos == NL && LINE[NL - 1][0] == ' ' && U[1] != 0, "second line");
    COVER(r == 2, "all");
#elif OP == 2
    char b[LN + 3], c[LN + 3];
    int i, n, r;
    b[0] = (char)nd_range(-128, 127);
    for (i = 1; i < LN + 3; i++)
        b[i] = (char)nd_range(-128, 127);
    b[LN + 2] = 0;
    memcpy(c, b, sizeof b);
    n = spec_trim(b + 1);
    r = remove_blanks(b + 1);
    ENSURE(r == n && b[1 + n] == 0, "remove_blanks: ends the string after its last character that is not a blank");
    i = (int)nd_range(0, LN + 2);
    ENSURE(i == 1 + n || b[i] == c[i], "remove_blanks: nothing else is changed");
    COVER(n == 0 && c[1] == '\n' && c[2] == ' ', "only blanks");
#else
    char b[LN + 3], *p = b;
    int i, n, s = 0;
    for (i = 0; i < LN + 3; i++)
        b[i] = (char)nd_range(0, 127);
    b[LN + 2] = 0;
    while (b[s] == ' ' || b[s] == '\t')
        s++;
    for (n = 0; (b[s + n] >= '0' && b[s + n] <= '9') || (b[s + n] >= 'A' && b[s + n] <= 'Z')
         || (b[s + n] >= 'a' && b[s + n] <= 'z') || b[s + n] == '_' || b[s + n] == '-'; n++) ;
    i = get_word(&p);
    ENSURE(p == b + s && i == n, "get_word: the first word and its length");
    COVER(n == 5 && s == 2, "a word");
#endif
}
