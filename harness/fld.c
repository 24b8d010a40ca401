/* reading the time fields of a fcrontab line (fileconf.c)
 * OP 2 to 5: the lines, see below
 * OP 0: get_num, 1: read_field (numbers by the contract of get_num), 6: get_time */
#include "fv.h"
#if OP == 1 && defined(CUT) && defined(FV_CBMC)
#define FCRON_VERIFY
static void fv_cut(int l, unsigned char *ary, int start, int step, int *i);
#define FV_LOOP_fld_range(a, st, s, i) fv_cut(0, a, st, s, i)
#define FV_LOOP_fld_end(a, st, s, i) fv_cut(1, a, st, s, i)
#define FV_LOOP_fld_begin(a, st, s, i) fv_cut(2, a, st, s, i)
#endif
#include <ctype.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#undef isdigit
#undef isalpha
#undef isalnum
#undef tolower
#undef isspace
static int fv_isdigit(int c) { return c >= '0' && c <= '9'; }
static int fv_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int fv_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int fv_isalnum(int c) { return fv_isdigit(c) || fv_isalpha(c); }
#define isdigit fv_isdigit
#define isalpha fv_isalpha
#define isalnum fv_isalnum
#define isspace fv_isspace
static int fv_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#define tolower fv_lower
#define fprintf(...) ((void)0)
#if OP >= 2 && OP <= 5
#define free fv_free
void fv_free(void *);
#endif
#include "fileconf.c"
#undef fprintf
#undef free
#include "stubs_log.h"

#if OP == 0
#define L NUML
static char T[L + 1], T0[L + 1];
static const char *SM[] = { "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec" };
static const char *SD[] = { "sun", "mon", "tue", "wed", "thu", "fri", "sat" };
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void
harness(void)
{
    int i, n, v, ok, r, num, max, dec, nm, k;
    char *p;
    for (i = 0; i < L; i++)
        T[i] = T0[i] = (char)nd_u8();
    T[L] = T0[L] = 0;
    nm = (int)nd_range(0, 2);
    dec = nm ? 0 : (int)nd_range(0, 1);
    max = nm == 1 ? 12 : nm == 2 ? 7 : (int)nd_range(1, 65535);
    need_correction = 0;
    debug_opt = 0;
    num = nd_int();
    /* what is written there */
    n = v = 0;
    ok = 0;
    if (isalpha(T0[0])) {
        if (nm && T0[1] && T0[2])
            for (i = 0; i < (nm == 1 ? 12 : 7); i++) {
                const char *s = nm == 1 ? SM[i] : SD[i];
                if (low(T0[0]) == s[0] && low(T0[1]) == s[1] && low(T0[2]) == s[2]) {
                    ok = 1; n = 3; v = nm == 1 ? i + 1 : i;
                }
            }
    }
    else {
        int nd = 0, nf = 0;
        for (k = 0; k < L && isdigit(T0[k]); k++) { v = v * 10 + T0[k] - '0'; nd++; }
        ok = nd > 0;
        if (T0[k] == '.') {
            for (k++; k < L && isdigit(T0[k]); k++) {
                if (nf < dec) v = v * 10 + T0[k] - '0';
                else if (nf == dec) v += T0[k] >= '5';
                nf++;
            }
            ok = nf > 0 && T0[k] != '.';
        }
        else if (dec)
            v = v * 10;
        n = k;
        ok = ok && v <= max;
    }
    p = get_num(T, &num, max, (short)dec, nm == 1 ? mons_ary : nm == 2 ? dows_ary : NULL);
    r = p != NULL;
    COVER(r && nm == 1 && num == 12, "December");
    COVER(r && dec == 1 && n == 4, "decimals");
    ENSURE(r == ok, "number: taken exactly when it is one, and not more than the maximum");
    if (ok)
        ENSURE(p == T + n && num == v && need_correction == 0, "number: its value and its end");
    else
        ENSURE(need_correction, "number: a wrong one is reported");
    i = (int)nd_range(0, L);
    ENSURE(T[i] == T0[i] || (nm && isalpha(T0[0]) && i < 3 && T[i] == low(T0[i])), "number: the text stays");
}
#elif OP == 1
#ifndef SHAPES
#define SHAPES (t == k % 4 || k == 12)
#endif
#ifndef NEL
#define NEL 1
#endif
#define NRM 2
#define TL (NEL * (2 + 2 + 2 + 2 * NRM) + 5)
static char T[TL + 1];
static int V[TL + 1], g_bad;
static const char **g_names;
static int g_e2;        /* where the second element starts */
static void second(void);
char *
contract_get_num(char *p, int *num, int max, short decimal, const char **names)
{
    int o = (int)(p - T);
    ENSURE(o >= 0 && o <= TL && max == MAX && decimal == 0 && names == g_names, "field: numbers up to the maximum of the field, with its names");
    *num = 0;
    if (*p != '#') {
        need_correction = 1;
        return NULL;
    }
    if (o == g_e2)
        second();
    *num = V[o];
    return p + 1;
}
static int form[NEL], hs[NEL], nrm[NEL], va[NEL], vb[NEL], vs[NEL], vr[NEL][NRM];
#define ADJ(x) (MAX == 12 ? (x) - 1 : (x))
typedef unsigned char u8;
#define LAST (MAX == 12 ? 11 : MAX)
/* number of values of the field (0 and 7 are the same day) */
#define PERIOD (MAX == 59 ? 60 : MAX == 23 ? 24 : MAX == 31 ? 31 : MAX == 12 ? 12 : 7)
static int
in(int e, int w)
{
    int a, b, s, d;
    if (form[e] == 1)
        return w == ADJ(va[e]);
    if (form[e] == 0) { a = 0; b = MAX == 12 ? 11 : MAX; }
    else { a = ADJ(va[e]); b = ADJ(vb[e]); }
    s = hs[e] ? vs[e] : 1;
    /* a, a + s, a + 2s... up to b, over the end of the field if b is before a */
    if (a <= b)
        return w >= a && w <= b && (u8)(w - a) % (u8)s == 0;
    if (w >= a) d = w - a;
    else if (w <= b && !(w == 0 && (MAX == 31 || MAX == 7))) d = w - a + PERIOD;
    else return 0;
    return (u8)d % (u8)s == 0;
}
static int
out(int e, int w)
{
    int k;
    for (k = 0; k < NRM; k++)
        if (k < nrm[e] && (w == ADJ(vr[e][k]) || (MAX == 7 && (w == 0 || w == 7) && (vr[e][k] == 0 || vr[e][k] == 7))))
            return 1;
    return 0;
}
static bitstr_t A[8], A0[8];
static int
expected(int w)
{
    int e, x = (A0[w / 8] >> (w % 8)) & 1;
    for (e = 0; e < NEL; e++) {
        x = x || in(e, w);
        if (out(e, w)) x = 0;
    }
    return x;
}
static int g_n;
static void put(char c) { T[g_n++] = c; }
static void num(int v) { V[g_n] = v; put('#'); }
static int g_w;         /* the watched value */
#ifdef FCRON_VERIFY
/* the loops which set the values of a range, at an arbitrary iteration */
static int g_seen[3], g_i0[3], g_stop;
static int g_at[3], g_at0[3], g_at7[3];
static int bit(bitstr_t *a, int w) { return (a[w / 8] >> (w % 8)) & 1; }
static int
inv(int l, bitstr_t *ary, int s, int i, int w, int at)
{
    return bit(ary, w) == (at || (w >= g_i0[l] && w < i && (u8)(w - g_i0[l]) % (u8)s == 0));
}
static int
all_inv(int l, bitstr_t *ary, int s, int i)
{
    return i >= g_i0[l] && i <= 2 * MAX + 1 && (u8)(i - g_i0[l]) % (u8)s == 0
        && inv(l, ary, s, i, g_w, g_at[l]) && (MAX != 7 || (inv(l, ary, s, i, 0, g_at0[l]) && inv(l, ary, s, i, 7, g_at7[l])));
}
static void
fv_cut(int l, bitstr_t *ary, int start, int step, int *i)
{
    int k;
    ENSURE(step >= 1 && step <= MAX && ary == A && *i >= 0, "field: a step forward");
    if (g_seen[l]) {
        ENSURE(all_inv(l, ary, step, *i), "field: the values up to here are set");
        k = (int)nd_range(0, 7);
        if (k > LAST / 8)
            ENSURE(A[k] == 0x5a, "field: nothing is written after the array");
        FV_STOP();
    }
    g_seen[l] = 1;
    g_i0[l] = *i;
    g_at[l] = bit(ary, g_w);
    g_at0[l] = bit(ary, 0);
    g_at7[l] = bit(ary, 7);
    for (k = 0; k < 8; k++)
        if (k <= LAST / 8)
            ary[k] = nd_u8();
    *i = nd_int();
    REQUIRE(*i <= (l == 0 || l == 2 ? g_stop : LAST) && all_inv(l, ary, step, *i));
}
static void second(void) { g_seen[0] = g_seen[1] = g_seen[2] = 0; g_stop = ADJ(vb[NEL - 1]); }
#else
static void second(void) { }
#endif
/* the shape of the text is constant in every run, its values are arbitrary */
static void
run(int k, int k2, int term)
{
    int i, e, ok, nb, w, x;
    char *p;
    for (i = 0; i <= TL; i++) { T[i] = 0; V[i] = 0; }
    g_n = 0;
    g_e2 = -1;
    ok = 1;
    for (e = 0; e < NEL; e++) {
        int sh = e ? k2 : k;
        form[e] = sh == 12 ? 1 : sh / 6 == 1 ? 2 : 0;
        hs[e] = sh == 12 ? 0 : (sh / 3) % 2;
        nrm[e] = sh == 12 ? 0 : sh % 3;
        va[e] = (int)nd_range(0, MAX); vb[e] = (int)nd_range(0, MAX); vs[e] = (int)nd_range(0, MAX);
        if (e > 0) {
            put(',');
            g_e2 = g_n;
        }
        if (form[e] == 0) put('*');
        else num(va[e]);
        if (form[e] == 2) { put('-'); num(vb[e]); }
        if (hs[e]) { put('/'); num(vs[e]); ok = ok && vs[e] != 0; }
        ok = ok && !(MAX == 12 && ((form[e] && va[e] == 0) || (form[e] == 2 && vb[e] == 0)));
        for (i = 0; i < NRM; i++) {
            vr[e][i] = (int)nd_range(0, MAX);
            if (i < nrm[e]) { put('~'); num(vr[e][i]); ok = ok && !(MAX == 12 && vr[e][i] == 0); }
        }
    }
    nb = g_n;
    w = g_w = (int)nd_range(MAX == 31 ? 1 : 0, LAST);
#ifdef FCRON_VERIFY
    g_seen[0] = g_seen[1] = g_seen[2] = 0;
    g_stop = form[0] == 0 ? LAST : ADJ(vb[0]);
#endif
    if (term == 0) { put(' '); nb++; put(' '); nb++; put('x'); }
    if (term == 1) { put('\t'); nb++; put('x'); }
    if (term == 2) { put('x'); ok = 0; }
    p = read_field(T, A, MAX, g_names);
    if (term == 3 && form[NEL - 1] == 1)
        /* the line ends here: it has no command and is refused in any case */
        return;
    COVER(ok && term == 0, "a field");
    ENSURE((p != NULL) == ok, "field: taken exactly when it is one");
    i = (int)nd_range(0, 7);
    if (i > LAST / 8)
        ENSURE(A[i] == 0x5a, "field: nothing is written after the array");
    if (!ok)
        return;
    ENSURE(p == T + nb, "field: read up to the next one");
    x = expected(w);
    if (MAX == 7 && (w == 0 || w == 7))
        x = expected(0) || expected(7);
    ENSURE(((A[w / 8] >> (w % 8)) & 1) == x, "field: exactly the values written there are set");
}
void
harness(void)
{
    int i, k, t, sh, term;
    for (i = 0; i < 8; i++)
        A[i] = A0[i] = i < (MAX == 12 ? 2 : MAX / 8 + 1) ? nd_u8() : 0x5a;
    g_names = MAX == 12 ? mons_ary : MAX == 7 ? dows_ary : NULL;
    need_correction = 0;
    debug_opt = 0;
    sh = (int)nd_range(0, 12);
    term = (int)nd_range(0, 3);
    for (k = 0; k < 13; k++)
        for (t = 0; t < 4; t++)
            if (SHAPES && sh == k && term == t) {
                run(k, NEL > 1 ? K2 : 0, t);
                return;
            }
}
#elif OP >= 2 && OP <= 5
/* the lines of a fcrontab (2 read_arys, 3 read_period, 4 read_freq, 5 read_shortcut): every part
 * is read by its own function, here by its contract: it takes one character, or fails */
static char T[32];
static cf_t CF;
static cl_t CL, OLD;
static char SH[2];
static int g_pos, g_fail, g_dup, g_freed, g_cmd, g_user, g_opt, g_shf, g_k, g_nd, g_val, g_times;
static long g_first, g_freq;
static bitstr_t F[5][8];
static unsigned char O[OPTION_SIZE];
static unsigned short g_of;
static char *
next(char *p, const char *what)
{
    (void)what;
    ENSURE(!g_fail, "line: nothing is read after a mistake");
    ENSURE(p == T + g_pos, "line: the parts are read one after the other");
    if (nd_bool()) { g_fail = 1; need_correction = nd_bool(); return NULL; }
    /* it takes one character, then the blanks */
    g_pos += 2;
    return p + 2;
}
char *
contract_get_num(char *p, int *num, int max, short decimal, const char **names)
{
    ENSURE(OP == 2 && max == 65535 && decimal == 0 && names == NULL && g_k == 0 && g_opt == 0, "line: runfreq");
    g_nd++;
    *num = g_val = (int)nd_range(0, 65535);
    return next(p, "n");
}
char *
contract_read_opt(char *p, cl_t *cl)
{
    int i;
    ENSURE(cl == &CL && g_k == 0 && g_times == 0 && g_opt == 0, "line: options come first");
    g_opt++;
    for (i = 0; i < OPTION_SIZE; i++)
        CL.cl_option[i] = O[i] = nd_u8();
    if (OP == 2) CL.cl_runfreq = g_of = (unsigned short)nd_range(0, 65535);
    if (OP == 4 && nd_bool()) CL.cl_first = g_first = nd_range(0, 100);
    return next(p, "o");
}
#define AR(k) ((k) == 0 ? CL.cl_mins : (k) == 1 ? CL.cl_hrs : (k) == 2 ? CL.cl_days : (k) == 3 ? CL.cl_mons : CL.cl_dow)
char *
contract_read_field(char *p, bitstr_t *ary, int max, const char **names)
{
    static const int M[] = { 59, 23, 31, 12, 7 };
    int i, k = g_k++;
    ENSURE((OP == 2 || OP == 3) && k < 5, "line: five fields");
    ENSURE(ary == AR(k) && max == M[k] && names == (k == 3 ? mons_ary : k == 4 ? dows_ary : NULL), "line: minutes, hours, days, months, days of week");
    for (i = 0; i < (k == 3 ? 2 : M[k] / 8 + 1); i++)
        ary[i] = nd_u8();
    return next(p, "f");
}
char *
contract_get_time(char *p, time_t *t, int zero)
{
    int first = g_times == 0 && zero;
    ENSURE(OP == 4 && t == (first ? &CL.cl_first : (time_t *)&CL.cl_timefreq) && (first ? g_opt == 0 : !zero), "line: first delay, then period");
    g_times++;
    *t = nd_range(first ? 0 : 1, 1000);
    if (first) g_first = *t; else g_freq = *t;
    return next(p, "t");
}
char *
contract_check_username(char *p, cf_t *cf, cl_t *cl)
{
    ENSURE(cf == &CF && cl == &CL && p == T + g_pos && !g_fail, "line: a user name may follow");
    g_user++;
    if (nd_bool()) { g_pos += 2; return p + 2; }
    return p;
}
char *
contract_get_command(char *p)
{
    ENSURE(p == T + g_pos && !g_fail && g_user == 1, "line: the rest is the command");
    g_cmd++;
    SH[0] = nd_bool() ? 'c' : 0;
    SH[1] = 0;
    return SH;
}
cl_t *
dups_cl(cl_t *o)
{
    ENSURE(o == &default_line && !g_dup, "line: made from the defaults");
    g_dup++;
    CL = default_line;
    CL.cl_shell = NULL;
    return &CL;
}
void free_line(cl_t *cl) { ENSURE(cl == &CL && !g_freed && (CL.cl_shell == NULL || CL.cl_shell == SH), "line: freed once"); g_freed++; if (CL.cl_shell == SH) g_shf++; }
void
fv_free(void *p)
{
    if (p == SH) g_shf++;
    else { ENSURE(p == &CL && !g_freed, "line: freed once"); g_freed++; }
}
static int full(bitstr_t *a, int lo, int hi) { int i; for (i = lo; i <= hi; i++) if (!bit_test(a, i)) return 0; return 1; }
static int eqs(const char *a, const char *b) { int i; for (i = 0; i < 12; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
static void
line_test(int first, int second, const char *word)
{
    static const char *REST = "x x x x x x x x x x ";
    int i, r = 1, ok, w, n, opts, nf;
    (void)opts; (void)nf; (void)n; (void)word; (void)REST; (void)first;
    for (i = 0; i < 32; i++) T[i] = 0;
    g_fail = g_dup = g_freed = g_cmd = g_user = g_opt = g_shf = g_k = g_nd = g_val = g_times = 0;
    CF.cf_line_base = &OLD;
    need_correction = 0;
    debug_opt = 0;
    CL.cl_shell = NULL;
    memset(&default_line, 0, sizeof default_line);
    for (i = 0; i < OPTION_SIZE; i++)
        default_line.cl_option[i] = O[i] = nd_u8();
    default_line.cl_runfreq = (unsigned short)nd_range(0, 65535);
    default_line.cl_remain = (unsigned short)nd_range(0, 65535);
    g_of = default_line.cl_runfreq;
    g_first = g_freq = -1;
#if OP == 2
    if (first) { T[0] = '&'; T[1] = (char)second; for (i = 2; i < 22; i++) T[i] = REST[i - 1]; g_pos = second == ' ' ? 2 : 1; if (second == ' ') T[2] = 'x'; }
    else { for (i = 0; i < 20; i++) T[i] = REST[i]; g_pos = 0; }
    if (second == ' ') for (i = 2; i < 22; i++) T[i] = REST[i - 2];
    read_arys(T, &CF);
    ENSURE(g_nd == (first && second == '3') && g_opt == (first && second == 'b'), "line: runfreq or options, if there are any");
    ok = !g_fail && g_k == 5 && g_cmd && SH[0] != 0;
    if (g_nd && g_val <= 1) { ok = 0; ENSURE(g_k == 0, "line: runfreq is 2 or more"); }
    else ENSURE(g_fail || g_k == 5, "line: every field is read");
    COVER(ok && g_nd, "a line");
    n = g_nd ? g_val : g_of;
    if (ok)
        ENSURE(CL.cl_runfreq == n && CL.cl_remain == n && is_td(CL.cl_option), "line: run at these times, every so many");
#elif OP == 3
    (void)first; (void)second; (void)n;
    T[0] = '%'; T[1] = 'b'; for (i = 2; i < 22; i++) T[i] = REST[i - 1];
    g_pos = 1;
    read_period(T, &CF);
    ENSURE(g_opt == 1, "line: a keyword and options");
    if (g_fail && g_k == 0) { ok = 0; }
    else {
        opts = is_freq_periodically(CL.cl_option) != 0;
        nf = !opts ? 5 : is_freq_mins(CL.cl_option) ? 0 : is_freq_hrs(CL.cl_option) ? 1 : is_freq_days(CL.cl_option) ? 2 : is_freq_mons(CL.cl_option) ? 3 : is_freq_dow(CL.cl_option) ? 2 : 5;
        ENSURE(g_fail || g_k == nf, "line: as many fields as the keyword asks for");
        if (!g_fail) {
            if (nf < 1) ENSURE(full(CL.cl_mins, 0, 59), "line: every minute if there is no such field");
            if (nf < 2) ENSURE(full(CL.cl_hrs, 0, 23), "line: every hour if there is no such field");
            if (nf < 3) ENSURE(full(CL.cl_days, 1, 31), "line: every day if there is no such field");
            if (nf < 4) ENSURE(full(CL.cl_mons, 0, 11), "line: every month if there is no such field");
            if (nf < 5) ENSURE(full(CL.cl_dow, 0, 7), "line: every day of the week if there is no such field");
        }
        ok = !g_fail && SH[0] != 0;
        if (ok && !opts) {
            int m = !is_freq_mins(CL.cl_option) && !full(CL.cl_mins, 0, 59);
            int h = !is_freq_hrs(CL.cl_option) && !full(CL.cl_hrs, 0, 23);
            int d = !is_freq_days(CL.cl_option) && !full(CL.cl_days, 1, 31);
            int o = !is_freq_mons(CL.cl_option) && !full(CL.cl_mons, 0, 11);
            int k = !is_freq_dow(CL.cl_option) && !full(CL.cl_dow, 0, 7);
            int da = is_dayand(CL.cl_option) != 0;
            /* a value which is not a day of any month may be missing */
            REQUIRE(bit_test(CL.cl_days, 0));
            if (!(m || h || o || (da ? d || k : d && k)))
                ok = 0;
        }
        COVER(ok && nf == 2, "a line");
        if (ok)
            ENSURE(CL.cl_runfreq == 1 && CL.cl_remain == 1 && is_td(CL.cl_option), "line: once in every interval");
    }
#elif OP == 4
    (void)n;
    T[0] = '@'; T[1] = (char)second; for (i = 2; i < 22; i++) T[i] = REST[second == ' ' ? i - 2 : i - 1];
    g_pos = second == ' ' ? 2 : 1;
    read_freq(T, &CF);
    ENSURE(g_opt == (second == 'b') && (g_fail || g_times == (second == '3' ? 2 : 1)), "line: a delay or options, then the period");
    ok = !g_fail && g_cmd && SH[0] != 0;
    COVER(ok, "a line");
    if (ok)
        ENSURE(CL.cl_timefreq == g_freq && CL.cl_first == (g_first >= 0 ? g_first : g_freq) && CL.cl_runfreq == 0 && is_freq(CL.cl_option),
               "line: run with this period, first after this delay");
#else
    (void)second;
    T[0] = '@';
    for (n = 0; word[n]; n++) T[n + 1] = word[n];
    i = n + 1;
    g_pos = i + 1;
    if (first) { T[i] = ' '; T[i + 1] = 'x'; T[i + 2] = ' '; T[i + 3] = 'x'; }
    else T[i] = ',';
    r = read_shortcut(T, &CF);
    {
        int reb = eqs(word, "reboot"), res = eqs(word, "resume"), y = eqs(word, "yearly") || eqs(word, "annually"), mo = eqs(word, "monthly"),
            we = eqs(word, "weekly"), da = eqs(word, "daily") || eqs(word, "midnight"), ho = eqs(word, "hourly");
        int known = reb || res || y || mo || we || da || ho;
        ENSURE(r == known, "shortcut: known ones only");
        if (!known) {
            ENSURE(CF.cf_line_base == &OLD && !need_correction && !g_cmd, "shortcut: another line is left alone");
            return;
        }
        ok = first && g_cmd && SH[0] != 0;
        COVER(ok, "a line");
        if (ok && (reb || res)) {
            ENSURE(is_freq(CL.cl_option) && is_runonce(CL.cl_option) && !is_volatile(CL.cl_option) && CL.cl_first == 0 && CL.cl_runfreq == 0
                   && (reb ? is_runatreboot(CL.cl_option) : is_runatresume(CL.cl_option)), "shortcut: once, at once, at startup or resume");
            ENSURE(CL.cl_timefreq == LONG_MAX, "shortcut: not again");
        }
        else if (ok) {
            ENSURE(is_td(CL.cl_option), "shortcut: run at times");
            w = (int)nd_range(0, 59);
            ENSURE(!bit_test(CL.cl_mins, w) == (w != 0), "shortcut: minute 0");
            w = (int)nd_range(0, 23);
            ENSURE(!bit_test(CL.cl_hrs, w) == (!ho && w != 0), "shortcut: hour 0, or every hour");
            w = (int)nd_range(1, 31);
            ENSURE(!bit_test(CL.cl_days, w) == ((y || mo) && w != 1), "shortcut: first day of the month, or every day");
            w = (int)nd_range(0, 11);
            ENSURE(!bit_test(CL.cl_mons, w) == (y && w != 0), "shortcut: January, or every month");
            w = (int)nd_range(0, 7);
            ENSURE(!bit_test(CL.cl_dow, w) == (we && w != 0 && w != 7), "shortcut: Sunday, or every day of the week");
        }
    }
#endif
    (void)r; (void)w;
    if (ok) {
        ENSURE(CF.cf_line_base == &CL && CL.cl_next == &OLD && CL.cl_shell == SH && g_user == 1 && g_cmd == 1 && !g_freed && !g_shf, "line: added to the file, with its command");
        ENSURE(need_correction == 0, "line: nothing to correct");
    }
    else {
        ENSURE(CF.cf_line_base == &OLD && need_correction == 1, "line: a wrong one is not added, and is reported");
        ENSURE(g_freed == 1 && g_shf == g_cmd, "line: a wrong one is freed");
    }
}
void
harness(void)
{
    int k = (int)nd_range(0, 3), s = (int)nd_range(0, 9);
#if OP == 2
    if (k == 0) line_test(0, 'x', "");
    if (k == 1) line_test(1, '3', "");
    if (k == 2) line_test(1, 'b', "");
    if (k == 3) line_test(1, ' ', "");
#elif OP == 3
    if (k == 0) line_test(1, 'b', "");
#elif OP == 4
    if (k == 1) line_test(1, '3', "");
    if (k == 2) line_test(1, 'b', "");
    if (k == 3) line_test(1, ' ', "");
#else
    static const char *W[] = { "reboot", "resume", "yearly", "annually", "monthly", "weekly", "daily", "midnight", "hourly", "mail" };
    int i;
    for (i = 0; i < 10; i++)
        if (s == i) {
            if (k == 0) line_test(0, 0, W[i]);
            if (k == 1) line_test(1, 0, W[i]);
        }
#endif
    (void)s;
}
#elif OP == 6
#define L NUML
static char T[L + 1], T0[L + 1];
void
harness(void)
{
    int i, k, ok, zero;
    long v, n, m;
    time_t t;
    char *p, c;
    for (i = 0; i < L; i++)
        T[i] = T0[i] = (char)nd_u8();
    T[L] = T0[L] = 0;
    zero = nd_bool();
    need_correction = 0;
    debug_opt = 0;
    t = nd_range(-5, 5);
    v = n = 0;
    ok = 1;
    for (k = 0; k < L; k++) {
        c = T0[k];
        if (isdigit(c)) n = n * 10 + (c - '0');
        else if (c == 's' || c == 'h' || c == 'd' || c == 'w' || c == 'm') {
            m = c == 's' ? 1 : c == 'h' ? 3600 : c == 'd' ? 86400 : c == 'w' ? 604800 : 2419200;
            v += n * m;
            n = 0;
        }
        else break;
    }
    c = T0[k];
    if (k > 0 && isdigit(T0[k - 1])) {
        /* a number alone is a number of minutes, if something follows */
        if (c == 0) ok = 0;
        v += n * 60;
    }
    if (c != ' ' && c != '\t' && c != ')' && c != 0) ok = 0;
    while (k < L && (T0[k] == ' ' || T0[k] == '\t')) k++;
    if (v == 0 && !zero) ok = 0;
    p = get_time(T, &t, zero);
    COVER(ok && v == 3600 + 120, "a time");
    ENSURE((p != NULL) == ok, "time: taken exactly when it is one");
    if (ok)
        ENSURE(t == v && p == T + k && need_correction == 0, "time: the sum of its parts");
    else
        ENSURE(need_correction == 1, "time: a wrong one is reported");
    i = (int)nd_range(0, L);
    ENSURE(T[i] == T0[i], "time: the text stays");
}
#endif
