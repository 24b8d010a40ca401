/* OP: 0 format_maildisplayname, 1 make_mailbox_addr (with the maximum length reduced), 2 create_mail */
#include "fv.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#if OP < 2
#define snprintf fv_snprintf
int fv_snprintf(char *b, size_t n, const char *f, ...);
#include "config.h"
#include "mail.h"
#undef MAIL_FROM_VALUE_LEN_MAX
#define MAIL_FROM_VALUE_LEN_MAX MAXL
#define free fv_free
#define strchr fv_strchr
static char *fv_strchr(const char *s, int c) { for (; *s; s++) if (*s == (char)c) return (char *)s; return c ? NULL : (char *)s; }
void fv_free(void *);
#include "mail.c"
#undef free
#undef strchr
#undef snprintf
#include "stubs_log.h"
#include "fmt_small.h"
#define BUFS 24
static char MEM0[BUFS], MEM1[BUFS], NOTHING[1];
static int g_na, g_f0, g_f1;
static size_t g_n0, g_n1;
void *
alloc_safe(size_t n, const char *d)
{
    int i;
    char *b = g_na ? MEM1 : MEM0;
    (void)d;
    ENSURE(g_na < 2 && n <= BUFS, "address: memory");
    if (g_na) g_n1 = n; else g_n0 = n;
    for (i = 0; i < BUFS; i++) b[i] = (size_t)i < n ? 0 : 'Z';
    g_na++;
    return b;
}
void fv_free(void *p) { ENSURE((p == MEM0 && g_na > 0 && !g_f0) || (p == MEM1 && g_na > 1 && !g_f1), "address: freed once"); if (p == MEM0) g_f0 = 1; else g_f1 = 1; }
char *strdup2(const char *s) { ENSURE(s[0] == 0, "address: empty"); return NOTHING; }
static int special(char c) { return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == '.' || c == ',' || c == ':' || c == ';' || c == '@' || c == '"' || c == '\\'; }
static void
check_end(char *r, const char *e, int n, int max)
{
    int i;
    if (n > max) {
        ENSURE(r == NULL, "address: one which is too long is refused");
        ENSURE(g_f0 == (g_na > 0) && g_f1 == (g_na > 1), "address: nothing is leaked");
    }
    else {
        ENSURE(r != NULL, "address: one which fits is made");
        for (i = 0; i <= max; i++)
            if (i <= n)
                ENSURE(r[i] == (i < n ? e[i] : 0), "address: its text");
        ENSURE(r == NOTHING || (r == MEM0 ? !g_f0 : r == MEM1 && !g_f1), "address: valid memory");
        ENSURE(r != MEM1 || g_f0, "address: nothing is leaked");
    }
    /* nothing is written out of the memory which was asked for */
    i = (int)nd_range(0, BUFS - 1);
    ENSURE(IMPLIES(g_na > 0 && (size_t)i >= g_n0, MEM0[i] == 'Z') && IMPLIES(g_na > 1 && (size_t)i >= g_n1, MEM1[i] == 'Z'), "address: no overflow");
}
#else
#include "job_env.h"
#include "stubs_log.h"
#include "fcron_globals.h"
static cl_t L;
static cf_t F;
static FILE MAILF;
static char MF[4], RUNAS[4], MT[4], DISP[4], CT[5], ENC[5], CMD[4], USR[4], SUBJ[4], E0[4], BOX[8], *ENVV[2], HOST[] = "h";
static char g_got;
static int g_wc;
static int g_line, g_col, g_w, g_made, g_hostfail, g_boxfail, g_box;
static const char *g_box_from, *g_box_disp;
static char g_box_host;
static void
emit(char c)
{
    /* one arbitrary character of the line g_w is watched */
    if (g_line == g_w && g_col == g_wc) g_got = c == '\n' ? 0 : c;
    if (c == '\n') { g_line++; g_col = 0; }
    else g_col++;
}
int
fv_fprintf(FILE *f, const char *m, ...)
{
    va_list ap;
    int i, j;
    ENSURE(f == &MAILF, "mail: written to the mail file");
    va_start(ap, m);
    for (i = 0; m[i]; i++) {
        if (m[i] == '%') {
            const char *s = va_arg(ap, const char *);
            i++;
            ENSURE(m[i] == 's', "mail: text");
            for (j = 0; s[j]; j++) emit(s[j]);
        }
        else emit(m[i]);
    }
    va_end(ap);
    return 1;
}
int temp_file(char **n) { ENSURE(n == NULL, "mail: a temporary file without a name"); return 3; }
FILE *fv_fdopen(int fd, const char *m) { ENSURE(fd == 3 && m[0] == 'r' && m[1] == '+', "mail: written, then read"); return &MAILF; }
int
gethostname(char *b, size_t n)
{
    ENSURE(n >= 2, "mail: room for the name of the host");
    if (g_hostfail) return -1;
    b[0] = 'h'; b[1] = 0;
    return 0;
}
char *
make_mailbox_addr(char *d, char *m, char *h)
{
    g_box_disp = d; g_box_from = m; g_box_host = h[0];
    g_box++;
    return g_boxfail ? NULL : BOX;
}
static void any(char *s, int n, int nl) { int i; for (i = 0; i < n; i++) { s[i] = (char)nd_range(1, 127); REQUIRE(nl || s[i] != '\n'); } s[n] = 0; }
static char g_want;
static int g_xn;
static void x(const char *s) { int i; for (i = 0; s[i]; i++) { if (g_xn == g_wc) g_want = s[i] == '\n' ? ' ' : s[i]; g_xn++; } }
static int at(const char *s) { int i; for (i = 0; s[i]; i++) if (s[i] == '@') return 1; return 0; }
#endif
void
harness(void)
{
#if OP == 0
    char in[INL + 1], e[2 * INL + 4], *r;
    int i, n = 0, q = 0, len = (int)nd_range(0, INL);
    g_na = g_f0 = g_f1 = 0;
    for (i = 0; i < INL; i++)
        in[i] = i < len ? (char)nd_range(1, 127) : 0;
    in[INL] = 0;
    for (i = 0; i < len; i++)
        q |= special(in[i]);
    if (q) e[n++] = '"';
    for (i = 0; i < len; i++) {
        if (in[i] == '"') e[n++] = '\\';
        e[n++] = in[i];
    }
    if (q) e[n++] = '"';
    r = format_maildisplayname(in);
    /* a quoted text of exactly the maximum length may be refused */
    if (!(q && n >= MAXL))
        check_end(r, e, n, MAXL);
    else if (r != NULL)
        check_end(r, e, n, MAXL);
    else
        check_end(r, e, MAXL + 1, MAXL);
    COVER(n == MAXL && !q && r, "maximum");
    COVER(q && r && n == MAXL - 1 && in[1] == '"', "quoted");
#elif OP == 1
    char d[5], m[4], h[4], e[20], *r;
    int i, n = 0, ld = (int)nd_range(0, 4), lm = (int)nd_range(0, 3), lh = (int)nd_range(0, 3);
    g_na = g_f0 = g_f1 = 0;
    for (i = 0; i < 4; i++) d[i] = i < ld ? (char)nd_range(1, 127) : 0;
    for (i = 0; i < 3; i++) m[i] = i < lm ? (char)nd_range(1, 127) : 0;
    for (i = 0; i < 3; i++) h[i] = i < lh ? (char)nd_range(1, 127) : 0;
    d[4] = m[3] = h[3] = 0;
    for (i = 0; i < ld; i++) e[n++] = d[i];
    if (ld) { e[n++] = ' '; e[n++] = '<'; }
    for (i = 0; i < lm; i++) e[n++] = m[i];
    for (i = 0; i < lh; i++) e[n++] = h[i];
    if (ld) e[n++] = '>';
    r = make_mailbox_addr(d, m, h);
    check_end(r, e, n, MAXL);
    COVER(n == MAXL && ld, "maximum");
    COVER(n > MAXL, "too long");
#else
    int k, wf = nd_bool(), wd = nd_bool(), ws = nd_bool(), wc = nd_bool(), we = nd_bool(), wv = nd_bool();
    FILE *r;
    char *from;
    g_line = g_col = g_made = g_box = 0;
    g_hostfail = nd_bool(); g_boxfail = nd_bool();
    g_w = WL;
    memset(&L, 0, sizeof L);
    any(MF, 2, 0); any(RUNAS, 2, 0); any(MT, 2, 0); any(CMD, 2, 0); any(USR, 1, 0); any(SUBJ, 1, 0); any(CT, 3, 1); any(ENC, 3, 1); any(E0, 2, 0);
    DISP[0] = wd ? 'D' : 0; DISP[1] = 0;
    BOX[0] = 'B'; BOX[1] = 0;
    maildisplayname = DISP;
    strcpy(default_mail_charset, "c");
    ENVV[0] = wv ? E0 : NULL; ENVV[1] = NULL;
    L.cl_file = &F; F.cf_user = USR;
    L.cl_runas = RUNAS; L.cl_mailto = MT; L.cl_mailfrom = wf ? MF : NULL; L.cl_shell = CMD;
    from = wf ? MF : RUNAS;
    g_got = g_want = 0;
    g_wc = (int)nd_range(0, 45);
    g_xn = 0;
    /* the expected line number g_w: From, To, Subject, Content-Type, [encoding], Auto-Submitted, environment, empty */
    k = g_w;
    if (k == 0) {
        x("From: ");
        if (wd && !g_boxfail) x("B");
        else { x(from); if (!g_hostfail && !at(from)) x("@h"); x(" (fcron)"); }
    }
    else if (k == 1) { x("To: "); x(MT); if (!g_hostfail && !at(MT)) x("@h"); }
    else if (k == 2) { x("Subject: fcron <"); x(USR); x(g_hostfail ? "@?" : "@h"); x("> "); if (ws) { x(SUBJ); x(": "); } x(CMD); }
    else if (k == 3) { x("Content-Type: "); if (wc) x(CT); else x("text/plain; charset=c"); }
    else {
        k -= 4;
        if (we && k == 0) { x("Content-Transfer-Encoding: "); x(ENC); }
        else {
            k -= we;
            if (k == 0) x("Auto-Submitted: auto-generated");
            else if (k == 1 && wv) { x("X-Cron-Env: <"); x(E0); x(">"); }
        }
    }
    r = create_mail(&L, ws ? SUBJ : NULL, wc ? CT : NULL, we ? ENC : NULL, ENVV);
    ENSURE(r == &MAILF, "mail: the mail file");
    ENSURE(g_line == 6 + we + wv && g_col == 0, "mail: the header is complete, ends with an empty line, and no text can add lines to it");
    ENSURE(g_xn <= 45, "mail: length");
    ENSURE(g_got == g_want, "mail: the lines of the header");
    ENSURE(IMPLIES(wd, g_box == 1 && g_box_disp == DISP && g_box_from == from && g_box_host == (!g_hostfail && !at(from) ? '@' : 0)), "mail: the sender is an address");
    COVER(g_xn > 5 || WL > 3, "header");
#endif
}
