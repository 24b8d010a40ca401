/* read_file(): what is loaded from a binary fcrontab is what is in it, whatever it holds.
 * The file is a byte stream made of the three leading fields and NREC arbitrary fields,
 * possibly cut short. add_line_to_file() is under contract in conf_line.c. */
#include "conf_env.h"

#define DMAX 8          /* bytes of data of a field that is entirely in the file */
#ifndef NREC
#define NREC 3
#endif
#define R (3 + NREC)

#define SLOT 16
static unsigned char g_s[R * SLOT];     /* slot i: type, size, data of field i */
static int g_c, g_nrec;                 /* cursor: slot * SLOT + position */
static int g_size[R], g_type[R];
static int g_uid, g_open_ok, g_stat_ok, g_pw_ok;

ssize_t fv_read(int fd, void *buf, size_t n);
FILE *fv_fopen(const char *n, const char *m);
int fv_fstat(int fd, struct stat *st);
struct passwd *fv_getpwuid(uid_t u);
void fv_free(void *p);
#include <pwd.h>
#include "fcron.h"
#define read fv_read
#define fopen fv_fopen
#define fstat(a, b) fv_fstat((a), (b))
#define getpwuid fv_getpwuid
#define fileno(f) 7
#define ferror(f) 0
#define free fv_free
#include "conf.c"
#undef read
#undef free
#include "stubs_log.h"
#include "fcron_globals.h"
char *fcronconf, *fcrontabs;
#define FV_NO_LISTS
#define FV_OWN_free_line
#define FV_OWN_env_list
#define FV_OWN_strcmp_until
#include "conf_stubs.h"

/* one line at a time is under construction; the previous one was handed over (and
 * recorded) before: the same object serves all of them */
static cl_t g_cl;
void *
alloc_safe(size_t n, const char *w)
{
    static cl_t zero;
    (void)w;
    ENSURE(n == sizeof(cl_t), "read: allocates lines");
    g_cl = zero;
    return &g_cl;
}
void fv_free(void *p) { (void)p; }
static char g_ow[] = "ow", g_us[] = "us";
char *
strdup2(const char *s)
{
    return s[0] == 'o' ? g_ow : g_us;
}

#ifdef FV_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "conversion"
#pragma CPROVER check disable "undefined-shift"
#endif
/* the file: fields one after the other, until its end; a field with a size that is not
 * in 0..DMAX is where it ends */
ssize_t
fv_read(int fd, void *buf, size_t n)
{
    size_t i;
    unsigned char *p = buf;
    int rec = g_c / SLOT, pos = g_c % SLOT, avail;
    (void)fd;
    if (n == 0 || rec >= g_nrec)
        return 0;
    avail = 4 - pos + (g_size[rec] >= 0 && g_size[rec] <= DMAX ? g_size[rec] : 0);
    if (n > (size_t)avail) {
        ENSURE(g_size[rec] < 0 || g_size[rec] > DMAX, "read: a field is read by the size the file says");
        g_c = R * SLOT;
        return avail;       /* short: nobody may use the data */
    }
#ifdef FV_CBMC
    ENSURE(__CPROVER_w_ok(buf, n), "read: room for the data");
#endif
    for (i = 0; i < DMAX; i++)
        if (i < n)
            p[i] = g_s[g_c + i];
    g_c += n;
    if (n == (size_t)avail && !(g_size[rec] < 0 || g_size[rec] > DMAX))
        g_c = (rec + 1) * SLOT;
    return (ssize_t)n;
}
#ifdef FV_CBMC
#pragma CPROVER check pop
#endif
/* contract of read_strn (discharged in conf_strn.c): the next size bytes of the file as
 * a string, or nothing; strings are known by the field they come from */
static char g_str[R];
int
contract_read_strn(int fd, char **str, short int size)
{
    int rec = g_c / SLOT, pos = g_c % SLOT;
    (void)fd;
    *str = NULL;
    if (size < 0)
        return ERR;
    if (size == 0) {    /* the cursor is already at the next field */
        ENSURE(g_c > 0, "read: strings come after a type");
        *str = &g_str[rec - 1];
        return OK;
    }
    if (rec >= g_nrec || pos != 4 || size > DMAX || size != g_size[rec]) {
        ENSURE(rec >= g_nrec || size == g_size[rec], "read: a string has the size the file says");
        g_c = R * SLOT;
        return ERR;
    }
    *str = &g_str[rec];
    g_c = (rec + 1) * SLOT;
    return OK;
}
FILE *fv_fopen(const char *n, const char *m) { static long f[40]; return g_open_ok ? (FILE *)f : NULL; }
int fv_fstat(int fd, struct stat *st) { (void)fd; st->st_uid = (uid_t)g_uid; return g_stat_ok ? 0 : -1; }
static struct passwd g_pw;
struct passwd *fv_getpwuid(uid_t u) { g_pw.pw_name = "ow"; return g_pw_ok && u == (uid_t)g_uid ? &g_pw : NULL; }

static char *g_env[NREC + 1];
static int g_nenv, g_isuser;
env_list_t *env_list_destroy(env_list_t *l) { (void)l; return NULL; }
env_t *
env_list_putenv(env_list_t *l, char *e, int o)
{
    (void)l;
    ENSURE(o == 1, "read: a later value of a variable replaces the earlier one");
    if (g_nenv <= NREC)
        g_env[g_nenv] = e;
    g_nenv++;
    return NULL;
}
env_list_t *env_list_init(void) { static env_list_t l; return &l; }
int strcmp_until(const char *a, const char *b, char c) { (void)a; (void)b; (void)c; return !g_isuser; }
void free_line(cl_t *l) { (void)l; }

/* what reached add_line_to_file (contract: takes the line over or refuses it) */
static cl_t g_cap[NREC + 1], g_exp[NREC + 1];
static int g_ncap;
static uid_t g_cap_runas;
static char *g_cap_runas_str;
static cf_t g_cfo, *g_cf;
static time_t g_cap_save;
static int g_cap_startup;

int
contract_add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *runas_str, time_t t_save,
                          int is_system_startup)
{
    ENSURE(cf == g_cf, "read: the line goes to the file that is loaded");
    g_cap_runas = runas;
    g_cap_runas_str = runas_str;
    g_cap_save = t_save;
    g_cap_startup = is_system_startup;
    if (g_ncap <= NREC)
        g_cap[g_ncap] = *cl;
    g_ncap++;
    return nd_bool();
}
static int g_deleted;
void
contract_delete_file(const char *user)
{
    ENSURE(file_base == g_cf && user == g_cf->cf_user,
           "read: the lines of a file that cannot be loaded leave the memory");
    file_base = g_cf->cf_next;
    g_deleted++;
}

/* ---- what the format says (save.h) ---- */
static long
rec_long(int r, long old)
{
    union { long v; unsigned char b[8]; } u;
    int i;
    u.v = old;
    for (i = 0; i < 8; i++)
        if (i < g_size[r])
            u.b[i] = g_s[r * SLOT + 4 + i];
    return u.v;
}
static void
rec_bytes(unsigned char *to, int n, int r)
{
    int i;
    for (i = 0; i < n; i++)
        if (i < g_size[r])
            to[i] = g_s[r * SLOT + 4 + i];
}
static int
is_strtype(int t)
{
    return t == S_ENVVAR_T || t == S_TZ_T || t == S_SHELL_T || t == S_RUNAS_T || t == S_MAILFROM_T
        || t == S_MAILTO_T;
}
/* room for the data of a field, -1: any */
static int
cap_of(int t)
{
    switch (t) {
    case S_NUMEXE_T: case S_NICE_T: case S_DOW_T: return 1;
    case S_MONS_T: return 2;
    case S_LAVG_T: case S_HRS_T: return 3;
    case S_OPTION_T: case S_DAYS_T: return 4;
    case S_MINS_T: case S_TZDIFF_T: case S_NEXTEXE_T: case S_FIRST_T: case S_UNTIL_T:
    case S_RUNFREQ_T: case S_REMAIN_T: case S_TIMEFREQ_T: case S_JITTER_T: return 8;
    }
    return -1;
}

static int
pick_type(int i)
{
#ifndef FV_CBMC
    if (nd_bool())
        return i == 0 ? S_HEADER_T : i == 1 ? S_USER_T : i == 2 ? S_TIMEDATE_T
            : nd_range(0, 3) == 0 ? S_ENDLINE_T : nd_range(0, 9) == 0 ? S_ENVVAR_T
            : nd_range(0, 9) == 0 ? S_TZDIFF_T : (int)nd_range(2000, 2021);
#endif
    return (short)nd_range(-32768, 32767);
}

void
harness(void)
{
    cf_t *cf;
    int i, j, rc, isnew, nexp, expok, env_exp, first, hdr_ok, tzd, sane, startup;
    cl_t cur;
    static cl_t zero;
    long bufi, tsave;
    char *envs[NREC + 1];

    g_ncap = g_nenv = g_c = g_deleted = 0;
    now = (time_t)nd_range(0, 4102444800L);
    rootuid = 0;
    file_base = NULL;
    g_isuser = nd_bool();
    g_uid = (int)nd_range(0, 3);
    startup = nd_bool();
#if HDR
    g_open_ok = nd_bool();
    g_stat_ok = nd_bool();
    g_pw_ok = nd_bool();
#else
    g_open_ok = g_stat_ok = g_pw_ok = 1;
#endif
    isnew = nd_bool();
    memset(&g_cfo, 0, sizeof g_cfo);
    cf = g_cf = &g_cfo;
    for (i = 0; i < R; i++) {
        g_type[i] = pick_type(i);
        g_size[i] = nd_bool() ? (int)nd_range(0, DMAX) : (int)nd_range(-32768, 32767);
        if (nd_bool() && cap_of(g_type[i]) >= 0)
            g_size[i] = cap_of(g_type[i]);
        g_s[i * SLOT] = (unsigned char)g_type[i];
        g_s[i * SLOT + 1] = (unsigned char)((unsigned short)g_type[i] >> 8);
        g_s[i * SLOT + 2] = (unsigned char)g_size[i];
        g_s[i * SLOT + 3] = (unsigned char)((unsigned short)g_size[i] >> 8);
        for (j = 0; j < DMAX; j++)
            g_s[i * SLOT + 4 + j] = nd_u8();
    }
#ifdef LINES
    /* what goes from one line to the next: two lines, a complete file */
    for (i = 3; i < R; i++) {
        g_type[i] = i == 3 ? S_FIRST_T : i == 5 ? S_OPTION_T : S_ENDLINE_T;
        g_size[i] = i == 3 ? 8 : i == 5 ? 4 : 0;
        g_s[i * SLOT] = (unsigned char)g_type[i];
        g_s[i * SLOT + 1] = (unsigned char)(g_type[i] >> 8);
        g_s[i * SLOT + 2] = (unsigned char)g_size[i];
        g_s[i * SLOT + 3] = 0;
    }
    for (i = 0; i < 3; i++) {
        g_type[i] = i == 0 ? S_HEADER_T : i == 1 ? S_USER_T : S_TIMEDATE_T;
        g_size[i] = i == 1 ? 1 : 8;
        g_s[i * SLOT] = (unsigned char)g_type[i];
        g_s[i * SLOT + 1] = 0;
        g_s[i * SLOT + 2] = (unsigned char)g_size[i];
        g_s[i * SLOT + 3] = 0;
    }
    g_nrec = R;
#else
    g_nrec = nd_bool() ? R : (int)nd_range(0, R);
#endif
#ifndef FV_CBMC
    if (nd_bool()) {
        memset(g_s, 0, SLOT + 4 + DMAX);
        g_s[0] = 1; g_s[2] = 8; g_s[4] = 100;
        memset(g_s + 4 + 1, 0, 7);
        g_s[SLOT] = 2; g_s[SLOT + 2] = 1; g_size[0] = 8; g_size[1] = 1; g_type[0] = 1; g_type[1] = 2;
    }
#endif
    hdr_ok = g_nrec >= 3 && g_type[0] == S_HEADER_T && g_size[0] >= 0 && g_size[0] <= 8
        && rec_long(0, 0) == S_FILEVERSION
        && g_type[1] == S_USER_T && g_size[1] >= 0 && g_size[1] <= DMAX
        && g_type[2] == S_TIMEDATE_T && g_size[2] >= 0 && g_size[2] <= 8;
#if !HDR
    REQUIRE(hdr_ok && g_size[0] == 8 && g_size[1] == 1 && g_size[2] == 8);
    REQUIRE(isnew || g_uid == 0);
#endif
    tsave = rec_long(2, 0);

    /* what the file says */
    cur = zero;
    nexp = env_exp = first = tzd = 0;
    expok = 1;
    sane = 1;       /* every field has its full size: what save.c writes */
    bufi = rec_long(0, 0);
    for (i = 3; i < R; i++) {
        int r = i, t = g_type[i], c = cap_of(t), known = is_strtype(t) || c >= 0 || t == S_ENDLINE_T;
        if (i >= g_nrec || !expok)
            continue;
        if (t == S_ENDLINE_T || !known)
            /* no data (ENDLINE), or data that is skipped */
            ;
        else if (g_size[i] < 0 || g_size[i] > (c >= 0 ? c : DMAX)) {
            expok = 0;
            continue;
        }
        if (!is_strtype(t) && c >= 0 && g_size[i] != c)
            sane = 0;
        /* the end of a line has no data: anything else is the next field */
        REQUIRE(t != S_ENDLINE_T || g_size[i] == 0);
        if (c == 8 && t != S_MINS_T)
            bufi = rec_long(r, bufi);
        switch (t) {
        case S_ENVVAR_T:
            if (!g_isuser) {
                envs[env_exp] = &g_str[i];
                env_exp++;
            }
            break;
        case S_TZDIFF_T: tzd = (signed char)bufi; break;
        case S_TZ_T: cur.cl_tz = &g_str[i]; break;
        case S_SHELL_T: cur.cl_shell = &g_str[i]; break;
        case S_RUNAS_T: cur.cl_runas = &g_str[i]; break;
        case S_MAILFROM_T: cur.cl_mailfrom = &g_str[i]; break;
        case S_MAILTO_T: cur.cl_mailto = &g_str[i]; break;
        case S_NEXTEXE_T: cur.cl_nextexe = bufi; break;
        case S_FIRST_T: cur.cl_first = bufi; first = 1; break;
        case S_UNTIL_T: cur.cl_until = bufi; break;
        case S_TIMEFREQ_T: cur.cl_timefreq = bufi; break;
        case S_RUNFREQ_T: cur.cl_runfreq = (unsigned short)bufi; break;
        case S_REMAIN_T: cur.cl_remain = (unsigned short)bufi; break;
        case S_JITTER_T: cur.cl_jitter = (unsigned char)bufi; break;
        case S_OPTION_T: rec_bytes(cur.cl_option, 4, r); break;
        case S_NUMEXE_T: rec_bytes(&cur.cl_numexe, 1, r); break;
        case S_LAVG_T: rec_bytes(cur.cl_lavg, 3, r); break;
        case S_NICE_T: rec_bytes((unsigned char *)&cur.cl_nice, 1, r); break;
        case S_MINS_T: rec_bytes(cur.cl_mins, 8, r); break;
        case S_HRS_T: rec_bytes(cur.cl_hrs, 3, r); break;
        case S_DAYS_T: rec_bytes(cur.cl_days, 4, r); break;
        case S_MONS_T: rec_bytes(cur.cl_mons, 2, r); break;
        case S_DOW_T: rec_bytes(cur.cl_dow, 1, r); break;
        case S_ENDLINE_T:
            if (is_freq(cur.cl_option) && !first)
                cur.cl_first = cur.cl_nextexe;
            g_exp[nexp] = cur;
            nexp++;
            cur = zero;
            first = 0;
            break;
        default:
            sane = 0;       /* not a field of this version */
        }
    }

#if HDR
    COVER(hdr_ok && isnew && g_uid && g_pw_ok && g_stat_ok && g_open_ok, "valid file of a user");
#else
    COVER(sane && expok && nexp == 2, "two lines");
    COVER(sane && (NREC == 4 || !expok) && (NREC == 4 || nexp == 1), "damaged after a line");
#endif
    rc = read_file(isnew ? "new.us" : "us", cf, startup);

    {
        int owner_ok = g_open_ok && g_stat_ok && (g_uid == 0 || (isnew && g_pw_ok));
        ENSURE(IMPLIES(!owner_ok, rc != OK && g_ncap == 0 && g_nenv == 0),
               "read: a file that is neither root's nor a new file of its owner is refused");
        ENSURE(IMPLIES(!hdr_ok, rc != OK && g_ncap == 0 && g_nenv == 0),
               "read: a file without a valid header is refused");
        if (!owner_ok || !hdr_ok)
            return;
    }
    ENSURE(IMPLIES(g_ncap > 0, g_cap_runas == (uid_t)g_uid && IMPLIES(g_uid != 0, g_cap_runas_str != NULL
               && g_cap_runas_str[0] == 'o' && g_cap_runas_str[1] == 'w' && g_cap_runas_str[2] == 0)
               && g_cap_save == tsave && g_cap_startup == startup),
           "read: every line is loaded for the owner of the file, with the time of saving");
    if (!sane)
        return;             /* not written by fcrontab: only what is above, and no stray access */
    ENSURE((rc == OK) == expok, "read: a damaged file is reported, a good one accepted");
    ENSURE(IMPLIES(rc != OK, g_deleted == 1), "read: the lines of a file that cannot be loaded leave the memory");
    ENSURE(IMPLIES(rc == OK, g_deleted == 0), "read: a loaded file stays");
    ENSURE(g_ncap == nexp, "read: every line of the file is loaded, once");
    ENSURE(g_nenv == env_exp, "read: every variable is loaded (but USER and LOGNAME)");
    for (i = 0; i < NREC; i++)
        if (i < env_exp && i < g_nenv)
            ENSURE(g_env[i] == envs[i], "read: value of the variable");
    if (rc == OK) {
        ENSURE(cf->cf_tzdiff == tzd, "read: time difference");
        if (g_uid != 0)
            ENSURE(cf->cf_user[0] == 'o' && cf->cf_user[1] == 'w' && cf->cf_user[2] == 0,
                   "read: the file belongs to its owner");
        else {
            ENSURE(cf->cf_user == &g_str[1], "read: the file belongs to the user it names");
        }
    }
#if !HDR
    for (i = 0; i < NREC; i++)
        if (i < nexp && i < g_ncap) {
            cl_t *a = &g_cap[i], *b = &g_exp[i];
            ENSURE(a->cl_shell == b->cl_shell, "read: command");
            ENSURE(a->cl_runas == b->cl_runas, "read: runas");
            ENSURE(a->cl_mailto == b->cl_mailto, "read: mailto");
            ENSURE(a->cl_mailfrom == b->cl_mailfrom, "read: mailfrom");
            ENSURE(a->cl_tz == b->cl_tz, "read: timezone");
            ENSURE(a->cl_nextexe == b->cl_nextexe, "read: nextexe");
            ENSURE(a->cl_first == b->cl_first, "read: first");
            ENSURE(a->cl_until == b->cl_until, "read: until");
            ENSURE(a->cl_timefreq == b->cl_timefreq, "read: timefreq");
            ENSURE(a->cl_runfreq == b->cl_runfreq && a->cl_remain == b->cl_remain, "read: runfreq, remain");
            ENSURE(a->cl_jitter == b->cl_jitter && a->cl_nice == b->cl_nice && a->cl_numexe == b->cl_numexe,
                   "read: jitter, nice, numexe");
            for (j = 0; j < 4; j++)
                ENSURE(a->cl_option[j] == b->cl_option[j] && a->cl_days[j] == b->cl_days[j], "read: options, days");
            for (j = 0; j < 3; j++)
                ENSURE(a->cl_lavg[j] == b->cl_lavg[j] && a->cl_hrs[j] == b->cl_hrs[j], "read: lavg, hours");
            for (j = 0; j < 8; j++)
                ENSURE(a->cl_mins[j] == b->cl_mins[j], "read: minutes");
            ENSURE(a->cl_mons[0] == b->cl_mons[0] && a->cl_mons[1] == b->cl_mons[1]
                   && a->cl_dow[0] == b->cl_dow[0], "read: months, days of the week");
        }
#endif
}
