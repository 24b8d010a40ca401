/* write_file_to_disk(): the fields that are written say, in the format of save.h (read
 * back by conf_read.c), everything about the file and its lines */
#include "save_env.h"
#define fdatasync fv_fdatasync
int fv_fdatasync(int fd);
#include "save.c"
#include "stubs_log.h"
#define FV_OWN_env
#include "save_stubs.h"

#define NL 2
#define LT(t) ((t) - 2000)
static struct { int n; long v; int size; char *p; int kind; } g_m[NL][24];
static int g_line, g_seq, g_hdr, g_user, g_date, g_ntz, g_tz, g_nenv, g_flush, g_sync, g_bad, g_fail;
static char *g_env[3], *g_userp;
static long g_hdrv, g_datev;
static char g_strs[16];

static int
one(int type, int kind, long v, char *p, int size)
{
    int ok = nd_bool();
    ENSURE(g_flush == 0, "save: no field after the last flush");
    if (!ok)
        g_fail = 1;
    g_seq++;
    if (type == S_HEADER_T) { g_hdr = g_seq; g_hdrv = v; g_bad |= kind != 'l'; }
    else if (type == S_USER_T) { g_user = g_seq; g_userp = p; g_bad |= kind != 's'; }
    else if (type == S_TIMEDATE_T) { g_date = g_seq; g_datev = v; g_bad |= kind != 'l'; }
    else if (type == S_TZDIFF_T) { g_ntz++; g_tz = v; g_bad |= kind != 'l'; }
    else if (type == S_ENVVAR_T) { if (g_nenv < 3) g_env[g_nenv] = p; g_nenv++; g_bad |= kind != 's'; }
    else if (type >= 2000 && type < 2024 && g_line < NL) {
        g_m[g_line][LT(type)].n++;
        g_m[g_line][LT(type)].v = v;
        g_m[g_line][LT(type)].p = p;
        g_m[g_line][LT(type)].size = size;
        g_m[g_line][LT(type)].kind = kind;
        if (type == S_ENDLINE_T)
            g_line++;
    }
    else
        g_bad = 1;
    return ok ? OK : ERR;
}
/* contracts of the writers (discharged in save_bytes.c) */
int contract_save_type(int fd, short t, char *b, int *u) { (void)fd; (void)b; (void)u; return one(t, 't', 0, NULL, 0); }
int contract_save_str(int fd, short t, char *s, char *b, int *u) { (void)fd; (void)b; (void)u; return one(t, 's', 0, s, 0); }
int
contract_save_strn(int fd, short t, char *s, short n, char *b, int *u)
{
    (void)fd; (void)b; (void)u;
    return one(t, 'n', 0, s, n);
}
int contract_save_lint(int fd, short t, long v, char *b, int *u) { (void)fd; (void)b; (void)u; return one(t, 'l', v, NULL, 8); }
int
contract_write_buf_to_disk(int fd, char *b, int *u)
{
    (void)fd; (void)b; (void)u;
    g_flush++;
    if (nd_bool()) { g_fail = 1; return ERR; }
    return OK;
}
int
fv_fdatasync(int fd)
{
    (void)fd;
    ENSURE(g_flush == 1, "save: synchronised to the disk after the last field");
    g_sync++;
    if (nd_bool()) { g_fail = 1; return -1; }
    return 0;
}

static env_t g_ev[2];
static int g_evn, g_evi;
env_t *env_list_first(env_list_t *l) { (void)l; g_evi = 0; return g_evn > 0 ? &g_ev[0] : NULL; }
env_t *env_list_next(env_list_t *l) { (void)l; g_evi++; return g_evi < g_evn ? &g_ev[g_evi] : NULL; }

static cf_t F;
static cl_t L[NL];

/* what a loader gets for a field that is / is not there */
#define V(k, t, dflt)  (g_m[k][LT(t)].n ? g_m[k][LT(t)].v : (dflt))
#define HAS(k, t, kd)  (g_m[k][LT(t)].n == 1 && g_m[k][LT(t)].kind == (kd))
#define ONCE(k, t, kd) (g_m[k][LT(t)].n == 0 || HAS(k, t, kd))
#define BYTES(k, t, field, sz) (HAS(k, t, 'n') && g_m[k][LT(t)].p == (char *)(field) && g_m[k][LT(t)].size == (sz))

void
harness(void)
{
    int i, j, rc, nl;
    long date = nd_long();
    memset(g_m, 0, sizeof g_m);
    memset(&F, 0, sizeof F);
    memset(L, 0, sizeof L);
    g_line = g_seq = g_hdr = g_user = g_date = g_ntz = g_nenv = g_flush = g_sync = g_bad = g_fail = 0;
    F.cf_user = g_strs;
    F.cf_tzdiff = (signed char)nd_range(-24, 24);
    nl = (int)nd_range(0, NL);
    g_evn = (int)nd_range(0, 2);
    g_ev[0].e_envvar = g_strs + 1;
    g_ev[1].e_envvar = g_strs + 2;
    F.cf_line_base = nl > 0 ? &L[0] : NULL;
    L[0].cl_next = nl > 1 ? &L[1] : NULL;
    for (i = 0; i < NL; i++) {
        cl_t *l = &L[i];
        l->cl_shell = g_strs + 3;
        l->cl_runas = g_strs + 4;
        l->cl_mailto = g_strs + 5;
        l->cl_mailfrom = nd_bool() ? g_strs + 6 : NULL;
        g_strs[6] = (char)nd_range(0, 1);
        l->cl_tz = nd_bool() ? g_strs + 8 : NULL;
        for (j = 0; j < OPTION_SIZE; j++)
            l->cl_option[j] = nd_u8();
        l->cl_nextexe = nd_long();
        l->cl_first = nd_long();
        l->cl_timefreq = nd_long();
        l->cl_until = nd_range(0, LONG_MAX);    /* a duration */
        l->cl_remain = (unsigned short)nd_range(0, 65535);
        l->cl_runfreq = (unsigned short)nd_range(0, 65535);
        l->cl_numexe = nd_u8();
        l->cl_nice = nd_s8();
        l->cl_jitter = nd_u8();
    }
    COVER(nl == NL && is_freq(L[0].cl_option) && is_td(L[1].cl_option), "two lines");
    rc = write_file_to_disk(3, &F, date);
    ENSURE((rc == OK) == !g_fail, "save: a failure to write is reported");
    if (rc != OK)
        return;
    ENSURE(g_flush == 1 && g_sync == 1, "save: everything is flushed to the disk");
    ENSURE(!g_bad, "save: only known fields");
    ENSURE(g_hdr == 1 && g_hdrv == S_FILEVERSION && g_user == 2 && g_userp == F.cf_user
           && g_date == 3 && g_datev == date, "save: the header comes first");
    ENSURE(g_ntz <= 1 && (g_ntz ? g_tz : 0) == F.cf_tzdiff, "save: time difference");
    ENSURE(g_nenv == g_evn && IMPLIES(g_evn > 0, g_env[0] == g_strs + 1)
           && IMPLIES(g_evn > 1, g_env[1] == g_strs + 2), "save: every variable");
    ENSURE(g_line == nl, "save: every line, ended by its last field");
    for (i = 0; i < NL; i++) {
        cl_t *l = &L[i];
        if (i >= nl)
            continue;
        ENSURE(HAS(i, S_ENDLINE_T, 't'), "save: end of the line");
        ENSURE(HAS(i, S_SHELL_T, 's') && g_m[i][LT(S_SHELL_T)].p == l->cl_shell, "save: command");
        ENSURE(HAS(i, S_RUNAS_T, 's') && g_m[i][LT(S_RUNAS_T)].p == l->cl_runas, "save: runas");
        ENSURE(HAS(i, S_MAILTO_T, 's') && g_m[i][LT(S_MAILTO_T)].p == l->cl_mailto, "save: mailto");
        ENSURE(ONCE(i, S_TZ_T, 's') && (l->cl_tz == NULL ? g_m[i][LT(S_TZ_T)].n == 0
               : g_m[i][LT(S_TZ_T)].n && g_m[i][LT(S_TZ_T)].p == l->cl_tz), "save: timezone");
        ENSURE(ONCE(i, S_MAILFROM_T, 's') && (l->cl_mailfrom == NULL || l->cl_mailfrom[0] == 0
               ? IMPLIES(g_m[i][LT(S_MAILFROM_T)].n, l->cl_mailfrom != NULL)
               : g_m[i][LT(S_MAILFROM_T)].n && g_m[i][LT(S_MAILFROM_T)].p == l->cl_mailfrom),
               "save: mailfrom");
        ENSURE(BYTES(i, S_OPTION_T, l->cl_option, OPTION_SIZE), "save: options");
        ENSURE(HAS(i, S_NEXTEXE_T, 'l') && V(i, S_NEXTEXE_T, 0) == l->cl_nextexe, "save: time of the next run");
        ENSURE(ONCE(i, S_NUMEXE_T, 'n') && (g_m[i][LT(S_NUMEXE_T)].n ? BYTES(i, S_NUMEXE_T, &l->cl_numexe, 1)
               : l->cl_numexe == 0), "save: numexe");
        ENSURE(ONCE(i, S_NICE_T, 'n') && (g_m[i][LT(S_NICE_T)].n ? BYTES(i, S_NICE_T, &l->cl_nice, 1)
               : l->cl_nice == 0), "save: nice");
        ENSURE(ONCE(i, S_LAVG_T, 'n') && (g_m[i][LT(S_LAVG_T)].n ? BYTES(i, S_LAVG_T, l->cl_lavg, LAVG_SIZE)
               : !is_lavg(l->cl_option)), "save: load averages");
        ENSURE(ONCE(i, S_UNTIL_T, 'l') && V(i, S_UNTIL_T, 0) == l->cl_until, "save: until");
        ENSURE(ONCE(i, S_RUNFREQ_T, 'l') && V(i, S_RUNFREQ_T, 0) == l->cl_runfreq, "save: runfreq");
        ENSURE(ONCE(i, S_REMAIN_T, 'l') && (l->cl_runfreq == 0 || V(i, S_REMAIN_T, 0) == l->cl_remain), "save: remain");
        ENSURE(ONCE(i, S_JITTER_T, 'l') && V(i, S_JITTER_T, 0) == l->cl_jitter, "save: jitter");
        if (is_freq(l->cl_option))
            ENSURE(ONCE(i, S_FIRST_T, 'l') && V(i, S_FIRST_T, l->cl_nextexe) == l->cl_first
                   && ONCE(i, S_TIMEFREQ_T, 'l') && V(i, S_TIMEFREQ_T, 0) == l->cl_timefreq, "save: frequency, first");
        else
            ENSURE(BYTES(i, S_MINS_T, l->cl_mins, 8) && BYTES(i, S_HRS_T, l->cl_hrs, 3)
                   && BYTES(i, S_DAYS_T, l->cl_days, 4) && BYTES(i, S_MONS_T, l->cl_mons, 2)
                   && BYTES(i, S_DOW_T, l->cl_dow, 1), "save: time and date fields");
    }
}
