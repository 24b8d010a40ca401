/* the load-average queue: check_lavg() over the real list of waiting jobs, and
 * add_lavg_job(). One job is watched, with an arbitrary other one before or after it. */
#define FV_LIST_SMALL
#include "db_env.h"
#include "spec_cal.h"
#define FV_OWN_RUN_JOB
#define FV_OWN_LIBC
#include "database.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#include "db_ext.h"

#ifndef NL
#define NL 3
#endif
static cl_t LX0, LX1, LX2;
#define LP(i) ((i) == 0 ? &LX0 : (i) == 1 ? &LX1 : &LX2)
#define L(i) (*LP(i))
static cf_t F;
static u_list_t XL, LL;
static exe_t XA0[NL + 2];
#define XA (XA0 + 1)
static lavg_t LA0[NL + 2];
#define LA (LA0 + 1)
static int g_ran[NL], g_order, g_next[NL], g_notrun[NL], g_ctx, g_bad, g_run_ok;
static long g_avg[3], g_nwt;

static int
idx(cl_t *l)
{
    int i;
    for (i = 0; i < NL; i++)
        if (l == LP(i))
            return i;
    g_bad = 1;
    return 0;
}

int
run_job(struct exe_t *e)
{
    g_ran[idx(e->e_line)]++;
    if (g_run_ok) {
        e->e_ctrl_pid = 11;
        e->e_job_pid = 12;
        return OK;
    }
    return ERR;
}
void
contract_set_next_exe(cl_t *line, char option, int info_fd)
{
    (void)option; (void)info_fd;
    g_next[idx(line)]++;
}
void
contract_set_next_exe_notrun(cl_t *line, char context)
{
    g_notrun[idx(line)]++;
    g_ctx = context;
}
time_t
contract_next_wake_time(time_t lim)
{
    (void)lim;
    return g_nwt;
}
int
fv_getloadavg(double *l, int n)
{
    int i;
    ENSURE(n == 3, "lavg: three values");
    for (i = 0; i < 3; i++)
        l[i] = (double)g_avg[i] / 32.0; /* exact: times 10 gives an exact product too */
    return 3;
}
pid_t fv_waitpid(pid_t p, int *s, int o) { (void)p; (void)s; (void)o; return -1; }
int fv_rand(void) { return 0; }
char *fv_getenv(const char *n) { (void)n; return NULL; }
pid_t fv_fork(void) { return 1; }
static long g_at, g_end;
static int g_moved, g_mail;
time_t fv_mktime(struct tm *t) { (void)t; return 0; }
struct tm *
fv_localtime(const time_t *t)
{
    static struct tm r;
    memset(&r, 0, sizeof(r));
    r.tm_hour = 1;
    if (!g_moved)
        g_at = *t;
    return &r;
}
/* end of the current interval of execution (contract: P02) */
void
contract_move_time_to(int where, cl_t *line, struct tm *ft)
{
    ENSURE(where == END_OF_INTERVAL && line == &LX0 && ft->tm_hour == 1, "lavg: end of interval asked");
    ft->tm_hour = 2;
    g_moved++;
}
time_t
contract_mktime_no_dst(struct tm *t)
{
    ENSURE(t->tm_hour == 2, "lavg: end of interval converted");
    return g_end;
}
void
contract_mail_notrun(cl_t *line, char context, struct tm *since)
{
    (void)since;
    ENSURE(line == &LX0 && context == QUEUE_FULL, "lavg: full queue reported");
    g_mail++;
}

static int
low(int i, int k)
{   /* load average k is below what line i asks for */
    return g_avg[k] * 10 < 32L * L(i).cl_lavg[k];
}

static int
in_lavg(cl_t *l)
{
    int i, n = 0;
    for (i = 0; i < LL.num_entries; i++)
        n += LA[i].l_line == l;
    return n;
}

#ifdef ADD
void
harness(void)
{
    int i, n = (int)nd_range(0, NL), cnt, sev, add, full, late, old_late;
    lavg_t *e;
    long bound;

    memset(&F, 0, sizeof(F));
    memset(&LL, 0, sizeof(LL));
    memset(&LX0, 0, sizeof(LX0));
    F.cf_user = "u";
    F.cf_tzdiff = (signed char)nd_range(-24, 24);
    LL.array_size = NL + 1;
    LL.max_entries = (int)nd_range(0, 2) ? NL + 1 : 1;
    if (LL.max_entries == 1) {
        LL.array_size = 1;
        n = n > 0;
    }
    LL.entry_size = sizeof(lavg_t);
    LL.grow_size = 10;
    LL.entries_array = LA;
    lavg_list = &LL;
    LL.num_entries = n;
    for (i = 0; i < n; i++) {
        LA[i].l_line = &LX1;
        LA[i].l_until = i;
    }
    g_moved = g_mail = 0;
    now = nd_range(1, 1000000000000L);
    g_end = nd_range(1, 1000000000000L);
    LX0.cl_file = &F;
    LX0.cl_shell = "cmd";
    LX0.cl_nextexe = nd_range(0, 1000000000000L);
    LX0.cl_until = nd_range(0, 1000000000L);
    LX0.cl_runfreq = (unsigned short)nd_range(1, 65535);
    for (i = 0; i < OPTION_SIZE; i++)
        LX0.cl_option[i] = nd_u8();
    cnt = LX0.cl_numexe = (unsigned char)nd_range(0, 255);
    sev = is_lavg_sev(LX0.cl_option) != 0;
    full = n == LL.max_entries;
    add = (sev ? cnt < 255 : cnt == 0) && !full;
    old_late = is_run_if_late(LX0.cl_option) != 0;
    COVER(add && is_strict(LX0.cl_option) && LX0.cl_runfreq == 1 && n == 2, "strict");

    add_lavg_job(&LX0, -1);

    ENSURE(LL.num_entries == n + add, "lavg add: queued unless it is already or the queue is full");
    ENSURE(LX0.cl_numexe == cnt + add, "lavg add: counted");
    ENSURE(g_mail == ((sev ? cnt < 255 : cnt == 0) && full && is_notice_notrun(LX0.cl_option)),
           "lavg add: a full queue is reported");
    for (i = 0; i < n; i++)
        ENSURE(LA[i].l_line == &LX1 && LA[i].l_until == i, "lavg add: the others keep their place");
    late = is_run_if_late(LX0.cl_option) != 0;
    if (!add) {
        ENSURE(late == old_late, "lavg add: nothing changes when refused");
        return;
    }
    e = &LA[n];
    ENSURE(e->l_line == &LX0, "lavg add: this line");
    if (is_strict(LX0.cl_option) && LX0.cl_runfreq == 1) {
        bound = g_end + F.cf_tzdiff * 3600L;
        ENSURE(g_at == LX0.cl_nextexe - F.cf_tzdiff * 3600L, "lavg add: interval of the due time");
        ENSURE(e->l_until == (LX0.cl_until > 0 && LX0.cl_until + now < bound
                              ? LX0.cl_until + now : bound)
               && late == (LX0.cl_until > 0 && LX0.cl_until + now < bound),
               "lavg add: a strict job waits until its timeout or the end of its interval");
    }
    else
        ENSURE(late && e->l_until == (LX0.cl_until > 0 ? now + LX0.cl_until : 0),
               "lavg add: timeout counted from now, none without until");
}
#else
void
harness(void)
{
    int i, j, n = (int)nd_range(0, NL), s0, runs = 0, late[NL], want[NL], numexe[NL],
        serial_until = 0, r, left, cr;
    long until[NL];
    time_t w, lim;

    memset(&F, 0, sizeof(F));
    F.cf_user = "u";
    memset(g_ran, 0, sizeof(g_ran));
    memset(g_next, 0, sizeof(g_next));
    memset(g_notrun, 0, sizeof(g_notrun));
    memset(&XL, 0, sizeof(XL));
    memset(&LL, 0, sizeof(LL));
    memset(&LX0, 0, sizeof(LX0));
    memset(&LX1, 0, sizeof(LX1));
    memset(&LX2, 0, sizeof(LX2));
    g_bad = 0;
    XL.array_size = LL.array_size = NL + 1;
    XL.entry_size = sizeof(exe_t);
    LL.entry_size = sizeof(lavg_t);
    XL.grow_size = LL.grow_size = 10;
    XL.entries_array = XA;
    LL.entries_array = LA;
    exe_list = &XL;
    lavg_list = &LL;
    g_run_ok = nd_bool();
    now = nd_range(1, 1000000000000L);
    lim = nd_range(1, 1000000000000L);
    g_nwt = nd_range(1, 1000000000000L);
    for (i = 0; i < 3; i++)
        g_avg[i] = nd_range(0, 32 * 300);
    lavg_serial_running = (short)nd_range(0, 20);
    serial_max_running = (short)nd_range(1, 20);
    F.cf_running = (int)nd_range(0, 100);
    cr = F.cf_running;
    s0 = lavg_serial_running;
    for (i = 0; i < NL; i++) {
        L(i).cl_file = &F;
        L(i).cl_shell = "cmd";
        for (j = 0; j < OPTION_SIZE; j++)
            L(i).cl_option[j] = nd_u8();
        for (j = 0; j < 3; j++)
            L(i).cl_lavg[j] = nd_u8();
        numexe[i] = L(i).cl_numexe = (unsigned char)nd_range(1, 255);
        until[i] = nd_range(0, 1000000000000L);
        if (i < n) {
            LA[i].l_line = LP(i);
            LA[i].l_until = until[i];
        }
    }
    LL.num_entries = n;
#if NL == 3
    COVER(n == 3 && until[1] > 0 && until[1] < now && is_run_if_late(L(1).cl_option)
          && until[0] == 0 && until[2] >= now, "until in the middle");
#endif
    w = check_lavg(lim);

    ENSURE(!g_bad, "lavg: only queued jobs are touched");
    for (i = 0; i < n; i++) {
        late[i] = until[i] > 0 && until[i] < now;
        want[i] = is_lor(L(i).cl_option) ? (low(i, 0) || low(i, 1) || low(i, 2)) : 0;
        if (is_land(L(i).cl_option))
            want[i] = want[i]
                || ((low(i, 0) || !L(i).cl_lavg[0]) && (low(i, 1) || !L(i).cl_lavg[1])
                    && (low(i, 2) || !L(i).cl_lavg[2]));
        ENSURE(g_ran[i] <= 1 && in_lavg(LP(i)) <= 1, "lavg: once");
        ENSURE(IMPLIES(late[i] && is_run_if_late(L(i).cl_option), g_ran[i] == 1),
               "lavg: after the timeout the job runs whatever the load");
        ENSURE(IMPLIES(late[i] && !is_run_if_late(L(i).cl_option),
                       g_ran[i] == 0 && !in_lavg(LP(i))
                       && g_next[i] + g_notrun[i] == 1
                       && g_notrun[i] == (is_td(L(i).cl_option)
                                          && is_notice_notrun(L(i).cl_option))
                       && L(i).cl_numexe == numexe[i] - 1),
               "lavg: strict job past its interval is given up and rescheduled");
        ENSURE(IMPLIES(!late[i], g_next[i] + g_notrun[i] == 0), "lavg: schedule kept");
        ENSURE(IMPLIES(!late[i] && !want[i], g_ran[i] == 0 && in_lavg(LP(i)) == 1
                       && L(i).cl_numexe == numexe[i]),
               "lavg: a job waits while the load is too high");
        ENSURE(IMPLIES(!late[i] && want[i] && !is_serial(L(i).cl_option), g_ran[i] == 1),
               "lavg: a job runs when the load permits");
        ENSURE(in_lavg(LP(i)) == (!late[i] && !g_ran[i]), "lavg: what ran or expired leaves the queue");
        ENSURE(IMPLIES(g_ran[i], L(i).cl_numexe == numexe[i] - !g_run_ok), "lavg: counted");
        if (late[i] && g_ran[i] && is_serial(L(i).cl_option))
            serial_until++;
        runs += g_ran[i];
    }
    /* serial jobs started because of the load respect the limit, and are not kept back
     * below it */
    r = 0;
    left = 0;
    for (i = 0; i < n; i++)
        if (!late[i] && is_serial(L(i).cl_option)) {
            r += g_ran[i];
            left += want[i] && !g_ran[i];
        }
    if (r > 0 && g_run_ok)
        ENSURE(s0 + serial_until + r <= serial_max_running, "lavg: serial limit respected");
    if (left > 0)
        ENSURE(lavg_serial_running >= serial_max_running, "lavg: serial job kept back only by the limit");
    r += serial_until;
    ENSURE(lavg_serial_running == s0 + (g_run_ok ? r : 0), "lavg: serial jobs counted");
    ENSURE(F.cf_running == cr + (g_run_ok ? runs : 0) && XL.num_entries == (g_run_ok ? runs : 0),
           "lavg: running jobs counted");
    ENSURE(IMPLIES(n == 0, LL.num_entries == 0), "lavg: nothing appears");
    ENSURE(g_notrun[0] + g_notrun[1] + (NL > 2 ? g_notrun[NL - 1] : 0) == 0 || g_ctx == LAVG, "lavg: reason given");
    ENSURE(w == (LL.num_entries > 0 && now + LAVG_SLEEP < g_nwt ? now + LAVG_SLEEP : g_nwt),
           "lavg: woken up soon while jobs wait");
}
#endif
