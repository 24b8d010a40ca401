/* set_next_exe_startup(): what happens to a line when its file is loaded, when the
 * machine has just booted, and when it resumes */
#include "db_env.h"
#include "database.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#define FV_OWN_LIBC
#include "db_ext.h"
#include "db_libc.h"
#include "spec_cal.h"
#include "nd_line.h"
#include "cl_same.h"
int fv_rand(void) { return 0; }
char *fv_getenv(const char *n) { (void)n; return NULL; }
pid_t fv_fork(void) { return 1; }
pid_t fv_waitpid(pid_t p, int *s, int o) { (void)p; (void)s; (void)o; return -1; }
int fv_getloadavg(double *l, int n) { (void)l; (void)n; return 0; }
time_t fv_mktime(struct tm *t) { (void)t; return nd_range(0, TIME_T_MAX); }
struct tm *
fv_localtime(const time_t *t)
{
    static struct tm r;
    ENSURE(*t <= TIME_T_MAX, "startup: a time that localtime() can convert");
    return &r;
}
static cl_t L;
static int g_ins, g_sne, g_sne_opt, g_nr, g_nr_ctx, g_mail, g_ser, g_ser_rc, g_lavg, g_rm;
static long g_ins_stale;
static long g_mail_since, g_sne_in, g_nr_in, g_mail_ctx;
void
contract_insert_nextexe(cl_t *l)
{
    ENSURE(l == &L, "startup: queues this line");
    g_ins++;
    g_ins_stale = L.cl_nextexe;
}
job_t *contract_job_queue_remove(cl_t *l) { ENSURE(l == &L, "startup: this line"); g_rm++; return NULL; }
void
contract_set_next_exe(cl_t *l, char option, int fd)
{
    ENSURE(l == &L && is_td(L.cl_option), "startup: schedules this line");
    g_sne++;
    g_sne_opt = option;
    g_sne_in = L.cl_nextexe;
    L.cl_nextexe = now + nd_range(1, 300000000);        /* P01 */
    (void)fd;
}
void
contract_set_next_exe_notrun(cl_t *l, char ctx)
{
    ENSURE(l == &L && l->cl_runfreq == 1, "startup: a %-line that may have missed a run");
    g_nr++;
    g_nr_ctx = ctx;
    g_nr_in = L.cl_nextexe;
    L.cl_nextexe = ctx == SYSDOWN_RUNATREBOOT ? now : now + nd_range(1, 300000000);
}
void
contract_mail_notrun_time_t(cl_t *l, char ctx, time_t since)
{
    ENSURE(l == &L, "startup: reports this line");
    g_mail++;
    g_mail_ctx = ctx;
    g_mail_since = since;
}
int
contract_add_serial_job(cl_t *l, int fd)
{
    (void)fd;
    ENSURE(l == &L, "startup: queues this job");
    g_ser++;
    if (g_ser_rc == OK)
        L.cl_numexe = 1;
    return g_ser_rc;
}
void
contract_add_lavg_job(cl_t *l, int fd)
{
    (void)fd;
    ENSURE(l == &L, "startup: queues this job");
    g_lavg++;
    if (nd_bool())
        return;
    L.cl_numexe = 1;
}
/* arithmetic that saturates */
static long cap(long a, long b) { return b > TIME_T_MAX - a ? TIME_T_MAX : a + b; }

void
harness(void)
{
    static cl_t B;
    static cf_t F;
    int ctx, i, interrupted, cleared, hasrun, skip, trigger, isnew, lav, ser, so;
    long sleep, old, e_ser = 0, e_lavg = 0;
    memset(&L, 0, sizeof L); memset(&F, 0, sizeof F);
    g_ins = g_sne = g_nr = g_mail = g_ser = g_lavg = g_rm = g_sne_opt = g_nr_ctx = 0;
    debug_opt = (char)nd_range(0, 1);
    L.cl_file = &F; L.cl_shell = "x"; F.cf_user = "u";
    for (i = 0; i < OPTION_SIZE; i++)
        L.cl_option[i] = nd_u8();
#if TD
    REQUIRE(is_td(L.cl_option));
#else
    REQUIRE(is_freq(L.cl_option));
#endif
    L.cl_timefreq = nd_range(is_td(L.cl_option) ? 0 : 1, LONG_MAX);
    L.cl_first = nd_range(0, LONG_MAX);
    L.cl_runfreq = (unsigned short)nd_range(0, 65535);
    L.cl_remain = (unsigned short)nd_range(0, 65535);
    L.cl_numexe = nd_u8();
    L.cl_nextexe = nd_range(0, TIME_T_MAX);
    if (!is_td(L.cl_option) && nd_bool())
        L.cl_nextexe = LONG_MAX;        /* from a file of an older version */
    ctx = (int)nd_range(CONTEXT_DEFAULT, CONTEXT_RESUME);
    now = nd_range(1, 34359738368L);
    sleep = nd_bool() ? now : nd_range(-34359738368L, now - 1);
    g_ser_rc = nd_bool() ? OK : ERR;
    B = L;
    old = L.cl_nextexe;
    isnew = sleep == now;
    lav = is_lavg(L.cl_option); ser = is_serial(L.cl_option); so = is_serial_once(L.cl_option);
    interrupted = ctx != CONTEXT_RESUME && L.cl_numexe > 0 && !is_runatreboot(L.cl_option);
    cleared = ctx == CONTEXT_BOOT || (ctx == CONTEXT_DEFAULT && is_volatile(L.cl_option))
        || (ctx == CONTEXT_RESUME && is_runatresume(L.cl_option));
    hasrun = !cleared && is_hasrun(L.cl_option);
    skip = is_runonce(L.cl_option) && hasrun;
    trigger = (ctx == CONTEXT_BOOT && is_runatreboot(L.cl_option))
        || (ctx == CONTEXT_RESUME && is_runatresume(L.cl_option));
    if (interrupted) {
        if (lav)
            e_lavg = !is_strict(L.cl_option);
        else
            e_ser = 1;
        if (!lav && !ser && !so && g_ser_rc == OK)
            so = 1;
    }

    set_next_exe_startup(&L, ctx, sleep);

    if (skip) {
        COVER(1, "already run once");
        ENSURE(g_ins + g_sne + g_nr + g_mail + g_rm == 0 && L.cl_nextexe == old, "startup: a runonce job that has run is not scheduled again");
    }
#if TD
    else if (trigger) {
        int told = is_notice_notrun(B.cl_option);
        COVER(told && B.cl_runfreq == 1 && old > 0, "run at boot, may have missed one");
        ENSURE(L.cl_nextexe == now && g_ins >= 1 && g_ins_stale == now && g_sne == 0, "startup: runatreboot/runatresume runs now");
        if (told && old > 0 && B.cl_runfreq == 1)
            ENSURE(g_nr == 1 && g_nr_ctx == SYSDOWN_RUNATREBOOT && g_nr_in == old && g_mail == 0, "startup: a missed period is reported");
        else if (told && old > 0 && old <= now)
            ENSURE(g_mail == 1 && g_mail_since == old && g_mail_ctx == SYSDOWN && g_nr == 0, "startup: a missed run is reported with its time");
        else
            ENSURE(g_mail + g_nr == 0, "startup: nothing else is reported as missed");
    }
    else if (old > now) {
        ENSURE(L.cl_nextexe == old && g_sne + g_nr + g_mail == 0, "startup: a run in the future stays as it is");
        ENSURE(IMPLIES(ctx != CONTEXT_RESUME, g_ins == 1), "startup: and is queued");
    }
    else if (old == 0)
        ENSURE(g_sne == 1 && g_sne_opt == NO_GOTO && g_mail + g_nr == 0, "startup: a new line is scheduled");
    else if (B.cl_runfreq == 1 && is_notice_notrun(B.cl_option))
        ENSURE(g_nr == 1 && g_nr_ctx == SYSDOWN && g_nr_in == old && g_mail + g_sne == 0, "startup: a %-line that missed its period is reported");
    else if (is_bootrun(B.cl_option) && !isnew && B.cl_runfreq != 1) {
        int due = B.cl_remain <= 1;
        COVER(due && lav, "bootrun in the lavg queue");
        ENSURE(L.cl_remain == (due ? B.cl_runfreq : B.cl_remain - 1), "startup: bootrun counts the missed run");
        if (due) {
            if (lav) e_lavg++;
            else { e_ser++; if (g_ser_rc == OK) so = 1; }
            hasrun = 1;
        }
        if (is_runonce(B.cl_option) && hasrun)
            ENSURE(g_sne == 0 && L.cl_nextexe == old && g_rm == 1, "startup: a bootrun job with runonce is not run twice");
        else
            ENSURE(g_sne == 1 && g_sne_opt == STD, "startup: a bootrun job is scheduled from now on");
        ENSURE(g_mail + g_nr == 0, "startup: a bootrun job is not reported");
    }
    else {
        ENSURE(g_sne == 1 && g_sne_opt == NO_GOTO && g_nr == 0, "startup: a missed line is scheduled from now on");
        ENSURE(is_notice_notrun(B.cl_option) ? g_mail == 1 && g_mail_since == old && g_mail_ctx == SYSDOWN : g_mail == 0,
               "startup: a missed run is reported on request");
    }
    ENSURE(IMPLIES(g_rm, is_runonce(L.cl_option) && hasrun), "startup: only a job to run once leaves the queue");
    if (!(is_bootrun(B.cl_option) && !isnew))
        ENSURE(L.cl_remain == B.cl_remain, "startup: the count is kept");
#else
    else {
        long e;
        COVER(old == TIME_T_MAX && !isnew, "never");
        if (trigger)
            e = now;
        else if (isnew || is_volatile(B.cl_option)
                 || (ctx == CONTEXT_BOOT && (is_rebootreset(B.cl_option) || is_runonce(B.cl_option))))
            e = cap(now, B.cl_first);
        else if (old >= TIME_T_MAX)
            e = TIME_T_MAX;
        else {
            e = old + sleep;
            if (e < now && ctx == CONTEXT_RESUME)
                e = now;
            else if (e < now || e > TIME_T_MAX)
                e = cap(now, B.cl_timefreq);
        }
        ENSURE(L.cl_nextexe == e || (ctx == CONTEXT_RESUME && is_volatile(B.cl_option)),
               "startup: the time spent down does not count");
        ENSURE(L.cl_nextexe >= now && L.cl_nextexe <= TIME_T_MAX, "startup: a time that can be handled");
        ENSURE(g_ins == 1 && g_ins_stale == L.cl_nextexe, "startup: queued once at its new time");
        ENSURE(g_sne + g_nr + g_mail + g_rm == 0 && L.cl_remain == B.cl_remain, "startup: nothing else");
    }
#endif
    ENSURE(g_ser == e_ser && g_lavg == e_lavg, "startup: what had been interrupted or missed (bootrun) is run again, and only that");
    ENSURE(IMPLIES(ctx != CONTEXT_RESUME && g_ser + g_lavg == 0, L.cl_numexe == 0), "startup: nothing is counted as running or queued after a start");
    ENSURE(IMPLIES(ctx == CONTEXT_RESUME && g_ser + g_lavg == 0, L.cl_numexe == B.cl_numexe), "startup: a resume leaves running jobs alone");
    ENSURE(!is_hasrun(L.cl_option) == !hasrun, "startup: hasrun is forgotten when it must be");
    ENSURE(!is_serial_once(L.cl_option) == !so, "startup: serialised for this run only when it was queued");
    if (so) set_serial_once(B.cl_option); else clear_serial_once(B.cl_option);
    if (hasrun) set_hasrun(B.cl_option); else clear_hasrun(B.cl_option);
    B.cl_nextexe = L.cl_nextexe; B.cl_remain = L.cl_remain; B.cl_numexe = L.cl_numexe;
    ENSURE(cl_same(&B, &L), "startup: nothing else of the line changes");
}
