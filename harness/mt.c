/* move_time_to() and goto_beginning_next_period_periodical(): %-lines.
 *
 * MT_PERIOD: the beginning of the next calendar period (hourly ... midmonthly).
 * MT_WALK:   the walk to the end of an interval; its loop is cut at the VERIFY_LOOP
 *            annotation, so the obligations cover every number of iterations. */
#include "db_env.h"
#define FCRON_ABSTRACT_WDAY
#include "spec_cal.h"
struct cl_t;
#ifdef FV_CBMC
static void fv_cut_walk(struct cl_t *, struct tm *, time_t *, short *);
#define FV_LOOP_mt_walk(l, f, t, y) fv_cut_walk(l, f, t, y)
#endif
#include "database.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#include "db_ext.h"
#include "nd_line.h"
#include "cl_same.h"

int fv_rand(void) { return (int)nd_range(0, RAND_MAX); }
char *fv_getenv(const char *n) { (void)n; return NULL; }
pid_t fv_fork(void) { return 1; }
pid_t fv_waitpid(pid_t p, int *s, int o) { (void)p; (void)s; (void)o; return -1; }
int fv_getloadavg(double *l, int n) { (void)l; (void)n; return 0; }
struct tm *fv_localtime(const time_t *t) { static struct tm r; (void)t; return &r; }

/* an order preserving reading of the calendar */
static time_t
T(const struct tm *f)
{
    return tmkey(f) * 64 + f->tm_sec;
}
time_t fv_mktime(struct tm *t) { return T(t); }

static struct tm g_start;        /* the minute asked about, normalised */
static cl_t *g_line;
static int g_where;
static struct tm g_t;            /* witness: an arbitrary calendar minute */

#ifdef MT_PERIOD
/* the instants at which a period begins */
static int
spec_begins(const cl_t *l, const struct tm *f)
{
    int mid = is_freq_mid(l->cl_option);
    if (is_freq_mins(l->cl_option))
        return 1;
    if (is_freq_hrs(l->cl_option))
        return f->tm_min == (mid ? 30 : 0);
    if (f->tm_min != 0)
        return 0;
    if (is_freq_days(l->cl_option))
        return f->tm_hour == (mid ? 12 : 0);
    if (f->tm_hour != 0)
        return 0;
    if (is_freq_dow(l->cl_option))
        return W(f->tm_year + 1900, f->tm_mon, f->tm_mday) == (mid ? 4 : 1);
    return f->tm_mday == (mid ? 15 : 1);
}

void
harness(void)
{
    static cl_t line;
    static cf_t file;
    struct tm f, o;
    cl_t before;

    memset(&line, 0, sizeof(line));
    memset(&file, 0, sizeof(file));
    line.cl_file = &file;
    line.cl_shell = "cmd";
    nd_td_line(&line);
    set_freq_periodically(line.cl_option);
    REQUIRE((is_freq_mins(line.cl_option) != 0) + (is_freq_hrs(line.cl_option) != 0)
            + (is_freq_days(line.cl_option) != 0) + (is_freq_dow(line.cl_option) != 0)
            + (is_freq_mons(line.cl_option) != 0) == 1);
    REQUIRE((is_freq_dow(line.cl_option) != 0) == MT_DOW);
    memset(&f, 0, sizeof(f));
    f.tm_year = (int)nd_range(100, 300);
    f.tm_mon = (int)nd_range(0, 11);
    f.tm_mday = (int)nd_range(1, 31);
    f.tm_hour = (int)nd_range(0, 23);
    f.tm_min = (int)nd_range(0, 60);    /* 60: one minute after hh:59 */
    f.tm_sec = (int)nd_range(0, 60);
    REQUIRE(f.tm_mday <= spec_mdays(f.tm_year + 1900, f.tm_mon));
    f.tm_wday = W(f.tm_year + 1900, f.tm_mon, f.tm_mday);
    g_t.tm_year = (int)nd_range(100, 310);
    g_t.tm_mon = (int)nd_range(0, 11);
    g_t.tm_mday = (int)nd_range(1, 31);
    g_t.tm_hour = (int)nd_range(0, 23);
    g_t.tm_min = (int)nd_range(0, 59);
    REQUIRE(valid_tm(&g_t));
    o = f;
    before = line;
    LEMMA_W1(f.tm_year + 1900, f.tm_mon);
    COVER(is_freq_mid(line.cl_option) && f.tm_mon == 11 && f.tm_mday == 30,
          "across the end of a year");
    move_time_to(BEGIN_NEXT_PERIOD, &line, &f);
    if (is_freq_mins(line.cl_option)) {
        /* every minute is a period: the first allowed minute is the one asked about */
        ENSURE(T(&f) == T(&o), "minutely: nothing to skip");
    }
    else {
        /* the last minute of the period is hh:59 (o.tm_min == 60 stands for the minute
         * after hh:59, which belongs to that period's end) */
        ENSURE(valid_tm(&f), "the beginning of the period is a valid date");
        ENSURE(spec_begins(&line, &f), "a period begins there");
        if (o.tm_min <= 59) {
            ENSURE(tmkey(&f) > tmkey(&o), "it is in the future");
            ENSURE(IMPLIES(spec_begins(&line, &g_t) && tmkey(&g_t) > tmkey(&o),
                           tmkey(&f) <= tmkey(&g_t)), "it is the next one");
        }
        else {
            struct tm m = o;
            m.tm_min = 59;
            ENSURE(tmkey(&f) > tmkey(&m), "it is in the future (minute overflow)");
            ENSURE(IMPLIES(spec_begins(&line, &g_t) && tmkey(&g_t) > tmkey(&m),
                           tmkey(&f) <= tmkey(&g_t)), "it is the next one (minute overflow)");
        }
        ENSURE(f.tm_sec == 0 && f.tm_year <= o.tm_year + 1, "on the minute, within a year");
    }
    ENSURE(cl_same(&before, &line), "the line is not changed");
}
#endif

#ifdef MT_WALK
static struct tm g_np;           /* begin of the next period, as the callee says */

static int
ign(int flag)
{
    return g_where == BEGIN_NEXT_PERIOD && flag;
}

/* is minute f inside the interval of execution? (a %-line ignores the fields that hold
 * the period it counts by) */
static int
spec_in(const cl_t *l, const struct tm *f)
{
    int dm = ign(is_freq_days(l->cl_option)) || bit(l->cl_days, f->tm_mday);
    int wm = ign(is_freq_dow(l->cl_option))
        || bit(l->cl_dow, W(f->tm_year + 1900, f->tm_mon, f->tm_mday));
    return (ign(is_freq_mins(l->cl_option)) || bit(l->cl_mins, f->tm_min))
        && (ign(is_freq_hrs(l->cl_option)) || bit(l->cl_hrs, f->tm_hour))
        && (ign(is_freq_mons(l->cl_option)) || bit(l->cl_mons, f->tm_mon))
        && (is_dayor(l->cl_option) ? (dm || wm) : (dm && wm));
}

#ifdef FV_CBMC
void
contract_set_wday(struct tm *date)
{
    ENSURE(date->tm_mon >= 0 && date->tm_mon <= 11 && date->tm_mday >= 1
           && date->tm_year >= 100, "set_wday precondition");
    date->tm_wday = W(date->tm_year + 1900, date->tm_mon, date->tm_mday);
}

/* contract proved by the MT_PERIOD harness, as far as needed here */
void
contract_goto_beginning_next_period_periodical(cl_t *l, struct tm *f)
{
    struct tm n = *f;
    ENSURE(l == g_line && tmkey(f) == tmkey(&g_start), "next period of the minute asked");
    n.tm_year = (int)nd_range(100, 310);
    n.tm_mon = (int)nd_range(0, 11);
    n.tm_mday = (int)nd_range(1, 31);
    n.tm_hour = (int)nd_range(0, 23);
    n.tm_min = (int)nd_range(0, 59);
    n.tm_sec = 0;
    REQUIRE(valid_tm(&n) && tmkey(&n) > tmkey(f) && n.tm_year <= f->tm_year + 1);
    g_np = n;
    *f = n;
}

time_t
contract_mktime_no_dst(struct tm *t)
{
    return T(t);
}

static int g_seen;
static void
fv_cut_walk(struct cl_t *l, struct tm *f, time_t *tf, short *yl)
{
    ENSURE(valid_tm(f) && *tf == T(f) && (f->tm_sec == 0 || tmkey(f) == tmkey(&g_start))
           && *yl >= 1 && *yl == MAXYEAR_SCHEDULE_TIME - (f->tm_year - g_start.tm_year)
           && f->tm_wday == W(f->tm_year + 1900, f->tm_mon, f->tm_mday),
           "walk: a valid calendar minute");
    ENSURE(tmkey(f) >= tmkey(&g_start), "walk: forward only");
    ENSURE(IMPLIES(tmkey(&g_t) >= tmkey(&g_start) && tmkey(&g_t) < tmkey(f),
                   spec_in(l, &g_t)), "walk: only minutes of the interval are passed");
    ENSURE(spec_in(l, f), "walk: still in the interval");
    if (g_seen)
        FV_STOP();
    g_seen = 1;
    f->tm_year = (int)nd_range(100, 330);
    f->tm_mon = (int)nd_range(0, 11);
    f->tm_mday = (int)nd_range(1, 31);
    f->tm_hour = (int)nd_range(0, 23);
    f->tm_min = (int)nd_range(0, 59);
    f->tm_sec = (int)nd_range(0, 60);
    f->tm_wday = W(f->tm_year + 1900, f->tm_mon, f->tm_mday);
    *yl = (short)nd_range(1, MAXYEAR_SCHEDULE_TIME);
    *tf = T(f);
    REQUIRE(valid_tm(f) && *yl == MAXYEAR_SCHEDULE_TIME - (f->tm_year - g_start.tm_year)
            && (f->tm_sec == 0 || tmkey(f) == tmkey(&g_start))
            && tmkey(f) >= tmkey(&g_start)
            && IMPLIES(tmkey(&g_t) >= tmkey(&g_start) && tmkey(&g_t) < tmkey(f),
                       spec_in(l, &g_t))
            && spec_in(l, f)
            && (g_where == BEGIN_NEXT_PERIOD || !is_freq_periodically(l->cl_option)
                || T(f) < T(&g_np)));
}
#endif

void
harness(void)
{
    static cl_t line;
    static cf_t file;
    struct tm f, o;
    cl_t before;
    long horizon;
    int periodic;

    memset(&line, 0, sizeof(line));
    memset(&file, 0, sizeof(file));
    g_line = &line;
    line.cl_file = &file;
    line.cl_shell = "cmd";
    nd_td_line(&line);
    g_where = nd_bool() ? BEGIN_NEXT_PERIOD : END_OF_INTERVAL;
    memset(&f, 0, sizeof(f));
    f.tm_year = (int)nd_range(100, 300);
    f.tm_mon = (int)nd_range(0, 11);
    f.tm_mday = (int)nd_range(1, 31);
    f.tm_hour = (int)nd_range(0, 23);
    /* 60: the caller added one minute to hh:59 */
    f.tm_min = (int)nd_range(0, g_where == BEGIN_NEXT_PERIOD ? 60 : 59);
    f.tm_sec = (int)nd_range(0, 60);
    REQUIRE(f.tm_mday <= spec_mdays(f.tm_year + 1900, f.tm_mon));
    f.tm_wday = W(f.tm_year + 1900, f.tm_mon, f.tm_mday);
    now = T(&f) + nd_range(-100000, 100000);
    horizon = now + 10L * 365 * 24 * 3600;
    g_t.tm_year = (int)nd_range(100, 330);
    g_t.tm_mon = (int)nd_range(0, 11);
    g_t.tm_mday = (int)nd_range(1, 31);
    g_t.tm_hour = (int)nd_range(0, 23);
    g_t.tm_min = (int)nd_range(0, 59);
    REQUIRE(valid_tm(&g_t));
    periodic = is_freq_periodically(line.cl_option) != 0;
    REQUIRE(!(periodic && g_where == BEGIN_NEXT_PERIOD));       /* the other harness */
    g_start = f;
    if (g_start.tm_min == 60) {
        g_start.tm_min = 59;
        g_start = spec_next_minute(g_start);
    }
#ifndef FV_CBMC
    if (periodic) {
        REQUIRE((is_freq_mins(line.cl_option) != 0) + (is_freq_hrs(line.cl_option) != 0)
            + (is_freq_days(line.cl_option) != 0) + (is_freq_dow(line.cl_option) != 0)
            + (is_freq_mons(line.cl_option) != 0) == 1 && !is_freq_mins(line.cl_option));
        g_np = f;
        goto_beginning_next_period_periodical(&line, &g_np);
        REQUIRE(tmkey(&g_np) > tmkey(&g_start));
    }
#endif
    o = f;
    before = line;
    move_time_to(g_where, &line, &f);
    if (g_where == BEGIN_NEXT_PERIOD) {
        /* f: the first minute from the start on that is outside the interval */
        struct tm r = f;
        if (r.tm_min == 60) {
            r.tm_min = 59;
            r = spec_next_minute(r);
        }
        COVER(tmkey(&r) > tmkey(&g_start) + 100, "moved");
        ENSURE(valid_tm(&r) && tmkey(&r) >= tmkey(&g_start), "a valid minute, not before");
        ENSURE(!spec_in(&line, &r) || T(&r) >= horizon
               || r.tm_year >= g_start.tm_year + MAXYEAR_SCHEDULE_TIME,
               "next period: outside of the current interval");
        ENSURE(IMPLIES(tmkey(&g_t) >= tmkey(&g_start) && tmkey(&g_t) < tmkey(&r),
                       spec_in(&line, &g_t)),
               "next period: everything passed belongs to the current interval");
    }
    else {
        struct tm n;
        int started = spec_in(&line, &g_start) && (!periodic || T(&g_start) < T(&g_np));
        ENSURE(valid_tm(&f) || !started, "end of interval: a valid minute");
        n = f;
        if (valid_tm(&f))
            n = spec_next_minute(f);
        COVER(started && periodic && tmkey(&n) == tmkey(&g_np), "ends with the period");
        COVER(started && !periodic && tmkey(&n) > tmkey(&g_start) + 100, "a long interval");
        if (started) {
            ENSURE(tmkey(&f) >= tmkey(&g_start) || T(&g_start) >= horizon,
                   "end of interval: not before");
            ENSURE(IMPLIES(periodic, T(&f) < T(&g_np)),
                   "end of interval: not in the next period");
            ENSURE(IMPLIES(tmkey(&g_t) >= tmkey(&g_start) && tmkey(&g_t) <= tmkey(&f),
                           spec_in(&line, &g_t)
                           || f.tm_year >= g_start.tm_year + MAXYEAR_SCHEDULE_TIME),
                   "end of interval: everything up to it belongs to the interval");
            ENSURE((periodic && tmkey(&n) == tmkey(&g_np)) || !spec_in(&line, &n)
                   || T(&n) >= horizon
                   || n.tm_year >= g_start.tm_year + MAXYEAR_SCHEDULE_TIME,
                   "end of interval: the minute after it does not");
        }
        else
            ENSURE(tmkey(&f) < tmkey(&g_start) || T(&g_start) >= horizon,
                   "end of interval: outside of the interval, nothing is left of it");
    }
#ifndef FV_CBMC
    {
        /* the same, minute by minute (no witness needed) */
        struct tm w = g_start;
        long k;
        int lim = g_where == BEGIN_NEXT_PERIOD ? 0 : 1;
        int started = spec_in(&line, &g_start);
        for (k = 0; started && k < 50000 && tmkey(&w) < tmkey(&f) + lim; k++) {
            ENSURE(spec_in(&line, &w)
                   || f.tm_year >= g_start.tm_year + MAXYEAR_SCHEDULE_TIME,
                   "only minutes of the interval are passed (walked)");
            w = spec_next_minute(w);
        }
    }
#endif
    ENSURE(cl_same(&before, &line), "the line is not changed");
}
#endif
