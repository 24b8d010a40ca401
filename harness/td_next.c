/* set_next_exe(), time-and-date lines: the next execution is the earliest matching
 * minute at or after the starting point, and is strictly in the future.
 *
 * The search loops (setMonth/setDay/setHour) are cut at the VERIFY_LOOP annotations:
 * the invariant is asserted on entry and on every way back, and the state is havoced in
 * between, so the obligations cover every number of iterations. */
#include "db_env.h"
#define FCRON_ABSTRACT_WDAY
#include "spec_cal.h"

struct cl_t;
#ifdef FV_CBMC
static void fv_cut(int which, struct cl_t *line, struct tm *f, char *hc, short *yl);
#define FV_LOOP_td_month(l, f, h, y) fv_cut(0, l, f, h, y)
#define FV_LOOP_td_day(l, f, h, y)   fv_cut(1, l, f, h, y)
#define FV_LOOP_td_hour(l, f, h, y)  fv_cut(2, l, f, h, y)
#endif

#include "database.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#include "db_ext.h"

/* ---------- ghost state ---------- */
static struct tm g_now;          /* what localtime() said the base time is */
static struct tm g_start;        /* S: start of the search */
static int t_y, t_mon, t_d, t_h, t_m;   /* witness: an arbitrary calendar minute */
static cl_t *g_line;
static int g_mktime_calls, g_inserted;
static struct tm g_first;        /* first struct tm converted back: the chosen minute */
static time_t g_first_time, g_last_time;
static int g_moved;

#include "nd_line.h"

static int
spec_match(const cl_t *l, int y, int mon, int d, int h, int m)
{
    int dm = bit(l->cl_days, d), wm = bit(l->cl_dow, W(y + 1900, mon, d));
    return bit(l->cl_mons, mon) && bit(l->cl_hrs, h) && bit(l->cl_mins, m)
        && (is_dayor(l->cl_option) ? (dm || wm) : (dm && wm));
}

static int
witness_ok(const cl_t *l)
{
    return t_d <= spec_mdays(t_y + 1900, t_mon)
        && key(t_y, t_mon, t_d, t_h, t_m) >= tmkey(&g_start)
        && t_y < g_start.tm_year + MAXYEAR_SCHEDULE_TIME
        && spec_match(l, t_y, t_mon, t_d, t_h, t_m);
}

#include "cl_same.h"

/* ---------- contracts of the callees ---------- */
int fv_rand(void) { return (int)nd_range(0, RAND_MAX); }
char *fv_getenv(const char *n) { (void)n; return NULL; }
pid_t fv_fork(void) { return 1; }
pid_t fv_waitpid(pid_t p, int *s, int o) { (void)p; (void)s; (void)o; return -1; }
int fv_getloadavg(double *l, int n) { (void)l; (void)n; return 0; }

struct tm *
fv_localtime(const time_t *t)
{
    static struct tm r;
    (void)t;
    r = g_now;
    return &r;
}

time_t
fv_mktime(struct tm *t)
{
    /* an order preserving reading of the calendar; the field conversion itself and
     * DST are libc's */
    time_t v = ((((t->tm_year * 12L + t->tm_mon) * 31 + t->tm_mday) * 24
                 + t->tm_hour) * 60 + t->tm_min) * 60 + t->tm_sec;
    if (g_mktime_calls == 0) {
        g_first = *t;
        g_first_time = v;
    }
    g_last_time = v;
    g_mktime_calls++;
    return v;
}

#ifdef FV_CBMC
void
contract_set_wday(struct tm *date)
{
    ENSURE(date->tm_mon >= 0 && date->tm_mon <= 11 && date->tm_mday >= 1
           && date->tm_year >= 100, "set_wday precondition");
    date->tm_wday = W(date->tm_year + 1900, date->tm_mon, date->tm_mday);
}

void
contract_insert_nextexe(cl_t *l)
{
    ENSURE(l == g_line, "insert_nextexe gets this line");
    g_inserted++;
}

/* contract of move_time_to() as used here (proved in the period checks): yields a valid
 * time, not before the one given */
void
contract_move_time_to(int where, cl_t *l, struct tm *f)
{
    struct tm n = *f;
    n.tm_year = (int)nd_range(100, 310);
    n.tm_mon = (int)nd_range(0, 11);
    n.tm_mday = (int)nd_range(1, 31);
    n.tm_hour = (int)nd_range(0, 23);
    n.tm_min = (int)nd_range(0, 60);
    n.tm_sec = 0;
    REQUIRE(n.tm_mday <= spec_mdays(n.tm_year + 1900, n.tm_mon));
    n.tm_wday = W(n.tm_year + 1900, n.tm_mon, n.tm_mday);
    REQUIRE(tmkey(&n) >= tmkey(f));
    ENSURE(l == g_line, "move_time_to gets this line");
    *f = n;
    g_moved++;
    if (where == BEGIN_NEXT_PERIOD)
        g_start = n;
}

static int g_seen[3];
static void
inv(int which, struct cl_t *l, struct tm *f, char hc, short yl, int check)
{
    int c_range = f->tm_mon >= 0 && f->tm_mon <= (which == 0 ? 12 : 11)
        && f->tm_mday >= 1 && f->tm_mday <= 33 && f->tm_hour >= 0 && f->tm_hour <= 24
        && f->tm_min >= 0 && f->tm_min <= 60 && f->tm_year >= g_start.tm_year;
    int c_year = yl >= 1 && yl == MAXYEAR_SCHEDULE_TIME - (f->tm_year - g_start.tm_year);
    int c_hc = hc >= 0 && hc <= 3;
    int c_low = IMPLIES(hc >= 1, (which == 2 || f->tm_hour == 0) && f->tm_min == 0)
        && IMPLIES(which == 0 && hc >= 2, f->tm_mday == 1);
    int c_mon = IMPLIES(which >= 1, bit(l->cl_mons, f->tm_mon));
    int c_day = IMPLIES(which == 2, f->tm_mday <= spec_mdays(f->tm_year + 1900, f->tm_mon)
                        && (is_dayor(l->cl_option)
                            ? bit(l->cl_days, f->tm_mday)
                              || bit(l->cl_dow, W(f->tm_year + 1900, f->tm_mon, f->tm_mday))
                            : bit(l->cl_days, f->tm_mday)
                              && bit(l->cl_dow,
                                     W(f->tm_year + 1900, f->tm_mon, f->tm_mday))));
    int c_ge = tmkey(f) >= tmkey(&g_start);
    int c_min = IMPLIES(witness_ok(l), tmkey(f) <= key(t_y, t_mon, t_d, t_h, t_m));
    if (check) {
        ENSURE(c_range && c_year && c_hc && c_low, "search loop: field ranges");
        ENSURE(c_mon && c_day, "search loop: settled fields match");
        ENSURE(c_ge, "search loop: never before the start");
        ENSURE(c_min, "search loop: no matching minute is skipped");
    }
    else {
        REQUIRE(c_range && c_year && c_hc && c_low && c_mon && c_day && c_ge && c_min);
    }
}

static void
fv_cut(int which, struct cl_t *l, struct tm *f, char *hc, short *yl)
{
    static struct tm head[3];
    static char head_hc[3];
    static short head_yl[3];

    inv(which, l, f, *hc, *yl, 1);
    if (g_seen[which]) {
        /* frame of the loop body: what the cut below leaves alone did not change */
        if (which >= 1)
            ENSURE(f->tm_year == head[which].tm_year && f->tm_mon == head[which].tm_mon
                   && *yl == head_yl[which], "search loop: frame of the day loop");
        if (which == 2)
            ENSURE(f->tm_mday == head[which].tm_mday && *hc == head_hc[which],
                   "search loop: frame of the hour loop");
        FV_STOP();
    }
    g_seen[which] = 1;
    if (which == 0) {
        f->tm_year = (int)nd_range(100, 330);
        f->tm_mon = (int)nd_range(0, 12);
        *yl = (short)nd_range(1, MAXYEAR_SCHEDULE_TIME);
    }
    if (which <= 1) {
        f->tm_mday = (int)nd_range(1, 33);
        *hc = (char)nd_range(0, 3);
    }
    f->tm_hour = (int)nd_range(0, 24);
    f->tm_min = (int)nd_range(0, 60);
    f->tm_wday = (int)nd_range(0, 6);
    inv(which, l, f, *hc, *yl, 0);
    head[which] = *f;
    head_hc[which] = *hc;
    head_yl[which] = *yl;
}
#endif

void
harness(void)
{
    static cl_t line;
    static cf_t file;
    cl_t before;
    char option;

    memset(&line, 0, sizeof(line));
    memset(&file, 0, sizeof(file));
#ifndef FV_CBMC
    g_mktime_calls = g_inserted = g_setenv = g_unsetenv = g_moved = 0;
    queue_base = NULL;
#endif
    g_line = &line;
    line.cl_file = &file;
    line.cl_shell = "cmd";
    file.cf_user = "u";
    file.cf_tzdiff = (signed char)nd_range(-24, 24);
    nd_td_line(&line);
    line.cl_runfreq = (unsigned short)nd_range(0, 65535);
    line.cl_jitter = nd_u8();
    line.cl_tz = nd_bool()? "TZ" : NULL;
    line.cl_nextexe = nd_range(0, TIME_T_MAX);
    now = nd_range(0, TIME_T_MAX);
    option = (char)nd_range(0, 7);
    first_sleep = nd_range(0, 1000);

    g_now.tm_year = (int)nd_range(100, 300);
    g_now.tm_mon = (int)nd_range(0, 11);
    g_now.tm_mday = (int)nd_range(1, 31);
    g_now.tm_hour = (int)nd_range(0, 23);
    g_now.tm_min = (int)nd_range(0, 59);
    g_now.tm_sec = (int)nd_range(0, 60);
    g_now.tm_isdst = 0;
    REQUIRE(g_now.tm_mday <= spec_mdays(g_now.tm_year + 1900, g_now.tm_mon));
    g_now.tm_wday = W(g_now.tm_year + 1900, g_now.tm_mon, g_now.tm_mday);
    g_start = g_now;
    if (first_sleep > 0 || option == STD || line.cl_runfreq != 1)
        g_start.tm_min++;

    t_y = (int)nd_range(100, 330);
    t_mon = (int)nd_range(0, 11);
    t_d = (int)nd_range(1, 31);
    t_h = (int)nd_range(0, 23);
    t_m = (int)nd_range(0, 59);

#ifndef FV_CBMC
    {   /* the witness of the native search is the earliest match itself */
        struct tm s = g_start;
        int k, h, m, go = 1;
        if (s.tm_min >= 60) {
            s.tm_min = 59;
            s = spec_next_minute(s);
        }
        for (k = 0; go && k < 366 * 9; k++) {
            for (h = 0; go && h < 24; h++)
                for (m = 0; go && m < 60; m++)
                    if (bit(line.cl_hrs, h) && bit(line.cl_mins, m)
                        && key(s.tm_year, s.tm_mon, s.tm_mday, h, m) >= tmkey(&s)
                        && spec_match(&line, s.tm_year, s.tm_mon, s.tm_mday, h, m)) {
                        t_y = s.tm_year;
                        t_mon = s.tm_mon;
                        t_d = s.tm_mday;
                        t_h = h;
                        t_m = m;
                        go = 0;
                    }
            s.tm_hour = 23;
            s.tm_min = 59;
            s = spec_next_minute(s);
        }
    }
#endif
    before = line;
    set_next_exe(&line, option, -1);

#ifndef FV_CBMC
    g_inserted = queue_base != NULL && queue_base->j_line == &line
        && queue_base->j_next == NULL;
    if (line.cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG)
        REQUIRE(0);
#endif
    ENSURE(g_mktime_calls >= 1, "a minute was chosen");
    {
        int y = g_first.tm_year, mo = g_first.tm_mon, d = g_first.tm_mday,
            h = g_first.tm_hour, m = g_first.tm_min;
        int valid = mo >= 0 && mo <= 11 && d >= 1 && h >= 0 && h <= 23 && m >= 0
            && m <= 59 && d <= spec_mdays(y + 1900, mo);
        int found = valid && spec_match(&line, y, mo, d, h, m);
        COVER(found && line.cl_runfreq != 1, "found");
        COVER(found && is_dayor(line.cl_option), "found dayor");
        ENSURE(IMPLIES(!found, !witness_ok(&line)),
               "chosen minute matches every field, when a match exists");
        ENSURE(IMPLIES(found, key(y, mo, d, h, m) >= tmkey(&g_start)),
               "chosen minute is not before the start");
        ENSURE(IMPLIES(found && witness_ok(&line),
                       key(y, mo, d, h, m) <= key(t_y, t_mon, t_d, t_h, t_m)),
               "chosen minute is the earliest match");
    }
    ENSURE(line.cl_nextexe > now, "strictly in the future");
    {
        time_t base = g_first_time + file.cf_tzdiff * 3600;
        long jit = (!is_random(line.cl_option) && line.cl_runfreq != 1)
            ? line.cl_jitter : 0;
        if (is_random(line.cl_option)) {
            long span = g_last_time > g_first_time ? g_last_time - g_first_time : 0;
            (void)span;
            ENSURE(line.cl_nextexe == now + 5 || line.cl_nextexe >= base,
                   "random delay is not negative");
        }
        else {
            ENSURE((line.cl_nextexe >= base && line.cl_nextexe <= base + jit)
                   || (base <= now && line.cl_nextexe == now + 5),
                   "next execution is the chosen minute plus at most the jitter");
        }
    }
    ENSURE(g_inserted == 1, "line is queued once");
    ENSURE(g_setenv == (line.cl_tz != NULL) && g_unsetenv == (line.cl_tz != NULL),
           "timezone restored");
    before.cl_nextexe = line.cl_nextexe;
    ENSURE(cl_same(&before, &line), "only cl_nextexe changes");
}
