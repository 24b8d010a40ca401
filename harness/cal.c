/* is_leap_year / get_nb_mdays / set_wday against the Gregorian calendar */
#include "db_env.h"
#include "spec_cal.h"
#ifdef FV_CBMC
static void fv_cut_years(struct tm *date, int *i, long *nod);
#define FV_LOOP_wday_years(d, i, n) fv_cut_years(d, i, n)
#endif
#include "database.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#include "db_ext.h"
#include "db_libc.h"

#ifdef FV_CBMC
static int g_seen;
static void
fv_cut_years(struct tm *date, int *i, long *nod)
{
    static struct tm head;
    ENSURE(*i >= 100 && *i < date->tm_year
           && *nod == spec_jan1(date->tm_year + 1900) - spec_jan1(*i + 1901),
           "set_wday: days of the years already counted");
    if (g_seen) {
        ENSURE(head.tm_year == date->tm_year && head.tm_mon == date->tm_mon
               && head.tm_mday == date->tm_mday, "set_wday: frame of the year loop");
        FV_STOP();
    }
    g_seen = 1;
    head = *date;
    *i = (int)nd_range(100, 320);
    *nod = nd_range(0, 100000);
    REQUIRE(*i < date->tm_year
            && *nod == spec_jan1(date->tm_year + 1900) - spec_jan1(*i + 1901));
}
#endif

void
harness(void)
{
    static struct tm t, o;
    int y = (int)nd_range(2000, 2235);
    int m = (int)nd_range(0, 11);
    int d = (int)nd_range(1, 33);

    ENSURE((is_leap_year(y) != 0) == spec_leap(y), "is_leap_year");
    ENSURE(get_nb_mdays(y, m) == spec_mdays(y, m), "get_nb_mdays");
    t.tm_year = y - 1900;
    t.tm_mon = m;
    t.tm_mday = d;
    t.tm_hour = (int)nd_range(0, 24);
    t.tm_min = (int)nd_range(0, 60);
    t.tm_sec = (int)nd_range(0, 60);
    t.tm_wday = (int)nd_range(0, 6);
    t.tm_isdst = (int)nd_range(-1, 1);
    o = t;
    COVER(y == 2020 && m == 1, "a february");
    set_wday(&t);
    COVER(y == 2120 && m == 11, "a december");
    ENSURE(t.tm_wday == (spec_wday1(y, m) + d - 1) % 7, "set_wday gives the day of week");
    ENSURE(t.tm_year == o.tm_year && t.tm_mon == o.tm_mon && t.tm_mday == o.tm_mday
           && t.tm_hour == o.tm_hour && t.tm_min == o.tm_min && t.tm_sec == o.tm_sec
           && t.tm_isdst == o.tm_isdst, "set_wday changes nothing else");
}
