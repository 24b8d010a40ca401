/* set_next_exe(), lines based on elapsed time (@-lines) */
#include "db_env.h"
#include "fv.h"
#ifdef FV_CBMC
/* the search over the calendar is not reached */
#define FV_LOOP_td_month(...) do { ENSURE(0, "freq: no search over the calendar"); FV_STOP(); } while (0)
#define FV_LOOP_td_day(...) FV_STOP()
#define FV_LOOP_td_hour(...) FV_STOP()
#endif
#include "database.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#define FV_OWN_LIBC
#include "db_ext.h"
#include "db_libc.h"
#include "spec_cal.h"
#include "nd_line.h"
#include "cl_same.h"
static int g_ins;
static cl_t *g_line;
int fv_rand(void) { return 0; }
char *fv_getenv(const char *n) { (void)n; return NULL; }
pid_t fv_fork(void) { return 1; }
pid_t fv_waitpid(pid_t p, int *s, int o) { (void)p; (void)s; (void)o; return -1; }
int fv_getloadavg(double *l, int n) { (void)l; (void)n; return 0; }
time_t fv_mktime(struct tm *t) { (void)t; return nd_range(0, TIME_T_MAX); }
struct tm *
fv_localtime(const time_t *t)
{
    static struct tm r;
    ENSURE(*t <= TIME_T_MAX, "freq: a time that localtime() can convert");
    return &r;
}
void
contract_insert_nextexe(cl_t *l)
{
    ENSURE(l == g_line, "freq: queues this line");
    g_ins++;
}
void
contract_move_time_to(int where, cl_t *l, struct tm *f)
{
    (void)where; (void)l; (void)f;
    ENSURE(0, "freq: no search over the calendar");
    FV_STOP();
}
void
harness(void)
{
    static cl_t line, before;
    static cf_t file;
    time_t base, spec;
    char option;
    int i;
    memset(&line, 0, sizeof line);
    memset(&file, 0, sizeof file);
    g_ins = g_setenv = g_unsetenv = 0;
    g_line = &line;
    line.cl_file = &file;
    line.cl_shell = "x";
    for (i = 0; i < OPTION_SIZE; i++)
        line.cl_option[i] = nd_u8();
    set_freq(line.cl_option);
    file.cf_tzdiff = (signed char)nd_range(-24, 24);
    line.cl_tz = nd_bool() ? "TZ" : NULL;
    line.cl_timefreq = nd_range(1, LONG_MAX);
    line.cl_runfreq = (unsigned short)nd_range(0, 65535);
    line.cl_remain = (unsigned short)nd_range(0, 65535);
    line.cl_first = nd_range(0, LONG_MAX);
    line.cl_jitter = nd_u8();
    line.cl_nextexe = nd_range(0, TIME_T_MAX);
    now = nd_range(0, 34359738368L);
    first_sleep = nd_range(0, 1000);
    option = (char)nd_range(0, 7);
    before = line;
    base = (option & FROM_CUR_NEXTEXE) ? line.cl_nextexe : now;
    spec = line.cl_timefreq > TIME_T_MAX - base ? TIME_T_MAX : base + line.cl_timefreq;
    COVER(spec == TIME_T_MAX && line.cl_timefreq < LONG_MAX, "far away");
    COVER(option == STD && spec < TIME_T_MAX, "usual");
    set_next_exe(&line, option, -1);
    ENSURE(line.cl_nextexe == spec, "freq: runs again when the period has passed");
    ENSURE(IMPLIES(!(option & FROM_CUR_NEXTEXE), line.cl_nextexe > now), "freq: strictly in the future");
#ifdef FV_CBMC
    ENSURE(g_ins == 1, "freq: queued once");
#endif
    ENSURE(g_setenv == (line.cl_tz != NULL) && g_unsetenv == (line.cl_tz != NULL), "freq: timezone restored");
    before.cl_nextexe = line.cl_nextexe;
    ENSURE(cl_same(&before, &line), "freq: only the time of the next run changes");
}
