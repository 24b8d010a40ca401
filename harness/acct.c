/* accounting of running jobs: run_normal_job, run_lavg_job, wait_chld, wait_all over the
 * real list of running jobs and the real serial queue; run_job() (fork, exec) and
 * waitpid() are the assumed contracts. */
#define FV_LIST_SMALL
#include "db_env.h"
#include "spec_cal.h"
#define FV_OWN_RUN_JOB
#define FV_OWN_LIBC
#include "database.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#include "db_ext.h"
#include "db_libc.h"

static cl_t L0, L1, L2;
static cf_t F, G;
static u_list_t XL;
static exe_t XA[4];
static int g_run_ok, g_ran, g_waits;
static cl_t *g_ran_line;
static pid_t g_pid;

int
run_job(struct exe_t *e)
{
    g_ran++;
    g_ran_line = e->e_line;
    if (g_run_ok) {
        e->e_ctrl_pid = 11;
        e->e_job_pid = 12;
        return OK;
    }
    return ERR;
}

pid_t
fv_waitpid(pid_t p, int *s, int o)
{
    (void)p; (void)s; (void)o;
    return g_waits++ == 0 ? g_pid : -1;
}
int fv_rand(void) { return 0; }
char *fv_getenv(const char *n) { (void)n; return NULL; }
pid_t fv_fork(void) { return 1; }
int fv_getloadavg(double *l, int n) { (void)l; (void)n; return 0; }
time_t fv_mktime(struct tm *t) { (void)t; return 0; }
struct tm *fv_localtime(const time_t *t) { static struct tm r; (void)t; return &r; }

/* how many entries of the list of running jobs are (line, ctrl pid, job pid) */
static int
count(cl_t *line, pid_t c, pid_t j)
{
    exe_t *a = exe_list->entries_array;
    int i, n = 0;
    for (i = 0; i < exe_list->num_entries; i++)
        if (a[i].e_line == line && a[i].e_ctrl_pid == c && a[i].e_job_pid == j)
            n++;
    return n;
}

void
harness(void)
{
    const int op = OP;
    int i, n, cnt, f0, s0, ls0, sev;

    memset(&L0, 0, sizeof(L0));
    memset(&L1, 0, sizeof(L1));
    memset(&L2, 0, sizeof(L2));
    memset(&F, 0, sizeof(F));
    memset(&G, 0, sizeof(G));
    F.cf_user = G.cf_user = "u";
    L0.cl_file = &F;
    L1.cl_file = L2.cl_file = &G;
    L0.cl_shell = L1.cl_shell = L2.cl_shell = "cmd";
    for (i = 0; i < OPTION_SIZE; i++) {
        L0.cl_option[i] = nd_u8();
        L1.cl_option[i] = nd_u8();
    }
    g_ran = g_waits = 0;
    g_ran_line = NULL;
    g_run_ok = nd_bool();
    L0.cl_numexe = (unsigned char)nd_range(0, 255);
    L1.cl_numexe = L2.cl_numexe = 1;
    F.cf_running = (int)nd_range(0, 1000);
    G.cf_running = 5;
    serial_running = (short)nd_range(0, 100);
    serial_max_running = (short)nd_range(1, 100);
    lavg_serial_running = (short)nd_range(0, 100);
    exe_list = &XL;
    memset(&XL, 0, sizeof(XL));
    memset(XA, 0, sizeof(XA));
    XL.array_size = 4;
    XL.entry_size = sizeof(exe_t);
    XL.grow_size = 10;
    XL.entries_array = XA;
    f0 = F.cf_running;
    cnt = L0.cl_numexe;
    s0 = serial_running;
    ls0 = lavg_serial_running;
    if (op == 0) {              /* a job which goes into no queue is due */
        int go;
        sev = is_exe_sev(L0.cl_option) != 0;
        go = sev ? cnt < 255 : cnt == 0;
#if OP == 0
        COVER(go && !g_run_ok, "not started");
#endif
        run_normal_job(&L0, -1);
        ENSURE(g_ran == go && IMPLIES(go, g_ran_line == &L0), "run: started unless it already runs");
        ENSURE(L0.cl_numexe == cnt + (go && g_run_ok), "run: counted in the line");
        ENSURE(F.cf_running == f0 + (go && g_run_ok), "run: counted in the file");
        ENSURE(exe_list->num_entries == (go && g_run_ok)
               && count(&L0, 11, 12) == (go && g_run_ok), "run: recorded as running");
        ENSURE(serial_running == s0 && lavg_serial_running == ls0, "run: not a serial job");
    }
    else if (op == 1) {         /* a job leaves the lavg queue */
        lavg_t l;
        l.l_line = &L0;
        l.l_until = 0;
        REQUIRE(cnt > 0);
#if OP == 1
        COVER(g_run_ok && is_serial(L0.cl_option), "serial lavg job");
#endif
        run_lavg_job(&l);
        ENSURE(g_ran == 1 && g_ran_line == &L0, "lavg: started");
        ENSURE(L0.cl_numexe == cnt - !g_run_ok, "lavg: still counted when it runs");
        ENSURE(F.cf_running == f0 + g_run_ok, "lavg: counted in the file");
        ENSURE(count(&L0, 11, 12) == g_run_ok && exe_list->num_entries == g_run_ok,
               "lavg: recorded as running");
        ENSURE(lavg_serial_running == ls0 + (g_run_ok && is_serial(L0.cl_option) != 0)
               && serial_running == s0, "lavg: serial lavg jobs are counted");
    }
    else {                      /* a child ends */
        exe_t e[3];
        int hit = -1, once, ser, lser, started, cnt0;
        static cl_t *sa[4];
        n = (int)nd_range(0, 3);
        for (i = 0; i < 3; i++) {
            int who = (int)nd_range(0, 2);
            e[i].e_line = who == 0 ? NULL : who == 1 ? &L0 : &L1;
            e[i].e_ctrl_pid = 100 + i;
            e[i].e_job_pid = (int)nd_range(0, 3);
            if (i < n)
                exe_list_add(exe_list, &e[i]);
        }
        g_pid = (int)nd_range(99, 104);
        if (g_pid >= 100 && g_pid < 100 + n)
            hit = g_pid - 100;
        /* the watched line L0 is the one that ended, if any line is */
        REQUIRE(IMPLIES(hit >= 0, e[hit].e_line != &L1));
        ser = is_serial(L0.cl_option) != 0;
        lser = ser && is_lavg(L0.cl_option) != 0;
        once = is_serial_once(L0.cl_option) != 0;
        /* a job is queued as serial because of bootrun only if it has no lavg limit */
        REQUIRE(!(once && is_lavg(L0.cl_option)));
        REQUIRE(cnt > 0 && f0 > 0);
        REQUIRE(IMPLIES((ser && !lser) || once, s0 > 0));
        REQUIRE(IMPLIES(lser, ls0 > 0));
        serial_array = sa;
        serial_array_size = 4;
        serial_array_index = (short)nd_range(0, 3);
        serial_num = (short)nd_range(0, 1);
        for (i = 0; i < 4; i++)
            sa[i] = NULL;
        if (serial_num)
            sa[serial_array_index] = &L2;
        started = op == 2 && hit >= 0 && e[hit].e_line == &L0 && ((ser && !lser) || once)
            && s0 - 1 < serial_max_running && serial_num == 1;
        cnt0 = serial_num;
#if OP == 2
        COVER(started && n == 3 && hit == 0, "next serial job");
#endif
        if (op == 3) {
            F.cf_running = 1000;
            wait_all(&F.cf_running);
            f0 = 1000;
        }
        else
            wait_chld();
        if (hit >= 0 && e[hit].e_line == &L0) {
            ENSURE(L0.cl_numexe == cnt - 1, "end: the line has one job less");
            ENSURE(F.cf_running == f0 - 1, "end: the file has one job less");
            ENSURE(serial_running == s0 - ((ser && !lser) || once) + (started && g_run_ok),
                   "end: running serial jobs");
            ENSURE(lavg_serial_running == ls0 - (lser && !once), "end: running serial lavg jobs");
            ENSURE(!is_serial_once(L0.cl_option), "end: serial only once");
        }
        else {
            ENSURE(L0.cl_numexe == cnt && F.cf_running == f0 && serial_running == s0
                   && lavg_serial_running == ls0, "end: another child changes nothing");
            ENSURE((is_serial_once(L0.cl_option) != 0) == once, "end: options kept");
        }
        ENSURE(g_ran == started && IMPLIES(started, g_ran_line == &L2),
               "end: the next serial job starts when there is room");
        ENSURE(serial_num == cnt0 - started, "end: serial queue");
        ENSURE(exe_list->num_entries == n - (hit >= 0) + (started && g_run_ok),
               "end: number of running jobs");
        for (i = 0; i < n; i++)
            ENSURE(count(e[i].e_line, e[i].e_ctrl_pid, e[i].e_job_pid) == (i != hit),
                   "end: exactly this job leaves the list");
        ENSURE(IMPLIES(started && g_run_ok, count(&L2, 11, 12) == 1), "end: next job recorded");
        ENSURE(!u_list_is_iterating(exe_list), "end: iteration over");
        ENSURE(G.cf_running == 5 + (started && g_run_ok) && L1.cl_numexe == 1
               && L2.cl_numexe == 1 - (started && !g_run_ok), "end: other lines");
    }
}
