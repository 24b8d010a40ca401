/* fcrondyn_svr.c, exe_cmd() and the commands: what an authenticated client may see and do.
 * OP: 0 details, 1 lists, 2 signal and renice, 3 run. Names are arbitrary among five that
 * are prefixes of one another or differ (the code only compares them); the queues hold up
 * to three arbitrary jobs. */
#include "fv.h"
#include <errno.h>
#include <time.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <pwd.h>
#define send fv_send
#define kill fv_kill
#define setpriority fv_setpriority
#define getpwuid fv_getpwuid
#define getloadavg fv_getloadavg
ssize_t fv_send(int, const void *, size_t, int);
int fv_kill(pid_t, int);
int fv_setpriority(int, id_t, int);
struct passwd *fv_getpwuid(uid_t);
int fv_getloadavg(double *, int);
static int fv_snprintf(char *b, size_t n, const char *f, ...) { (void)f; if (n) b[0] = 0; return (int)nd_range(0, 400); }
#define snprintf fv_snprintf
#include "fcrondyn_svr.c"
#undef snprintf
#undef send
#undef kill
#undef setpriority
#undef getpwuid
#undef getloadavg
#include "stubs_log.h"
#include "fcron_globals.h"
char *fifofile, *fcronconf;
#define N 3
static char *NAMES[] = { "root", "ann", "an", "anna", "systab" };
static char names2[][8] = { "root", "ann", "an", "anna", "systab" };
static cl_t L[N];
static cf_t F[N];
static job_t J[N];
static exe_t E[N];
static lavg_t A[N];
static cl_t *SQ[N];
static int owner[N], g_n, g_it, g_user, g_fd = 7, op;
static int p_cnt[N], p_tot, k_cnt[N], r_cnt[N], s_cnt[N], g_out, g_kind[N], g_strangers;
static long int CMD[20];
static struct fcrondyn_cl C;
static int is_root(void) { return g_user == 0; }
static int mine(int i) { return is_root() || owner[i] == g_user; }
static int idx(cl_t *l) { return l == &L[0] ? 0 : l == &L[1] ? 1 : 2; }
ssize_t
fv_send(int fd, const void *b, size_t n, int f)
{
    (void)b; (void)n; (void)f;
    ENSURE(fd == g_fd, "dyn: answers the client that asked");
    g_out++;
    return nd_bool() ? -1 : (ssize_t)n;
}
struct passwd *
fv_getpwuid(uid_t u)
{
    static struct passwd p;
    if (u > 3)
        return NULL;
    p.pw_name = NAMES[u];
    p.pw_uid = u;
    return &p;
}
int fv_getloadavg(double *l, int n) { (void)l; (void)n; return 0; }
void contract_print_fields(int fd, unsigned char *d) { (void)fd; (void)d; }
void
contract_print_line(int fd, struct cl_t *l, unsigned char *d, pid_t pid, int index, time_t until)
{
    int i = idx(l);
    (void)d; (void)until;
    ENSURE(fd == g_fd, "dyn: shown to the client that asked");
    ENSURE(mine(i), "dyn: only the jobs of the user are shown (root: all)");
    ENSURE(IMPLIES(CMD[0] == CMD_LIST_EXEQ, E[i].e_line == l && pid == E[i].e_job_pid), "dyn: pid of the running job");
    ENSURE(IMPLIES(CMD[0] == CMD_LIST_SERIALQ, SQ[(serial_array_index + index) % serial_array_size] == l), "dyn: place in the serial queue");
    ENSURE(IMPLIES(CMD[0] == CMD_DETAILS, l->cl_id == CMD[1]), "dyn: details of the job asked for");
    p_cnt[i]++;
    p_tot++;
}
static void
act(int i, pid_t pid)
{
    ENSURE(i < N && E[i].e_line != NULL && pid == E[i].e_job_pid && pid > 0, "dyn: acts on a running job only");
    ENSURE(E[i].e_line->cl_id == CMD[2], "dyn: acts on the job asked for");
    ENSURE(mine(i), "dyn: acts only on the jobs of the user (root: all)");
    k_cnt[i]++;
}
static int by_pid(pid_t p) { int i; for (i = 0; i < g_n && E[i].e_job_pid != p; i++) ; return i; }
int
fv_kill(pid_t p, int s)
{
    int i = by_pid(p);
    ENSURE(CMD[0] == CMD_SEND_SIGNAL && s == (int)CMD[1] && s > 0, "dyn: the signal asked for");
    ENSURE(i < g_n, "dyn: signals a job of the daemon");
    act(i, p);
    return nd_bool() ? -1 : 0;
}
int
fv_setpriority(int w, id_t p, int v)
{
    int i = by_pid((pid_t)p);
    ENSURE(CMD[0] == CMD_RENICE && w == PRIO_PROCESS && v == (int)CMD[1], "dyn: the nice value asked for");
    ENSURE(v <= 20 && v >= (is_root() ? -20 : 0), "dyn: only root may lower a nice value");
    ENSURE(i < g_n, "dyn: renices a job of the daemon");
    act(i, (pid_t)p);
    return nd_bool() ? -1 : 0;
}
static int
run(cl_t *l, int fd, int kind)
{
    int i = idx(l);
    ENSURE(fd == g_fd && (CMD[0] == CMD_RUN || CMD[0] == CMD_RUNNOW), "dyn: runs only if asked");
    ENSURE(mine(i), "dyn: runs only the jobs of the user (root: all)");
    ENSURE(l->cl_id == CMD[1], "dyn: runs the job asked for");
    ENSURE(kind == (is_lavg(l->cl_option) ? 0 : is_serial(l->cl_option) ? 1 : 2), "dyn: through the queue of the job");
    r_cnt[i]++;
    return nd_bool() ? OK : ERR;
}
void add_lavg_job(struct cl_t *l, int fd) { run(l, fd, 0); }
int add_serial_job(struct cl_t *l, int fd) { return run(l, fd, 1); }
void run_normal_job(struct cl_t *l, int fd) { run(l, fd, 2); }
void
set_next_exe(struct cl_t *l, char o, int fd)
{
    int i = idx(l);
    ENSURE(CMD[0] == CMD_RUNNOW && mine(i) && l->cl_id == CMD[1] && o == FROM_CUR_NEXTEXE && fd == g_fd, "dyn: reschedules only the job it was asked to run and reschedule");
    s_cnt[i]++;
}
exe_t *exe_list_first(exe_list_t *l) { (void)l; g_it = 0; return g_n > 0 ? &E[0] : NULL; }
exe_t *exe_list_next(exe_list_t *l) { (void)l; g_it++; return g_it < g_n ? &E[g_it] : NULL; }
void exe_list_end_iteration(exe_list_t *l) { (void)l; }
lavg_t *lavg_list_first(lavg_list_t *l) { (void)l; g_it = 0; return g_n > 0 ? &A[0] : NULL; }
lavg_t *lavg_list_next(lavg_list_t *l) { (void)l; g_it++; return g_it < g_n ? &A[g_it] : NULL; }
#if OP == 4
/* an unknown command: none of the commands is reached */
static void no(void) { ENSURE(0, "dyn: an unknown command does nothing"); FV_STOP(); }
void contract_cmd_ls(struct fcrondyn_cl *c, long int *cmd, int fd, int r) { (void)c; (void)cmd; (void)fd; (void)r; no(); }
void contract_cmd_on_exeq(struct fcrondyn_cl *c, long int *cmd, int fd, int r) { (void)c; (void)cmd; (void)fd; (void)r; no(); }
void contract_cmd_run(struct fcrondyn_cl *c, long int *cmd, int fd, int r) { (void)c; (void)cmd; (void)fd; (void)r; no(); }
#endif

void
harness(void)
{
    int i, all, asked;
    memset(L, 0, sizeof L);
    g_out = p_tot = g_it = 0;
    g_n = (int)nd_range(0, N);
    g_user = (int)nd_range(0, 3);
    C.fcl_user = NAMES[g_user];
    C.fcl_sock_fd = g_fd;
    C.fcl_cmd = CMD;
    for (i = 0; i < N; i++) {
        p_cnt[i] = k_cnt[i] = r_cnt[i] = s_cnt[i] = 0;
        owner[i] = (int)nd_range(0, 4);
        F[i].cf_user = names2[owner[i]];
        L[i].cl_file = &F[i];
        L[i].cl_id = nd_range(0, 4);
        if (nd_bool()) set_lavg(L[i].cl_option);
        if (nd_bool()) set_serial(L[i].cl_option);
        J[i].j_line = &L[i];
        J[i].j_next = i + 1 < g_n ? &J[i + 1] : NULL;
        E[i].e_line = nd_bool() ? &L[i] : NULL;
        E[i].e_job_pid = nd_bool() ? 100 + i : (pid_t)nd_range(-1, 0);
        A[i].l_line = &L[i];
    }
    REQUIRE(L[0].cl_id != L[1].cl_id && L[0].cl_id != L[2].cl_id && L[1].cl_id != L[2].cl_id);
    queue_base = g_n > 0 ? &J[0] : NULL;
    serial_array = SQ;
    serial_array_size = N;
    serial_array_index = (short)nd_range(0, N - 1);
    serial_num = (short)g_n;
    for (i = 0; i < g_n; i++)
        SQ[(serial_array_index + i) % N] = &L[i];
    CMD[1] = nd_bool() ? nd_range(-130, 25) : nd_long();
    CMD[2] = nd_bool() ? nd_range(0, 5) : nd_long();
#if OP == 0
    CMD[0] = CMD_DETAILS;
#elif OP == 1
    CMD[0] = CMD_LIST_JOBS + LS;
#elif OP == 2
    CMD[0] = LS ? CMD_SEND_SIGNAL : CMD_RENICE;
#elif OP == 3
    CMD[0] = LS ? CMD_RUN : CMD_RUNNOW;
#else
    CMD[0] = nd_long();
    REQUIRE(!(CMD[0] >= CMD_LIST_JOBS && CMD[0] <= CMD_DETAILS) && CMD[0] != CMD_RUNNOW && CMD[0] != CMD_RUN
            && CMD[0] != CMD_SEND_SIGNAL && CMD[0] != CMD_RENICE);
#endif
    exe_cmd(&C);
    ENSURE(g_out > 0, "dyn: the client gets an answer");
    for (i = 0; i < N; i++) {
        int in = i < g_n, isit = L[i].cl_id == CMD[1];
        asked = CMD[1] == ALL ? is_root()
            : CMD[1] == SYSFCRONTAB_UID ? is_root() && owner[i] == 4
            : (uid_t)CMD[1] <= 3 && owner[i] == (int)(uid_t)CMD[1] && mine(i);
#if OP == 0
        ENSURE(p_cnt[i] == (in && isit && mine(i)), "dyn: details shown once if allowed");
#elif OP == 1
        if (CMD[0] == CMD_LIST_EXEQ && E[i].e_line == NULL)
            in = 0;
        ENSURE(p_cnt[i] == (in && asked), "dyn: every job asked for is listed once, and nothing else");
#else
        ENSURE(p_cnt[i] == 0, "dyn: lists nothing");
#endif
#if OP == 2
        {
            int ok = CMD[0] == CMD_SEND_SIGNAL ? (int)CMD[1] > 0 : (int)CMD[1] <= 20 && (int)CMD[1] >= (is_root() ? -20 : 0);
            in = in && E[i].e_line != NULL && E[i].e_job_pid > 0 && L[i].cl_id == CMD[2] && mine(i);
            ENSURE(k_cnt[i] == (in && ok), "dyn: done once if allowed");
        }
#else
        ENSURE(k_cnt[i] == 0, "dyn: touches no running job");
#endif
#if OP == 3
        ENSURE(r_cnt[i] == (in && isit && mine(i)), "dyn: run once if allowed");
        ENSURE(s_cnt[i] == (r_cnt[i] && CMD[0] == CMD_RUNNOW), "dyn: rescheduled only by runnow");
#else
        ENSURE(r_cnt[i] == 0 && s_cnt[i] == 0, "dyn: runs nothing");
#endif
    }
    (void)asked; (void)all;
#if OP == 1
    COVER(p_tot == 2 && !is_root(), "a user's jobs");
    COVER(CMD[1] == ALL && p_tot == 3, "all");
#elif OP == 2
    COVER(k_cnt[1] && !is_root(), "acted");
#elif OP == 3
    COVER(r_cnt[2] && (LS || s_cnt[2]) && !is_root(), "run");
#elif OP == 0
    COVER(p_tot == 0 && g_n == 3, "refused");
#endif
}
