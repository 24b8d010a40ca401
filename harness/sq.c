/* the serial queue: a circular array. The queue is read as the sequence
 *   job(k) = serial_array[(serial_array_index + k) mod serial_array_size], k < serial_num
 * and one arbitrary position k is watched. */
#include "db_env.h"
#include "spec_cal.h"
#define FV_OWN_RUN_JOB
#ifdef FV_CBMC
/* memcpy as what it means for the array of lines (cbmc's own array copy of a symbolic
 * length exhausts the solver): element by element */
static void
fv_copy_lines(void *d, const void *s, size_t n)
{
    size_t i;
    __CPROVER_assert(n % sizeof(void *) == 0 && n <= SQ_SIZE * sizeof(void *), "OBL copied length");
    for (i = 0; i < n / sizeof(void *); i++)
        ((void **)d)[i] = ((void *const *)s)[i];
}
#define memcpy fv_copy_lines
#endif
#include "database.c"
#undef memcpy
#include "stubs_log.h"
#include "fcron_globals.h"
#include "db_ext.h"
#include "db_libc.h"
#define SQ_MAX 60

static cl_t L0, L1, L2;
static cf_t F;
static int g_run_ok, g_ran;
static cl_t *g_ran_line;

int
run_job(struct exe_t *e)
{
    g_ran++;
    g_ran_line = e->e_line;
    if (g_run_ok) {
        e->e_ctrl_pid = 11;
        e->e_job_pid = 12;
        return OK;
    }
    return ERR;
}

#ifdef FV_CBMC
static int g_mail;
void
contract_mail_notrun(cl_t *line, char context, struct tm *since)
{
    ENSURE(line == &L0 && context == QUEUE_FULL, "serial: full queue reported");
    g_mail++;
}
#endif

static cl_t *
job(int k)
{
    int i = serial_array_index + k;
    if (i >= serial_array_size)
        i -= serial_array_size;
    return serial_array[i];
}

void
harness(void)
{
    int op = (int)nd_range(0, 1), k, num, oldnumexe, oldsize, room, i;
#ifdef FV_CBMC
    const size_t size = SQ_SIZE;
#else
    size_t size = (size_t)nd_range(5, SQ_MAX);
#endif

    memset(&L0, 0, sizeof(L0));
    memset(&L1, 0, sizeof(L1));
    L0.cl_file = L1.cl_file = L2.cl_file = &F;
    L0.cl_shell = L1.cl_shell = "cmd";
    memset(&F, 0, sizeof(F));
    F.cf_user = "u";
    for (i = 0; i < OPTION_SIZE; i++) {
        L0.cl_option[i] = nd_u8();
        L1.cl_option[i] = nd_u8();
    }
    serial_queue_max = (short)nd_range(5, 200);
    serial_array_size = (short)size;
    serial_array_index = (short)nd_range(0, size - 1);
    serial_num = (short)nd_range(0, size);
    serial_running = (short)nd_range(0, 100);
    serial_max_running = (short)nd_range(1, 100);
    REQUIRE(serial_num <= serial_queue_max);
    serial_array = malloc(size * sizeof(cl_t *));
    REQUIRE(serial_array != NULL);
#ifndef FV_CBMC
    for (i = 0; i < (int)size; i++)
        serial_array[i] = &L2;
    clear_notice_notrun(L0.cl_option);
    g_ran = 0;
#endif
    exe_list = exe_list_init();
    num = serial_num;
    oldsize = serial_array_size;
    k = (int)nd_range(0, size - 1);
    REQUIRE(IMPLIES(num > 0, k < num));
    if (num > 0) {
        i = serial_array_index + k;
        serial_array[i >= (int)size ? i - (int)size : i] = &L1;
    }
    L0.cl_numexe = (unsigned char)nd_range(0, 255);
    L1.cl_numexe = (unsigned char)nd_range(1, 255);
    F.cf_running = (int)nd_range(0, 1000);
    oldnumexe = L0.cl_numexe;
    room = num < serial_queue_max
        && (is_serial_sev(L0.cl_option) ? L0.cl_numexe < UCHAR_MAX : L0.cl_numexe == 0);
    if (op == 0) {
        int r;
        COVER(room && num == (int)size && serial_array_index == 3, "enlarged");
        r = add_serial_job(&L0, -1);
        ENSURE((r == OK) == room, "serial: accepted exactly when there is room");
        ENSURE(serial_num == num + room, "serial: number of queued jobs");
        ENSURE(serial_num <= serial_queue_max, "serial: at most the allowed number wait");
        ENSURE(L0.cl_numexe == oldnumexe + room, "serial: counted in the line");
        ENSURE(serial_array_size >= oldsize && serial_array_size >= serial_num
               && serial_array_index >= 0 && serial_array_index < serial_array_size,
               "serial: the array holds the queue");
        if (room)
            ENSURE(job(num) == &L0, "serial: new job goes last");
        if (num > 0)
            ENSURE(job(k) == &L1, "serial: the jobs already queued keep their place");
    }
    else {
        int r0 = serial_running, was_once = is_serial_once(L1.cl_option) != 0,
            n1 = L1.cl_numexe, cr = F.cf_running;
        g_run_ok = nd_bool();
        REQUIRE(IMPLIES(num > 0, k == 0 || num > 1));
        if (num > 0 && k > 0)
            serial_array[serial_array_index] = &L0;
        REQUIRE(IMPLIES(num > 0 && k > 0, L0.cl_numexe >= 1));
        COVER(num > 0 && k == 0 && !g_run_ok, "could not start");
        run_serial_job();
        ENSURE(g_ran == (num > 0), "serial: one job is started when one is queued");
        ENSURE(IMPLIES(num > 0, g_ran_line == (k == 0 ? &L1 : &L0)), "serial: the first one");
        ENSURE(serial_num == num - (num > 0), "serial: it leaves the queue");
        ENSURE(serial_running == r0 + (num > 0 && g_run_ok), "serial: running jobs are counted");
        ENSURE(serial_array_index >= 0 && serial_array_index < serial_array_size,
               "serial: index in range");
        ENSURE(F.cf_running == cr + (num > 0 && g_run_ok), "serial: running jobs of the file");
        if (num > 0 && k == 0)
            ENSURE(L1.cl_numexe == n1 - !g_run_ok
                   && (is_serial_once(L1.cl_option) != 0) == (was_once && g_run_ok),
                   "serial: a job which did not start is not counted");
        if (num > 0 && k > 0)
            ENSURE(job(k - 1) == &L1, "serial: the others move up");
        ENSURE(exe_list->num_entries == (num > 0 && g_run_ok), "serial: running jobs are recorded");
    }
#ifndef FV_CBMC
    free(serial_array);
#endif
}
