/* delete_file(): the jobs of one user leave every queue and every count, nobody else's do */
#define FV_LIST_SMALL
#include "conf_env.h"
#include "conf.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#include "db_ext.h"

#ifndef SQN
#define SQN 4
#endif

static cf_t *FA, *FA2, *FB;
static cl_t A1, A2, B1, C1;       /* A1, A2 in FA; B1 in FB; C1 in FA2 (same user as FA) */
static u_list_t XL, LL;
static exe_t XA[4];
static lavg_t LA[5];
static int g_freed_a1, g_freed_a2, g_freed_other, g_unq_a1, g_unq_a2, g_unq_other;

/* contract of job_queue_remove (discharged in jq.c): the line is in no queue entry afterwards */
job_t *
job_queue_remove(cl_t *l)
{
    if (l == &A1) { ENSURE(!g_freed_a1, "delete: out of the main queue before it is freed"); g_unq_a1++; }
    else if (l == &A2) { ENSURE(!g_freed_a2, "delete: out of the main queue before it is freed"); g_unq_a2++; }
    else g_unq_other++;
    return NULL;
}
void
free_line(cl_t *l)
{
    if (l == &A1) g_freed_a1++;
    else if (l == &A2) g_freed_a2++;
    else g_freed_other++;
}
#define FV_OWN_job_queue_remove
#define FV_OWN_free_line
#include "conf_stubs.h"

static cl_t *
pick(void)
{
    int w = (int)nd_range(0, 3);
    return w == 0 ? &A1 : w == 1 ? &A2 : w == 2 ? &B1 : &C1;
}

void
harness(void)
{
    int i, j, n, nx, nl, s0, ls0, num0, dec, ldec, idx, hit, order;
    cl_t *xo[3], *lo[4], *so[SQN], *surv[SQN];
    pid_t xp[3];
    int nsurv, lsurv, b1c, c1c, a_ser, a_lser;

    memset(&A1, 0, sizeof A1); memset(&A2, 0, sizeof A2);
    memset(&B1, 0, sizeof B1); memset(&C1, 0, sizeof C1);
    FA = malloc(sizeof(cf_t)); FA2 = malloc(sizeof(cf_t)); FB = malloc(sizeof(cf_t));
    REQUIRE(FA != NULL && FA2 != NULL && FB != NULL);
    memset(FA, 0, sizeof(cf_t)); memset(FA2, 0, sizeof(cf_t)); memset(FB, 0, sizeof(cf_t));
    FA->cf_user = malloc(3); FA2->cf_user = malloc(3); FB->cf_user = malloc(3);
    REQUIRE(FA->cf_user != NULL && FA2->cf_user != NULL && FB->cf_user != NULL);
    FA->cf_user[0] = FA2->cf_user[0] = 'a'; FA->cf_user[1] = FA2->cf_user[1] = 0;
    FB->cf_user[0] = nd_bool() ? 'b' : 'a'; FB->cf_user[1] = 'b'; FB->cf_user[2] = 0;
    FA->cf_line_base = &A1; A1.cl_next = &A2; A2.cl_next = NULL;
    FB->cf_line_base = &B1; FA2->cf_line_base = &C1;
    A1.cl_file = A2.cl_file = FA; B1.cl_file = FB; C1.cl_file = FA2;
    A1.cl_shell = A2.cl_shell = B1.cl_shell = C1.cl_shell = "x";
    for (i = 0; i < OPTION_SIZE; i++) {
        A1.cl_option[i] = nd_u8(); A2.cl_option[i] = nd_u8();
        B1.cl_option[i] = nd_u8(); C1.cl_option[i] = nd_u8();
    }
    b1c = B1.cl_numexe = (int)nd_range(0, 255);
    c1c = C1.cl_numexe = (int)nd_range(0, 255);
    A1.cl_numexe = A2.cl_numexe = 100;
    FA->cf_running = 1; FB->cf_running = 2; FA2->cf_running = 3;
    /* FA before FA2 (synchronize_file: the first file of the user is the one removed) */
    order = (int)nd_range(0, 2);
    if (order == 0) { file_base = FB; FB->cf_next = FA; FA->cf_next = FA2; FA2->cf_next = NULL; }
    else if (order == 1) { file_base = FA; FA->cf_next = FB; FB->cf_next = FA2; FA2->cf_next = NULL; }
    else { file_base = FA; FA->cf_next = FA2; FA2->cf_next = FB; FB->cf_next = NULL; }
    g_freed_a1 = g_freed_a2 = g_freed_other = g_unq_a1 = g_unq_a2 = g_unq_other = 0;

    /* running jobs */
    exe_list = &XL;
    memset(&XL, 0, sizeof XL); memset(XA, 0, sizeof XA);
    XL.array_size = 4; XL.entry_size = sizeof(exe_t); XL.grow_size = 10; XL.entries_array = XA;
    nx = (int)nd_range(0, 3);
    dec = ldec = 0;
    for (i = 0; i < 3; i++) {
        exe_t e;
        xo[i] = nd_bool() ? pick() : NULL;
        xp[i] = (pid_t)nd_range(1, 9);
        e.e_line = xo[i]; e.e_ctrl_pid = 100 + i; e.e_job_pid = xp[i];
        if (i < nx) {
            exe_list_add(exe_list, &e);
            if (xo[i] != NULL && xo[i]->cl_file == FA) {
                if ((is_serial(xo[i]->cl_option) || is_serial_once(xo[i]->cl_option)) && !is_lavg(xo[i]->cl_option))
                    dec++;
                else if (is_serial(xo[i]->cl_option) && is_lavg(xo[i]->cl_option))
                    ldec++;
            }
        }
    }
    serial_running = s0 = (int)nd_range(3, 100);
    lavg_serial_running = ls0 = (int)nd_range(3, 100);

    /* lavg queue (one unused entry in front, see list_small.h) */
    lavg_list = &LL;
    memset(&LL, 0, sizeof LL); memset(LA, 0, sizeof LA);
    LL.array_size = 4; LL.entry_size = sizeof(lavg_t); LL.grow_size = 10; LL.entries_array = LA + 1;
    nl = (int)nd_range(0, 3);
    lsurv = 0;
    for (i = 0; i < 3; i++) {
        lavg_t l;
        l.l_line = pick(); l.l_until = i;
        if (i < nl) {
            lavg_list_add(lavg_list, &l);
            if (l.l_line->cl_file != FA)
                lo[lsurv++] = l.l_line;
        }
    }

    /* serial queue */
    serial_array_size = SQN;
    serial_array = calloc(SQN, sizeof(cl_t *));
    REQUIRE(serial_array != NULL);
    num0 = (int)nd_range(0, SQN);
    idx = (int)nd_range(0, SQN - 1);
    nsurv = 0;
    for (i = 0; i < SQN; i++) {
        surv[i] = NULL;
    }
    for (i = 0; i < SQN; i++) {
        cl_t *c = pick();
        if (i < num0) {
            j = idx + i >= SQN ? idx + i - SQN : idx + i;
            serial_array[j] = c;
            if (c->cl_file != FA) {
                for (j = 0; j < SQN; j++)
                    if (j == nsurv)
                        surv[j] = c;
                nsurv++;
            }
        }
    }
    serial_array_index = idx;
    serial_num = num0;
    hit = nd_bool();
    COVER(hit && nsurv == 1 && num0 == 3 && idx + num0 > SQN, "some entries of a wrapped queue go");

    {
        char u[2];
        u[0] = hit ? 'a' : 'z';
        u[1] = 0;
        delete_file(u);
    }

    if (!hit) {
        ENSURE(serial_num == num0 && serial_running == s0 && lavg_serial_running == ls0
               && exe_list->num_entries == nx && lavg_list->num_entries == nl
               && g_freed_a1 + g_freed_a2 + g_freed_other + g_unq_a1 + g_unq_a2 + g_unq_other == 0,
               "delete: an unknown user changes nothing");
        return;
    }
    ENSURE(g_freed_a1 == 1 && g_freed_a2 == 1 && g_unq_a1 == 1 && g_unq_a2 == 1,
           "delete: the user's lines leave the queue and are freed");
    ENSURE(g_freed_other == 0 && g_unq_other == 0, "delete: no other line is touched");
    ENSURE(file_base == (order == 0 ? FB : order == 1 ? FB : FA2)
           && FB->cf_next == (order == 2 ? NULL : FA2) && FA2->cf_next == (order == 2 ? FB : NULL)
           && FB->cf_line_base == &B1 && FA2->cf_line_base == &C1,
           "delete: only the first file of the user leaves the list");
    ENSURE(FB->cf_running == 2 && FA2->cf_running == 3 && B1.cl_numexe == b1c && C1.cl_numexe == c1c,
           "delete: the counts of the others stay");
    /* running jobs stay in the list (they are still waited for), detached from the file */
    n = 0;
    ENSURE(exe_list->num_entries == nx, "delete: running jobs are still known");
    for (i = 0; i < 3; i++)
        if (i < nx) {
            ENSURE(XA[i].e_line == (xo[i] != NULL && (xo[i] == &A1 || xo[i] == &A2) ? NULL : xo[i])
                   && XA[i].e_ctrl_pid == 100 + i && XA[i].e_job_pid == xp[i],
                   "delete: exactly the user's running jobs are detached");
        }
    ENSURE(serial_running == s0 - dec && lavg_serial_running == ls0 - ldec,
           "delete: the user's running serial jobs leave the serial limit");
    ENSURE(lavg_list->num_entries == lsurv, "delete: the user's jobs leave the lavg queue");
    for (i = 0; i < 3; i++)
        if (i < lsurv && lsurv == lavg_list->num_entries) {
            int found = 0;
            for (j = 0; j < 3; j++)
                if (j < lavg_list->num_entries && ((lavg_t *)lavg_list->entries_array)[j].l_line == lo[i])
                    found = 1;
            ENSURE(found, "delete: the others stay in the lavg queue");
        }
    ENSURE(serial_num == nsurv && serial_array_size == SQN, "delete: the user's jobs leave the serial queue");
    ENSURE(serial_array_index >= 0 && serial_array_index < SQN, "delete: serial queue index");
    for (i = 0; i < SQN; i++) {
        j = serial_array_index + i >= SQN ? serial_array_index + i - SQN : serial_array_index + i;
        ENSURE(serial_array[j] == surv[i], "delete: the others stay in the serial queue, in order");
    }
}
