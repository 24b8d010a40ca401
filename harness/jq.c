/* the job queue: job_queue_remove(), insert_nextexe(), test_jobs(), next_wake_time().
 *
 * JQ_REMOVE, JQ_INSERT: queues of any length.  The search loops are cut; the list is
 * materialised only around the place the loop has reached (the entries before and after
 * are never written, which is what the frame obligations say).
 * JQ_LIST: whole queues up to 4 entries (bounded), all properties at once.
 * JQ_DISPATCH: one arbitrary turn of test_jobs() from an arbitrary state; the turns share
 * nothing but the queue. */
#include "db_env.h"
#include "spec_cal.h"
struct cl_t;
struct job_t;
#if defined(FV_CBMC) && !defined(JQ_LIST)
static void fv_cut_find(struct cl_t *, struct job_t **, struct job_t **);
static void fv_cut_insert(struct cl_t *, struct job_t **, struct job_t **);
#define FV_LOOP_jq_find(l, j, p) fv_cut_find(l, j, p)
#define FV_LOOP_jq_insert(l, j, p) fv_cut_insert(l, j, p)
#endif
#include "database.c"
#include "stubs_log.h"
#include "fcron_globals.h"
#include "db_ext.h"
#include "db_libc.h"
#include "cl_same.h"

static cl_t L[5];                /* lines; L[0] is the one worked on */
static job_t *N[4];              /* materialised entries */
static cf_t F;

static job_t *
node(cl_t *line, job_t *next)
{
    job_t *j = malloc(sizeof(job_t));
    REQUIRE(j != NULL);
    j->j_line = line;
    j->j_next = next;
    return j;
}

static void
lines(void)
{
    int i;
    for (i = 0; i < 5; i++) {
        memset(&L[i], 0, sizeof(cl_t));
        L[i].cl_file = &F;
        L[i].cl_shell = "cmd";
        L[i].cl_nextexe = nd_bool() ? nd_range(0, 3) : nd_range(0, TIME_T_MAX);
    }
    debug_opt = 0;
}

#if defined(FV_CBMC) && !defined(JQ_LIST)
static int g_seen_find, g_seen_insert, g_present;
static job_t *g_opaque;

static void
fv_cut_find(struct cl_t *l, struct job_t **j, struct job_t **p)
{
    ENSURE((*p == NULL && *j == queue_base) || (*p != NULL && (*p)->j_next == *j),
           "find: previous entry is the one before");
    ENSURE(IMPLIES(*p != NULL, (*p)->j_line != l), "find: not passed");
    if (g_seen_find)
        FV_STOP();
    g_seen_find = 1;
    if (nd_bool()) {
        /* somewhere later in the queue */
        *p = N[1];
        *j = N[2];
        REQUIRE(N[0]->j_line != l);     /* not passed */
    }
}

static void
fv_cut_insert(struct cl_t *l, struct job_t **j, struct job_t **p)
{
    ENSURE((*p == NULL && *j == queue_base) || (*p != NULL && (*p)->j_next == *j)
           || (*p != NULL && *p == *j), "insert: previous entry is the one before");
    ENSURE(IMPLIES(*p != NULL, (*p)->j_line->cl_nextexe <= l->cl_nextexe),
           "insert: everything passed is due before");
    if (g_seen_insert)
        FV_STOP();
    g_seen_insert = 1;
    if (nd_bool()) {
        *p = N[1];
        *j = N[2];
        REQUIRE(N[1]->j_line->cl_nextexe <= l->cl_nextexe
                && N[2]->j_line->cl_nextexe <= l->cl_nextexe);
    }
}
#endif

#ifdef JQ_REMOVE
/* queue_base -> N0 -> (rest); anywhere: N1 -> N2 -> N3 */
void
harness(void)
{
    job_t *r;
    job_t n0, n1, n2;
    int empty = nd_bool(), last = nd_bool();
    lines();
    N[3] = node(&L[4], NULL);
    N[2] = node(nd_bool() ? &L[0] : &L[3], last ? NULL : N[3]);
    N[1] = node(&L[2], N[2]);
    N[0] = node(nd_bool() ? &L[0] : &L[1], nd_bool() ? NULL : N[1]);
    queue_base = empty ? NULL : N[0];
    REQUIRE(IMPLIES(N[0]->j_line == &L[0], N[2]->j_line != &L[0]));      /* unique */
    n0 = *N[0];
    n1 = *N[1];
    n2 = *N[2];
    r = job_queue_remove(&L[0]);
    COVER(r == N[1], "removed after another");
    COVER(r == NULL && !empty && queue_base != N[0], "removed at the head");
    if (empty)
        ENSURE(r == NULL && queue_base == NULL, "remove: empty queue");
    else if (n0.j_line == &L[0]) {
        ENSURE(r == NULL && queue_base == n0.j_next, "remove: head unlinked");
        ENSURE(N[1]->j_next == N[2] && N[2]->j_next == n2.j_next, "remove: frame (head)");
    }
    else if (r != NULL) {
        ENSURE(r == N[1] && n2.j_line == &L[0], "remove: returns the entry before");
        ENSURE(N[1]->j_next == n2.j_next && N[1]->j_line == &L[2], "remove: unlinked");
        ENSURE(queue_base == N[0] && N[0]->j_line == &L[1]
               && N[3]->j_line == &L[4] && N[3]->j_next == NULL, "remove: frame");
    }
    else {
        ENSURE(queue_base == N[0] && N[0]->j_line == n0.j_line && N[0]->j_next == n0.j_next
               && N[1]->j_next == N[2] && N[2]->j_line == n2.j_line
               && N[2]->j_next == n2.j_next, "remove: nothing touched when absent");
        ENSURE(IMPLIES(n0.j_next == NULL, n0.j_line != &L[0]), "remove: found when present");
    }
}
#endif

#ifdef JQ_INSERT
/* contract of job_queue_remove(), proved by JQ_REMOVE */
job_t *
contract_job_queue_remove(cl_t *line)
{
    ENSURE(line == &L[0], "insert: removes its own line");
    ENSURE(queue_base != NULL, "insert: removes from a queue");
    switch (nd_range(0, 2)) {
    case 0:                     /* absent */
        return NULL;
    case 1:                     /* was the head: the rest of the queue remains */
        queue_base = nd_bool() ? NULL : N[1];
        return NULL;
    default:                    /* was after N[1] */
        return N[1];
    }
}

void
harness(void)
{
    job_t *nw = NULL, *b;
    int i, empty = nd_bool();
    lines();
    /* a sorted stretch of the queue; N0 is the head, N1 any entry */
    N[3] = node(&L[4], NULL);
    N[2] = node(&L[3], nd_bool() ? NULL : N[3]);
    N[1] = node(&L[2], N[2]);
    N[0] = node(&L[1], nd_bool() ? NULL : N[1]);
    for (i = 1; i < 4; i++)
        REQUIRE(L[i].cl_nextexe <= L[i + 1].cl_nextexe);
    queue_base = empty ? NULL : N[0];
    insert_nextexe(&L[0]);
    ENSURE(queue_base != NULL, "insert: queue not empty");
    b = queue_base;
    /* find the new entry next to the materialised ones */
    if (b->j_line == &L[0]) {
        nw = b;
        ENSURE(IMPLIES(nw->j_next != NULL,
                       L[0].cl_nextexe <= nw->j_next->j_line->cl_nextexe),
               "insert: at the head, due before the next");
        ENSURE(nw->j_next == NULL || nw->j_next == N[0] || nw->j_next == N[1],
               "insert: at the head, the rest follows");
        ENSURE(IMPLIES(empty, nw->j_next == NULL), "insert: alone in an empty queue");
    }
    else {
        int k, found = 0;
        for (k = 0; k < 4; k++)
            if (N[k]->j_next != NULL && N[k]->j_next->j_line == &L[0]) {
                found++;
                nw = N[k]->j_next;
                ENSURE(L[k + 1].cl_nextexe <= L[0].cl_nextexe,
                       "insert: after an entry which is due before");
                ENSURE(nw->j_next == NULL
                       || L[0].cl_nextexe < nw->j_next->j_line->cl_nextexe,
                       "insert: before an entry which is due later");
                ENSURE(IMPLIES(k == 1, nw->j_next == N[2])
                       && IMPLIES(k == 2, nw->j_next == N[3] || nw->j_next == NULL)
                       && IMPLIES(k == 3, nw->j_next == NULL), "insert: the rest follows");
            }
        ENSURE(found == 1, "insert: linked exactly once");
        COVER(nw == N[2]->j_next && nw->j_next == N[3], "in the middle");
    }
    for (i = 0; i < 4; i++)
        ENSURE(N[i]->j_line == &L[i + 1], "insert: other entries keep their line");
}
#endif

#ifdef JQ_LIST
/* a whole queue of up to 4 lines, any of which may already hold L[0] */
void
harness(void)
{
    int i, n = (int)nd_range(0, 4), at = (int)nd_range(0, 4), k, cnt = 0;
    int op = (int)nd_range(0, 1);
    job_t *j, *prev = NULL, *r;
    cl_t *order[5];
    lines();
    F.cf_user = "u";
    for (k = 0; k < 5; k++)
        order[k] = NULL;
    queue_base = NULL;
    for (i = n - 1; i >= 0; i--) {
        order[i] = i == at ? &L[0] : &L[i + 1];
        queue_base = node(order[i], queue_base);
    }
    for (i = 0; i < 4; i++)
        REQUIRE(L[i + 1].cl_nextexe <= L[i + 2 < 5 ? i + 2 : 4].cl_nextexe);
    debug_opt = (char)nd_bool();
    COVER(op == 0 && n == 4 && at == 2, "moved inside a long queue");
    if (op == 0)
        insert_nextexe(&L[0]);
    else {
        prev = NULL;
        for (j = queue_base; j != NULL && j->j_line != &L[0]; j = j->j_next)
            prev = j;
        r = job_queue_remove(&L[0]);
        ENSURE(r == (at < n ? prev : NULL), "list: remove returns the entry before");
    }
    prev = NULL;
    k = 0;
    for (j = queue_base, i = 0; j != NULL && i < 6; j = j->j_next, i++) {
        if (j->j_line == &L[0])
            cnt++;
        else {
            while (k < n && order[k] == &L[0])
                k++;
            ENSURE(k < n && order[k] == j->j_line, "list: the other lines keep their order");
            k++;
        }
        if (op == 0)
            ENSURE(prev == NULL || prev->j_line->cl_nextexe <= j->j_line->cl_nextexe,
                   "list: sorted by next execution");
        prev = j;
    }
    while (k < n && order[k] == &L[0])
        k++;
    ENSURE(j == NULL && k == n, "list: no line is lost");
    ENSURE(cnt == (op == 0), "list: the line is there exactly once, or removed");
}
#endif

#ifdef JQ_DISPATCH
#ifdef FV_CBMC
static int g_lavg, g_serial, g_normal, g_removed, g_resched, g_turns;
static cl_t g_before;

static void
turn_over(cl_t *l)
{
    int due = g_before.cl_remain <= 1;
    ENSURE(l == &L[0], "dispatch: works on the head of the queue");
    ENSURE(g_lavg + g_serial + g_normal == due, "dispatch: run exactly when runfreq is reached");
    ENSURE(IMPLIES(due, g_lavg == (is_lavg(g_before.cl_option) != 0)), "dispatch: lavg jobs wait for the load");
    ENSURE(IMPLIES(due, g_serial == (!is_lavg(g_before.cl_option) && is_serial(g_before.cl_option))),
           "dispatch: serial jobs go to the serial queue");
    ENSURE(L[0].cl_remain == (due ? g_before.cl_runfreq : g_before.cl_remain - 1),
           "dispatch: count down to the next run");
    ENSURE((is_hasrun(L[0].cl_option) != 0) == (due || is_hasrun(g_before.cl_option)),
           "dispatch: hasrun");
    if (is_runonce(L[0].cl_option) && is_hasrun(L[0].cl_option))
        ENSURE(g_removed && !g_resched, "dispatch: a runonce job which has run is not rescheduled");
    else
        ENSURE(g_resched && !g_removed, "dispatch: every other job is rescheduled");
    g_turns++;
    queue_base = NULL;           /* the next turn starts from another arbitrary state */
}
void contract_add_lavg_job(cl_t *l, int fd) { ENSURE(l == &L[0] && fd < 0, "lavg line"); g_lavg++; }
int contract_add_serial_job(cl_t *l, int fd) { ENSURE(l == &L[0] && fd < 0, "serial line"); g_serial++; return nd_bool() ? OK : ERR; }
void contract_run_normal_job(cl_t *l, int fd) { ENSURE(l == &L[0] && fd < 0, "normal line"); g_normal++; }
job_t *
contract_job_queue_remove(cl_t *l)
{
    g_removed++;
    turn_over(l);
    return NULL;
}
void
contract_set_next_exe(cl_t *l, char option, int fd)
{
    ENSURE(option == STD && fd < 0, "dispatch: rescheduled from now");
    g_resched++;
    turn_over(l);
}

void
harness(void)
{
    int i;
    time_t lim, w;
    lines();
    now = nd_range(0, TIME_T_MAX);
    for (i = 0; i < OPTION_SIZE; i++)
        L[0].cl_option[i] = nd_u8();
    L[0].cl_runfreq = (unsigned short)nd_range(0, 65535);
    L[0].cl_remain = (unsigned short)nd_range(0, 65535);
    g_before = L[0];
    queue_base = nd_bool() ? NULL : node(&L[0], nd_bool() ? NULL : node(&L[1], NULL));
    lim = nd_range(0, TIME_T_MAX);
    w = next_wake_time(lim);
    {
        time_t next = queue_base == NULL ? lim : L[0].cl_nextexe;
        time_t m = next < lim ? next : lim;
        ENSURE(w == (m < now ? now : m), "wake time: the first job or the limit, not in the past");
    }
    {
        int was_due = queue_base != NULL && L[0].cl_nextexe <= now;
        int was_null = queue_base == NULL;
        COVER(was_due && g_before.cl_remain == 3, "counts down");
        test_jobs();
        ENSURE(g_turns == was_due, "dispatch: exactly the due jobs are handled");
        (void)was_null;
        ENSURE(IMPLIES(!was_due, L[0].cl_remain == g_before.cl_remain
                       && g_lavg + g_serial + g_normal == 0), "dispatch: nothing before its time");
    }
}
#else
/* native: one due job, the real callees, observed through the queues */
void
harness(void)
{
    cl_t b;
    int due, i, nser, nlavg, inq = 0;
    job_t *j;
    lines();
    F.cf_user = "u";
    F.cf_running = 0;
    now = nd_range(10, 1000000);
    for (i = 0; i < OPTION_SIZE; i++)
        L[0].cl_option[i] = nd_u8();
    (_bit_clear(L[0].cl_option, 0));
    clear_notice_notrun(L[0].cl_option);
    L[0].cl_timefreq = nd_range(1, 100000);
    L[0].cl_runfreq = (unsigned short)nd_range(0, 4);
    L[0].cl_remain = (unsigned short)nd_range(0, 4);
    L[0].cl_nextexe = now - nd_range(-2, 5);
    L[0].cl_numexe = 0;
    L[1].cl_nextexe = now + nd_range(1, 200000);
    queue_base = node(&L[0], nd_bool() ? node(&L[1], NULL) : NULL);
    if (queue_base->j_next)
        REQUIRE(L[1].cl_nextexe >= L[0].cl_nextexe);
    serial_array_size = 4;
    serial_array = calloc(4, sizeof(cl_t *));
    serial_array_index = serial_num = serial_running = 0;
    serial_max_running = 1;
    serial_queue_max = 10;
    exe_list = exe_list_init();
    lavg_list = lavg_list_init();
    g_run_job_calls = 0;
    b = L[0];
    due = b.cl_nextexe <= now && b.cl_remain <= 1;
    COVER(due && is_lavg(b.cl_option), "lavg due");
    test_jobs();
    ENSURE(g_run_job_calls + serial_num + lavg_list->num_entries == due,
           "dispatch: run exactly once when due");
    if (due) {
        nser = !is_lavg(b.cl_option) && is_serial(b.cl_option);
        nlavg = is_lavg(b.cl_option) != 0;
        ENSURE(serial_num == nser && lavg_list->num_entries == nlavg,
               "dispatch: through the queue its options ask for");
        ENSURE(L[0].cl_remain == b.cl_runfreq && is_hasrun(L[0].cl_option),
               "dispatch: counters start again");
    }
    else
        ENSURE(L[0].cl_remain == (b.cl_nextexe <= now ? b.cl_remain - 1 : b.cl_remain)
               && (is_hasrun(L[0].cl_option) != 0) == (is_hasrun(b.cl_option) != 0),
               "dispatch: count down");
    for (j = queue_base; j; j = j->j_next)
        inq += j->j_line == &L[0];
    if (b.cl_nextexe <= now) {
        int gone = is_runonce(b.cl_option) && (due || is_hasrun(b.cl_option));
        ENSURE(inq == !gone, "dispatch: scheduled again unless runonce");
        ENSURE(gone || L[0].cl_nextexe > now, "dispatch: next time is in the future");
    }
    else
        ENSURE(inq == 1 && L[0].cl_nextexe == b.cl_nextexe, "dispatch: nothing before its time");
    {
        time_t lim = nd_range(0, 2000000);
        time_t m = queue_base && queue_base->j_line->cl_nextexe < lim
            ? queue_base->j_line->cl_nextexe : lim;
        ENSURE(next_wake_time(lim) == (m < now ? now : m), "wake time");
    }
}
#endif
#endif
