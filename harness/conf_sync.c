/* synchronize_file(): installing a fcrontab again keeps the schedule of the lines that did
 * not change, and replaces the old version only by one that is loaded and saved */
#include "conf_env.h"
#include <pwd.h>
#include "fcron.h"
void fv_free(void *p);
void *fv_calloc(size_t a, size_t b);
int fv_remove(const char *n);
int fv_memcmp(const void *a, const void *b, size_t n);
#define free fv_free
#define calloc fv_calloc
#define remove fv_remove
#define memcmp fv_memcmp
#include "conf.c"
#undef free
#undef calloc
#undef remove
#undef memcmp
#include "stubs_log.h"
#include "fcron_globals.h"
char *fcronconf, *fcrontabs;
#define FV_NO_LISTS
#define FV_OWN_insert_nextexe
#define FV_OWN_job_queue_remove
#include "conf_stubs.h"
void *alloc_safe(size_t n, const char *w) { (void)w; return malloc(n); }
char *strdup2(const char *s) { (void)s; FV_STOP(); return NULL; }
void fv_free(void *p) { (void)p; }

#define NO 2
#define NN 2
static cf_t OLDF, NEWF, OTHER;
static cl_t O[NO], N[NN];
static int g_step, g_ins[NN], g_rem[NN], g_read, g_del, g_save, g_rmv, g_read_ok, g_exist, g_first, g_seq, g_allocs;
static int g_del_at, g_save_at, g_rmv_at;
static char g_name[] = "new.us";
int
fv_memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    size_t i;
    ENSURE(n <= 18, "sync: compares the time tables");
    for (i = 0; i < 18; i++)
        if (i < n && x[i] != y[i])
            return 1;
    return 0;
}
void *
fv_calloc(size_t a, size_t b)
{
    ENSURE(a == 1 && b == sizeof(cf_t), "sync: allocates a file record");
    g_allocs++;
    return &NEWF;
}
int
contract_read_file(const char *name, cf_t *cf, int st)
{
    (void)st;
    g_read++;
    ENSURE(name == g_name && cf == &NEWF, "sync: loads the new file");
    if (!g_read_ok)
        return ERR;
    return OK;
}
void
contract_delete_file(const char *u)
{
    g_del++;
    g_del_at = ++g_seq;
    ENSURE(u[0] == 'u' && u[1] == 's' && u[2] == 0, "sync: removes the old version of this user's file");
    ENSURE(IMPLIES(g_exist, file_base == &OLDF), "sync: the old version is the first file of the user");
    if (file_base == &OLDF)
        file_base = OLDF.cf_next;
}
void
contract_save_file(cf_t *f)
{
    g_save++;
    g_save_at = ++g_seq;
    ENSURE(f == &NEWF && file_base == &NEWF, "sync: saves the new version");
}
int
fv_remove(const char *n)
{
    g_rmv++;
    g_rmv_at = ++g_seq;
    ENSURE(n == g_name, "sync: removes the installed file");
    return nd_bool() ? -1 : 0;
}
void insert_nextexe(cl_t *c) { int i; for (i = 0; i < NN; i++) if (c == &N[i]) g_ins[i]++; }
job_t *job_queue_remove(cl_t *c) { int i; for (i = 0; i < NN; i++) if (c == &N[i]) g_rem[i]++; return NULL; }

static char g_sh[2][2] = { "a", "b" };
static cl_t T[NO + NN];         /* what the lines are taken from */
static int g_l;
static void
line(cl_t *l, cf_t *f)
{
    int i, k;
    cl_t *t = &T[g_l], *s;
    for (i = 0; i < 8; i++) t->cl_mins[i] = nd_u8();
    for (i = 0; i < 3; i++) t->cl_hrs[i] = nd_u8();
    for (i = 0; i < 4; i++) t->cl_days[i] = nd_u8();
    for (i = 0; i < 2; i++) t->cl_mons[i] = nd_u8();
    t->cl_dow[0] = nd_u8();
    t->cl_timefreq = nd_range(1, LONG_MAX);
    REQUIRE(t->cl_mins[0] | t->cl_mins[1] | t->cl_mins[2] | t->cl_mins[3] | t->cl_mins[4] | t->cl_mins[5] | t->cl_mins[6] | t->cl_mins[7]);
    k = (int)nd_range(0, g_l);
    s = &T[k];
    g_l++;
    l->cl_file = f;
    l->cl_shell = g_sh[nd_bool()];
    for (i = 0; i < OPTION_SIZE; i++)
        l->cl_option[i] = nd_u8();
    /* what a loaded line looks like: a time table or a period */
    if (is_td(l->cl_option)) {
        for (i = 0; i < 8; i++) l->cl_mins[i] = s->cl_mins[i];
        for (i = 0; i < 3; i++) l->cl_hrs[i] = s->cl_hrs[i];
        for (i = 0; i < 4; i++) l->cl_days[i] = s->cl_days[i];
        for (i = 0; i < 2; i++) l->cl_mons[i] = s->cl_mons[i];
        l->cl_dow[0] = s->cl_dow[0];
    }
    else
        l->cl_timefreq = s->cl_timefreq;
    l->cl_nextexe = nd_range(0, 8000000000L);
    l->cl_runfreq = (unsigned short)nd_range(0, 65535);
    l->cl_remain = (unsigned short)nd_range(0, 65535);
}
static int
same(cl_t *a, cl_t *b)
{
    int i, d = 0;
    if (a->cl_shell != b->cl_shell || !is_td(a->cl_option) != !is_td(b->cl_option))
        return 0;
    if (!is_td(a->cl_option))
        return a->cl_timefreq == b->cl_timefreq;
    /* the 18 bytes from cl_mins on are the five tables (checked in harness()) */
    for (i = 0; i < 8; i++) d |= a->cl_mins[i] != b->cl_mins[i];
    for (i = 0; i < 3; i++) d |= a->cl_hrs[i] != b->cl_hrs[i];
    for (i = 0; i < 4; i++) d |= a->cl_days[i] != b->cl_days[i];
    for (i = 0; i < 2; i++) d |= a->cl_mons[i] != b->cl_mons[i];
    d |= a->cl_dow[0] != b->cl_dow[0];
    return !d && !is_dayor(a->cl_option) == !is_dayor(b->cl_option);
}
void
harness(void)
{
    int i, j, no, nn, m[NN], nother;
    long nx[NN];
    unsigned short rem[NN];
    unsigned char opt3[NN];
    memset(&OLDF, 0, sizeof OLDF); memset(&NEWF, 0, sizeof NEWF); memset(&OTHER, 0, sizeof OTHER);
    memset(O, 0, sizeof O); memset(N, 0, sizeof N); memset(T, 0, sizeof T); g_l = 0;
    ENSURE(offsetof(cl_t, cl_dow) - offsetof(cl_t, cl_mins) == 17 && sizeof(((cl_t *)0)->cl_dow) == 1, "sync: the tables are contiguous");
    g_read = g_del = g_save = g_rmv = g_seq = g_del_at = g_save_at = g_rmv_at = g_allocs = 0;
    for (i = 0; i < NN; i++) g_ins[i] = g_rem[i] = 0;
    debug_opt = 0;
    now = (time_t)nd_range(0, 4102444800L);
    g_read_ok = nd_bool();
    g_exist = nd_bool();
    nother = (int)nd_range(0, 2);       /* 0: no other file, 1: before, 2: after the old one */
    OLDF.cf_user = "us"; OTHER.cf_user = "usx";
    OLDF.cf_tzdiff = (signed char)nd_range(-24, 24);
    NEWF.cf_tzdiff = (signed char)nd_range(-24, 24);
    no = (int)nd_range(0, NO);
    nn = (int)nd_range(0, NN);
    OLDF.cf_line_base = no ? &O[0] : NULL;
    O[0].cl_next = no > 1 ? &O[1] : NULL;
    NEWF.cf_line_base = nn ? &N[0] : NULL;
    N[0].cl_next = nn > 1 ? &N[1] : NULL;
    for (i = 0; i < NO; i++) line(&O[i], &OLDF);
    for (i = 0; i < NN; i++) line(&N[i], &NEWF);
    for (i = 0; i < NN; i++) {
        m[i] = -1;
        nx[i] = N[i].cl_nextexe;
        rem[i] = N[i].cl_remain;
        opt3[i] = N[i].cl_option[3];
        if (i < nn && g_exist)
            for (j = NO - 1; j >= 0; j--)
                if (j < no && same(&N[i], &O[j]))
                    m[i] = j;
    }
    file_base = g_exist ? &OLDF : NULL;
    if (nother == 1) { OTHER.cf_next = file_base; file_base = &OTHER; }
    else if (nother == 2) {
        if (g_exist) OLDF.cf_next = &OTHER; else file_base = &OTHER;
    }
    COVER(g_exist && g_read_ok && nn == 2 && no == 2 && m[0] == 1 && m[1] == -1, "one line is kept, one is new");
    COVER(nother == 1 && g_exist && g_read_ok, "old version is moved to the front");
    {
        cf_t *b = file_base;
        synchronize_file(g_name, 0);
        ENSURE(g_read == 1, "sync: loads the file once");
        if (!g_read_ok) {
            ENSURE(g_del == 0 && g_save == 0 && g_rmv == 0 && file_base == b && g_ins[0] + g_ins[1] + g_rem[0] + g_rem[1] == 0,
                   "sync: a file that cannot be loaded changes nothing");
            return;
        }
    }
    ENSURE(file_base == &NEWF && NEWF.cf_next == (nother ? &OTHER : NULL) && (!nother || OTHER.cf_next == NULL),
           "sync: the new version takes the place of the old one");
    ENSURE(g_del == g_exist && g_save == 1 && g_rmv == 1 && g_save_at < g_rmv_at && g_del_at < g_save_at,
           "sync: saved, then the installed file is removed");
    for (i = 0; i < NN; i++) {
        cl_t *l = &N[i], *o;
        if (i >= nn)
            continue;
        if (m[i] < 0) {
            ENSURE(l->cl_nextexe == nx[i] && l->cl_remain == rem[i] && l->cl_option[3] == opt3[i] && g_ins[i] + g_rem[i] == 0,
                   "sync: a new or changed line is scheduled afresh");
            continue;
        }
        o = &O[m[i]];
        {
            long sh = o->cl_nextexe + NEWF.cf_tzdiff * 3600 - OLDF.cf_tzdiff * 3600;
            int once = is_runonce(l->cl_option) && is_runonce(o->cl_option) && is_hasrun(o->cl_option);
            ENSURE(l->cl_nextexe == (is_td(l->cl_option) && sh > now ? sh : o->cl_nextexe),
                   "sync: an unchanged line keeps the time of its next run");
            ENSURE(l->cl_remain == (l->cl_runfreq == o->cl_runfreq ? o->cl_remain : rem[i]),
                   "sync: an unchanged line keeps its remaining count");
            ENSURE(once ? is_hasrun(l->cl_option) && g_rem[i] >= 1 && g_ins[i] == 0 : g_ins[i] == 1 && g_rem[i] == 0
                   && l->cl_option[3] == opt3[i], "sync: a job to run once that has run is not queued again");
        }
    }
}
