/* select.c: the set of watched descriptors. OP: 0 init, 1 add, 2 remove, 3 call.
 * The set before each operation is arbitrary, under the invariant every operation keeps:
 * no watched descriptor is above the recorded maximum. One arbitrary descriptor q stands
 * for all of them. */
#include "fv.h"
#include <errno.h>
#include <sys/select.h>
int fv_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
#if OP == 2
#define FCRON_VERIFY 1
struct select_instance;
static void fv_cut(struct select_instance *si, int fd, int *i);
#define FV_LOOP_sel_max(si, fd, i) fv_cut(si, fd, i)
#endif
#define select fv_select
#include "select.c"
#undef select
static int fv_die_ok;
#define FV_OWN_DIE
#include "stubs_log.h"
static void dead(void) { ENSURE(fv_die_ok, "select: the daemon survives an interrupted call"); FV_STOP(); }
void die(char *f, ...) { (void)f; dead(); }
void die_e(char *f, ...) { (void)f; dead(); }
#define ISSET(q, s) (((s)->__fds_bits[(q) / 64] >> ((q) % 64)) & 1)
static select_instance S, S0;
static int q, g_ret, g_errno, g_calls;
static struct timeval g_tv;
static int g_ready;
int
fv_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    g_calls++;
    ENSURE(r == &S.readfds && w == NULL && e == NULL && t == &g_tv, "select: what is waited for, and how long");
    ENSURE(!!ISSET(q, r) == !!ISSET(q, &S0.__readfds_master), "select: asks for exactly the watched descriptors");
    ENSURE(IMPLIES(ISSET(q, r), q < n), "select: every watched descriptor is below nfds");
    ENSURE(n >= 0 && n <= FD_SETSIZE, "select: nfds in range");
    if (g_ret >= 0 && !g_ready)
        FD_ZERO(r);
    errno = g_errno;
    return g_ret;
}
#if OP == 2
static int g_cut;
/* the search for the new maximum: nothing is watched between i and the one removed */
static void
fv_cut(struct select_instance *si, int fd, int *i)
{
    ENSURE(IMPLIES(q > *i && q <= fd, !ISSET(q, &si->__readfds_master)), "select_rm_read: no descriptor passed is watched");
    if (g_cut)
        FV_STOP();
    g_cut = 1;
    *i = (int)nd_range(0, fd);
    REQUIRE(IMPLIES(q > *i && q <= fd, !ISSET(q, &si->__readfds_master)));
}
#endif
void
harness(void)
{
    int i, fd;
    g_calls = 0;
#if OP == 2
    g_cut = 0;
#endif
    memset(&S, 0, sizeof S);
    fd = (int)nd_range(0, FD_SETSIZE - 1);
    q = (int)nd_range(0, FD_SETSIZE - 1);
    for (i = 0; i < FD_SETSIZE / 64; i++)
        S.__readfds_master.__fds_bits[i] = nd_long();
    S.__fd_max = (int)nd_range(-1, FD_SETSIZE - 1);
    /* invariant: nothing above the maximum */
    for (i = 0; i < FD_SETSIZE / 64; i++) {
        if (S.__fd_max < i * 64)
            S.__readfds_master.__fds_bits[i] = 0;
        else if (S.__fd_max < i * 64 + 63)
            S.__readfds_master.__fds_bits[i] &= (1UL << (S.__fd_max - i * 64 + 1)) - 1;
    }
    REQUIRE(IMPLIES(ISSET(q, &S.__readfds_master), q <= S.__fd_max));
    S0 = S;
#if OP == 0
    select_init(&S);
    ENSURE(!ISSET(q, &S.__readfds_master) && !ISSET(q, &S.readfds), "select_init: nothing is watched");
    ENSURE(S.__fd_max >= -1 && S.__fd_max < FD_SETSIZE && S.retcode <= 0, "select_init: no maximum");
    COVER(ISSET(q, &S0.__readfds_master), "had something");
#elif OP == 1
    select_add_read(&S, fd);
    ENSURE(!!ISSET(q, &S.__readfds_master) == (q == fd || ISSET(q, &S0.__readfds_master)), "select_add_read: adds exactly this descriptor");
    ENSURE(IMPLIES(ISSET(q, &S.__readfds_master), q <= S.__fd_max), "select_add_read: no watched descriptor above the maximum");
    ENSURE(S.__fd_max < FD_SETSIZE, "select_add_read: maximum in range");
    COVER(fd != q && fd > S0.__fd_max && S0.__fd_max > 3 && ISSET(q, &S.__readfds_master), "a new maximum");
#elif OP == 2
    select_rm_read(&S, fd);
    ENSURE(!!ISSET(q, &S.__readfds_master) == (q != fd && ISSET(q, &S0.__readfds_master)), "select_rm_read: removes exactly this descriptor");
    ENSURE(IMPLIES(ISSET(q, &S.__readfds_master), q <= S.__fd_max), "select_rm_read: the remaining descriptors are still watched");
    COVER(fd == S0.__fd_max && ISSET(q, &S.__readfds_master) && q > 5, "the largest goes");
    ENSURE(S.__fd_max < FD_SETSIZE && S.__fd_max >= -1, "select_rm_read: maximum in range");
#else
    g_ret = (int)nd_range(-1, 1024);
    g_errno = nd_bool() ? EINTR : (int)nd_range(1, 130);
    g_ready = nd_bool();
    fv_die_ok = g_ret < 0 && g_errno != EINTR;
    select_call(&S, &g_tv);
    ENSURE(g_calls == 1 && S.retcode == g_ret, "select_call: result of this call");
    ENSURE(!!ISSET(q, &S.__readfds_master) == !!ISSET(q, &S0.__readfds_master) && S.__fd_max == S0.__fd_max, "select_call: the watched set is kept for the next call");
    COVER(g_ret < 0, "interrupted");
    COVER(g_ret > 0 && !g_ready && ISSET(q, &S.__readfds_master), "ready");
#endif
}
