/* fcrondyn_svr.c: connections and authentication.
 * OP: 0 password, 1 peer credentials, 2 a turn of fcrondyn_socket_check with up to three
 * clients, 3 fcrondyn_socket_close, 4 the text of print_line */
#include "fv.h"
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <stdio.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/resource.h>
#include <pwd.h>
#include <shadow.h>
#include <unistd.h>
#define send fv_send
#define getspnam fv_getspnam
#define getpwnam fv_getpwnam
#define getpwuid fv_getpwuid
#define crypt fv_crypt
#define getsockopt fv_getsockopt
#define setsockopt fv_setsockopt
#define accept fv_accept
#define recv fv_recv
#define shutdown fv_shutdown
#define unlink fv_unlink
#define fcntl fv_fcntl
#define snprintf fv_snprintf
#define localtime fv_localtime
#if OP == 2 || OP == 3
#define calloc fv_calloc
#define free fv_free
#endif
ssize_t fv_send(int, const void *, size_t, int);
struct spwd *fv_getspnam(const char *);
struct passwd *fv_getpwnam(const char *);
struct passwd *fv_getpwuid(uid_t);
char *fv_crypt(const char *, const char *);
int fv_getsockopt(int, int, int, void *, socklen_t *);
int fv_setsockopt(int, int, int, const void *, socklen_t);
int fv_accept(int, struct sockaddr *, socklen_t *);
ssize_t fv_recv(int, void *, size_t, int);
int fv_shutdown(int, int);
int fv_unlink(const char *);
int fv_fcntl(int, int, ...);
int fv_snprintf(char *, size_t, const char *, ...);
struct tm *fv_localtime(const time_t *);
void *fv_calloc(size_t, size_t);
void fv_free(void *);
#if OP == 2
static int fv_isset(int fd, const fd_set *s);
#undef FD_ISSET
#define FD_ISSET(fd, s) fv_isset(fd, s)
#endif
#include "fcrondyn_svr.c"
#undef free
#undef calloc
#undef snprintf
#include "stubs_log.h"
#include "fcron_globals.h"
#include "mem.c"
char *fifofile, *fcronconf;
static int g_sent, g_ok, g_fd, g_len;
static char g_last;
#if OP != 4
ssize_t
fv_send(int fd, const void *b, size_t n, int f)
{
    (void)f;
    g_sent++;
    g_fd = fd;
    if (n == 2)
        g_ok = ((const char *)b)[0];
    return nd_bool() ? -1 : (ssize_t)n;
}
#endif
#if OP == 0
#define BUF (SOCKET_MSG_LEN + 1)
static union { long l[BUF]; char c[BUF * 8]; } B;
static char name0[BUF * 8], SYS[] = "x1", CRY[] = "x?";
static int g_known, g_crypt, g_passoff, g_crypts;
static struct spwd sp;
static struct passwd pw;
struct spwd *
fv_getspnam(const char *n)
{
    ENSURE(strcmp(n, name0) == 0, "auth: the entry of the user who is named");
    sp.sp_pwdp = SYS;
    return g_known ? &sp : NULL;
}
struct passwd *
fv_getpwnam(const char *n)
{
    ENSURE(strcmp(n, name0) == 0, "auth: the entry of the user who is named");
    pw.pw_passwd = SYS;
    return g_known ? &pw : NULL;
}
char *
fv_crypt(const char *p, const char *s)
{
    ENSURE(p == B.c + g_passoff, "auth: the password given");
    ENSURE(s == SYS, "auth: salted by the password of the system");
    g_crypts++;
    CRY[1] = (char)('0' + g_crypt);
    return g_crypt == 2 ? NULL : CRY;
}
void
harness(void)
{
    struct fcrondyn_cl c;
    int i, e, fail0, locked;
    time_t since0;
    for (i = 0; i < SOCKET_MSG_LEN * 8; i++)
        B.c[i] = nd_bool() ? nd_s8() : 0;
    for (; i < BUF * 8; i++)
        B.c[i] = 0;
    g_sent = g_ok = g_crypts = 0;
    strcpy(name0, B.c);
    g_passoff = (int)strlen(B.c) + 1;
    g_known = nd_bool();
    g_crypt = (int)nd_range(0, 2);
    c.fcl_user = NULL;
    c.fcl_sock_fd = 5;
    c.fcl_cmd = B.l;
    fail0 = auth_fail = (int)nd_range(0, MAX_AUTH_FAIL);
    now = nd_range(1000000, TIME_T_MAX);
    since0 = auth_nofail_since = now - nd_range(0, 200);
    locked = fail0 >= MAX_AUTH_FAIL && since0 + AUTH_WAIT > now;
    e = g_known && !locked && g_crypt == 1;
    auth_client_password(&c);
    ENSURE((c.fcl_user != NULL) == e, "auth: authenticated only with the right password, and never while locked");
    ENSURE(c.fcl_user == NULL || strcmp(c.fcl_user, name0) == 0, "auth: as the user whose password it is");
    ENSURE(g_sent == 1 && g_fd == 5 && g_ok == (e ? '1' : '0'), "auth: the client is told");
    ENSURE(IMPLIES(locked, g_crypts == 0), "auth: no password is tried while locked");
    ENSURE(IMPLIES(locked && g_known, auth_fail >= MAX_AUTH_FAIL && auth_nofail_since + AUTH_WAIT > now), "auth: still locked after a refusal");
    ENSURE(IMPLIES(g_crypts && g_crypt == 0, auth_fail >= 1 && auth_nofail_since == now
                   && auth_fail == (since0 + AUTH_WAIT <= now ? 1 : fail0 + 1)), "auth: a wrong password is counted");
    ENSURE(auth_fail >= 0 && auth_fail <= MAX_AUTH_FAIL, "auth: counter in range");
    for (i = g_passoff; g_crypts && i < BUF * 8 && B.c[i] != 0; i++)
        ENSURE(0, "auth: the password is wiped after use");
    COVER(e && g_passoff > 3, "authenticated");
    COVER(locked && g_known, "locked");
}
#elif OP == 1
static struct passwd pw = { .pw_name = "ann" };
static unsigned g_uid;
static int g_fail, g_known;
int fv_setsockopt(int s, int l, int o, const void *v, socklen_t n) { (void)s; (void)l; (void)o; (void)v; (void)n; return nd_bool() ? -1 : 0; }
int
fv_getsockopt(int s, int l, int o, void *v, socklen_t *n)
{
    ENSURE(s == 5 && l == SOL_SOCKET && o == SO_PEERCRED && *n == 12, "auth: credentials of the peer of this socket");
    if (g_fail)
        return -1;
    ((int *)v)[0] = 77;
    ((unsigned *)v)[1] = g_uid;
    ((unsigned *)v)[2] = g_uid + 1;
    return 0;
}
struct passwd *
fv_getpwuid(uid_t u)
{
    ENSURE(u == g_uid && !g_fail, "auth: the user the kernel vouches for");
    return g_known ? &pw : NULL;
}
void
harness(void)
{
    struct fcrondyn_cl c;
    g_uid = (unsigned)nd_range(0, 0xffffffffL);
    g_fail = nd_bool();
    g_known = nd_bool();
    c.fcl_user = NULL;
    c.fcl_sock_fd = 5;
    auth_client_so_peercred(&c);
    ENSURE((c.fcl_user != NULL) == (!g_fail && g_known), "auth: authenticated only if the kernel and the system know the user");
    ENSURE(c.fcl_user == NULL || strcmp(c.fcl_user, "ann") == 0, "auth: as that user");
    COVER(c.fcl_user != NULL, "authenticated");
}
#elif OP == 2 || OP == 3
#ifndef NC
#define NC 3
#endif
static struct fcrondyn_cl poison, c0, c1, c2, c3;
static struct fcrondyn_cl *const CLP[] = { &c0, &c1, &c2, &c3 };
static int cl_idx(const struct fcrondyn_cl *c) { return c == &c0 ? 0 : c == &c1 ? 1 : c == &c2 ? 2 : c == &c3 ? 3 : -1; }
static int g_live[NC + 1];      /* allocated */
static int g_open[NC + 1], g_watch[NC + 1], fdof[NC + 1], g_rd[NC + 1], g_auth0[NC + 1], g_n, g_new, g_accept, g_listen_rd, g_nonblock;
static int g_auths[NC + 1], g_exe[NC + 1], g_peer, g_recv[NC + 1], g_shut[NC + 1], g_closing, g_lclosed, g_unl, g_allocs, g_peerok;
static select_instance SI;
static char UN[][2] = { "a", "b", "c", "d" };
static int by_fd(int fd);
#if OP == 2
static int
fv_isset(int fd, const fd_set *s)
{
    ENSURE(s == &SI.readfds, "dyn: looks at the result of select()");
    ENSURE(fd == listen_fd || by_fd(fd) >= 0, "dyn: looks at a descriptor of its own");
    ENSURE(fd >= 0 && fd < FD_SETSIZE, "dyn: a descriptor that can be in a set");
    return fd == 4 ? g_listen_rd : g_rd[by_fd(fd)];
}
#endif
static int by_fd(int fd) { return fd >= 10 && fd <= 10 + NC ? fd - 10 : fd >= FD_SETSIZE ? NC : -1; }
void *
fv_calloc(size_t n, size_t s)
{
    ENSURE(n == 1 && s == sizeof(struct fcrondyn_cl) && g_allocs == 0, "dyn: one new client");
    g_allocs++;
    memset(CLP[NC], 0, sizeof c0);
    g_live[NC] = 1;
    return CLP[NC];
}
void
fv_free(void *p)
{
    int i;
    for (i = 0; i <= NC; i++) {
        if (p == CLP[i]) {
            ENSURE(g_live[i], "dyn: freed once");
            ENSURE(!g_open[i] && (g_closing == 2 || !g_watch[i]), "dyn: closed and no longer watched before it is forgotten");
            g_live[i] = 0;
            CLP[i]->fcl_next = &poison;
        }
    }
}
int
fv_accept(int s, struct sockaddr *a, socklen_t *l)
{
    (void)a; (void)l;
    ENSURE(s == 4 && s == listen_fd && g_listen_rd, "dyn: accepts on the listening socket when there is a connection");
    if (g_accept == -1)
        return -1;
    g_open[NC] = 1;
    return g_accept;
}
int
fv_fcntl(int fd, int c, ...)
{
    ENSURE(by_fd(fd) == NC, "dyn: attributes of the new connection");
    if (c == F_SETFL) {
        g_nonblock = nd_bool();
        return g_nonblock ? 0 : -1;
    }
    return 0;
}
int
fv_shutdown(int fd, int how)
{
    (void)how;
    if (fd != 4)
        ENSURE(by_fd(fd) >= 0, "dyn: shuts a client down");
    return 0;
}
int
xclose_check(int *fd, const char *d)
{
    int i = by_fd(*fd);
    (void)d;
    if (*fd == 4 && g_closing) {
        g_lclosed++;
    }
    else {
        ENSURE(i >= 0 && g_open[i], "dyn: closes an open client");
        g_open[i] = 0;
    }
    *fd = -1;
    return 0;
}
int fv_unlink(const char *p) { ENSURE(p == fifofile && g_closing, "dyn: removes its own socket only"); g_unl++; return 0; }
void
select_add_read(select_instance *si, int fd)
{
    ENSURE(si == &SI && by_fd(fd) == NC && fd < FD_SETSIZE && g_open[NC], "dyn: watches the new connection");
    g_watch[NC] = 1;
}
void
select_rm_read(select_instance *si, int fd)
{
    int i = by_fd(fd);
    ENSURE(si == &SI && i >= 0 && g_open[i], "dyn: stops watching a client, before it is closed");
    g_watch[i] = 0;
}
ssize_t
fv_recv(int fd, void *b, size_t n, int f)
{
    int i = by_fd(fd), r;
    (void)f;
    ENSURE(i >= 0 && i < NC && g_open[i] && g_rd[i] && n <= SOCKET_MSG_LEN * sizeof(long), "dyn: reads from a client which has sent something");
    ENSURE(((char *)b)[0] == 0 && ((char *)b)[n - 1] == 0, "dyn: nothing of another client is left in the buffer");
    ENSURE(((char *)b)[n] == 0 && ((char *)b)[n + 1] == 0, "dyn: what is read is followed by two nulls");
    g_recv[i]++;
    r = nd_bool() ? 0 : nd_bool() ? -1 : (int)nd_range(1, (long)n);
    g_shut[i] = r == 0;
    if (r > 0) {
        ((char *)b)[0] = (char)(64 + i);
        ((char *)b)[n - 1] = (char)(64 + i);
    }
    else
        g_recv[i] = 2;
    return r;
}
void
contract_auth_client_so_peercred(struct fcrondyn_cl *c)
{
    ENSURE(c == CLP[NC] && g_open[NC] && c->fcl_user == NULL && by_fd(c->fcl_sock_fd) == NC, "dyn: the new connection is not authenticated yet");
    g_peer++;
    if (g_peerok)
        c->fcl_user = UN[NC];
}
void
contract_auth_client_password(struct fcrondyn_cl *c)
{
    int i = cl_idx(c);
    ENSURE(i >= 0 && i < NC && g_live[i] && c->fcl_user == NULL && g_recv[i] == 1, "dyn: a password is asked from those who are not authenticated");
    ENSURE(((char *)c->fcl_cmd)[0] == (char)(64 + i), "dyn: what this client sent");
    g_auths[i]++;
}
void
contract_exe_cmd(struct fcrondyn_cl *c)
{
    int i = cl_idx(c);
    ENSURE(c->fcl_user != NULL, "dyn: commands are executed for authenticated clients only");
    ENSURE(i >= 0 && i < NC && g_live[i] && g_auth0[i] && g_recv[i] == 1, "dyn: of a client which sent a command");
    ENSURE(((char *)c->fcl_cmd)[0] == (char)(64 + i), "dyn: the command this client sent");
    ENSURE(c->fcl_idle_since == now, "dyn: the client is not idle");
    g_exe[i]++;
}
void
harness(void)
{
    int i, seen[NC + 1], count, steps;
    time_t since0[NC + 1];
    struct fcrondyn_cl *p;
    for (i = 0; i <= NC; i++)
        memset(CLP[i], 0, sizeof c0);
    g_allocs = g_peer = g_lclosed = g_unl = g_closing = 0;
#ifdef NF
    g_n = NF;
#else
    g_n = (int)nd_range(0, NC);
#endif
    now = nd_range(1000, TIME_T_MAX);
    listen_fd = nd_bool() ? 4 : -1;
    SI.retcode = (int)nd_range(-1, 5);
    for (i = 0; i <= NC; i++) {
        fdof[i] = 10 + i;
        g_auths[i] = g_exe[i] = g_recv[i] = g_shut[i] = 0;
        g_open[i] = g_watch[i] = g_live[i] = i < g_n;
        g_auth0[i] = nd_bool();
        g_rd[i] = i < g_n && nd_bool();
        CLP[i]->fcl_sock_fd = fdof[i];
        CLP[i]->fcl_user = g_auth0[i] ? UN[i] : NULL;
        since0[i] = CLP[i]->fcl_idle_since = now - nd_range(0, 1000);
        CLP[i]->fcl_next = i + 1 < g_n ? CLP[i + 1] : NULL;
    }
    fcrondyn_cl_base = g_n ? CLP[0] : NULL;
    fcrondyn_cl_num = g_n;
#if OP == 2
    g_peerok = nd_bool();
    g_listen_rd = listen_fd == 4 && nd_bool();
    g_accept = nd_bool() ? 10 + NC : nd_bool() ? -1 : (int)nd_range(FD_SETSIZE, 5000);
    fcrondyn_socket_check(&SI);
    for (i = 0; i <= NC; i++)
        seen[i] = 0;
    count = steps = 0;
    for (p = fcrondyn_cl_base; p != NULL && steps < NC + 2; p = p->fcl_next) {
        int k = cl_idx(p);
        ENSURE(k >= 0 && k <= NC && g_live[k] && !seen[k], "dyn: the list holds the connected clients, each once");
        seen[k] = 1;
        count++;
        steps++;
    }
    ENSURE(count == fcrondyn_cl_num, "dyn: number of clients");
    for (i = 0; i <= NC; i++) {
        ENSURE(seen[i] == g_live[i], "dyn: no client is lost");
        ENSURE(g_live[i] == g_open[i] && g_live[i] == g_watch[i], "dyn: a connected client is watched, one which left is closed");
        ENSURE(IMPLIES(SI.retcode <= 0 && i < NC, g_live[i] == (i < g_n) && !g_exe[i] && !g_auths[i]), "dyn: nothing to do");
    }
    for (i = 0; i < NC && SI.retcode > 0; i++) {
        time_t idle = now - CLP[i]->fcl_idle_since;
        if (i >= g_n)
            continue;
        ENSURE(IMPLIES(g_recv[i] == 1 && g_auth0[i], g_exe[i] == 1 && g_auths[i] == 0 && g_live[i]), "dyn: a command is executed once");
        ENSURE(IMPLIES(g_recv[i] == 1 && !g_auth0[i], g_exe[i] == 0 && g_auths[i] == 1 && g_live[i]), "dyn: no command before authentication");
        ENSURE(IMPLIES(g_live[i], CLP[i]->fcl_idle_since == (g_recv[i] == 1 && g_auth0[i] ? now : since0[i])), "dyn: only a command makes a client active: the time to authenticate is limited");
        ENSURE((g_recv[i] > 0) == g_rd[i], "dyn: every client which has sent something is read");
        ENSURE(IMPLIES(g_rd[i], g_live[i] == !g_shut[i]), "dyn: a client which left is removed, no other");
        ENSURE(IMPLIES(!g_rd[i] && g_live[i], idle <= MAX_IDLE_TIME && (g_auth0[i] || idle <= MAX_AUTH_TIME)), "dyn: idle clients are removed");
        ENSURE(IMPLIES(!g_rd[i] && !g_live[i], idle > MAX_IDLE_TIME || (!g_auth0[i] && idle > MAX_AUTH_TIME)), "dyn: only idle clients are removed");
    }
    ENSURE(IMPLIES(g_live[NC], CLP[NC]->fcl_user == NULL || g_peer == 1), "dyn: a new client is not authenticated by itself");
    ENSURE(IMPLIES(SI.retcode > 0 && g_listen_rd && g_accept == 10 + NC && g_nonblock, g_live[NC] && CLP[NC]->fcl_idle_since == now && g_peer == 1), "dyn: a new client is taken");
#if NC > 1
    COVER(g_live[NC] && !g_live[0] && g_exe[1] && SI.retcode > 0, "one comes, one leaves, one is served");
#endif
#if NC > 2
    COVER(!g_live[0] && !g_live[2] && g_auths[1], "two leave");
#endif
#else
    {
        int nosi = nd_bool();
        REQUIRE(listen_fd == 4);
        g_closing = nosi ? 2 : 1;
        fcrondyn_socket_close(nosi ? NULL : &SI);
        ENSURE(g_lclosed == 1 && g_unl == 1 && listen_fd == -1, "dyn: the listening socket is closed and removed");
        ENSURE(fcrondyn_cl_base == NULL && fcrondyn_cl_num == 0, "dyn: no client left");
        for (i = 0; i < NC; i++)
            ENSURE(!g_open[i] && !g_live[i] && (nosi || !g_watch[i]), "dyn: every client is closed");
        COVER(g_n == 3 && !nosi, "three");
    }
    (void)seen; (void)count; (void)p; (void)steps;
#endif
}
#else
/* snprintf: the length it would need is arbitrary; it writes at most what it was given */
static char *g_buf;
static int g_total, g_first, g_over;
int
fv_snprintf(char *b, size_t n, const char *f, ...)
{
    int r = (int)nd_range(0, 20), opt = f[0] == 'L' || (f[0] == '%' && f[1] == '.' && f[2] == '*');
    if (f[0] == '|' && f[1] == '%' && f[2] == 's' && f[3] == '\n')
        r = (int)nd_range(0, 1000);
    if (opt)
        r = (int)nd_range(0, 3);
    else {
        if (g_buf == NULL)
            g_buf = b;
        ENSURE(b == g_buf + g_total && n == (size_t)(TERM_LEN - g_total), "print_line: appends, within the buffer");
        g_total += r;
    }
    if (n > 0) {
        b[0] = 'x';
        b[(size_t)r < n ? (size_t)r : n - 1] = 0;
    }
    return r;
}
struct tm *fv_localtime(const time_t *t) { static struct tm r; (void)t; return &r; }
ssize_t
fv_send(int fd, const void *b, size_t n, int f)
{
    const char *c = b;
    static const char tr[] = " (truncated)\n";
    int i;
    (void)f;
    ENSURE(fd == 5 && b == g_buf, "print_line: sends the line to the client");
    ENSURE(n == (size_t)(g_total + 1 < TERM_LEN ? g_total + 1 : TERM_LEN), "print_line: sends the whole line and nothing after it");
    ENSURE(c[n - 1] == 0, "print_line: null-terminated");
    for (i = 0; i < (int)sizeof tr; i++)
        ENSURE(IMPLIES(g_total + 1 > TERM_LEN, c[TERM_LEN - sizeof tr + i] == tr[i]), "print_line: says that it was truncated");
    g_sent++;
    return nd_bool() ? -1 : (ssize_t)n;
}
void
harness(void)
{
    static cl_t l;
    static cf_t f;
    unsigned char d = nd_u8();
    g_sent = g_total = 0;
    g_buf = NULL;
    l.cl_file = &f;
    f.cf_user = "u";
    l.cl_shell = "s";
    if (nd_bool()) set_lavg(l.cl_option); else clear_lavg(l.cl_option);
    if (nd_bool()) set_serial(l.cl_option); else clear_serial(l.cl_option);
    /* the fields before the command take less than 196 characters: up to 9 of up to 20 */
    print_line(5, &l, &d, (pid_t)nd_int(), nd_int(), nd_range(0, TIME_T_MAX));
    ENSURE(g_sent == 1, "print_line: one message");
    COVER(g_total > 300, "long");
}
#endif
