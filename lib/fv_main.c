/* native driver of a harness: replay a value list, or search with a seed.
 *   fv replay FILE            exit 10 when an obligation fails, 0 otherwise
 *   fv search SECONDS SEED OUT  same; OUT gets the failing value list
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

jmp_buf fv_jmp;
void harness(void);
void __attribute__((weak)) fv_reset(void) { }

#define MAXV 65536
struct shared {
    long n;
    long v[MAXV];
    long trials;
    long accepted;
    char msg[1024];
};
static struct shared *sh;
static int replaying;
static long rp_n, rp_i, *rp_v;
static unsigned long rs;
static long bs_n, bs_i, *bs_v;  /* values of a verifier counterexample to start from */
static int bs_use;

static unsigned long
rnd(void)
{
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs * 2685821657736338717UL;
}

long
fv_nd(long lo, long hi)
{
    long v;
    if (hi < lo)
        longjmp(fv_jmp, 1);
    if (replaying) {
        if (rp_i >= rp_n)
            v = lo;
        else
            v = rp_v[rp_i++];
        if (v < lo || v > hi)
            longjmp(fv_jmp, 1);
    }
    else {
        unsigned long w = (unsigned long)hi - (unsigned long)lo;
        unsigned long k = rnd() >> 59;
        if (bs_use && bs_i < bs_n && bs_v[bs_i] >= lo && bs_v[bs_i] <= hi && k < 30) {
            v = bs_v[bs_i];
            if (k < 3 && v + (long)k - 1 >= lo && v + (long)k - 1 <= hi)
                v += (long)k - 1;
        }
        else if (w > 64 && k < 3)
            v = lo + (long)(rnd() % 4);
        else if (w > 64 && k < 6)
            v = hi - (long)(rnd() % 4);
        else if (w > 1000 && k < 14 && lo <= 0 && hi >= 0) {
            v = (long)(rnd() % 65) - 32;
            if (v < lo || v > hi)
                v = lo;
        }
        else if (w == ~0UL)
            v = (long)rnd();
        else
            v = lo + (long)(rnd() % (w + 1));
    }
    bs_i++;
    if (sh->n < MAXV)
        sh->v[sh->n++] = v;
    return v;
}

void
fv_fail(const char *id, const char *expr, const char *file, int line)
{
    snprintf(sh->msg, sizeof(sh->msg), "obligation '%s' violated: %s at %s:%d", id,
             expr, file, line);
    _exit(10);
}

void
fv_cover(const char *id)
{
    (void)id;
}

static int
child_result(int st, const char *out)
{
    long i;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return 0;
    if (!sh->msg[0])
        snprintf(sh->msg, sizeof(sh->msg), "the real code crashed (%s %d)",
                 WIFSIGNALED(st) ? "signal" : "exit",
                 WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    printf("FV-FAIL %s\n", sh->msg);
    if (out) {
        FILE *f = fopen(out, "w");
        if (f) {
            for (i = 0; i < sh->n; i++)
                fprintf(f, "%ld\n", sh->v[i]);
            fclose(f);
        }
    }
    return 10;
}

int
main(int argc, char **argv)
{
    int st;
    pid_t pid;
    struct rlimit rl = { 0, 0 };

    setrlimit(RLIMIT_CORE, &rl);
    sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
              -1, 0);
    if (sh == MAP_FAILED)
        return 2;
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r");
        char line[4096];
        if (!f)
            return 2;
        rp_v = malloc(MAXV * sizeof(long));
        while (fgets(line, sizeof(line), f) && rp_n < MAXV)
            if (line[0] == '-' || (line[0] >= '0' && line[0] <= '9'))
                rp_v[rp_n++] = strtol(line, NULL, 10);
        fclose(f);
        replaying = 1;
        fflush(NULL);
        if ((pid = fork()) == 0) {
            alarm(60);
            if (setjmp(fv_jmp) == 0) {
                fv_reset();
                harness();
                sh->accepted++;
            }
            _exit(0);
        }
        waitpid(pid, &st, 0);
        st = child_result(st, NULL);
        if (st == 0)
            printf("FV-OK accepted=%ld\n", sh->accepted);
        return st;
    }
    if (argc >= 5 && !strcmp(argv[1], "search")) {
        double secs = atof(argv[2]);
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        rs = strtoul(argv[3], NULL, 10) * 0x9E3779B97F4A7C15UL + 88172645463325252UL;
        if (argc >= 6) {
            FILE *f = fopen(argv[5], "r");
            char line[4096];
            bs_v = malloc(MAXV * sizeof(long));
            while (f && fgets(line, sizeof(line), f) && bs_n < MAXV)
                bs_v[bs_n++] = strtol(line, NULL, 10);
            if (f)
                fclose(f);
        }
        fflush(NULL);
        if ((pid = fork()) == 0) {
            for (;;) {
                bs_i = 0;
                bs_use = bs_n > 0 && (sh->trials % 4) != 3;
                sh->n = 0;
                sh->trials++;
                alarm(20);
                if (setjmp(fv_jmp) == 0) {
                    fv_reset();
                    harness();
                    sh->accepted++;
                }
                if ((sh->trials & 15) == 0) {
                    clock_gettime(CLOCK_MONOTONIC, &t1);
                    if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > secs)
                        _exit(0);
                }
            }
        }
        waitpid(pid, &st, 0);
        st = child_result(st, argv[4]);
        printf("FV-SEARCH trials=%ld accepted=%ld\n", sh->trials, sh->accepted);
        return st;
    }
    return 2;
}
