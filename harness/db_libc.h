/* inert libc contracts for the harnesses of database.c that do not care */
#ifndef FV_OWN_LIBC
int fv_rand(void) { return (int)nd_range(0, RAND_MAX); }
char *fv_getenv(const char *n) { (void)n; return NULL; }
pid_t fv_fork(void) { return 1; }
pid_t fv_waitpid(pid_t p, int *s, int o) { (void)p; (void)s; (void)o; return -1; }
int fv_getloadavg(double *l, int n) { (void)l; (void)n; return 0; }
time_t fv_mktime(struct tm *t) { (void)t; return nd_range(0, TIME_T_MAX); }
struct tm *
fv_localtime(const time_t *t)
{
    static struct tm r;
    (void)t;
    return &r;
}
#endif
