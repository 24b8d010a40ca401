/* assumed or elsewhere-discharged contracts of what conf.c calls; include after conf.c.
 * A harness that checks how one of them is used defines FV_OWN_<name> and its own. */
#ifndef FV_OWN_job_queue_remove
job_t *job_queue_remove(cl_t *l) { (void)l; return NULL; }
#endif
#ifndef FV_OWN_free_line
void free_line(cl_t *l) { (void)l; }
#endif
#ifndef FV_OWN_env_list
env_list_t *env_list_destroy(env_list_t *l) { (void)l; return NULL; }
env_t *env_list_putenv(env_list_t *l, char *e, int o) { (void)l; (void)e; (void)o; return NULL; }
env_list_t *env_list_init(void) { return NULL; }
#endif
#ifndef FV_OWN_strcmp_until
int strcmp_until(const char *a, const char *b, char c) { (void)a; (void)b; (void)c; return 1; }
#endif
#ifndef FV_OWN_set_next_exe_startup
void set_next_exe_startup(cl_t *c, const int x, const time_t t) { (void)c; (void)x; (void)t; }
#endif
#ifndef FV_OWN_insert_nextexe
void insert_nextexe(cl_t *c) { (void)c; }
#endif
#ifndef FV_OWN_save_file_safe
int
save_file_safe(cf_t *f, char *a, char *b, uid_t u, gid_t g, time_t t)
{
    (void)f; (void)a; (void)b; (void)u; (void)g; (void)t;
    return 0;
}
#endif
#ifndef FV_OWN_xfclose_check
int xfclose_check(FILE **f, const char *d) { *f = NULL; (void)d; return 0; }
#endif
#ifndef FV_OWN_wait_all
void wait_all(int *c) { (void)c; }
#endif
#ifndef FV_OWN_selinux
int is_selinux_enabled(void) { return 0; }
int fgetfilecon(int f, char **c) { (void)f; (void)c; return -1; }
int getseuserbyname(const char *n, char **a, char **b) { (void)n; (void)a; (void)b; return -1; }
int get_default_context(const char *a, const char *b, char **c) { (void)a; (void)b; (void)c; return -1; }
int security_compute_av(const char *a, const char *b, unsigned short c, unsigned d, struct av_decision *e)
{ (void)a; (void)b; (void)c; (void)d; (void)e; return -1; }
unsigned string_to_av_perm(unsigned short a, const char *b) { (void)a; (void)b; return 0; }
unsigned short string_to_security_class(const char *a) { (void)a; return 0; }
#endif
#ifdef FV_NO_LISTS
exe_t *exe_list_first(exe_list_t *l) { (void)l; return NULL; }
exe_t *exe_list_next(exe_list_t *l) { (void)l; return NULL; }
lavg_t *lavg_list_first(lavg_list_t *l) { (void)l; return NULL; }
lavg_t *lavg_list_next(lavg_list_t *l) { (void)l; return NULL; }
void lavg_list_remove_cur(lavg_list_t *l) { (void)l; }
#endif
