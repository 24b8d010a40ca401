#ifndef FV_OWN_fs
int open_as_user(const char *p, uid_t u, gid_t g, int f, ...) { (void)p; (void)u; (void)g; (void)f; return -1; }
int remove_as_user(const char *p, uid_t u, gid_t g) { (void)p; (void)u; (void)g; return 0; }
int rename_as_user(const char *a, const char *p, uid_t u, gid_t g) { (void)a; (void)p; (void)u; (void)g; return 0; }
int xclose(int *f) { *f = -1; return 0; }
#endif
#ifndef FV_OWN_env
env_t *env_list_first(env_list_t *l) { (void)l; return NULL; }
env_t *env_list_next(env_list_t *l) { (void)l; return NULL; }
#endif
int is_selinux_enabled(void) { return 0; }
int setfscreatecon(const char *c) { (void)c; return 0; }
