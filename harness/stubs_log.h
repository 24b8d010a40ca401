/* assumed contracts: the logging functions have no effect on the state the
 * properties talk about (they format into local buffers and write to fds);
 * die()/die_e() do not return. */
static int fv_died;
#include <stdarg.h>
char debug_opt;
void xopenlog(void) { }
void xcloselog(void) { }
void explain(char *fmt, ...) { (void)fmt; }
void explain_fd(int fd, char *fmt, ...) { (void)fd; (void)fmt; }
void explain_e(char *fmt, ...) { (void)fmt; }
void warn(char *fmt, ...) { (void)fmt; }
void warn_fd(int fd, char *fmt, ...) { (void)fd; (void)fmt; }
void warn_e(char *fmt, ...) { (void)fmt; }
void error(char *fmt, ...) { (void)fmt; }
void error_fd(int fd, char *fmt, ...) { (void)fd; (void)fmt; }
void error_e(char *fmt, ...) { (void)fmt; }
void Debug(char *fmt, ...) { (void)fmt; }
void send_msg_fd_debug(int fd, char *fmt, ...) { (void)fd; (void)fmt; }
void send_msg_fd(int fd, char *fmt, ...) { (void)fd; (void)fmt; }
#ifndef FV_OWN_DIE
void die(char *fmt, ...) { (void)fmt; fv_died = 1; FV_STOP(); }
void die_e(char *fmt, ...) { (void)fmt; fv_died = 1; FV_STOP(); }
#endif
