/* environment of database.c: the daemon's globals (fcron.c) and the assumed
 * contracts of everything outside the file. */
#include "fv.h"
#include <time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* names the real text is compiled with, so that these calls reach the contracts */
#define mktime      fv_mktime
#define localtime   fv_localtime
#define getenv      fv_getenv
#define rand        fv_rand
#define fork        fv_fork
#define waitpid     fv_waitpid
#define getloadavg  fv_getloadavg
time_t fv_mktime(struct tm *t);
struct tm *fv_localtime(const time_t *t);
char *fv_getenv(const char *n);
int fv_rand(void);
pid_t fv_fork(void);
pid_t fv_waitpid(pid_t pid, int *status, int options);
int fv_getloadavg(double *, int);

#ifndef FV_NOLOOP
#define FCRON_VERIFY 1
#endif
