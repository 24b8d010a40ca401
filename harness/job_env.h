/* job.c with its system calls as ghost operations */
#include "fv.h"
#include <errno.h>
#include <stdio.h>
#include <pwd.h>
#include <grp.h>
#include <unistd.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <security/pam_appl.h>
int fv_initgroups(const char *, gid_t);
int fv_setgid(gid_t), fv_setuid(uid_t), fv_chdir(const char *);
struct passwd *fv_getpwnam(const char *);
char *fv_getenv(const char *);
int fv_access(const char *, int);
int fv_pipe(int *);
pid_t fv_fork(void), fv_waitpid(pid_t, int *, int), fv_setsid(void);
int fv_dup2(int, int), fv_fileno(FILE *), fv_nice(int);
ssize_t fv_read(int, void *, size_t), fv_write(int, const void *, size_t);
void fv_exit(int);
int fv_execle(const char *, const char *, const char *, ...);
FILE *fv_fdopen(int, const char *);
FILE *fv_freopen(const char *, const char *, FILE *);
char *fv_fgets(char *, int, FILE *);
int fv_fputs(const char *, FILE *), fv_fprintf(FILE *, const char *, ...), fv_fseek(FILE *, long, int);
long fv_ftell(FILE *);
off_t fv_lseek(int, off_t, int);
mode_t fv_umask(mode_t);
void fv_sig(int, int);
void fv_setlinebuf(FILE *);
#define initgroups fv_initgroups
#define setgid fv_setgid
#define setuid fv_setuid
#define chdir fv_chdir
#define getpwnam fv_getpwnam
#define getenv fv_getenv
#define access fv_access
#define pipe fv_pipe
#define fork fv_fork
#define waitpid fv_waitpid
#define setsid fv_setsid
#define dup2 fv_dup2
#undef fileno
#define fileno fv_fileno
#define nice fv_nice
#define read fv_read
#define write fv_write
#define exit fv_exit
#define execle fv_execle
#define fdopen fv_fdopen
#define freopen fv_freopen
#define fgets fv_fgets
#define fputs fv_fputs
#define fprintf fv_fprintf
#define fseek fv_fseek
#define ftell fv_ftell
#define lseek fv_lseek
#define umask fv_umask
#define sleep(n) (0)
#define setlinebuf fv_setlinebuf
#define signal(s, h) fv_sig((s), (h) == SIG_DFL)
#define free(p) ((void)(p))
static FILE fv_out, fv_err;
#undef stdout
#undef stderr
#define stdout (&fv_out)
#define stderr (&fv_err)
#include "job.c"
#undef initgroups
#undef setgid
#undef setuid
#undef chdir
#undef getpwnam
#undef getenv
#undef access
#undef pipe
#undef fork
#undef waitpid
#undef setsid
#undef dup2
#undef fileno
#undef nice
#undef read
#undef write
#undef exit
#undef execle
#undef fdopen
#undef freopen
#undef fgets
#undef fputs
#undef fprintf
#undef fseek
#undef ftell
#undef lseek
#undef umask
#undef setlinebuf
#undef signal
#undef free
char *fcronconf, *fcrontabs, *pidfile, *fifofile, *fcronallow, *fcrondeny, *shell, *sendmail, *editor, *maildisplayname, *suspendfile;
