/* the daemon's globals, defined in fcron.c in the real program */
time_t now;
char foreground;
char default_mail_charset[TERM_LEN];
time_t first_sleep;
char *tmp_path = "";
pid_t daemon_pid;
char *orig_tz_envvar;
mode_t saved_umask;
char *prog_name = "fcron";
uid_t rootuid;
gid_t rootgid;
bool sig_hup;
struct cf_t *file_base;
struct job_t *queue_base;
unsigned long int next_id;
struct cl_t **serial_array;
short int serial_array_size;
short int serial_array_index;
short int serial_num;
short int serial_running;
short int serial_max_running;
short int serial_queue_max;
short int lavg_queue_max;
exe_list_t *exe_list;
lavg_list_t *lavg_list;
short int lavg_serial_running;
