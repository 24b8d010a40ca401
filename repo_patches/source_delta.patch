From a05f2516619be057cabb9d6acfb883af646e45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 01/57] fix: set_next_exe: never choose a day past the end of
 the month for dayor lines

The dayor search tested the day bits before checking that the day exists in
the month, so a line such as "& 0 0 30 2 1" (dayor) could stop on e.g. 30 Feb,
which mktime() turns into a day of March that matches none of the fields.
---
 database.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/database.c b/database.c
index 1762e61..6dd61c9 100644
--- a/database.c
+++ b/database.c
@@ -1169,25 +1169,25 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
             j = ftime.tm_wday;
             i = ftime.tm_mday;
-            while ((bit_test(line->cl_days, i) == 0) &&
+            while ((i <= max) && (bit_test(line->cl_days, i) == 0) &&
                    (bit_test(line->cl_dow, j) == 0)) {
-                if (i > max) {
-                    ftime.tm_mon++;
-                    if (has_changed < 2) {
-                        has_changed = 2;
-                        ftime.tm_mday = 1;
-                        ftime.tm_hour = 0;
-                        ftime.tm_min = 0;
-                    }
-                    else
-                        ftime.tm_mday = 1;
-                    goto setMonth;
-                }
                 if (j >= 7)
                     j -= 7;
                 i++;
                 j++;
             }
+            if (i > max) {
+                ftime.tm_mon++;
+                if (has_changed < 2) {
+                    has_changed = 2;
+                    ftime.tm_mday = 1;
+                    ftime.tm_hour = 0;
+                    ftime.tm_min = 0;
+                }
+                else
+                    ftime.tm_mday = 1;
+                goto setMonth;
+            }
             if (ftime.tm_mday != i) {
                 ftime.tm_mday = i;
                 if (has_changed < 1) {
-- 
2.43.0


From f221873ddf71697f51787346c4186b7e41f0a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 02/57] fix: set_next_exe: check the range before testing a
 schedule bit

The search loops tested bit 24 of cl_hrs and bit 32 and above of cl_days, past the
end of these arrays, before comparing the index with the limit of the field.
---
 database.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/database.c b/database.c
index 6dd61c9..b31a303 100644
--- a/database.c
+++ b/database.c
@@ -1092,7 +1092,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
             move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
 
  setMonth:
-        for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
+        for (i = ftime.tm_mon; (i < 12) && (bit_test(line->cl_mons, i) == 0);
              i++) ;
         if (i >= 12) {
             ftime.tm_year++;
@@ -1130,7 +1130,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
  setDay:
         if (is_dayand(line->cl_option)) {
             for (i = ftime.tm_mday;
-                 (bit_test(line->cl_days, i) == 0) && (i <= max); i++) ;
+                 (i <= max) && (bit_test(line->cl_days, i) == 0); i++) ;
             if (i > max) {
                 ftime.tm_mon++;
                 if (has_changed < 2) {
@@ -1199,7 +1199,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
 
  setHour:
-        for (i = ftime.tm_hour; (bit_test(line->cl_hrs, i) == 0) && (i < 24);
+        for (i = ftime.tm_hour; (i < 24) && (bit_test(line->cl_hrs, i) == 0);
              i++) ;
         if (i >= 24) {
             ftime.tm_mday++;
@@ -1218,7 +1218,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
 
 
-        for (i = ftime.tm_min; (bit_test(line->cl_mins, i) == 0) && (i < 60);
+        for (i = ftime.tm_min; (i < 60) && (bit_test(line->cl_mins, i) == 0);
              i++) ;
         if (i >= 60) {
             ftime.tm_hour++;
-- 
2.43.0


From e81ba9e1763f781edcb628316d5fcd67f65e71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 03/57] verify: proof annotations in set_next_exe (no code
 unless FCRON_VERIFY)

---
 database.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/database.c b/database.c
index b31a303..2aecf9c 100644
--- a/database.c
+++ b/database.c
@@ -27,6 +27,11 @@
 #include "database.h"
 #include "job.h"
 #include "getloadavg.h"
+#ifdef FCRON_VERIFY
+#include "fcron_verify.h"       /* supplied by the verification harness */
+#else
+#define VERIFY_LOOP(...)        /* proof annotation: no code */
+#endif
 
 int is_leap_year(int year);
 int get_nb_mdays(int year, int mon);
@@ -1092,6 +1097,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
             move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
 
  setMonth:
+        VERIFY_LOOP(td_month, line, &ftime, &has_changed, &year_limit);
         for (i = ftime.tm_mon; (i < 12) && (bit_test(line->cl_mons, i) == 0);
              i++) ;
         if (i >= 12) {
@@ -1128,6 +1134,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         max = get_nb_mdays((ftime.tm_year + 1900), ftime.tm_mon);
 
  setDay:
+        VERIFY_LOOP(td_day, line, &ftime, &has_changed, &year_limit);
         if (is_dayand(line->cl_option)) {
             for (i = ftime.tm_mday;
                  (i <= max) && (bit_test(line->cl_days, i) == 0); i++) ;
@@ -1199,6 +1206,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
 
  setHour:
+        VERIFY_LOOP(td_hour, line, &ftime, &has_changed, &year_limit);
         for (i = ftime.tm_hour; (i < 24) && (bit_test(line->cl_hrs, i) == 0);
              i++) ;
         if (i >= 24) {
-- 
2.43.0


From 388ba17849ebc80294eceeb0b339a38475e013da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 04/57] verify: proof annotation in set_wday (no code unless
 FCRON_VERIFY)

---
 database.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 2aecf9c..c2b1619 100644
--- a/database.c
+++ b/database.c
@@ -686,8 +686,10 @@ set_wday(struct tm *date)
     int i;
 
     /* we add the number of days of each previous years */
-    for (i = (date->tm_year - 1); i >= 100; i--)
+    for (i = (date->tm_year - 1); i >= 100; i--) {
+        VERIFY_LOOP(wday_years, date, &i, &nod);
         nod += (is_leap_year(i + 1900)) ? 366 : 365;
+    }
 
     /*     and month */
     for (i = (date->tm_mon - 1); i >= 0; i--)
-- 
2.43.0


From df86c423b457e2427bce2cda73901d8036ce7dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 05/57] verify: proof annotation in move_time_to (no code
 unless FCRON_VERIFY)

---
 database.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/database.c b/database.c
index c2b1619..c5c8770 100644
--- a/database.c
+++ b/database.c
@@ -947,6 +947,7 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
            && (timet_ftime < timet_next_period)
         ) {
 
+        VERIFY_LOOP(mt_walk, line, ftime, &timet_ftime, &year_limit);
         ftime->tm_sec = 0;
         if (ignore_mins)
             ftime->tm_min = 60;
-- 
2.43.0


From cfffdc58ce627a31a41700ca55fecb52c09eca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 06/57] fix: move_time_to: the minute after hh:59 may still be
 in the current interval

set_next_exe() adds one minute before it asks for the end of the current
interval. At hh:59 this gives tm_min == 60, which no line matches: the interval
was taken for finished and a %-line was run a second time in it.
---
 database.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/database.c b/database.c
index c5c8770..470c1c5 100644
--- a/database.c
+++ b/database.c
@@ -901,6 +901,24 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
 
     /* In all other cases, we will have to walk through time */
 
+    /* the caller may have added one minute: fix the overflow before reading
+     * the fields, as hh:60 would never be part of an interval */
+    if (ftime->tm_min >= 60) {
+        ftime->tm_min = 0;
+        if (++ftime->tm_hour >= 24) {
+            ftime->tm_hour = 0;
+            if (++ftime->tm_mday >
+                get_nb_mdays((ftime->tm_year + 1900), ftime->tm_mon)) {
+                ftime->tm_mday = 1;
+                if (++ftime->tm_mon >= 12) {
+                    ftime->tm_mon = 0;
+                    ftime->tm_year++;
+                }
+            }
+            set_wday(ftime);
+        }
+    }
+
     if (is_freq_periodically(line->cl_option)) {
 
         /* In this case we want to make sure we won't go after the end
-- 
2.43.0


From 951842de2c1b5fde79df1ef8a617240b121d1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 07/57] fix: move_time_to: do not use tm_next_period when it
 has not been set

With a line that always matches (e.g. '& strict,lavg(1,2,3) * * * * *'), the walk
stops at now + 10 years and an uninitialised struct tm was returned.
---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 470c1c5..e101c45 100644
--- a/database.c
+++ b/database.c
@@ -1027,7 +1027,8 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
 
     }
 
-    if (timet_ftime > timet_next_period) {
+    if (is_freq_periodically(line->cl_option)
+        && timet_ftime > timet_next_period) {
         /* the end of the interval if after the end of the period:
          * we don't want to go in the next period, so we return
          * the value of the end of the period. */
-- 
2.43.0


From 6bdfe6ae778324d2f20e5a0278e80a1004d0ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 08/57] fix: goto_beginning_next_period_periodical: give the
 full year to get_nb_mdays()

---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index e101c45..636d51f 100644
--- a/database.c
+++ b/database.c
@@ -732,7 +732,7 @@ goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
 
 
     /* number of days in ftime's month */
-    max = get_nb_mdays(ftime->tm_year, ftime->tm_mon);
+    max = get_nb_mdays((ftime->tm_year + 1900), ftime->tm_mon);
 
     /* STEP 1: find the beginning of the next period without ensuring
      * there is no overflow (min>=60, hour>=24, etc) */
-- 
2.43.0


From 5ca3eeef0b924655243cade2e77c6529a1902e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 09/57] verify: proof annotations in the job queue (no code
 unless FCRON_VERIFY)

---
 database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database.c b/database.c
index 636d51f..54f7ab6 100644
--- a/database.c
+++ b/database.c
@@ -297,6 +297,7 @@ job_queue_remove(cl_t *line)
 
     /* find the job in the list */
     for (j = queue_base; j != NULL; jprev = j, j = j->j_next) {
+        VERIFY_LOOP(jq_find, line, &j, &jprev);
         if (j->j_line == line) {
             /* remove it from the list */
             if (jprev != NULL) {
@@ -361,6 +362,7 @@ insert_nextexe(cl_t *line)
 
     /* a job can only be moved back */
     while (j != NULL && (line->cl_nextexe >= j->j_line->cl_nextexe)) {
+        VERIFY_LOOP(jq_insert, line, &j, &jprev);
         jprev = j;
         j = j->j_next;
     }
-- 
2.43.0


From 06be5ef760e2dad90e4922836d5916e50e24e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 10/57] fix: add_serial_job: keep the queue in order when it is
 enlarged

The two parts of the circular array were copied the wrong way round: unless the
first job was at index 0, jobs were run in the wrong order and slots of the queue
could be read which were never set.
---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 54f7ab6..71df9ed 100644
--- a/database.c
+++ b/database.c
@@ -424,9 +424,9 @@ add_serial_job(cl_t *line, int info_fd)
                 alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
 
             /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr + serial_array_index, serial_array,
+            memcpy(ptr, serial_array + serial_array_index,
                    (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr, serial_array + (old_size - serial_array_index),
+            memcpy(ptr + (old_size - serial_array_index), serial_array,
                    (sizeof(cl_t *) * serial_array_index));
             serial_array_index = 0;
             Free_safe(serial_array);
-- 
2.43.0


From 1af28503d488e57f9dcef00cd8bee32a9e99aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 11/57] fix: do not count a job which could not be started as
 running

When fork() failed, cl_numexe and serial_running (or lavg_serial_running) were
incremented and never decremented: the job was skipped as "already running" ever
after, and the serial queue lost one slot for good.
---
 database.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/database.c b/database.c
index 71df9ed..8d74488 100644
--- a/database.c
+++ b/database.c
@@ -43,7 +43,7 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-void run_queue_job(cl_t * line);
+int run_queue_job(cl_t * line);
 int is_loop_in_queue(void);
 
 
@@ -186,8 +186,10 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        run_queue_job(line);
-        send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        if (run_queue_job(line) == OK)
+            send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
+        else
+            error_fd(info_fd, "Could not start job '%s'.", line->cl_shell);
     }
     else {
         warn_fd(info_fd,
@@ -201,9 +203,7 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    run_queue_job(l->l_line);
-
-    if (is_serial(l->l_line->cl_option))
+    if (run_queue_job(l->l_line) == OK && is_serial(l->l_line->cl_option))
         lavg_serial_running++;
 
 }
@@ -220,10 +220,14 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        run_queue_job(serial_array[serial_array_index]);
+        cl_t *line = serial_array[serial_array_index];
+
         serial_array[serial_array_index] = NULL;
 
-        serial_running++;
+        if (run_queue_job(line) == OK)
+            serial_running++;
+        else
+            clear_serial_once(line->cl_option);
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
         serial_num--;
@@ -232,9 +236,11 @@ run_serial_job(void)
 }
 
 
-void
+int
 run_queue_job(cl_t *line)
-    /* run a job */
+    /* run a job.
+     * Return OK, or ERR if it could not be started: it is then no longer counted
+     * as queued or running. */
 {
 
     exe_t e = { NULL, 0, 0 };
@@ -250,8 +256,12 @@ run_queue_job(cl_t *line)
         /* append job to the list of executed job */
         exe_list_add(exe_list, &e);
         line->cl_file->cf_running += 1;
+        return OK;
     }
 
+    line->cl_numexe -= 1;
+    return ERR;
+
 }
 
 int
-- 
2.43.0


From 1c01f764aba7995db46d397afc04ed76f0774543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 12/57] fix: mark a job as run once from the serial queue only
 if it has been queued

If the queue was full, or the job was still running (e.g. on resume), the mark
stayed on the line, and the end of its next normal run decremented serial_running:
more than serial_max_running serial jobs could then run at once.
---
 database.c | 18 ++++++++++--------
 database.h |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/database.c b/database.c
index 8d74488..74b02b5 100644
--- a/database.c
+++ b/database.c
@@ -395,9 +395,10 @@ insert_nextexe(cl_t *line)
 
 }
 
-void
+int
 add_serial_job(cl_t *line, int info_fd)
-    /* add the next queued job in serial queue */
+    /* add the next queued job in serial queue.
+     * Return OK, or ERR if the job has not been added */
 {
     short int i;
 
@@ -407,7 +408,7 @@ add_serial_job(cl_t *line, int info_fd)
         (!is_serial_sev(line->cl_option) && line->cl_numexe > 0)) {
         send_msg_fd_debug(info_fd, "already in serial queue '%s'",
                           line->cl_shell);
-        return;
+        return ERR;
     }
 
     send_msg_fd_debug(info_fd, "inserting in serial queue '%s'",
@@ -421,7 +422,7 @@ add_serial_job(cl_t *line, int info_fd)
                      line->cl_shell);
             if (is_notice_notrun(line->cl_option))
                 mail_notrun(line, QUEUE_FULL, NULL);
-            return;
+            return ERR;
         }
         else {
             cl_t **ptr = NULL;
@@ -456,6 +457,7 @@ add_serial_job(cl_t *line, int info_fd)
                       "running:%d (%s)", serial_num, serial_array_size,
                       serial_array_index, i, serial_running, line->cl_shell);
 
+    return OK;
 
 }
 
@@ -1507,8 +1509,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             /* job has been stopped during execution :
              * launch it again */
             warn("Job '%s' did not finish : adding it to the serial queue to run it again.", cl->cl_shell);
-            set_serial_once(cl->cl_option);
-            add_serial_job(cl, -1);
+            if (add_serial_job(cl, -1) == OK)
+                set_serial_once(cl->cl_option);
         }
     }
 
@@ -1573,8 +1575,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                         explain
                             ("   Adding bootrun job to the serial queue: '%s'",
                              cl->cl_shell);
-                        set_serial_once(cl->cl_option);
-                        add_serial_job(cl, -1);
+                        if (add_serial_job(cl, -1) == OK)
+                            set_serial_once(cl->cl_option);
                     }
                     else {
                         explain("   Adding bootrun job to the lavg queue: '%s'",
diff --git a/database.h b/database.h
index 9ea6f2b..655a011 100644
--- a/database.h
+++ b/database.h
@@ -51,7 +51,7 @@ extern void mail_notrun_time_t(cl_t * line, char context, time_t since_time_t);
 extern job_t *job_queue_remove(cl_t * line);
 extern void insert_nextexe(struct cl_t *line);
 extern void run_normal_job(cl_t * line, int fd);
-extern void add_serial_job(struct cl_t *line, int fd);
+extern int add_serial_job(struct cl_t *line, int fd);
 extern void add_lavg_job(struct cl_t *line, int fd);
 extern void run_serial_job(void);
 extern int switch_timezone(const char *orig_tz, const char *dest_tz);
-- 
2.43.0


From d4132f9db5d53450f2e0e99340f80e7e942686ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 13/57] fix: add_serial_job: enforce the maximum number of
 queued jobs (option -q)

It was checked only when the array had to be enlarged, so 'fcron -q 5' let 10
jobs wait and 'fcron -q 15' let 20.
---
 database.c | 54 ++++++++++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/database.c b/database.c
index 74b02b5..94a36ac 100644
--- a/database.c
+++ b/database.c
@@ -414,35 +414,33 @@ add_serial_job(cl_t *line, int info_fd)
     send_msg_fd_debug(info_fd, "inserting in serial queue '%s'",
                       line->cl_shell);
 
+    if (serial_num >= serial_queue_max) {
+        error_fd(info_fd, "Could not add job : serial queue is full "
+                 "(%d jobs). Consider using option serialonce, fcron's "
+                 "option -m and/or -q : '%s'", serial_queue_max,
+                 line->cl_shell);
+        if (is_notice_notrun(line->cl_option))
+            mail_notrun(line, QUEUE_FULL, NULL);
+        return ERR;
+    }
+
     if (serial_num >= serial_array_size) {
-        if (serial_num >= serial_queue_max) {
-            error_fd(info_fd, "Could not add job : serial queue is full "
-                     "(%d jobs). Consider using option serialonce, fcron's "
-                     "option -m and/or -q : '%s'", serial_queue_max,
-                     line->cl_shell);
-            if (is_notice_notrun(line->cl_option))
-                mail_notrun(line, QUEUE_FULL, NULL);
-            return ERR;
-        }
-        else {
-            cl_t **ptr = NULL;
-            short int old_size = serial_array_size;
-
-            debug("Resizing serial_array");
-            serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
-
-            ptr =
-                alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
-
-            /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr, serial_array + serial_array_index,
-                   (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr + (old_size - serial_array_index), serial_array,
-                   (sizeof(cl_t *) * serial_array_index));
-            serial_array_index = 0;
-            Free_safe(serial_array);
-            serial_array = ptr;
-        }
+        cl_t **ptr = NULL;
+        short int old_size = serial_array_size;
+
+        debug("Resizing serial_array");
+        serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
+
+        ptr = alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
+
+        /* copy lines in order to have the first line at the index 0 */
+        memcpy(ptr, serial_array + serial_array_index,
+               (sizeof(cl_t *) * (old_size - serial_array_index)));
+        memcpy(ptr + (old_size - serial_array_index), serial_array,
+               (sizeof(cl_t *) * serial_array_index));
+        serial_array_index = 0;
+        Free_safe(serial_array);
+        serial_array = ptr;
     }
 
     if ((i = serial_array_index + serial_num) >= serial_array_size)
-- 
2.43.0


From 0325173598c9093796890a2d6a46ed42b909ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 14/57] fix: check_lavg: a %-job with strict(false) must wait
 for the load average

Such a job has no time limit (l_until == 0), which was taken for one in the past:
the job was run at once, whatever the system load average.
---
 database.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 94a36ac..dc70f3b 100644
--- a/database.c
+++ b/database.c
@@ -1828,8 +1828,7 @@ check_lavg(time_t lim)
     /* first, check if some lines must be executed because of until */
     for (l = lavg_list_first(lavg_list); l != NULL;
          l = lavg_list_next(lavg_list))
-        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)
-            && l->l_until < now) {
+        if (l->l_until > 0 && l->l_until < now) {
             if (!is_run_if_late(l->l_line->cl_option)) {
                 if (!is_nolog(l->l_line->cl_option))
                     explain("Interval of execution exceeded : '%s' (not run)",
-- 
2.43.0


From 213c7d2e35145df87cdf96ea333e6ea0f47e2f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 15/57] fix: wait_all: a serial job which is over is no longer
 counted as running

---
 database.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index dc70f3b..774fdc8 100644
--- a/database.c
+++ b/database.c
@@ -641,8 +641,18 @@ wait_all(int *counter)
                     e->e_line->cl_numexe -= 1;
                     e->e_line->cl_file->cf_running -= 1;
 
-                    if (is_serial_once(e->e_line->cl_option))
+                    /* the daemon may go on after this (see reload_all()):
+                     * serial jobs must not be counted as running any more */
+                    if (is_serial_once(e->e_line->cl_option)) {
                         clear_serial_once(e->e_line->cl_option);
+                        serial_running--;
+                    }
+                    else if (is_serial(e->e_line->cl_option)) {
+                        if (is_lavg(e->e_line->cl_option))
+                            lavg_serial_running--;
+                        else
+                            serial_running--;
+                    }
 
                 }
 
-- 
2.43.0


From 24fe10d50153d73144ab8c4beaef06c5e8e8df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 16/57] fix: read_file: remove from memory the lines of a file
 which cannot be loaded entirely

---
 conf.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/conf.c b/conf.c
index 4b09624..2850fe2 100644
--- a/conf.c
+++ b/conf.c
@@ -797,17 +797,11 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     if (ff != NULL)
         xfclose_check(&ff, file_name);
 
-    if (cl != NULL && cl->cl_next == NULL) {
-        /* line is not yet in the line list of the file : free it */
-        Free_safe(cl->cl_shell);
-        Free_safe(cl->cl_runas);
-        Free_safe(cl->cl_mailfrom);
-        Free_safe(cl->cl_mailto);
-        Free_safe(cl);
-    }
-
     /* check if we have started to read the lines and env var */
     if (cl != NULL) {
+        /* line is not yet in the line list of the file : free it */
+        free_line(cl);
+
         /* insert the line in the file list in order to be able to free
          * the memory using delete_file() */
 
-- 
2.43.0


From 448787cc26a5703d9803137695cba45d0d10ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 17/57] fix: read_file: skip the data of an unknown field with
 read() as the rest of the file

---
 conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index 2850fe2..d9ab88e 100644
--- a/conf.c
+++ b/conf.c
@@ -774,8 +774,9 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
                 /* we avoid using fseek(), as it seems not to work correctly
                  * on some systems when we use read() on the FILE stream */
                 int i;
+                char skipped;
                 for (i = 0; i < size; i++)
-                    if (getc(ff) == EOF)
+                    if (read(fileno(ff), &skipped, 1) < 1)
                         goto err;
             }
         }
-- 
2.43.0


From 4fa8ab6a4e3129f02d0634e24b215ddf2e06ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 18/57] fix: read_type: a read error is not a valid field

---
 conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index d9ab88e..f72ee4a 100644
--- a/conf.c
+++ b/conf.c
@@ -404,9 +404,9 @@ int
 read_type(int fd, short int *type, short int *size)
 /* read the type and size of the next field in a binary fcrontab file */
 {
-    if (read(fd, type, sizeof(short int)) < sizeof(short int))
+    if (read(fd, type, sizeof(short int)) < (ssize_t) sizeof(short int))
         goto err;
-    if (read(fd, size, sizeof(short int)) < sizeof(short int))
+    if (read(fd, size, sizeof(short int)) < (ssize_t) sizeof(short int))
         goto err;
 
     return OK;
-- 
2.43.0


From b28831bda098bd3a06673f19bf682e685159f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 19/57] fix: read_file: never read a field into less memory
 than its size

---
 conf.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index f72ee4a..6a23f88 100644
--- a/conf.c
+++ b/conf.c
@@ -386,7 +386,9 @@ int
 read_strn(int fd, char **str, short int size)
 /* read a "size"-length string in a binary fcrontab file */
 {
-    if ((*str = calloc(size + 1, sizeof(char))) == NULL)
+    *str = NULL;
+
+    if (size < 0 || (*str = calloc(size + 1, sizeof(char))) == NULL)
         goto err;
 
     if (read(fd, *str, size) < size)
@@ -421,7 +423,8 @@ read_type(int fd, short int *type, short int *size)
 /* read "size" bytes from file "ff", put them in "to", and check for errors */
 #define Read(TO, SIZE, ERR_STR) \
         { \
-          if ( read(fileno(ff), &(TO), SIZE) < SIZE ) { \
+          if ( SIZE < 0 || SIZE > (int)sizeof(TO) || \
+               read(fileno(ff), &(TO), SIZE) < SIZE ) { \
             error_e(ERR_STR); \
 	    goto err; \
 	  } \
@@ -578,6 +581,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
      * a file using a depreciated format generated by an old fcrontab,
      * if the syntax has changed */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_HEADER_T ||
+        size < 0 || size > (int)sizeof(bufi) ||
         read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION) {
         error("File %s is not valid: ignored.", file_name);
         error("This file may have been generated by an old version of fcron.");
@@ -608,6 +612,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_TIMEDATE_T
+        || size < 0 || size > (int)sizeof(t_save)
         || read(fileno(ff), &t_save, size) < size) {
         error("could not get time and date of saving");
         goto err;
-- 
2.43.0


From d5ad108a4f96220d83469cbbc442d4bfc5b8d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 20/57] fix: read_file: check for S_FIRST_T line by line

---
 conf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conf.c b/conf.c
index 6a23f88..eb910cf 100644
--- a/conf.c
+++ b/conf.c
@@ -766,6 +766,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
                 (cl, cf, runas, runas_str, t_save, is_system_startup) != 0)
                 free_line(cl);
             Alloc(cl, cl_t);
+            has_read_cl_first = 0;
             break;
 
             /* default case in "switch(type)" */
-- 
2.43.0


From 3465ed1104095abc716143c5ee38e9b47e1e592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 21/57] fix: synchronize_file: the time difference is in hours

---
 conf.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conf.c b/conf.c
index eb910cf..c558afb 100644
--- a/conf.c
+++ b/conf.c
@@ -282,11 +282,12 @@ synchronize_file(char *file_name, int is_system_startup)
                         /* check if there is a change about the tz diff */
                         if ((new_l->cl_file->cf_tzdiff !=
                              old_l->cl_file->cf_tzdiff) &&
-                            (old_l->cl_nextexe - old_l->cl_file->cf_tzdiff
-                             + new_l->cl_file->cf_tzdiff > now))
+                            (old_l->cl_nextexe
+                             - old_l->cl_file->cf_tzdiff * 3600
+                             + new_l->cl_file->cf_tzdiff * 3600 > now))
                             new_l->cl_nextexe = old_l->cl_nextexe
-                                - old_l->cl_file->cf_tzdiff +
-                                new_l->cl_file->cf_tzdiff;
+                                - old_l->cl_file->cf_tzdiff * 3600 +
+                                new_l->cl_file->cf_tzdiff * 3600;
                         else
                             new_l->cl_nextexe = old_l->cl_nextexe;
 
-- 
2.43.0


From eb66804e21ec49f551fac3a08912c3d4b3009eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 22/57] fix: save_str: a string may be longer than what the
 write buffer can hold

---
 save.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/save.c b/save.c
index 36a082e..7faec57 100644
--- a/save.c
+++ b/save.c
@@ -38,6 +38,27 @@ int save_one_file(cf_t * file, char *filename, uid_t own_uid, gid_t own_gid,
                   time_t save_date);
 
 
+static int
+append_data(int fd, const char *data, int size, char *write_buf, int *buf_used)
+/* append data to the buffer, and flush it to disk each time it is full */
+{
+    while (size > 0) {
+        int len = WRITE_BUF_LEN - *buf_used;
+
+        if (len > size)
+            len = size;
+        memcpy((write_buf + *buf_used), data, len);
+        *buf_used += len;
+        data += len;
+        size -= len;
+
+        if (size > 0 && write_buf_to_disk(fd, write_buf, buf_used) == ERR)
+            return ERR;
+    }
+
+    return OK;
+}
+
 int
 save_type(int fd, short int type, char *write_buf, int *buf_used)
 /* save a single type (with no data attached) in a binary fcrontab file */
@@ -73,10 +94,8 @@ save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
-    memcpy((write_buf + *buf_used), str, size);
-    *buf_used += size;
 
-    return OK;
+    return append_data(fd, str, size, write_buf, buf_used);
 }
 
 int
@@ -94,10 +113,8 @@ save_strn(int fd, short int type, char *str, short int size, char *write_buf,
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
-    memcpy((write_buf + *buf_used), str, size);
-    *buf_used += size;
 
-    return OK;
+    return append_data(fd, str, size, write_buf, buf_used);
 }
 
 int
-- 
2.43.0


From 6bfccb47fb8f365aae5cecfec4d2ed6fcf508000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 23/57] fix: synchronize_file: the time difference does not
 concern elapsed-time lines

---
 conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index c558afb..cd6b9f9 100644
--- a/conf.c
+++ b/conf.c
@@ -280,7 +280,8 @@ synchronize_file(char *file_name, int is_system_startup)
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
                             new_l->cl_remain = old_l->cl_remain;
                         /* check if there is a change about the tz diff */
-                        if ((new_l->cl_file->cf_tzdiff !=
+                        if (is_td(new_l->cl_option) &&
+                            (new_l->cl_file->cf_tzdiff !=
                              old_l->cl_file->cf_tzdiff) &&
                             (old_l->cl_nextexe
                              - old_l->cl_file->cf_tzdiff * 3600
-- 
2.43.0


From 77712b321b0ddccddf71b0342e64d41808c2f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 24/57] fix: copy_src: a read error must not replace the old
 source by a truncated copy

---
 fcrontab.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index 042584e..d29746a 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -245,6 +245,11 @@ copy_src(int from, const char *dest)
                     " Aborting : old source file kept");
             goto exiterr;
         }
+    if (nb == -1) {
+        error_e("Error while reading the file to copy."
+                " Aborting : old source file kept");
+        goto exiterr;
+    }
 
     xclose_check(&to_fd, dest);
 
-- 
2.43.0


From e2c15f3fc811680ba96c642da6c25252f12f0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 25/57] fix: set_next_exe: a very large frequency made
 localtime() fail and crashed the daemon

---
 database.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 774fdc8..771211f 100644
--- a/database.c
+++ b/database.c
@@ -1367,10 +1367,20 @@ set_next_exe(cl_t *line, char option, int info_fd)
                 ("Setting cl_nextexe to TIME_T_MAX to prevent the line from running again.");
             line->cl_nextexe = TIME_T_MAX;
         }
+        else if (line->cl_timefreq > TIME_T_MAX - basetime) {
+            /* the time of the next execution would be too far away to be handled
+             * (localtime() would fail) */
+            error
+                ("Error while setting next exe time for job '%s': cl_nextexe"
+                 " overflowed (case3). basetime=%lu, cl_timefreq=%lu. "
+                 "Setting cl_nextexe to TIME_T_MAX.", line->cl_shell, basetime,
+                 line->cl_timefreq);
+            line->cl_nextexe = TIME_T_MAX;
+        }
         else {
             line->cl_nextexe = basetime + line->cl_timefreq;
             if (line->cl_nextexe <= basetime) {
-                /* either there was an integer overflow, or the slept time is incorrect
+                /* the frequency is not valid, or the slept time is incorrect
                  * (e.g. fcron didn't shut down cleanly and the fcrontab wasn't saved correctly) */
                 error
                     ("Error while setting next exe time for job '%s': cl_nextexe"
-- 
2.43.0


From c0113faab54d7801309572fd77c6ae8ca23a3a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 26/57] fix: set_next_exe_startup: no integer overflow for a
 very large first delay

---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 771211f..e85b058 100644
--- a/database.c
+++ b/database.c
@@ -1642,7 +1642,7 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                  || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)
                                                  || is_runonce(cl->cl_option)))) {
             /* cl_first is always saved to disk for a volatile line */
-            if (cl->cl_first == LONG_MAX) {
+            if (cl->cl_first > TIME_T_MAX - now) {
                 cl->cl_nextexe = TIME_T_MAX;
             }
             else {
-- 
2.43.0


From a6b794a2fefa3032ff5d8a8936ab1c62210d3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 27/57] fix: set_next_exe_startup: a job which must not run any
 more ran after a restart or a resume

---
 database.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index e85b058..1063531 100644
--- a/database.c
+++ b/database.c
@@ -1660,7 +1660,11 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             }
         }
         else {
-            if (cl->cl_nextexe != LONG_MAX) {
+            if (cl->cl_nextexe == LONG_MAX || cl->cl_nextexe == TIME_T_MAX) {
+                /* this job must not run any more */
+                cl->cl_nextexe = TIME_T_MAX;
+            }
+            else {
                 cl->cl_nextexe += sleep_duration;
 
                 if (cl->cl_nextexe < now && context == CONTEXT_RESUME) {
@@ -1679,7 +1683,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                          cl->cl_shell, now, cl->cl_timefreq, cl->cl_nextexe);
                     error
                         ("Setting cl_nextexe to now+cl_timefreq to prevent an infinite loop.");
-                    cl->cl_nextexe = now + cl->cl_timefreq;
+                    cl->cl_nextexe = (cl->cl_timefreq > TIME_T_MAX - now) ?
+                        TIME_T_MAX : now + cl->cl_timefreq;
                     error("next execution will now be at %ld.", cl->cl_nextexe);
                 }
             }
-- 
2.43.0


From f72b20546ed1800105501344898d9e2f3ece4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 28/57] fix: set_next_exe_startup: a runatreboot job which had
 been interrupted was considered as running for ever

---
 database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 1063531..c87da5c 100644
--- a/database.c
+++ b/database.c
@@ -1513,7 +1513,11 @@ set_next_exe_startup(struct cl_t *cl, const int context,
      *   when fcron stopped, because the former will get run quicker as they are not
      *   put into the serial queue. runatreboot jobs will be handled later on. */
     if (context != CONTEXT_RESUME && cl->cl_numexe > 0
-        && !is_runatreboot(cl->cl_option)) {
+        && is_runatreboot(cl->cl_option)) {
+        /* nothing is queued or running any more */
+        cl->cl_numexe = 0;
+    }
+    else if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {
 
         cl->cl_numexe = 0;
         if (is_lavg(cl->cl_option)) {
-- 
2.43.0


From 169716563542c849d1c52f5f397de64795674606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 29/57] fix: set_next_exe_startup: do not report as missed an
 execution which is new or in the future

---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index c87da5c..fbcdb75 100644
--- a/database.c
+++ b/database.c
@@ -1554,7 +1554,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
         if ((context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
 
-            if (is_notice_notrun(cl->cl_option)) {
+            if (is_notice_notrun(cl->cl_option) && cl->cl_nextexe != 0
+                && (cl->cl_runfreq == 1 || cl->cl_nextexe <= now)) {
 
                 if (cl->cl_runfreq == 1) {
                     /* %-line */
-- 
2.43.0


From ca8c102a0e378bcfa939d79d0c02887bf04a1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 30/57] fix: mail_notrun_time_t: report the time of the
 execution which was missed

---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index fbcdb75..88ab8f5 100644
--- a/database.c
+++ b/database.c
@@ -1719,7 +1719,7 @@ mail_notrun_time_t(cl_t *line, char context, time_t since_time_t)
     struct tm since;
     int tz_changed = 0;
 
-    since2 = localtime(&line->cl_nextexe);
+    since2 = localtime(&since_time_t);
     memcpy(&since, since2, sizeof(since));
 
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
-- 
2.43.0


From 83303c86dc7f97af9ec44d26332e27048e59bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 31/57] fix: mail_notrun: record the pid, so that the entry is
 removed when the mailer is over

---
 database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 88ab8f5..7e8aa58 100644
--- a/database.c
+++ b/database.c
@@ -1757,7 +1757,11 @@ mail_notrun(cl_t *line, char context, struct tm *since)
 
         /* create an entry in exe_list */
         /* set line to NULL as this is not a line ... */
-        exe_list_add_line(exe_list, NULL);
+        {
+            exe_t *e = exe_list_add_line(exe_list, NULL);
+
+            e->e_ctrl_pid = pid;
+        }
         return;
     }
 
-- 
2.43.0


From de313aebdc6fd7e52daac9e3dee72d44afaa1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 32/57] fix: set_next_exe_startup: a runonce job run because of
 bootrun was run a second time

---
 database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 7e8aa58..74bd004 100644
--- a/database.c
+++ b/database.c
@@ -1606,8 +1606,12 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                                 cl->cl_shell);
                         add_lavg_job(cl, -1);
                     }
+                    set_hasrun(cl->cl_option);
                 }
-                set_next_exe(cl, STD, -1);
+                if (is_runonce(cl->cl_option) && is_hasrun(cl->cl_option))
+                    job_queue_remove(cl);
+                else
+                    set_next_exe(cl, STD, -1);
             }
             else {
                 if (is_notice_notrun(cl->cl_option)) {
-- 
2.43.0


From 58f6e074c0ea0b22845c8e322f8b0e8803efd8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 33/57] fix: select_rm_read: the highest remaining descriptor,
 not the lowest, is the maximum

---
 select.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/select.c b/select.c
index e62fef0..018cc46 100644
--- a/select.c
+++ b/select.c
@@ -61,8 +61,9 @@ select_rm_read(select_instance *si, int fd)
         int i;
         for (i = fd; i >= 0; i--) {
             if (FD_ISSET(i, &si->__readfds_master))
-                si->__fd_max = i;
+                break;
         }
+        si->__fd_max = i;
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
 }
-- 
2.43.0


From c0fbabe1a731cd958cc5148b618bcd0bbd55708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 34/57] verify: proof annotation in select_rm_read (no code
 unless FCRON_VERIFY)

---
 select.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/select.c b/select.c
index 018cc46..7cc6521 100644
--- a/select.c
+++ b/select.c
@@ -27,6 +27,11 @@
 #include "unistd.h"
 #include "errno.h"
 #include "global.h"
+#ifdef FCRON_VERIFY
+#include "fcron_verify.h"       /* supplied by the verification harness */
+#else
+#define VERIFY_LOOP(...)        /* proof annotation: no code */
+#endif
 
 void
 select_init(struct select_instance *si)
@@ -60,6 +65,7 @@ select_rm_read(select_instance *si, int fd)
          * to check them all to find the new max */
         int i;
         for (i = fd; i >= 0; i--) {
+            VERIFY_LOOP(sel_max, si, fd, &i);
             if (FD_ISSET(i, &si->__readfds_master))
                 break;
         }
-- 
2.43.0


From c207955565b06ba7ae977f061b696396d0997b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 35/57] fix: cmd_ls: only root may list the jobs of the system
 fcrontab

---
 fcrondyn_svr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2599254..d785333 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -564,8 +564,15 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             struct passwd *pass;
 
 #ifdef SYSFCRONTAB
-            if (cmd[1] == SYSFCRONTAB_UID)
+            if (cmd[1] == SYSFCRONTAB_UID) {
+                if (!is_root) {
+                    warn("%s is not allowed to see " SYSFCRONTAB "'s jobs.",
+                         client->fcl_user);
+                    Send_err_msg_end(fd, err_others_nallowed_str);
+                    return;
+                }
                 user = SYSFCRONTAB;
+            }
             else {
 #endif
                 if ((pass = getpwuid((uid_t) cmd[1])) == NULL) {
-- 
2.43.0


From 782e820836b1f647e78c5cba76acb03ca37ec463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 36/57] fix: auth_client_password: refuse authentication during
 AUTH_WAIT, not only once, after too many failures

---
 fcrondyn_svr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index d785333..fef0e68 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -318,7 +318,6 @@ auth_client_password(struct fcrondyn_cl *client)
     if (auth_fail >= MAX_AUTH_FAIL) {
         error("Too many authentication failures : try to connect later.");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-        auth_fail = auth_nofail_since = 0;
         return;
     }
 
-- 
2.43.0


From 3665d3f70a759afb3695251702a0fa576868e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 37/57] fix: fcrondyn_socket_check: do not read past, nor the
 leftovers of another client in, the command buffer

---
 fcrondyn_svr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index fef0e68..4ae008d 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -887,7 +887,8 @@ fcrondyn_socket_check(select_instance *si)
     int fd = -1, avoid_fd = -1;
     socklen_t addr_len = sizeof(struct sockaddr_un);
     struct sockaddr_un client_addr;
-    long int buf_int[SOCKET_MSG_LEN];
+    /* one more than what is read: so that the strings in it are null-terminated */
+    long int buf_int[SOCKET_MSG_LEN + 1];
     int read_len = 0;
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
@@ -967,8 +968,10 @@ fcrondyn_socket_check(select_instance *si)
             continue;
         }
 
+        memset(buf_int, 0, sizeof(buf_int));
         if ((read_len =
-             recv(client->fcl_sock_fd, buf_int, sizeof(buf_int), 0)) <= 0) {
+             recv(client->fcl_sock_fd, buf_int,
+                  SOCKET_MSG_LEN * sizeof(long int), 0)) <= 0) {
             if (read_len == 0) {
                 /* connection closed by client */
                 remove_connection(&client, prev_client, si);
-- 
2.43.0


From 8d9e318227bbfcb5b617b66c02641071942a33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 38/57] fix: fcrondyn_socket_close: remove the descriptors of
 the clients from the watched set before they are closed

---
 fcrondyn_svr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 4ae008d..5e66f10 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -1016,15 +1016,16 @@ fcrondyn_socket_close(select_instance *si)
         client = fcrondyn_cl_base;
         while (client != NULL) {
             shutdown(client->fcl_sock_fd, SHUT_RDWR);
-            xclose_check(&(client->fcl_sock_fd), "client fd");
             if (si != NULL) {
                 select_rm_read(si, client->fcl_sock_fd);
             }
+            xclose_check(&(client->fcl_sock_fd), "client fd");
 
             client_buf = client->fcl_next;
             Free_safe(client);
             fcrondyn_cl_num -= 1;
             client = client_buf;
         }
+        fcrondyn_cl_base = NULL;
     }
 }
-- 
2.43.0


From 7d3398cedce8c21bcae2003090f575603b100011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 39/57] fix: fcrondyn_socket_check: no listening socket to
 check if it could not be created

---
 fcrondyn_svr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 5e66f10..3e8e7a5 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -898,7 +898,7 @@ fcrondyn_socket_check(select_instance *si)
 
     debug("Checking socket ...");
 
-    if (FD_ISSET(listen_fd, &si->readfds)) {
+    if (listen_fd >= 0 && FD_ISSET(listen_fd, &si->readfds)) {
         debug("got new connection ...");
         fd = accept(listen_fd, (struct sockaddr *)&client_addr, &addr_len);
         if (fd == -1) {
-- 
2.43.0


From e8ae117c3d781495a95900eb8b340b91da08ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 40/57] fix: fcrondyn_socket_check: reject a connection that
 select() cannot watch

---
 fcrondyn_svr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 3e8e7a5..9aa45e2 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -906,6 +906,11 @@ fcrondyn_socket_check(select_instance *si)
                 ("could not accept new connection : isset(listen_fd = %d) = %d",
                  listen_fd, FD_ISSET(listen_fd, &si->readfds));
         }
+        else if (fd >= FD_SETSIZE) {
+            error("Too many connections : connection rejected.");
+            shutdown(fd, SHUT_RDWR);
+            xclose_check(&fd, "client fd");
+        }
         else {
             fcntl(fd, F_SETFD, 1);
             /* set fd to O_NONBLOCK : we do not want fcron to be stopped on error, etc */
-- 
2.43.0


From 4c916808f8d5d5e95e822b8bd14ab0d339dad393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 41/57] fix: remove_blanks: do not read nor write before a
 string made of blanks only

---
 subs.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/subs.c b/subs.c
index 9a0a00b..3b242fb 100644
--- a/subs.c
+++ b/subs.c
@@ -329,13 +329,9 @@ remove_blanks(char *str)
     }
     while (c >= str && isspace((int)*c));
 
-    /* if last char is a '\n', we remove it */
-    if (*c == '\n')
-        *c = '\0';
-    else
-        /* one character beyond where we stopped above is where the null
-         * goes. */
-        *++c = '\0';
+    /* one character beyond where we stopped above is where the null
+     * goes. */
+    *++c = '\0';
 
     /* return the new length */
     return (c - str);
-- 
2.43.0


From a1d1f8c1e185207c3447f3f44809cc767d6d060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 42/57] fix: open_as_user: do not check an uninitialized stat
 after fstat() failed

---
 subs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/subs.c b/subs.c
index 3b242fb..9aeab76 100644
--- a/subs.c
+++ b/subs.c
@@ -135,8 +135,7 @@ open_as_user(const char *pathname, uid_t openuid, gid_t opengid, int flags, ...)
                 error_e("open_as_user: could not xclose() %s", pathname);
             fd = -1;
         }
-
-        if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
+        else if (!S_ISREG(s.st_mode) || s.st_nlink != 1) {
             error_e("open_as_user(): file %s is not a regular file", pathname);
             if (xclose(&fd) < 0)
                 error_e("open_as_user: could not xclose() %s", pathname);
-- 
2.43.0


From 2f5ecbe961be16072d7e8e7d6b1dedbbce0e2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 43/57] fix: read_conf: do not take the beginning of a variable
 name, or no name at all, for the variable

---
 fcronconf.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/fcronconf.c b/fcronconf.c
index 346d36d..b86bcff 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -30,6 +30,10 @@
 
 void init_conf(void);
 
+/* is the word at ptr1 exactly NAME ? */
+#define Var_is(NAME) \
+        (namesize == sizeof(NAME) - 1 && strncmp(ptr1, NAME, namesize) == 0)
+
 extern char debug_opt;
 extern uid_t rootuid;
 extern gid_t rootgid;
@@ -150,9 +154,11 @@ read_conf(void)
         remove_blanks(ptr1);    /* at the end of the line */
 
         /* get the name of the var */
-        if ((namesize = get_word(&ptr1)) == 0)
+        if ((namesize = get_word(&ptr1)) == 0) {
             /* name is zero-length */
             error("Zero-length var name at line %s : line ignored", buf);
+            continue;
+        }
 
         ptr2 = ptr1 + namesize;
 
@@ -165,34 +171,34 @@ read_conf(void)
             ptr2++;
 
         /* find which var the line refers to and update it */
-        if (strncmp(ptr1, "fcrontabs", namesize) == 0) {
+        if (Var_is("fcrontabs")) {
             Set(fcrontabs, ptr2);
         }
-        else if (strncmp(ptr1, "pidfile", namesize) == 0) {
+        else if (Var_is("pidfile")) {
             Set(pidfile, ptr2);
         }
-        else if (strncmp(ptr1, "suspendfile", namesize) == 0) {
+        else if (Var_is("suspendfile")) {
             Set(suspendfile, ptr2);
         }
-        else if (strncmp(ptr1, "fifofile", namesize) == 0) {
+        else if (Var_is("fifofile")) {
             Set(fifofile, ptr2);
         }
-        else if (strncmp(ptr1, "fcronallow", namesize) == 0) {
+        else if (Var_is("fcronallow")) {
             Set(fcronallow, ptr2);
         }
-        else if (strncmp(ptr1, "fcrondeny", namesize) == 0) {
+        else if (Var_is("fcrondeny")) {
             Set(fcrondeny, ptr2);
         }
-        else if (strncmp(ptr1, "shell", namesize) == 0) {
+        else if (Var_is("shell")) {
             Set(shell, ptr2);
         }
-        else if (strncmp(ptr1, "sendmail", namesize) == 0) {
+        else if (Var_is("sendmail")) {
             Set(sendmail, ptr2);
         }
-        else if (strncmp(ptr1, "editor", namesize) == 0) {
+        else if (Var_is("editor")) {
             Set(editor, ptr2);
         }
-        else if (strncmp(ptr1, "maildisplayname", namesize) == 0) {
+        else if (Var_is("maildisplayname")) {
             char *output = format_maildisplayname(ptr2);
             Set(maildisplayname, output ? output : "");
             Free_safe(output);
-- 
2.43.0


From 8bd4047083b1e56c031b9d967e52e14a91b3cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 44/57] fix: read_write_pipe: after a partial transfer, do not
 transfer more than what remains

---
 job.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index ef8b653..8db0671 100644
--- a/job.c
+++ b/job.c
@@ -417,10 +417,12 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
     while (size_processed < size) {
         errno = 0;
         if (action == PIPE_READ) {
-            ret = read(fd, (char *)buf + size_processed, size);
+            ret = read(fd, (char *)buf + size_processed,
+                       size - size_processed);
         }
         else if (action == PIPE_WRITE) {
-            ret = write(fd, (char *)buf + size_processed, size);
+            ret = write(fd, (char *)buf + size_processed,
+                        size - size_processed);
         }
         else {
             error("Invalid action parameter for function read_write_pipe():"
-- 
2.43.0


From 8602103ab92c7107c971e0a247bf21e7b5bffd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 45/57] fix: run_job: close the pipe if fork() failed

---
 job.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/job.c b/job.c
index 8db0671..b14880e 100644
--- a/job.c
+++ b/job.c
@@ -558,6 +558,8 @@ run_job(struct exe_t *exeent)
     switch (pid = fork()) {
     case -1:
         error_e("Fork error : could not exec '%s'", line->cl_shell);
+        xclose_check(&(pipe_pid_fd[0]), "pipe_pid_fd[0]");
+        xclose_check(&(pipe_pid_fd[1]), "pipe_pid_fd[1]");
         return ERR;
         break;
 
-- 
2.43.0


From 4fca53f5a21cd8366403b871d4eb9f765255ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 46/57] fix: run_job: a mail header of more than 32 kB was
 mailed without any output of the job

---
 job.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/job.c b/job.c
index b14880e..ad8726f 100644
--- a/job.c
+++ b/job.c
@@ -30,7 +30,7 @@
 
 
 void sig_dfl(void);
-void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
+void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
 #ifdef HAVE_LIBPAM
@@ -577,7 +577,7 @@ run_job(struct exe_t *exeent)
             int status = 0;
             int to_stdout = foreground && is_stdout(line->cl_option);
             int pipe_fd[2];
-            short int mailpos = 0;      /* 'empty mail file' size */
+            long mailpos = 0;      /* 'empty mail file' size */
 #ifdef WITH_SELINUX
             int flask_enabled = is_selinux_enabled();
 #endif
@@ -789,7 +789,7 @@ run_job(struct exe_t *exeent)
 }
 
 void
-end_job(cl_t *line, int status, FILE *mailf, short mailpos, char **sendmailenv)
+end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **sendmailenv)
     /* if task have made some output, mail it to user */
 {
 
-- 
2.43.0


From 34255835682ea633add93d14a1bf442fe101b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 47/57] fix: setup_user_and_env: the value of SHELL was set
 from the memory being reallocated for it

---
 job.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/job.c b/job.c
index ad8726f..9b46293 100644
--- a/job.c
+++ b/job.c
@@ -225,7 +225,10 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
 
             myshell = shell;
         }
-        env_list_setenv(env_list, "SHELL", myshell, 1);
+        /* if the value is still the one of the list, then there is nothing to set
+         * (and env_list_setenv() would reallocate the string myshell is part of) */
+        if (myshell == shell)
+            env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
             *curshell = strdup2(myshell);
 
-- 
2.43.0


From 33f1ddaada26ba723e49bd8d0b338840df932324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 48/57] verify: proof annotation in read_write_pipe (no code
 unless FCRON_VERIFY)

---
 job.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/job.c b/job.c
index 9b46293..94ff84b 100644
--- a/job.c
+++ b/job.c
@@ -28,6 +28,12 @@
 #include "mail.h"
 #include "temp_file.h"
 
+#ifdef FCRON_VERIFY
+#include "fcron_verify.h"       /* supplied by the verification harness */
+#else
+#define VERIFY_LOOP(...)        /* proof annotation: no code */
+#endif
+
 
 void sig_dfl(void);
 void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
@@ -418,6 +424,7 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
     int num_retry = 0;
 
     while (size_processed < size) {
+        VERIFY_LOOP(rw_pipe, fd, buf, size, &size_processed, &num_retry);
         errno = 0;
         if (action == PIPE_READ) {
             ret = read(fd, (char *)buf + size_processed,
-- 
2.43.0


From a7ef073fc257c92f11510295145b1188092b30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:39 +0000
Subject: [PATCH 49/57] fix: format_maildisplayname: a name of the maximum
 length was not terminated, an escape could be written after the buffer

---
 mail.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mail.c b/mail.c
index 1d4e423..ed10c4d 100644
--- a/mail.c
+++ b/mail.c
@@ -45,7 +45,9 @@ format_maildisplayname(char *displayname_conf)
         return strdup2("");
     }
 
-    output = (char *)alloc_safe(buf_len * sizeof(char), "output buffer");
+    /* +1 for the terminating '\0' of an output of buf_len chars (and for the escape
+     * of one char too many, which is an error) */
+    output = (char *)alloc_safe((buf_len + 1) * sizeof(char), "output buffer");
 
     /* walk the conf_value and rebuild it in buf1 */
     for (ipos = displayname_conf; *ipos; ipos++) {
-- 
2.43.0


From 058e13e6858c140e0e9d09daa5737716f75a1dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 50/57] fix: get_num: reject a missing number, a dot without
 decimals and a number too big once scaled

---
 fileconf.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index f6855a3..9c4d398 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1828,7 +1828,7 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
         }
 
         /* set string to lower case */
-        for (i = 0; i < strlen(names[0]); i++)
+        for (i = 0; i < strlen(names[0]) && *(ptr + i) != '\0'; i++)
             *(ptr + i) = tolower(*(ptr + i));
 
         for (i = 0; names[i]; ++i)
@@ -1846,10 +1846,19 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
     }
     else {
 
+        if (!isdigit((int)*ptr) && *ptr != '.') {
+            /* there is no number */
+            need_correction = 1;
+            return NULL;
+        }
+
         while (isdigit((int)*ptr) || *ptr == '.') {
 
-            if (*ptr == '.' && ptr++ && i++ > 0)
+            if (*ptr == '.' && (i++ > 0 || !isdigit((int)*(++ptr)))) {
+                /* only one dot, and there must be a decimal after it */
+                need_correction = 1;
                 return NULL;
+            }
             if (i > 0 && --decimal < 0) {
                 /* the decimal number is exceeded : we round off,
                  * skip the other decimals and return */
@@ -1872,8 +1881,13 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         }
 
-        if (decimal > 0)
+        if (decimal > 0) {
             *num *= 10 * decimal;
+            if (*num > max) {
+                need_correction = 1;
+                return NULL;
+            }
+        }
 
     }
 
-- 
2.43.0


From fd7bee7d26a79a5607c101d6d571d14cfdb690ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 51/57] fix: read_field: the names of the months were taken for
 the month before, month 0 was set before the array

---
 fileconf.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 9c4d398..5c6dcda 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1833,7 +1833,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         for (i = 0; names[i]; ++i)
             if (strncmp(ptr, names[i], strlen(names[i])) == 0) {
-                *num = i;
+                /* months are numbered from 1, days of week from 0 */
+                *num = (names == mons_ary) ? i + 1 : i;
                 ptr += strlen(names[i]);
                 return ptr;
                 break;
@@ -1931,6 +1932,11 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to start */
                 start -= 1;
+            if (start < 0) {
+                /* there is no month 0 */
+                need_correction = 1;
+                return NULL;
+            }
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1952,6 +1958,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                      * user set it from 1 to 12, but we manage it internally
                      * as a number from 0 to 11 : we remove 1 to stop */
                     stop -= 1;
+                if (stop < 0) {
+                    need_correction = 1;
+                    return NULL;
+                }
             }
             else {
                 /* syntax error */
@@ -1998,6 +2008,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to rm */
                 rm -= 1;
+            if (rm < 0) {
+                need_correction = 1;
+                return NULL;
+            }
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
-- 
2.43.0


From 59b6c408df94f392c41b235b1f02b97b280ebc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 52/57] fix: read_field: a range of one value was taken for the
 whole field, a step went wrong over the end of the month or of the week

---
 fileconf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 5c6dcda..93911f4 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1984,7 +1984,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         if (debug_opt)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
-        if (start < stop)
+        if (start <= stop)
             for (i = start; i <= stop; i += step)
                 bit_set(ary, i);
         else {
@@ -1993,7 +1993,9 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
              * we should set from 22 to 3 (not from 3 to 22 or nothing :)) ) */
             for (i = start; i <= field_max; i += step)
                 bit_set(ary, i);
-            for (i -= (field_max + 1); i <= stop; i += step)
+            /* there is no day 0, and Sunday is both 0 and 7 */
+            for (i -= (max == 31 || max == 7) ? max : (field_max + 1);
+                 i <= stop; i += step)
                 bit_set(ary, i);
         }
 
-- 
2.43.0


From 80229c40f2e4b34039aa4095af4924345c70c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 53/57] fix: read_arys, read_period: a line skipped because of
 a bad field must be corrected

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 93911f4..89048e6 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1570,7 +1570,8 @@ read_freq(char *ptr, cf_t *cf)
           fprintf(stderr, "\n"); \
       fprintf(stderr, "%s:%d: Error while reading " DESCRP " field: " \
              "skipping line.\n", file_name, line); \
-      Free_safe(cl); \
+      need_correction = 1; \
+      free_line(cl); \
       return; \
   }
 
-- 
2.43.0


From ba0d6c579505eebfdbc499f943b16964e5aef180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 54/57] fix: read_period: do not set a bit after the end of the
 days

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 89048e6..c4b69e7 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1715,7 +1715,7 @@ read_period(char *ptr, cf_t *cf)
     if (remain-- > 0) {
     R_field(ptr, cl->cl_days, 31, NULL, "days")}
     else
-        bit_nset(cl->cl_days, 1, 32);
+        bit_nset(cl->cl_days, 1, 31);
     /* month are defined by user from 1 to 12 : max is 12 */
     if (remain-- > 0) {
     R_field(ptr, cl->cl_mons, 12, mons_ary, "months")}
-- 
2.43.0


From 3c601b6c9cb9b6da3cc400d395e0397b4e3e28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 55/57] fix: get_time: reject a time that cannot be represented

---
 fileconf.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index c4b69e7..ca23a4f 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1233,6 +1233,11 @@ get_time(char *ptr, time_t *time, int zero_allowed)
             sum *= 10;
             sum += *ptr - 48;
             ptr++;
+            if (sum > LONG_MAX / (4 * 7 * 24 * 3600) / 10) {
+                /* too big: it could overflow (see multipliers below) */
+                need_correction = 1;
+                return NULL;
+            }
         }
 
         /* interpret multipliers */
@@ -1258,6 +1263,10 @@ get_time(char *ptr, time_t *time, int zero_allowed)
             return NULL;
         }
 
+        if (*time > LONG_MAX - sum) {
+            need_correction = 1;
+            return NULL;
+        }
         *time += sum;
 
     }
-- 
2.43.0


From d23707b3bdcaaaaa196114ee562f13854234b737 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:32:43 +0000
Subject: [PATCH 56/57] verify: proof annotations in read_field (no code unless
 FCRON_VERIFY)

---
 fileconf.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index ca23a4f..cf191c8 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -26,6 +26,12 @@
 
 #include "fileconf.h"
 
+#ifdef FCRON_VERIFY
+#include "fcron_verify.h"
+#else
+#define VERIFY_LOOP(...)        /* proof annotation: no code */
+#endif
+
 char *get_string(char *ptr);
 char *get_command(char *ptr);
 int get_line(char *str, size_t size, FILE * file);
@@ -1995,18 +2001,24 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
         if (start <= stop)
-            for (i = start; i <= stop; i += step)
+            for (i = start; i <= stop; i += step) {
+                VERIFY_LOOP(fld_range, ary, start, step, &i);
                 bit_set(ary, i);
+            }
         else {
             short int field_max = (max == 12) ? 11 : max;
             /* this is a field like (for hours field) "22-3" :
              * we should set from 22 to 3 (not from 3 to 22 or nothing :)) ) */
-            for (i = start; i <= field_max; i += step)
+            for (i = start; i <= field_max; i += step) {
+                VERIFY_LOOP(fld_end, ary, start, step, &i);
                 bit_set(ary, i);
+            }
             /* there is no day 0, and Sunday is both 0 and 7 */
             for (i -= (max == 31 || max == 7) ? max : (field_max + 1);
-                 i <= stop; i += step)
+                 i <= stop; i += step) {
+                VERIFY_LOOP(fld_begin, ary, start, step, &i);
                 bit_set(ary, i);
+            }
         }
 
         /* finally, remove unwanted values */
-- 
2.43.0


From bd692a4e30074d76b2179be66f76168daab93cd5 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 04:53:59 +0000
Subject: [PATCH 57/57] fix: bit_ffc, bit_ffs read a byte after the end of the
 bit string

---
 bitstring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitstring.h b/bitstring.h
index 24007bc..8f374f4 100644
--- a/bitstring.h
+++ b/bitstring.h
@@ -97,7 +97,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffc(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte] != 0xff) { \
 			_value = _byte << 3; \
@@ -112,7 +112,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffs(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte]) { \
 			_value = _byte << 3; \
-- 
2.43.0

