REPL_NR = [(f, "contract_" + f) for f in ("mktime_no_dst", "move_time_to", "set_next_exe", "mail_notrun")]
REPL_ST = [(f, "contract_" + f) for f in ("insert_nextexe", "job_queue_remove", "set_next_exe", "set_next_exe_notrun",
           "mail_notrun_time_t", "add_serial_job", "add_lavg_job")]
PROP = {
 "level": "proof",
 "title": "Runs missed while the system was down are handled once, as asked",
 "statement": "When the daemon loads a time-and-date line, the machine boots or resumes: a run in the future is kept; a missed run is reported exactly once, with the time it was due, when noticenotrun asks for it (for a %-line only when its period is over) and never for a line that is new or has missed nothing; a missed bootrun job is queued once (load-average queue or serial queue); runatreboot/runatresume runs the job now; a job that was running when the daemon stopped is queued again and no job stays counted as running; a runonce job that has run is not scheduled again until the reboot (volatile: the restart).",
 "quantifier": {"over": ["inputs", "histories"], "text": "every line and option set, every time of next run, every count, the three contexts, every outcome of queueing"},
 "why_tests_cant": "No test starts the scheduler; the outcome depends on combinations of six options with the context and the saved state.",
 "anchors": {"files": ["database.c"], "mechanism": [{"name": "set_next_exe_startup, set_next_exe_notrun, mail_notrun_time_t, mail_notrun", "where": "database.c"}],
   "state": [{"name": "cl_nextexe, cl_remain, cl_numexe, hasrun", "meaning": "saved state of a line", "where": "cl.h"}],
   "observe_at": ["jobs and mails after a restart, boot, resume"], "hook_needed": None},
 "jobs": [
  {"name": "startup_td", "src": "startup.c", "defs": ["TD=1"], "unwind": 10, "std": True, "repl": REPL_ST, "nrepl": True},
  {"name": "notrun", "src": "notrun.c", "defs": ["OP=0"], "unwind": 10, "std": True, "repl": REPL_NR, "nrepl": True},
  {"name": "mail_time", "src": "notrun.c", "defs": ["OP=1"], "unwind": 10, "std": True, "repl": REPL_NR, "nrepl": True},
  {"name": "mail_notrun", "src": "notrun.c", "defs": ["OP=2"], "unwind": 10, "std": True},
 ],
 "functions": ["set_next_exe_startup", "set_next_exe_notrun", "mail_notrun_time_t", "mail_notrun"],
 "assumptions": ["set_next_exe, add_serial_job, add_lavg_job, insert_nextexe by their contracts (P01, P06-P08, P05)"],
 "level_note": "",
}
