REPL_ST = [(f, "contract_" + f) for f in ("insert_nextexe", "job_queue_remove", "set_next_exe", "set_next_exe_notrun",
           "mail_notrun_time_t", "add_serial_job", "add_lavg_job")]
PROP = {
 "level": "proof",
 "title": "An elapsed-time line runs each time its period of uptime has passed",
 "statement": "A line based on elapsed time (@-line) is run again exactly its period after the run was due to be computed from (or never when the period does not fit in the calendar), strictly in the future; when the daemon starts or the system resumes, the time spent down does not count: its next run is moved by exactly that time (a new or volatile line, or after a reboot one with rebootreset or runonce, starts again from its first delay; runatreboot/runatresume run it now). The time of the next run never is a value that cannot be handled, whatever the numbers in the fcrontab, and the line is queued once.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every line, every period and first delay up to the largest integer, every time spent down, each of the three contexts (reload, boot, resume)"},
 "why_tests_cant": "No test schedules an elapsed-time line; overflow and downtime arithmetic go wrong only at particular values.",
 "anchors": {"files": ["database.c"], "mechanism": [{"name": "set_next_exe", "where": "database.c"}, {"name": "set_next_exe_startup", "where": "database.c"}],
   "state": [{"name": "cl_nextexe, cl_timefreq, cl_first", "meaning": "schedule of an @-line", "where": "cl.h"}],
   "observe_at": ["time of the next run after a restart", "fcrondyn ls"], "hook_needed": None},
 "jobs": [
  {"name": "at_next", "src": "at_next.c", "unwind": 10, "std": True, "repl": [("move_time_to", "contract_move_time_to"), ("insert_nextexe", "contract_insert_nextexe")]},
  {"name": "startup_at", "src": "startup.c", "defs": ["TD=0"], "unwind": 10, "std": True, "repl": REPL_ST, "nrepl": True},
 ],
 "functions": ["set_next_exe (@-lines)", "set_next_exe_startup (@-lines)"],
 "assumptions": ["the present is before year 3058"],
 "level_note": "",
}
