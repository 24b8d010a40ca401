PROP = {
 "level": "proof",
 "title": "Load-average jobs start when the load permits or at their timeout, not otherwise",
 "statement": "A job waiting for the load average is started exactly when the configured values are undercut (all of them, or one of them for lavgor; 0 means ignored) and, if it is serial, the limit of serial jobs allows it; when its timeout has passed it runs whatever the load, or, for a strict job whose interval of execution is over, it is given up, rescheduled and reported. A job leaves the queue exactly when it is started or given up, it is never started twice, and while jobs wait the daemon looks again soon.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every load (in steps of 1/32), every option set and timeout, up to 3 waiting jobs"},
 "why_tests_cant": "Load averages cannot be set in a test, and the combinations of timeout, strictness, serial limit and position in the list cannot be enumerated.",
 "anchors": {"files": ["database.c", "lavg_list.c", "u_list.c"], "mechanism": [
     {"name": "check_lavg, run_lavg_job, add_lavg_job", "where": "database.c"}],
     "state": [{"name": "lavg_list", "meaning": "jobs waiting for the load average", "where": "fcron.c"}],
     "observe_at": ["start of the job", "fcrondyn ls_lavgq"], "hook_needed": None},
 "jobs": [
   {"name": "lavg_check", "src": "lavgq.c", "unwind": 6, "std": False, "mem_gb": 10, "defs": ["NL=3"],
    "repl": [("u_list_last", "contract_u_list_last"), ("set_next_exe", "contract_set_next_exe"), ("set_next_exe_notrun", "contract_set_next_exe_notrun"),
             ("next_wake_time", "contract_next_wake_time")], "nrepl": [("set_next_exe", "contract_set_next_exe"), ("set_next_exe_notrun", "contract_set_next_exe_notrun"),
             ("next_wake_time", "contract_next_wake_time")],
    "bounded": "at most 3 jobs wait for the load average"},
   {"name": "lavg_add", "src": "lavgq.c", "unwind": 6, "std": True, "mem_gb": 4, "defs": ["ADD"],
    "repl": [("u_list_last", "contract_u_list_last"), ("move_time_to", "contract_move_time_to"),
             ("mktime_no_dst", "contract_mktime_no_dst"), ("mail_notrun", "contract_mail_notrun")],
    "nrepl": [("move_time_to", "contract_move_time_to"),
             ("mktime_no_dst", "contract_mktime_no_dst"), ("mail_notrun", "contract_mail_notrun")],
    "bounded": "at most 3 jobs wait for the load average"},
 ],
 "functions": ["add_lavg_job", "check_lavg", "run_lavg_job", "run_queue_job", "lavg_list_first", "lavg_list_next", "lavg_list_remove_cur"],
 "assumptions": ["getloadavg() gives three finite values, multiples of 1/32", "set_next_exe, set_next_exe_notrun and next_wake_time by contract (P01, P09, P05)"],
 "level_note": "Bounded in the number of waiting jobs (3); everything else is symbolic.",
}
