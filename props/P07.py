PROP = {
 "level": "proof",
 "title": "Running jobs are counted exactly while they run",
 "statement": "A job is started while an earlier run of it still goes on only if its line allows that; a started job is counted once in its line, its file, the list of running jobs and, for serial jobs, in the serial limit, and a job that could not be started is counted nowhere. When a job ends exactly its own counts go back, whatever other jobs run, and the next queued serial job is started if the limit allows. Removing a user's jobs or waiting for them leaves no count behind.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every option set, count, limit and every child process that ends; lists of up to 3 running jobs"},
 "why_tests_cant": "No test starts jobs; a count that drifts shows only after a particular sequence of starts, failures, reloads and ends.",
 "anchors": {"files": ["database.c", "conf.c"], "mechanism": [
     {"name": "run_normal_job, run_lavg_job, run_queue_job, wait_chld, wait_all", "where": "database.c"},
     {"name": "delete_file", "where": "conf.c"}],
     "state": [{"name": "cl_numexe, cf_running, serial_running, lavg_serial_running, exe_list", "meaning": "what runs", "where": "fcron.c, global.h, cl.h"}],
     "observe_at": ["jobs started", "fcrondyn ls_exeq"], "hook_needed": None},
 "jobs": [{"name": "acct_%s" % n, "src": "acct.c", "unwind": 5, "std": True, "mem_gb": 6, "defs": ["OP=%d" % i],
   "bounded": "at most 3 running jobs in the list, one child reaped per call" if i > 1 else None}
   for i, n in enumerate(("normal", "lavg", "chld", "waitall"))] + [
  {"name": "acct_delete", "src": "conf_del.c", "unwind": 6, "std": True, "mem_gb": 6, "repl": [("u_list_last", "contract_u_list_last")], "timeout": 600,
   "bounded": "at most 3 running jobs, 3 in the lavg queue, 4 in the serial queue, 2 lines in the file"}],
 "functions": ["run_normal_job", "run_lavg_job", "run_queue_job", "wait_chld", "wait_all", "delete_file"],
 "assumptions": ["fork/exec of the job (run_job) succeeds or fails as a whole", "a job queued serially because of bootrun has no load average limit (established by set_next_exe_startup)",
   "a line with exesev and bootrun whose jobs run both serially and not is outside the claim (known per-line limitation, DESIGN.md)"],
 "level_note": "One arbitrary child end per call; the state before is arbitrary, so sequences follow by induction. The list of running jobs has at most 3 entries.",
}
