PROP = {
 "level": "proof",
 "title": "Serial jobs are started in the order they were queued, none lost or doubled",
 "statement": "A job added to the serial queue goes last and every job already waiting keeps its place, also when the queue has to be enlarged; starting a serial job always takes the first one and moves the others up. A job is accepted exactly when it is not already queued or running (unless it may be queued several times) and fewer jobs than the configured maximum wait; what is refused changes nothing. When a user's jobs are removed, the others keep their order. A job that could not be started is counted neither as queued nor as running.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every content and position of the circular queue, for the sizes 10, 20 and 30 (all that occur with the default maximum), every option set and limit"},
 "why_tests_cant": "No test queues serial jobs; the order breaks only when the queue wraps around or is enlarged in a particular position.",
 "anchors": {"files": ["database.c"], "mechanism": [
     {"name": "add_serial_job, run_serial_job, run_queue_job", "where": "database.c"}],
     "state": [{"name": "serial_array, serial_array_index, serial_num", "meaning": "circular queue", "where": "fcron.c"}],
     "observe_at": ["order in which serial jobs start", "fcrondyn ls_serialq"], "hook_needed": None},
 "jobs": [
   {"name": "sq%d" % n, "src": "sq.c", "unwind": 6, "unwind_fn": {"fv_copy_lines": n + 2}, "mem_gb": 6, "std": True, "repl": [("mail_notrun", "contract_mail_notrun")],
    "defs": ["SQ_SIZE=%d" % n], "bounded": "array of %d entries (the array has 10, 20 or 30 entries with the default maximum of 30 queued jobs)" % n}
   for n in (10, 20, 30)] + [
   {"name": "sq_delete", "src": "conf_del.c", "unwind": 6, "std": True, "mem_gb": 6, "repl": [("u_list_last", "contract_u_list_last")], "timeout": 600,
    "bounded": "delete_file: a serial queue of 4 entries, at most 3 running jobs, 2 lines in the file"}],
 "functions": ["add_serial_job", "run_serial_job", "run_queue_job", "delete_file"],
 "assumptions": ["the size of the array is one of 10, 20, 30", "memory allocation succeeds or ends the daemon"],
 "level_note": "One arbitrary watched position stands for all. Array sizes 10, 20, 30 (all that occur with the default maximum); other sizes (option -q) are the bound.",
}
