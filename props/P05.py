U = {"unwind": 6, "std": True}
PROP = {
 "level": "proof",
 "title": "The job queue: sorted, each line once, every due job handled",
 "statement": "Putting a line in the queue of scheduled jobs (or moving it) leaves the queue ordered by time of execution with that line in it exactly once; removing takes away that line only; no other line is ever lost or reordered. When the daemon looks at the queue, every job which is due and none before its time is handled: run (through the queue its options ask for) once every runfreq matches, then scheduled again, except that a runonce job which has run leaves the queue. The daemon never plans to sleep past the first job of the queue.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every queue of any length, every line and option set, every present time"},
 "why_tests_cant": "No test exercises the queue; a lost or misordered entry needs particular orders of insertion and equal or moved times.",
 "anchors": {"files": ["database.c"], "mechanism": [
     {"name": "insert_nextexe, job_queue_remove", "where": "database.c"}, {"name": "test_jobs, next_wake_time", "where": "database.c"}],
     "state": [{"name": "queue_base", "meaning": "list of the scheduled lines", "where": "database.c"}],
     "observe_at": ["order and time at which jobs start", "fcrondyn ls_exeq"], "hook_needed": "VERIFY_LOOP annotations in the two list walks"},
 "jobs": [
   dict(U, name="jq_remove", src="jq.c", defs=["JQ_REMOVE"], native=False),
   dict(U, name="jq_insert", src="jq.c", defs=["JQ_INSERT"], native=False,
        repl=[("job_queue_remove", "contract_job_queue_remove")]),
   dict(U, name="jq_list", src="jq.c", defs=["JQ_LIST"], unwind=8,
        bounded="whole queues of at most 4 entries"),
   dict(U, name="jq_dispatch", src="jq.c", defs=["JQ_DISPATCH"],
        repl=[(f, "contract_" + f) for f in ("add_lavg_job", "add_serial_job", "run_normal_job", "job_queue_remove", "set_next_exe")]),
 ],
 "functions": ["insert_nextexe", "job_queue_remove", "test_jobs", "next_wake_time"],
 "assumptions": ["set_next_exe puts the time of the line it reschedules after now (P01, P03)", "memory allocation succeeds or ends the daemon"],
 "level_note": "insert/remove/dispatch proved for any queue length by cutting the loops; the bounded whole-list job is a cross check that yields concrete inputs.",
}
