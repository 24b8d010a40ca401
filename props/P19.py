REPL = [(f, "contract_" + f) for f in ("print_fields", "print_line")]
def J(n, defs): return {"name": n, "src": "dyn_cmd.c", "defs": defs, "unwind": 8, "unwind_fn": {"strcmp": 9}, "std": True, "solver": "cadical", "mem_gb": 5, "repl": REPL, "nrepl": True, "bounded": "queues of at most 3 jobs; the loops treat each job alike"}
PROP = {
 "level": "other",
 "explanation": "exe_cmd and the command functions by cbmc for every command word, every argument, every owner and option, with queues of at most three jobs (no loop contract on the list walks)",
 "title": "fcrondyn users see and act only on their own jobs",
 "statement": "A client authenticated as a user other than root is shown, can signal, renice, run or reschedule only the jobs of that user's own fcrontab (not those of others, nor of the system fcrontab), may not list all jobs and may not lower a nice value below 0; root may act on all. A request acts on exactly the job it names and on a process that is a running job of the daemon, once; a list shows every job asked for that is in the queue once, and nothing else; every request gets an answer, and an unknown command does nothing.",
 "quantifier": {"over": ["inputs"], "text": "every command code and arguments (any long), every user and owner (names equal, different and prefixes of one another), every job option, every result of send/kill/setpriority; queues of 0 to 3 jobs"},
 "why_tests_cant": "The tests of fcrondyn_svr.c only look at the text of one line.",
 "anchors": {"files": ["fcrondyn_svr.c"], "mechanism": [{"name": "exe_cmd, cmd_ls, cmd_on_exeq, cmd_send_signal, cmd_renice, cmd_run", "where": "fcrondyn_svr.c"}],
   "state": [{"name": "fcl_user, cf_user", "meaning": "user of the client, owner of the job", "where": "fcrondyn_svr.h, fcron.h"}],
   "observe_at": ["lines sent, kill(), setpriority(), jobs run"], "hook_needed": None},
 "jobs": [J("dyn_details", ["OP=0"])] + [J("dyn_ls%d" % k, ["OP=1", "LS=%d" % k]) for k in range(4)]
  + [J("dyn_renice", ["OP=2", "LS=0"]), J("dyn_signal", ["OP=2", "LS=1"]), J("dyn_runnow", ["OP=3", "LS=0"]), J("dyn_run", ["OP=3", "LS=1"]),
     dict(J("dyn_unknown", ["OP=4"]), repl=REPL + [(f, "contract_" + f) for f in ("cmd_ls", "cmd_on_exeq", "cmd_run")])],
 "functions": ["exe_cmd", "cmd_ls", "cmd_on_exeq", "cmd_send_signal", "cmd_renice", "cmd_run"],
 "assumptions": ["print_line shows the line it is given (memory safety and text of print_line: P20)", "job ids are unique", "exe_list and lavg_list iterate over their entries in order (P28)"],
 "level_note": "",
}
