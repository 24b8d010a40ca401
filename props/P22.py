PROP = {
 "level": "proof",
 "title": "Job output is mailed exactly when asked for, and every job process is known",
 "statement": "When a job is over, a mail is sent if and only if the options of the line ask for one: always with mailzerolength, otherwise (with mail) when the job failed, or wrote something and erroronlymail is not set; the mail contains all the output and errors of the job, then the failure; it goes to the addressee of the line with the environment of its owner, from the start of the file, and only after the session of the job was closed. Without a mail the output goes nowhere but where option stdout says. The daemon records the watching process and the pid of the job (transferred whole, also when the transfer is interrupted), or that there is none; it keeps no pipe open and goes on when fork() or pipe() fails.",
 "quantifier": {"over": ["inputs", "fault_sequences"], "text": "every option set, exit status and size of header and output; every result of fork, pipe, read, write and wait"},
 "why_tests_cant": "Tests run no job; the decision combines options, exit status and output size, and transfers are interrupted only by chance.",
 "anchors": {"files": ["job.c"], "mechanism": [{"name": "run_job, end_job, launch_mailer, read_write_pipe", "where": "job.c"}],
   "state": [{"name": "mail file", "meaning": "header and output of the job", "where": "temporary file"}, {"name": "e_ctrl_pid, e_job_pid", "meaning": "processes of the job", "where": "exe_list"}],
   "observe_at": ["execution of the mailer", "the list of running jobs"], "hook_needed": "VERIFY_LOOP annotation"},
 "jobs": [
  {"name": "run_job", "src": "job_run.c", "unwind": 20, "std": True, "mem_gb": 6, "repl": [("setup_user_and_env", "contract_setup"), ("become_user", "contract_become_user"), ("create_mail", "contract_create_mail"), ("write_pipe", "contract_write_pipe"), ("read_pipe", "contract_read_pipe"), ("end_job", "contract_end_job")], "nrepl": True, "bounded": "at most two lines of output (no variable lives from one to the next)"},
  {"name": "end_job", "src": "job_end.c", "defs": ["OP=0"], "unwind": 8, "std": True, "repl": [("launch_mailer", "contract_launch_mailer")], "nrepl": True},
  {"name": "launch_mailer", "src": "job_end.c", "defs": ["OP=1"], "unwind": 8, "std": True},
  {"name": "rw_pipe", "src": "job_end.c", "defs": ["OP=2"], "unwind": 8, "unwind_fn": {"read_write_pipe": 3}, "std": True},
 ],
 "functions": ["run_job", "end_job", "launch_mailer", "read_write_pipe", "read_pipe", "write_pipe"],
 "assumptions": ["the program is built without SELinux being enabled at run time", "bytes 0 in the output are left out (fgets/fputs)"],
 "level_note": "",
}
