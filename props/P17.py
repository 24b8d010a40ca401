PROP = {
 "level": "proof",
 "title": "A job runs with exactly the identity of its user, or not at all",
 "statement": "The process which runs a job, and the one which mails its output, has first taken the groups, the group and the user of the line's user (runas), in that order, with every step checked, and only then enters a directory, starts a process or executes anything; if any step fails (unknown user, refused by PAM, groups, gid, uid, no directory) nothing is executed.",
 "quantifier": {"over": ["inputs", "fault_sequences"], "text": "every user and group id; every failure of every system call and PAM call"},
 "why_tests_cant": "Tests run no job and cannot make setgid() or PAM fail.",
 "anchors": {"files": ["job.c"], "mechanism": [{"name": "become_user, change_user_setup_env, setup_user_and_env, run_job", "where": "job.c"}],
   "state": [{"name": "credentials of the child process", "meaning": "uid, gid, groups", "where": "kernel"}],
   "observe_at": ["credentials when the shell or the mailer is executed"], "hook_needed": None},
 "jobs": [
  {"name": "become_user", "src": "job_id.c", "defs": ["OP=0"], "unwind": 8, "std": True},
  {"name": "change_user", "src": "job_id.c", "defs": ["OP=1"], "unwind": 8, "std": True, "repl": [("setup_user_and_env", "contract_setup"), ("become_user", "contract_become_user")], "nrepl": True},
  {"name": "setup_env", "src": "job_setup.c", "unwind": 32, "std": True, "repl": [("die_mail_pame", "contract_die_mail_pame")], "nrepl": True},
  {"name": "run_job", "src": "job_run.c", "unwind": 20, "std": True, "mem_gb": 6, "repl": [("setup_user_and_env", "contract_setup"), ("become_user", "contract_become_user"), ("create_mail", "contract_create_mail"), ("write_pipe", "contract_write_pipe"), ("read_pipe", "contract_read_pipe"), ("end_job", "contract_end_job")], "nrepl": True, "bounded": "at most two lines of output (no variable lives from one to the next)"},
 ],
 "functions": ["run_job", "become_user", "change_user_setup_env", "setup_user_and_env"],
 "assumptions": [],
 "level_note": "",
}
