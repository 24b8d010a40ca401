PROP = {
 "level": "proof",
 "title": "A user's file never gives more rights than the user has",
 "statement": "The daemon loads jobs only from files owned by root, or from a newly installed file for the user who owns it; every job from a user's own file belongs to that user and runs as that user whatever the file says. Mail addresses that could act as options or shell text are replaced, an elapsed-time job always has a period of at least a second, and a line without command, user or mail address is refused.",
 "quantifier": {"over": ["inputs", "configurations"], "text": "every owner, file name, header and field content; strings of the line up to 5 characters"},
 "why_tests_cant": "No test loads a binary file; the guarantee is about every hostile file.",
 "anchors": {"files": ["conf.c"], "mechanism": [{"name": "read_file, add_line_to_file", "where": "conf.c"}],
   "state": [{"name": "cl_runas, cf_user", "meaning": "identity of the job, owner of the file", "where": "cl.h, global.h"}],
   "observe_at": ["identity of started jobs", "recipient of job mail"], "hook_needed": None},
 "jobs": [
  {"name": "read_owner", "src": "conf_read.c", "defs": ["HDR=1", "NREC=1"], "unwind": 9, "unwind_fn": {"read_file.1": 4}, "std": True, "mem_gb": 8, "repl": [("add_line_to_file", "contract_add_line_to_file"), ("delete_file", "contract_delete_file"), ("read_strn", "contract_read_strn")], "nrepl": True},
  {"name": "add_line", "src": "conf_line.c", "unwind": 9, "std": True, "bounded": "strings of up to 5 characters"},
 ],
 "functions": ["read_file", "add_line_to_file"],
 "assumptions": ["fstat, getpwuid and read tell the truth about the file", "SELinux is not enabled at run time (its additional refusals are not covered)"],
 "level_note": "Header and one arbitrary field; the identity passed on does not depend on later fields (read_rec of P13 covers those).",
}
