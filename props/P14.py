PROP = {
 "level": "proof",
 "title": "Saving a fcrontab never destroys the only complete version",
 "statement": "Whatever fails or is interrupted while the daemon or fcrontab saves a file (no space, read or write error, crash between two system calls), the file keeps its previous version or holds the complete new one, or - only when the rename is refused - a complete copy is in the temporary file beside it. The new version is renamed only once it is complete, synchronised to the disk and given to its owner, and a failure is reported to the caller; no other file is touched.",
 "quantifier": {"over": ["fault_sequences", "crash_points", "inputs"], "text": "every outcome of every system call of the save path, an interruption between any two of them, every path"},
 "why_tests_cant": "No test makes a system call of the save path fail, and none stops between two of them.",
 "anchors": {"files": ["save.c", "fcrontab.c", "conf.c"], "mechanism": [
     {"name": "save_file_safe, save_one_file, write_file_to_disk", "where": "save.c"},
     {"name": "copy_src, write_file", "where": "fcrontab.c"}, {"name": "save_file", "where": "conf.c"}],
   "state": [{"name": "user, user.tmp, user.orig, new.user", "meaning": "files in the spool directory", "where": "spool"}],
   "observe_at": ["the spool directory after a crash"], "hook_needed": None},
 "jobs": [
  {"name": "save_safe", "src": "save_safe.c", "unwind": 25, "unwind_fn": {"strncpy": 600}, "std": True, "repl": [("write_file_to_disk", "contract_write_file_to_disk")], "nrepl": True},
  {"name": "save_safe_long", "src": "save_safe.c", "defs": ["MAXL=30", "MINL=8", "FV_X"], "cfg": {"PATH_LEN": 20}, "unwind": 47, "std": True,  "repl": [("write_file_to_disk", "contract_write_file_to_disk")], "nrepl": True},
  {"name": "fct_copy", "src": "fct_copy.c", "unwind": 25, "unwind_fn": {"strncpy": 530, "copy_src": 4}, "std": True, "bounded": "sources of at most two blocks (no variable lives from one block to the next)"},
  {"name": "fct_write", "src": "fct_write.c", "unwind": 20, "std": True, "repl": [("copy_src", "contract_copy_src"), ("remove_fcrontab", "contract_remove_fcrontab")], "nrepl": True},
  {"name": "conf_save", "src": "conf_save.c", "unwind": 6, "std": True, "bounded": "three files"},
  {"name": "save_fields", "src": "save_fields.c", "unwind": 5, "unwind_fn": {"harness": 25}, "std": True, "repl": [("save_type", "contract_save_type"), ("save_str", "contract_save_str"), ("save_strn", "contract_save_strn"), ("save_lint", "contract_save_lint"), ("write_buf_to_disk", "contract_write_buf_to_disk")], "nrepl": True},
 ] + [{"name": "save_%s" % n, "src": "save_bytes.c", "defs": ["OP=%d" % i, "LEN=13", "DATA=16"], "unwind": 18, "unwind_fn": {"fv_strlen": 22, "harness": 22}, "std": True,
     "repl": [("write_buf_to_disk", "contract_write_buf_to_disk")] if i < 4 else [], "nrepl": True, "bounded": "a write buffer of reduced size"}
   for i, n in enumerate(("type", "str", "strn", "lint", "flush"))],
 "functions": ["save_type", "save_str", "save_strn", "save_lint", "append_data", "write_buf_to_disk", "save_file_safe", "save_one_file", "write_file_to_disk", "copy_src", "write_file", "save_file"],
 "assumptions": ["rename(2) is atomic; what fdatasync(2) returned is on the disk", "open_as_user, remove_as_user, rename_as_user by their contracts (P16)"],
 "level_note": "",
}
