PROP = {
 "level": "proof",
 "title": "Saved jobs load back unchanged",
 "statement": "What is written to a binary fcrontab (by fcrontab or by the daemon) is loaded back as the same file: same user, variables, time difference and lines, each with its command, options, schedule, remaining counts, time of next run, limits, mail settings and time zone, and a field of one line never ends up in another. A file that is cut short or damaged is never read past its fields: it is reported and none of its lines stays loaded.",
 "quantifier": {"over": ["inputs", "fault_sequences"], "text": "every value of every field, every pair of adjacent fields, every cut; every sequence of short or failed writes"},
 "why_tests_cant": "No test writes or reads a file; round trips depend on combinations of optional fields and on buffer boundaries.",
 "anchors": {"files": ["save.c", "conf.c", "save.h"], "mechanism": [
     {"name": "write_file_to_disk, save_type, save_str, save_strn, save_lint, append_data, write_buf_to_disk", "where": "save.c"},
     {"name": "read_file, read_strn, read_type", "where": "conf.c"}],
   "state": [{"name": "cl_t, cf_t", "meaning": "a line, a file", "where": "cl.h, global.h"}],
   "observe_at": ["jobs after a restart of the daemon"], "hook_needed": None},
 "jobs": [
  {"name": "read_hdr", "src": "conf_read.c", "defs": ["HDR=1", "NREC=1"], "unwind": 9, "unwind_fn": {"read_file.1": 4}, "std": True, "mem_gb": 8, "repl": [("add_line_to_file", "contract_add_line_to_file"), ("delete_file", "contract_delete_file"), ("read_strn", "contract_read_strn")], "nrepl": True},
  {"name": "read_rec", "src": "conf_read.c", "defs": ["HDR=0", "NREC=2"], "unwind": 9, "unwind_fn": {"read_file.1": 5}, "std": True, "mem_gb": 8, "repl": [("add_line_to_file", "contract_add_line_to_file"), ("delete_file", "contract_delete_file"), ("read_strn", "contract_read_strn")], "nrepl": True},
  {"name": "read_lines", "src": "conf_read.c", "defs": ["HDR=0", "NREC=4", "LINES"], "unwind": 9, "unwind_fn": {"read_file.1": 7}, "std": True, "mem_gb": 8, "repl": [("add_line_to_file", "contract_add_line_to_file"), ("delete_file", "contract_delete_file"), ("read_strn", "contract_read_strn")], "nrepl": True},
  {"name": "read_strn", "src": "conf_strn.c", "defs": ["STRN=1"], "unwind": 6, "std": True},
  {"name": "read_type", "src": "conf_strn.c", "defs": ["STRN=0"], "unwind": 6, "std": True},
  {"name": "save_fields", "src": "save_fields.c", "unwind": 5, "unwind_fn": {"harness": 25}, "std": True, "repl": [("save_type", "contract_save_type"), ("save_str", "contract_save_str"), ("save_strn", "contract_save_strn"), ("save_lint", "contract_save_lint"), ("write_buf_to_disk", "contract_write_buf_to_disk")], "nrepl": True},
 ] + [{"name": "save_%s" % n, "src": "save_bytes.c", "defs": ["OP=%d" % i, "LEN=13", "DATA=16"], "unwind": 18, "unwind_fn": {"fv_strlen": 22, "harness": 22}, "std": True,
     "repl": [("write_buf_to_disk", "contract_write_buf_to_disk")] if i < 4 else [], "nrepl": True}
   for i, n in enumerate(("type", "str", "strn", "lint", "flush"))],
 "functions": ["read_file", "read_strn", "read_type", "write_file_to_disk", "save_type", "save_str", "save_strn", "save_lint", "append_data", "write_buf_to_disk"],
 "assumptions": ["strings are shorter than 32768 characters (fcrontab reads lines of bounded length)", "the file does not change while it is read",
   "a field of at most 8 data bytes, or one that is cut, after the header; strings of any size are read by read_strn, proved on its own"],
 "level_note": "Writer: which fields are written and with which values (two lines, two variables), then each writer byte by byte over a reduced buffer. Reader: two arbitrary fields after the header (each field sets its member and no other, in any order), then four fields for what passes from one line to the next; longer files follow by induction over the read loop, whose state is the line under construction.",
}
