PROP = {
 "level": "other",
 "explanation": "the rules (is_allowed) are proved for all results of the two files; in_file, remove_blanks, get_word and parseopt are decided for all inputs within the stated lengths",
 "title": "fcron.allow and fcron.deny decide who may use fcron",
 "statement": "fcrontab, fcrondyn and fcronsighup accept a user exactly when the user exists and neither file exists, or fcron.allow lists the user (by name or by \"all\") or does not exist, and fcron.deny does not list the user (by name or \"all\"); the deny file takes precedence (one case is left open: a name listed in fcron.allow when fcron.deny says \"all\"). A file lists a user when one of its lines, without surrounding blanks and if not a comment, is exactly the name; a file that cannot be read stops the program. Without privileges a user can only work on the own fcrontab: another user (option -u or argument) is accepted from root only, and no action is chosen for a user who is not allowed.",
 "quantifier": {"over": ["inputs", "fault_sequences"], "text": "every result of the two files; every line of up to 7 characters and every name of up to 3; every command line of fcrontab"},
 "why_tests_cant": "No test reads these files; the outcome depends on the combination of both files and of \"all\", with the exact text of each line.",
 "anchors": {"files": ["allow.c", "subs.c", "fcrontab.c"], "mechanism": [{"name": "is_allowed, in_file", "where": "allow.c"}, {"name": "remove_blanks, get_word", "where": "subs.c"}, {"name": "parseopt", "where": "fcrontab.c"}],
   "state": [{"name": "fcron.allow, fcron.deny", "meaning": "lists of users", "where": "/etc"}],
   "observe_at": ["whether the program goes on"], "hook_needed": None},
 "jobs": [
  {"name": "allow_rules", "src": "allow_h.c", "defs": ["OP=0"], "unwind": 10, "std": True, "repl": [("in_file", "contract_in_file")], "nrepl": True},
  {"name": "allow_file", "src": "allow_h.c", "defs": ["OP=1", "LN=6"], "cfg": {"LINE_LEN": 8}, "unwind": 10, "std": True, "solver": "cadical", "bounded": "two lines of up to 7 characters, names of up to 3"},
  {"name": "remove_blanks", "src": "allow_h.c", "defs": ["OP=2"], "unwind": 12, "std": True, "solver": "cadical", "bounded": "strings of up to 8 characters"},
  {"name": "get_word", "src": "allow_h.c", "defs": ["OP=3"], "unwind": 12, "std": True, "solver": "cadical", "bounded": "strings of up to 9 characters"},
  {"name": "fct_opt", "src": "fct_opt.c", "repl": [("xexit", "contract_xexit")], "nrepl": True, "unwind": 10, "std": True, "cfg": {"PATH_LEN": 20}, "solver": "cadical", "bounded": "command lines of at most three options and three arguments"},
 ],
 "functions": ["is_allowed", "in_file", "remove_blanks", "get_word", "parseopt of fcrontab.c"],
 "assumptions": ["lines of the two files are shorter than 1024 characters; fgets() returns them one by one", "C locale"],
 "level_note": "",
}
