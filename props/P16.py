PROP = {
 "level": "proof",
 "title": "fcrontab touches files with the rights of its caller only",
 "statement": "A file that fcrontab opens, removes or renames for a user is handled with exactly the effective user and group given, and the former ones are back on every way out; open_as_user returns a descriptor only for a regular file with a single name, closes any other, and reports the error of open(). fcrontab reads its options and configuration without the rights of fcron, and starts the one action asked for (install, remove, list, edit, reinstall) only after PAM agreed, in the directory of the fcrontabs, with a umask that hides files from others (all of them for root) and the rights of its caller; a source named on the command line is opened as its caller; success is reported only if the action was done.",
 "quantifier": {"over": ["inputs", "fault_sequences"], "text": "every real, effective and saved user and group; every type and link count of the file; every failure; every action"},
 "why_tests_cant": "Tests run as one user without the set-uid bit and cannot make the kernel refuse an identity.",
 "anchors": {"files": ["subs.c", "fcrontab.c"], "mechanism": [{"name": "open_as_user, remove_as_user, rename_as_user, seteuid_safe, setegid_safe", "where": "subs.c"}, {"name": "main", "where": "fcrontab.c"}],
   "state": [{"name": "effective user and group", "meaning": "rights of the process", "where": "kernel"}],
   "observe_at": ["rights at each file operation"], "hook_needed": None},
 "jobs": [
  {"name": "open_as_user", "src": "as_user.c", "defs": ["OP=0"], "unwind": 8, "std": True},
  {"name": "remove_as_user", "src": "as_user.c", "defs": ["OP=1"], "unwind": 8, "std": True},
  {"name": "rename_as_user", "src": "as_user.c", "defs": ["OP=2"], "unwind": 8, "std": True},
  *[{"name": "fct_main%d" % i, "src": "fct_main.c", "defs": ["OPX=%d" % i], "unwind": 30, "std": True, "cfg": {"PATH_LEN": 20}, "nrepl": True,
     "repl": [(f, "contract_" + f) for f in ("parseopt", "make_file", "install_stdin", "remove_fcrontab", "list_file", "edit_file", "reinstall", "xexit")]} for i in range(7)],
 ],
 "functions": ["open_as_user", "remove_as_user", "rename_as_user", "seteuid_safe", "setegid_safe", "main of fcrontab"],
 "assumptions": ["systems with seteuid() (the variant without it is not compiled here)", "main: the callers of parseopt by its contract (P18)"],
 "level_note": "",
}
