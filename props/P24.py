PROP = {
 "level": "other",
 "explanation": "cbmc decides every obligation of read_conf, get_word and remove_blanks for all inputs within the stated lengths; the lengths are bounded, so this is not counted as proved",
 "title": "fcron.conf is read as documented, and only when it is safe",
 "statement": "Every line of fcron.conf \"name = value\" (blanks before, around = and after are ignored, = is optional; # starts a comment; a name is exactly one of the documented ones) sets the variable of that name, and no other, to the value; every other line changes nothing. The file is used only when it belongs to root and to the group of fcron and only its owner may write it: otherwise every variable keeps its compiled default. A file given by option -c that does not exist stops the program; the file is closed on every path.",
 "quantifier": {"over": ["inputs", "fault_sequences"], "text": "every line made of a documented name, or the beginning of one, and up to six arbitrary characters, after blanks; every line of up to seven arbitrary characters; every owner, group and mode of the file; every failure to open it"},
 "why_tests_cant": "No test reads a configuration file; misread lines need particular names (a prefix of another name) and spacing.",
 "anchors": {"files": ["fcronconf.c", "subs.c"], "mechanism": [{"name": "read_conf", "mem_gb": 12, "where": "fcronconf.c"}, {"name": "get_word, remove_blanks", "where": "subs.c"}],
   "state": [{"name": "configuration variables", "meaning": "paths, editor, mailer, allow and deny files", "where": "fcronconf.c"}],
   "observe_at": ["value of the configuration variables"], "hook_needed": None},
 "jobs": [
  *[{"name": "read_conf%d_%d" % (w, b), "src": "conf_file.c", "defs": ["WHICH=%d" % w, "BL=%d" % b], "cfg": {"LINE_LEN": 26}, "unwind": 27, "std": True, "solver": "cadical", "bounded": "the name and up to six characters after it"} for w, b in [(w, 2) for w in range(11)] + [(6, 0), (10, 0)]],
  {"name": "get_word", "src": "allow_h.c", "defs": ["OP=3"], "unwind": 12, "std": True, "solver": "cadical", "bounded": "strings of up to 9 characters"},
  {"name": "remove_blanks", "src": "allow_h.c", "defs": ["OP=2"], "unwind": 12, "std": True, "solver": "cadical", "bounded": "strings of up to 8 characters"},
 ],
 "functions": ["read_conf", "init_conf", "get_word", "remove_blanks"],
 "assumptions": ["lines are shorter than LINE_LEN (a longer one is read as several)", "C locale"],
 "level_note": "",
}
