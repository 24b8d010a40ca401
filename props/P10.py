PROP = {
 "level": "proof",
 "title": "Time specifications mean exactly what the manual says",
 "statement": "A number, or a name of a month or a day in any case, is taken for its value and refused when it is not one or is out of the range of the field. A field sets exactly the values its text denotes: * for all of them, single values, ranges with both ends, also over the end of the hour, day, month, year or week, steps, and ~ to take values out; 0 and 7 are both Sunday. A period is the sum of its parts. Every kind of line gets the fields its first character or keyword asks for, in the order of the manual, every value where it asks for none, a shortcut its fixed times. A line with anything that is not valid is not added, and the user is told to correct it.",
 "quantifier": {"over": ["inputs"], "text": "every text of up to 6 characters as a number; every element of a list (star, value, range, optional step, up to two excluded values) of every field with all values, added to an arbitrary state of the field; lists of two elements"},
 "why_tests_cant": "No test reads a fcrontab; a range over the end of the month with a step and an excluded value is one of thousands of combinations.",
 "anchors": {"files": ["fileconf.c"], "mechanism": [{"name": "get_num, get_time, read_field, read_arys, read_period, read_freq, read_shortcut", "where": "fileconf.c"}],
   "state": [{"name": "cl_mins, cl_hrs, cl_days, cl_mons, cl_dow", "meaning": "time table of a line", "where": "cl.h"}],
   "observe_at": ["times at which a line runs", "messages of fcrontab"], "hook_needed": None},
 "jobs": [
  {"name": "fld_num", "src": "fld.c", "defs": ["OP=0", "NUML=6"], "unwind": 14, "std": True, "solver": "cadical", "bounded": "texts of up to 6 characters"},
  *[{"name": "fld_%s" % n, "src": "fld.c", "defs": ["OP=1", "MAX=%d" % m, "NEL=1", "K2=0", "CUT"],
     "unwind": 9, "unwind_fn": {"run.0": 30, "harness.1": 5, "harness.2": 14}, "std": n == "hrs", "solver": "cadical", "mem_gb": 6,
     "repl": [("get_num", "contract_get_num")], "nrepl": True, "timeout": 500,
     "fallback": {"defs": ["OP=1", "MAX=%d" % m, "NEL=1", "K2=0", "SHAPES=(k==9&&t==0)"], "unwind": m + 3, "std": False, "timeout": 500,
                  "bounded": "one range with a step"}}
    for n, m in (("mins", 59), ("hrs", 23), ("days", 31), ("mons", 12), ("dow", 7))],
  *[{"name": "fld_%s_l%d" % (n, k), "src": "fld.c", "defs": ["OP=1", "MAX=%d" % m, "NEL=2", "K2=%d" % k2, "CUT", "SHAPES=(k==%d&&t==0)" % k1],
     "unwind": 9, "unwind_fn": {"run.0": 40, "harness.1": 5, "harness.2": 14}, "std": False, "solver": "cadical", "mem_gb": 6,
     "repl": [("get_num", "contract_get_num")], "nrepl": True, "timeout": 500, "bounded": "lists of two elements",
     "fallback": {"defs": ["OP=1", "MAX=%d" % m, "NEL=2", "K2=12", "SHAPES=(k==9&&t==0)"], "unwind": m + 3, "timeout": 500}}
    for n, m, k, k1, k2 in (("hrs", 23, 1, 11, 6), ("mons", 12, 2, 9, 12), ("dow", 7, 3, 12, 11))],
  {"name": "fld_time", "src": "fld.c", "defs": ["OP=6", "NUML=4"], "unwind": 7, "std": False, "solver": "cadical", "timeout": 500, "bounded": "texts of up to 4 characters"},
  *[{"name": "line_%s" % n, "src": "fld.c", "defs": ["OP=%d" % o], "unwind": 66, "std": True, "solver": "cadical", "mem_gb": 6,
     "repl": [(f, "contract_" + f) for f in ("get_num", "read_opt", "read_field", "get_time", "check_username", "get_command")], "nrepl": True}
    for o, n in ((2, "arys"), (3, "period"), (4, "freq"), (5, "shortcut"))],
 ],
 "functions": ["get_num", "get_time", "read_field", "read_arys", "read_period", "read_freq", "read_shortcut"],
 "assumptions": ["what a keyword or an option sets (read_opt), the user name and the command are read as their contracts say", "the bit of day 0, which is no day, is left open"],
 "level_note": "The loops which set the values of a range are cut by invariants (any length, any step); texts of numbers and periods, and lists of elements, are bounded. The numbers in a field stand for themselves by the contract of get_num, itself discharged.",
}
