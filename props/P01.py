REPL_TD = [("set_wday", "contract_set_wday"), ("move_time_to", "contract_move_time_to"),
           ("insert_nextexe", "contract_insert_nextexe")]
PROP = {
 "level": "proof",
 "title": "A time-and-date line is next run at its earliest matching minute",
 "statement": "When the next run of a line given by minutes, hours, days, months and days of week is computed, the chosen time is a valid calendar minute that matches every field (day of month AND day of week by default, OR with dayor), it is not before the minute asked from, and no earlier minute matches, within the ten years searched. The run is always set strictly after the present, later than the chosen minute by no more than the jitter (or, with random, by at most the rest of its interval), shifted by the timezone difference of its file. Nothing else of the line changes, the line is queued exactly once, and the timezone of the daemon is restored.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every line (all field sets and options), every calendar date 2000-2200, every present time, every number of search steps"},
 "why_tests_cant": "No test runs the scheduler on dates; the search walks months, days and hours and goes wrong only for particular combinations of sparse fields, month lengths, leap years and carries.",
 "anchors": {"files": ["database.c"], "mechanism": [
     {"name": "set_next_exe", "where": "database.c"}, {"name": "set_wday, get_nb_mdays, is_leap_year", "where": "database.c"}],
     "observe_at": ["time of the next run of a line", "fcrondyn ls"], "hook_needed": "VERIFY_LOOP annotations at the loop heads (no code unless FCRON_VERIFY)"},
 "jobs": [
   {"name": "td_next", "src": "td_next.c", "repl": REPL_TD, "unwind": 65, "std": False, "solver": "cadical"},
   {"name": "cal", "src": "cal.c", "unwind": 13, "std": False},
 ],
 "functions": ["set_next_exe (td lines)", "set_wday", "get_nb_mdays", "is_leap_year"],
 "assumptions": ["mktime/localtime convert between calendar and time_t order-preservingly; daylight saving gaps are libc's",
                 "move_time_to() and insert_nextexe() by their contracts (P02, P05)",
                 "Sunday is recorded both as day 0 and 7 (P10)"],
 "level_note": "All loops cut at invariants: every number of iterations. Years 2000-2200.",
}
