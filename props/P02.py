PROP = {
 "level": "proof",
 "title": "A %-line is run once per period: where periods and intervals end",
 "statement": "For a line that runs once per hour, day, week or month (or from the middle of one to the middle of the next), the next period asked from any minute begins at the first such boundary of the calendar after that minute. For a line that runs once per interval, the next period begins at the first minute, from the one asked on, which does not belong to the current interval, so it can not be run twice in it. The end of the current interval is the last minute such that every minute up to it belongs to the interval, and never lies in the next period.",
 "quantifier": {"over": ["inputs"], "text": "every line, every calendar minute 2000-2200 (including the minute after hh:59), every length of interval"},
 "why_tests_cant": "No test covers the period computation; errors need a boundary such as the last minute of an hour, the end of a month or year, or a leap day.",
 "anchors": {"files": ["database.c"], "mechanism": [
     {"name": "move_time_to", "where": "database.c"}, {"name": "goto_beginning_next_period_periodical", "where": "database.c"}],
     "observe_at": ["time of the next run of a %-line", "until when a strict lavg job may wait"], "hook_needed": "VERIFY_LOOP annotation in the walk"},
 "jobs": [
   {"name": "mt_period", "src": "mt.c", "defs": ["MT_PERIOD", "MT_DOW=0"], "unwind": 13, "std": False},
   {"name": "mt_period_dow", "src": "mt.c", "defs": ["MT_PERIOD", "MT_DOW=1"], "unwind": 13, "std": False},
   {"name": "lemma_w1", "src": "lemma_w1.c", "unwind": 2, "std": False},
   {"name": "mt_walk", "src": "mt.c", "defs": ["MT_WALK"], "unwind": 63, "std": False,
    "repl": [("set_wday", "contract_set_wday"), ("mktime_no_dst", "contract_mktime_no_dst"),
             ("goto_beginning_next_period_periodical", "contract_goto_beginning_next_period_periodical")]},
 ],
 "functions": ["move_time_to", "goto_beginning_next_period_periodical"],
 "assumptions": ["mktime is order preserving on valid dates (no daylight saving gap)",
                 "set_wday by its contract (P01)",
                 "a periodical line has exactly one of the period flags (set by the parser)"],
 "level_note": "The walk's loop is cut at its invariant: every length of interval.",
}
