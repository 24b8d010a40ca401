PROP = {
 "level": "proof",
 "title": "Reinstalling a fcrontab keeps the schedule of unchanged jobs",
 "statement": "When a new version of a user's fcrontab is loaded, a job with the same command and the same schedule as in the old version keeps its next run time (moved only by a change of the time difference), its remaining count and the fact that it has run once; other jobs are scheduled afresh. The new version replaces the old one only when it could be loaded, other users' files are not touched, and the installed file is removed only after the new version has been saved.",
 "quantifier": {"over": ["inputs", "histories"], "text": "every pair of versions of up to two lines each, every schedule, option set, time difference and position in the list of files"},
 "why_tests_cant": "No test loads a file into a running database; the guarantee compares every old with every new version.",
 "anchors": {"files": ["conf.c"], "mechanism": [{"name": "synchronize_file", "where": "conf.c"}],
   "state": [{"name": "cl_nextexe, cl_remain, hasrun", "meaning": "state of a job that survives a reinstall", "where": "cl.h"}],
   "observe_at": ["fcrondyn ls after fcrontab"], "hook_needed": None},
 "jobs": [
  {"name": "sync", "src": "conf_sync.c", "unwind": 19, "unwind_fn": {"synchronize_file": 4, "strcmp": 8, "strchr": 9}, "std": True, "mem_gb": 6, "solver": "cadical",
   "repl": [("read_file", "contract_read_file"), ("delete_file", "contract_delete_file"), ("save_file", "contract_save_file")], "nrepl": True,
   "bounded": "two lines in each version, two files in memory"},
 ],
 "functions": ["synchronize_file"],
 "assumptions": ["read_file, delete_file, save_file, insert_nextexe by their contracts (P13, P15, P07, P14, P05)", "a loaded line has either a time table or a period (established by fcrontab and add_line_to_file)"],
 "level_note": "The two loops compare every new with every old line independently.",
}
