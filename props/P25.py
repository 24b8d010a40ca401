PROP = {
 "level": "proof",
 "title": "Every watched descriptor stays watched until it is removed",
 "statement": "After any history of additions and removals, each wait of the daemon asks the kernel for exactly the descriptors added and not removed since (all of them below nfds), whatever the previous wait reported; removing one descriptor (a fcrondyn client that leaves) never makes the daemon deaf to another (the listening socket, the other clients, the clock/suspend timer), and an interrupted wait does not stop the daemon.",
 "quantifier": {"over": ["histories", "inputs"], "text": "every set of watched descriptors, every descriptor added or removed, every result of select(): by induction over the operations, with the invariant that nothing is watched above the recorded maximum"},
 "why_tests_cant": "No test uses select.c; the descriptors must be in a particular order for an error to show.",
 "anchors": {"files": ["select.c"], "mechanism": [{"name": "select_init, select_add_read, select_rm_read, select_call", "where": "select.c"}],
   "state": [{"name": "__readfds_master, __fd_max", "meaning": "watched set and its maximum", "where": "select.h"}],
   "observe_at": ["arguments of select()"], "hook_needed": None},
 "jobs": [
  {"name": "sel_init", "src": "sel.c", "defs": ["OP=0"], "unwind": 20, "std": True},
  {"name": "sel_add", "src": "sel.c", "defs": ["OP=1"], "unwind": 20, "std": True},
  {"name": "sel_rm", "src": "sel.c", "defs": ["OP=2"], "unwind": 20, "std": True},
  {"name": "sel_call", "src": "sel.c", "defs": ["OP=3"], "unwind": 20, "std": True},
 ],
 "functions": ["select_init", "select_add_read", "select_rm_read", "select_call"],
 "assumptions": ["descriptors given to select.c are between 0 and FD_SETSIZE-1 (the daemon holds a few tens at most)"],
 "level_note": "",
}
