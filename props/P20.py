REPL = [(f, "contract_" + f) for f in ("auth_client_so_peercred", "auth_client_password", "exe_cmd")]
PROP = {
 "level": "other",
 "explanation": "authentication functions and print_line: every input; one turn of fcrondyn_socket_check and fcrondyn_socket_close: from every state of the connection list with up to three clients (bounded), commands and authentication by contract",
 "title": "No command before authentication; fcrondyn sessions are isolated",
 "statement": "The daemon executes a command only for a connection that is authenticated: by the user id the kernel gives for the peer, or by the user name and the right password; after too many wrong passwords no password at all is tried during the waiting time. What one client sends is executed for that client only, complete in itself (never mixed with the leftovers of another client, never read past its end). A client that closes, or stays idle or unauthenticated too long, is closed, no longer watched and forgotten exactly once, the others are served; the number and the list of clients stay right whoever comes and goes in the same turn. A listed line is never larger than a terminal line, is null-terminated and says when it is truncated.",
 "quantifier": {"over": ["inputs", "histories", "fault_sequences"], "text": "every content and length received, every password database answer, every failure count and time; every turn from a list of 0 to 3 clients in any state with any result of accept, fcntl, recv"},
 "why_tests_cant": "The tests only format one line; nothing opens a connection.",
 "anchors": {"files": ["fcrondyn_svr.c"], "mechanism": [{"name": "fcrondyn_socket_check, remove_connection, auth_client_password, auth_client_so_peercred, fcrondyn_socket_close, print_line", "where": "fcrondyn_svr.c"}],
   "state": [{"name": "fcrondyn_cl_base, fcrondyn_cl_num, auth_fail, auth_nofail_since", "meaning": "clients, failures", "where": "fcrondyn_svr.c"}],
   "observe_at": ["commands executed, answers, descriptors closed"], "hook_needed": None},
 "jobs": [
  {"name": "dyn_password", "src": "dyn_sess.c", "defs": ["OP=0"], "cfg": {"SOCKET_MSG_LEN": 2}, "unwind": 26, "std": True, "solver": "cadical", "bounded": "messages of 16 bytes instead of 160"},
  {"name": "dyn_peercred", "src": "dyn_sess.c", "defs": ["OP=1"], "unwind": 8, "std": True},
] + [{"name": "dyn_turn%d" % k, "src": "dyn_sess.c", "defs": ["OP=2", "NF=%d" % k, "NC=%d" % max(1, k)], "cfg": {"SOCKET_MSG_LEN": 2}, "unwind": 20, "unwind_fn": {"fcrondyn_socket_check": 6}, "std": True, "repl": REPL, "nrepl": True, "solver": "cadical", "mem_gb": 6, "bounded": "%d clients and a new one" % k} for k in range(4)] + [
  {"name": "dyn_close", "src": "dyn_sess.c", "defs": ["OP=3"], "unwind": 20, "std": True, "bounded": "up to 3 clients"},
  {"name": "dyn_line", "src": "dyn_sess.c", "defs": ["OP=4"], "unwind": 20, "std": True, "solver": "cadical"},
 ],
 "functions": ["fcrondyn_socket_check", "remove_connection", "auth_client_password", "auth_client_so_peercred", "fcrondyn_socket_close", "print_line"],
 "assumptions": ["the fields of a line other than its command take less than 196 characters together (user names of at most 30 characters)", "crypt(), getspnam(), SO_PEERCRED do what their manual says"],
 "level_note": "",
}
