PROP = {
 "level": "other",
 "explanation": "decided for all texts within the stated lengths; the maximum length of an address is a reduced constant (998 - 7 in the code), so this is not counted as proved",
 "title": "Mail headers are complete, well formed and cannot be forged",
 "statement": "The header of every mail holds, one per line and in this order, the sender, the addressee, a subject with user, host, command, the content type, the encoding if one is set, the mark of automatic mails, and the environment given, then an empty line; sender and addressee get the name of the host exactly when they have no @; newlines in content type and encoding are replaced. A display name with a special character is quoted, its quotes are escaped, any other is unchanged; an address is name <user@host> or user@host; a text that is longer than the maximum is refused without writing past the memory, a text of exactly the maximum length is kept whole.",
 "quantifier": {"over": ["inputs"], "text": "every text of header fields (1 to 3 characters each, arbitrary), every combination of optional fields; every display name of up to 9 characters against a maximum of 8; every address of up to 13 characters against a maximum of 8"},
 "why_tests_cant": "The unit tests try a dozen names; the limits and the escapes interact (an escape at the last place).",
 "anchors": {"files": ["mail.c", "job.c"], "mechanism": [{"name": "format_maildisplayname, make_mailbox_addr", "where": "mail.c"}, {"name": "create_mail", "where": "job.c"}],
   "state": [{"name": "mail file", "meaning": "header of the mail", "where": "temporary file"}],
   "observe_at": ["text of the header"], "hook_needed": None},
 "jobs": [
  {"name": "mail_display", "src": "mailaddr.c", "defs": ["OP=0", "MAXL=8", "INL=9"], "unwind": 26, "std": True, "solver": "cadical", "bounded": "names of up to 9 characters, maximum 8"},
  {"name": "mail_box", "src": "mailaddr.c", "defs": ["OP=1", "MAXL=8"], "unwind": 26, "std": True, "solver": "cadical", "bounded": "addresses of up to 13 characters, maximum 8"},
  *[{"name": "mail_head%d" % i, "src": "mailaddr.c", "defs": ["OP=2", "WL=%d" % i], "cfg": {"USER_NAME_LEN": 8}, "unwind": 66, "std": True, "solver": "cadical", "bounded": "texts of 1 to 3 characters"} for i in range(8)],
 ],
 "functions": ["format_maildisplayname", "make_mailbox_addr", "create_mail"],
 "assumptions": ["addresses, commands and environment hold no newline (fcrontab reads them from single lines)", "a backslash in a display name is not escaped (pinned by the unit tests)"],
 "level_note": "",
}
