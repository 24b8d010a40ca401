/* frame: every member of two cl_t agrees (bit fields byte by byte) */
static int
cl_same(const cl_t *a, const cl_t *b)
{
    int i, ok = a->cl_next == b->cl_next && a->cl_file == b->cl_file
        && a->cl_shell == b->cl_shell && a->cl_runas == b->cl_runas
        && a->cl_mailfrom == b->cl_mailfrom && a->cl_mailto == b->cl_mailto
        && a->cl_tz == b->cl_tz && a->cl_id == b->cl_id && a->cl_until == b->cl_until
        && a->cl_first == b->cl_first && a->cl_nextexe == b->cl_nextexe
        && a->cl_timefreq == b->cl_timefreq && a->cl_remain == b->cl_remain
        && a->cl_runfreq == b->cl_runfreq && a->cl_numexe == b->cl_numexe
        && a->cl_nice == b->cl_nice && a->cl_jitter == b->cl_jitter
        && a->cl_dow[0] == b->cl_dow[0];
    for (i = 0; i < 8; i++)
        ok = ok && a->cl_mins[i] == b->cl_mins[i];
    for (i = 0; i < 4; i++)
        ok = ok && a->cl_days[i] == b->cl_days[i] && a->cl_option[i] == b->cl_option[i];
    for (i = 0; i < 3; i++)
        ok = ok && a->cl_hrs[i] == b->cl_hrs[i] && a->cl_lavg[i] == b->cl_lavg[i];
    return ok && a->cl_mons[0] == b->cl_mons[0] && a->cl_mons[1] == b->cl_mons[1];
}
