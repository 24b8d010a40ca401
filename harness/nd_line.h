/* an arbitrary td line: every value of every field (the native search prefers the shapes
 * that people write: '*', one value, a short list) */
static void
nd_bytes(unsigned char *p, int n, int nbits)
{
    int i, mode = (int)nd_range(0, 3);
    for (i = 0; i < n; i++)
        p[i] = nd_u8();
#ifndef FV_CBMC
    if (mode == 1)
        for (i = 0; i < n; i++)
            p[i] = 255;
    if (mode == 2 || mode == 3) {
        int keep = p[0], keep2 = p[n - 1];
        for (i = 0; i < n; i++)
            p[i] = mode == 2 ? 0 : 255;
        p[keep % nbits / 8] ^= 1 << (keep % nbits % 8);
        p[keep2 % nbits / 8] ^= 1 << (keep2 % nbits % 8);
    }
#endif
    (void)mode;
}

static int
bit(const bitstr_t *s, int i)
{
    return (s[i / 8] >> (i % 8)) & 1;
}

static void
nd_td_line(cl_t *line)
{
    int i;
    for (i = 0; i < OPTION_SIZE; i++)
        line->cl_option[i] = nd_u8();
    set_td(line->cl_option);
    nd_bytes(line->cl_mins, 8, 60);
    nd_bytes(line->cl_hrs, 3, 24);
    nd_bytes(line->cl_days, 4, 32);
    nd_bytes(line->cl_mons, 2, 12);
    line->cl_dow[0] = nd_u8();
#ifndef FV_CBMC
    if (nd_bool())
        line->cl_dow[0] = 255;
    /* bits that the parser never sets */
    line->cl_mins[7] &= 0x0f;
    line->cl_mons[1] &= 0x0f;
    if (bit(line->cl_dow, 0))
        line->cl_dow[0] |= 128;
    else
        line->cl_dow[0] &= 127;
#else
    /* bits that the parser never sets */
    REQUIRE((line->cl_mins[7] & 0xf0) == 0);
    REQUIRE((line->cl_mons[1] & 0xf0) == 0);
    /* Sunday is both 0 and 7 (established by the parser) */
    REQUIRE(bit(line->cl_dow, 0) == bit(line->cl_dow, 7));
#endif
}

static long
key(int y, int mon, int d, int h, int m)
{
    return ((((long)y * 16 + mon) * 64 + d) * 32 + h) * 64 + m;
}

static long
tmkey(const struct tm *f)
{
    return key(f->tm_year, f->tm_mon, f->tm_mday, f->tm_hour, f->tm_min);
}

static int
valid_tm(const struct tm *f)
{
    return f->tm_year >= 100 && f->tm_mon >= 0 && f->tm_mon <= 11 && f->tm_mday >= 1
        && f->tm_mday <= spec_mdays(f->tm_year + 1900, f->tm_mon) && f->tm_hour >= 0
        && f->tm_hour <= 23 && f->tm_min >= 0 && f->tm_min <= 59;
}

static struct tm
spec_next_minute(struct tm f)
{
    if (++f.tm_min >= 60) {
        f.tm_min = 0;
        if (++f.tm_hour >= 24) {
            f.tm_hour = 0;
            if (++f.tm_mday > spec_mdays(f.tm_year + 1900, f.tm_mon)) {
                f.tm_mday = 1;
                if (++f.tm_mon >= 12) {
                    f.tm_mon = 0;
                    f.tm_year++;
                }
            }
        }
    }
    return f;
}
