/* calendar specification functions (proleptic Gregorian), written from the
 * calendar rules, not from the code. */
static int
spec_leap(int y)
{
    return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}

static int
spec_mdays(int y, int mon)      /* y: full year; mon: 0..11 */
{
    switch (mon) {
    case 0: case 2: case 4: case 6: case 7: case 9: case 11:
        return 31;
    case 3: case 5: case 8: case 10:
        return 30;
    default:
        return spec_leap(y) ? 29 : 28;
    }
}

/* days from 1 Jan 2000 to 1 Jan of y (y >= 2000) */
static int
spec_jan1(int y)
{
    int q = y - 1;
    return 365 * (y - 2000) + (q / 4 - q / 100 + q / 400)
        - (1999 / 4 - 1999 / 100 + 1999 / 400);
}

/* day of week (0 = Sunday) of day 1 of the month: 1 Jan 2000 was a Saturday */
static int
spec_wday1(int y, int mon)
{
    static const int cum[12] =
        { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
    return (spec_jan1(y) + cum[mon] + (mon >= 2 && spec_leap(y) ? 1 : 0) + 6) % 7;
}

#ifdef FCRON_ABSTRACT_WDAY
#ifdef FV_CBMC
/* abstraction: *some* function of (year, month); its definition is decided by the
 * contract of set_wday(), proved separately against spec_wday1() */
int __CPROVER_uninterpreted_wday1(int, int);
static int
W1(int y, int mon)
{
    int r = __CPROVER_uninterpreted_wday1(y, mon);
    __CPROVER_assume(r >= 0 && r <= 6);
    return r;
}
#else
#define W1 spec_wday1
#endif
static int
W(int y, int mon, int mday)
{
    return (W1(y, mon) + mday - 1) % 7;
}

/* the first of the next month is mdays later; proved for spec_wday1 in cal.c */
#define LEMMA_W1(y, mon) \
    REQUIRE(W1((mon) == 11 ? (y) + 1 : (y), ((mon) + 1) % 12) \
            == (W1((y), (mon)) + spec_mdays((y), (mon))) % 7)
#endif
