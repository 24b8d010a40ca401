/* lemma used by the period proofs: day of week of the first of the next month */
#include "fv.h"
#include "spec_cal.h"
void
harness(void)
{
    int y = (int)nd_range(2000, 2235), m = (int)nd_range(0, 11);
    COVER(y == 2100 && m == 1, "february 2100");
    ENSURE(spec_wday1(m == 11 ? y + 1 : y, (m + 1) % 12)
           == (spec_wday1(y, m) + spec_mdays(y, m)) % 7, "lemma: first of the next month");
}
