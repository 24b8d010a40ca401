/* fv.h - the vocabulary of the contract harnesses.
 *
 * One harness text serves two purposes:
 *   FV_CBMC    goto-cc/cbmc: nd_*() are unconstrained values, REQUIRE is the
 *              precondition (assume), ENSURE is an obligation (assert).
 *   otherwise  gcc: nd_*() come from a replay file (a verifier counterexample)
 *              or from a seeded generator; ENSURE that is false is a concrete
 *              failing input of the real code.
 */
#ifndef FV_H
#define FV_H

#include <stddef.h>
#include <limits.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

#ifdef FV_CBMC

long nondet_long(void);

static long
fv_nd(long lo, long hi)
{
    long fv_nd_value = nondet_long();
    __CPROVER_assume(fv_nd_value >= lo && fv_nd_value <= hi);
    return fv_nd_value;
}

#define REQUIRE(c)      __CPROVER_assume(c)
#define ENSURE(c, id)   __CPROVER_assert((c), "OBL " id)
/* a reachability obligation: must be REFUTED, else the precondition is vacuous */
#define COVER(c, id)    __CPROVER_assert(!(c), "COVER " id)
#define FV_STOP()       __CPROVER_assume(0)
#define FV_BOOL(c)      (c)

#else                           /* native */

#include <setjmp.h>
#include <stdio.h>
#include <unistd.h>

extern jmp_buf fv_jmp;
extern long fv_nd(long lo, long hi);
extern void fv_fail(const char *id, const char *expr, const char *file, int line);
extern void fv_cover(const char *id);

#define REQUIRE(c)      do { if (!(c)) longjmp(fv_jmp, 1); } while (0)
#define ENSURE(c, id)   do { if (!(c)) fv_fail(id, #c, __FILE__, __LINE__); } while (0)
#define COVER(c, id)    do { if (c) fv_cover(id); } while (0)
#define FV_STOP()       longjmp(fv_jmp, 2)

#endif

#define nd_range(lo, hi)  fv_nd((lo), (hi))
#define nd_bool()         ((int)fv_nd(0, 1))
#define nd_u8()           ((unsigned char)fv_nd(0, 255))
#define nd_s8()           ((signed char)fv_nd(-128, 127))
#define nd_int()          ((int)fv_nd(INT_MIN, INT_MAX))
#define nd_long()         (fv_nd(LONG_MIN, LONG_MAX))
#define IMPLIES(a, b)     (!(a) || (b))

void harness(void);

#endif
