/* definitions of the proof annotations of /repo (VERIFY_LOOP).  A harness that cuts
 * a loop defines FV_CUT_<name>; every other annotation is empty. */
#if defined(FV_CBMC)
#define VERIFY_LOOP(name, ...) FV_LOOP_##name(__VA_ARGS__)
#include "fv_loops.h"
#else
#define VERIFY_LOOP(...)
#endif
