/* the list containers for harnesses whose lists stay small. cbmc: entries are copied
 * and cleared as whole structures (what memcpy/memset of entry_size bytes means; byte
 * copies of symbolic offset exhaust the solver) and the array is never enlarged
 * (obligation). The containers themselves are under contract in list.c. */
#ifdef FV_CBMC
typedef struct fv_two_words { void *p; long v; } fv_two_words;
static void
fv_entry_copy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == sizeof(fv_two_words), "OBL size of a list entry");
    *(fv_two_words *)d = *(const fv_two_words *)s;
}
static void
fv_entry_clear(void *d, int c, size_t n)
{
    (void)c;
    if (n == sizeof(fv_two_words)) {
        ((fv_two_words *)d)->p = NULL;
        ((fv_two_words *)d)->v = 0;
    }
}
static void *
fv_no_realloc(void *p, size_t n, const char *w)
{
    (void)p; (void)n; (void)w;
    ENSURE(0, "list: not enlarged here");
    FV_STOP();
    return NULL;
}
#define memcpy fv_entry_copy
#define memset fv_entry_clear
#define realloc_safe fv_no_realloc
#include "u_list.c"
#undef memcpy
#undef memset
#undef realloc_safe
#else
#include "u_list.c"
#endif
#ifdef FV_CBMC
/* contract of u_list_last (discharged in list.c): the last entry; an address below every
 * entry when the list is empty (the code compares with NULL there, which cbmc leaves
 * undefined: the harness keeps one unused entry in front of the array) */
void *
contract_u_list_last(u_list_t *l)
{
    return (char *)l->entries_array + (long)l->entry_size * (l->num_entries - 1L);
}
#endif
