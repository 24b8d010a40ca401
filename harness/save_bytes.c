/* save_type/str/strn/lint, append_data, write_buf_to_disk: what reaches the disk plus what
 * is in the buffer is what was there before followed by type, size, data - whatever the
 * buffer holds, however short the writes are. One write after another: by induction the
 * file is the sequence of the fields. The buffer is made LEN bytes. */
#include "save_env.h"
#include "global.h"
#undef WRITE_BUF_LEN
#define WRITE_BUF_LEN LEN
#define write fv_write
#define memcpy fv_memcpy
#define strlen fv_strlen
ssize_t fv_write(int fd, const void *b, size_t n);
void *fv_memcpy(void *d, const void *s, size_t n);
size_t fv_strlen(const char *s);
#include "save.c"
#undef memcpy
#undef write
#undef strlen
#include "stubs_log.h"
#include "save_stubs.h"
int fdatasync(int fd) { (void)fd; return 0; }
#ifndef DATA
#define DATA 20
#endif
static unsigned char g_buf[LEN], g_before, g_data[DATA + 1];
static int g_n, g_err, g_short, g_w;    /* bytes on the disk; the watched position */
static unsigned char g_wv;              /* the byte at the watched position */

static void
disk(const unsigned char *b, int k)
{
    if (g_w >= g_n && g_w < g_n + k)
        g_wv = b[g_w - g_n];
    g_n += k;
}
/* contract of write_buf_to_disk (discharged with OP=4) */
int
contract_write_buf_to_disk(int fd, char *b, int *used)
{
    ENSURE(fd == 3 && b == (char *)g_buf && *used >= 0 && *used <= LEN, "bytes: flushes the buffer");
    if (nd_bool()) {
        g_err = 1;
        disk((unsigned char *)b, (int)nd_range(0, *used));
        return ERR;
    }
    disk((unsigned char *)b, *used);
    *used = 0;
    return OK;
}
size_t
fv_strlen(const char *s)
{
    int i;
    for (i = 0; i <= DATA && s[i]; i++)
        ;
    return i;
}
void *
fv_memcpy(void *d, const void *s, size_t n)
{
    size_t i;
    ENSURE(n <= LEN && IMPLIES(n > 0, (char *)d >= (char *)g_buf
           && (char *)d + n <= (char *)g_buf + LEN), "bytes: inside the buffer");
    for (i = 0; i < LEN && i < n; i++)
        ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
ssize_t
fv_write(int fd, const void *b, size_t n)
{
    long k = nd_range(-1, LEN), i;
    ENSURE(fd == 3, "bytes: to the file");
    ENSURE(n > 0 && n <= LEN && (const char *)b >= (char *)g_buf && (const char *)b + n <= (char *)g_buf + LEN,
           "bytes: from the buffer");
    if (k < 0) { g_err = 1; return -1; }
    if (k > (long)n)
        k = n;
    if (k < (long)n)
        g_short = 1;
    disk(b, (int)k);
    return k;
}
void
harness(void)
{
    int i, used, u0, rc, op = OP, size = 0, total;
    short type = (short)nd_range(-32768, 32767), sz;
    long v = nd_long();
    unsigned char want;
    g_n = g_err = g_short = 0;
    used = u0 = (int)nd_range(0, LEN);
    for (i = 0; i < LEN; i++)
        g_buf[i] = nd_u8();
    g_w = (int)nd_range(0, LEN + DATA + 3);
    g_before = g_buf[g_w < LEN ? g_w : 0];
    for (i = 0; i < DATA; i++)
        g_data[i] = nd_u8();
    g_data[DATA] = 0;
    if (op == 0)
        rc = save_type(3, type, (char *)g_buf, &used);
    else if (op == 1) {
        int null = nd_bool();
        size = null ? 0 : (int)fv_strlen((char *)g_data);
        rc = save_str(3, type, null ? NULL : (char *)g_data, (char *)g_buf, &used);
    }
    else if (op == 2) {
        size = (int)nd_range(0, DATA);
        rc = save_strn(3, type, (char *)g_data, (short)size, (char *)g_buf, &used);
    }
    else if (op == 3) {
        size = 8;
        for (i = 0; i < 8; i++)
            g_data[i] = (unsigned char)((unsigned long)v >> (8 * i));
        rc = save_lint(3, type, v, (char *)g_buf, &used);
    }
    else
        rc = write_buf_to_disk(3, (char *)g_buf, &used);
    COVER(g_n > 0 && rc == OK && IMPLIES(op == 4, g_short), "written");
    ENSURE(IMPLIES(g_err, rc != OK), "bytes: a failure to write is reported");
    ENSURE(IMPLIES(!g_err && !g_short, rc == OK), "bytes: no failure when every write is complete");
    ENSURE(used >= 0 && used <= LEN, "bytes: buffer use");
    if (rc != OK)
        return;
    sz = (short)size;
    total = u0 + (op < 4 ? 4 + size : 0);
    ENSURE(g_n + used == total, "bytes: nothing lost, nothing added");
    if (op == 4)
        ENSURE(used == 0, "bytes: all on the disk");
    if (g_w < total && g_n + used == total) {
        int k = g_w - u0;
        want = k < 0 ? g_before : k == 0 ? (unsigned char)type
            : k == 1 ? (unsigned char)((unsigned short)type >> 8)
            : k == 2 ? (unsigned char)sz : k == 3 ? (unsigned char)((unsigned short)sz >> 8)
            : g_data[k - 4];
        ENSURE((g_w < g_n ? g_wv : g_buf[g_w - g_n]) == want, "bytes: type, size, data in this order");
    }
}
