/* snprintf for the formats fcron uses with %s, %d, %i, %u, %ld, %c and literal text */
#include <stdarg.h>
#ifndef FMT_MAX
#define FMT_MAX 64
#endif
int
fv_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    size_t o = 0;
    int i, j;
    for (i = 0; f[i]; i++) {
        if (f[i] != '%') {
            if (o + 1 < n) b[o] = f[i];
            o++;
            continue;
        }
        i++;
        if (f[i] == 'l') i++;
        if (f[i] == 's') {
            const char *s = va_arg(ap, const char *);
            for (j = 0; s[j]; j++) {
                if (o + 1 < n) b[o] = s[j];
                o++;
            }
        }
        else if (f[i] == 'c') {
            int c = va_arg(ap, int);
            if (o + 1 < n) b[o] = (char)c;
            o++;
        }
        else if (f[i] == '%') {
            if (o + 1 < n) b[o] = '%';
            o++;
        }
        else {
            long v = f[i - 1] == 'l' ? va_arg(ap, long) : (long)va_arg(ap, int);
            char d[24];
            int k = 0, neg = v < 0;
            unsigned long u = neg ? -(unsigned long)v : (unsigned long)v;
            do { d[k++] = (char)('0' + u % 10); u /= 10; } while (u);
            if (neg) d[k++] = '-';
            while (k > 0) {
                k--;
                if (o + 1 < n) b[o] = d[k];
                o++;
            }
        }
    }
    if (n > 0)
        b[o < n ? o : n - 1] = '\0';
    return (int)o;
}
int
fv_snprintf(char *b, size_t n, const char *f, ...)
{
    int r;
    va_list ap;
    va_start(ap, f);
    r = fv_vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
