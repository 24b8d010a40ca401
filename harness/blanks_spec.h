#ifndef BLANKS_SPEC_H
#define BLANKS_SPEC_H
/* length of the string without its trailing blanks */
static int spec_blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
static int
spec_trim(const char *s)
{
    int i, n = 0;
    for (i = 0; s[i] != 0; i++)
        if (!spec_blank(s[i]))
            n = i + 1;
    return n;
}
#endif
