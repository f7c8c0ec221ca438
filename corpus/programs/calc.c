/* args: expr:1:40 */
#include <stdio.h>
#include <ctype.h>
char *p;
int depth, maxdepth, errors;
long expr(void);
long primary(void) {
    long v = 0;
    if (*p == '(') {
        p++;
        if (++depth > maxdepth) maxdepth = depth;
        v = expr();
        if (*p == ')') p++; else errors++;
        depth--;
        return v;
    }
    if (*p == '-') { p++; return -primary(); }
    if (*p == '~') { p++; return ~primary(); }
    if (!isdigit(*p)) { errors++; return 0; }
    while (isdigit(*p)) v = v * 10 + (*p++ - '0');
    return v;
}
long term(void) {
    long v = primary(), d;
    while (*p == '*' || *p == '/' || *p == '%') {
        char op = *p++;
        d = primary();
        if (op == '*') v *= d;
        else if (d == 0) { errors++; goto zero; }
        else v = op == '/' ? v / d : v % d;
        continue;
zero:
        v = 0;
    }
    return v & 0xffffff;
}
long expr(void) {
    long v = term();
    for (;;) {
        if (*p == '+') { p++; v += term(); }
        else if (*p == '-') { ++p; v -= term(); }
        else break;
    }
    return v;
}
int main(int argc, char **argv) {
    int i;
    for (i = 1; i < argc; i++) {
        p = argv[i];
        depth = maxdepth = errors = 0;
        long v = expr();
        printf("%s = %ld rest '%s' depth %d errors %d\n", argv[i], v, p, maxdepth, errors);
    }
    return argc;
}
