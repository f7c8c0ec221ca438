/* args: int:0:60 int:1:9 int:0:255 */
#include <stdio.h>
#include <stdlib.h>
int trace_len;
char trace[600];
int t(char c, int v) { if (trace_len < 590) trace[trace_len++] = c; return v; }
int duff(char *to, char *from, int count) {
    int n = (count + 3) / 4, moved = 0;
    if (count <= 0) return 0;
    switch (count % 4) {
        case 0: do { *to++ = *from++; moved++;
        case 3:      *to++ = *from++; moved++;
        case 2:      *to++ = *from++; moved++;
        case 1:      *to++ = *from++; moved++;
                } while (--n > 0);
    }
    return moved;
}
int irreducible(int n, int k) {
    int steps = 0;
    if (n & 1) goto middle;
top:
    steps += 10;
    if (n <= 0) return steps;
    n -= k;
middle:
    steps++;
    if (n % 3 == 0) { n--; goto top; }
    while (n > 0) {
        n -= 2;
        steps += 100;
        if (n % 7 == 0) goto middle;
        for (int i = 0; i < 3; i++) { if (i + n == 5) goto top; steps++; }
    }
    return -steps;
}
int nested(int a, int b) {
    int r = 0, i, j;
    for (i = 0; t('i', i < a); t('I', i++)) {
        for (j = 0; t('j', j < b); j++) {
            if (t('x', (i * j) % 5 == 4)) goto out;
            if (t('y', i == j) && t('z', i & 1) || t('w', j == 3)) continue;
            r += i ^ j;
            if (r > 40) break;
        }
        if (j == b) { t('f', 0); continue; }
        do { t('d', 0); if (--j % 2) continue; if (j < 2) break; } while (t('D', j > 0));
        r = r % 9 ? r : r / 3;
    }
    return r;
out:
    while (1) { while (1) { if (t('o', ++r % 4 == 0)) break; if (r > 100) return -1; } if (t('O', r % 8 == 0)) break; }
    return r * 1000;
}
int chain(int x) {
    return x < 10 ? x & 1 ? t('1', x * 3) : t('2', x / 2) : x < 20 ? t('3', 20 - x) : (t('4', 0), t('5', x)) ? x % 7 : -1;
}
int fall(int x) {
    int r = 0;
    switch (x & 7) {
        default: r += 1;
        case 1: r += 2; if (x & 8) break;
        case 2: { r += 4; switch (x >> 4 & 3) { case 0: r += 100; case 1: r += 200; break; default: r += 400; } }
        case 5: r += 8; break;
        case 3: while (r < 5) { if (r == x % 4) goto done; r++; } break;
        case 4: for (r = 9; ; r--) { if (r < x % 9) break; if (r == 3) return -r; }
    }
    r *= 2;
done:
    return r;
}
int main(int argc, char **argv) {
    int a = (int) strtol(argv[1], NULL, 10), b = (int) strtol(argv[2], NULL, 10), c = (int) strtol(argv[3], NULL, 10);
    char from[64], to[64];
    for (int i = 0; i < 64; i++) { from[i] = (char) ('A' + i % 26); to[i] = '.'; }
    to[63] = 0;
    printf("%d", duff(to, from, a));
    printf(" %s\n", to);
    printf("%d %d\n", irreducible(a, b), irreducible(b * 5, b));
    printf("%d ", nested(a % 6, b));
    printf("%d\n", chain(a));
    for (int i = 0; i < 8; i++) printf("%d ", fall(c + i));
    trace[trace_len] = 0;
    printf("\n%s\n", trace);
    return trace_len & 127;
}
