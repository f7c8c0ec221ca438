/* args: int:1:60 int:1:300 */
#include <stdio.h>
#include <stdlib.h>
#define D 100
typedef struct { int len; unsigned char d[D]; } big;
typedef unsigned long u64;
void set(big *b, int v) { b->len = 0; do { b->d[b->len++] = (unsigned char)(v % 10); v /= 10; } while (v); }
void copy(big *to, big *from) { to->len = from->len; for (int i = 0; i < from->len; i++) to->d[i] = from->d[i]; }
void mul(big *b, int m) {
    int carry = 0, i;
    for (i = 0; i < b->len || carry; i++) {
        if (i >= D) return;
        int v = carry + (i < b->len ? b->d[i] * m : 0);
        b->d[i] = (unsigned char)(v % 10);
        carry = v / 10;
    }
    b->len = i;
}
void add(big *a, const big *b) {
    int c = 0, i = 0;
    while (i < a->len || i < b->len || c) {
        int v = c;
        if (i < a->len) v += a->d[i];
        if (i < b->len) v += b->d[i];
        a->d[i++] = (unsigned char)(v % 10);
        c = v >= 10;
    }
    a->len = i;
}
void print(const char *name, big *b) {
    char s[D + 1];
    int n = 0;
    for (int i = b->len; i--;) s[n++] = (char)('0' + b->d[i]);
    s[n] = 0;
    printf("%s %s\n", name, s);
}
u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
u64 s[2];
u64 nextr(void) {
    u64 a = s[0], b = s[1], r = a + b;
    b ^= a;
    s[0] = rotl(a, 24) ^ b ^ (b << 16);
    s[1] = rotl(b, 37);
    return r;
}
unsigned int isqrt(u64 x) {
    u64 r = 0, bit = 1;
    bit <<= 62;
    while (bit > x) bit >>= 2;
    while (bit) {
        if (x >= r + bit) { x -= r + bit; r = (r >> 1) + bit; }
        else r >>= 1;
        bit >>= 2;
    }
    return (unsigned int)r;
}
int main(int argc, char *argv[]) {
    int n = (int)strtol(argv[1], NULL, 10), k = (int)strtol(argv[2], NULL, 10);
    big f, x, y, t;
    set(&f, 1);
    for (int i = 2; i <= n; i++) mul(&f, i);
    print("fact", &f);
    set(&x, 0); set(&y, 1);
    for (int i = 0; i < k; i++) { copy(&t, &y); add(&y, &x); copy(&x, &t); }
    print("fib", &x);
    s[0] = (u64)n * 0x9e3779b9; s[1] = k;
    for (int i = 0; i < 8; i++) { u64 v = nextr(); printf("%lu %u\n", v, isqrt(v)); }
    return 0;
}
