/* args: int:-40000:40000 int:0:70000 */
#include <stdio.h>
#include <stdlib.h>
/* counters, masks and checksums kept in objects narrower than int */
typedef unsigned char u8; typedef signed char s8; typedef unsigned short u16; typedef short s16; typedef unsigned int u32; typedef unsigned long u64;
struct packet { u8 kind, len; u16 sum; s8 data[12]; u32 seq; } pkt;
u16 fletcher(u8 *p, int n) { u16 a = 0, b = 0; while (n--) { a = (u16) ((a + *p++) % 255); b = (b + a) % 255; } return b << 8 | a; }
u8 crc8(s8 *p, u8 n) { u8 c = 0xff; for (u8 i = 0; i < n; i++) { c ^= p[i]; for (u8 k = 8; k; --k) c = c & 0x80 ? (u8) (c << 1) ^ 0x31 : c << 1; } return c; }
s16 clamp(int v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : (s16) v; }
u32 swap32(u32 v) { return v >> 24 | (v >> 8 & 0xff00) | (v & 0xff00) << 8 | v << 24; }
int popcount(u64 v) { int n = 0; for (; v; v &= v - 1) n++; return n; }
s8 sat(s8 a, s8 b) { int r = a + b; if (r > 127) r = 127; else if (r < -128) r = -128; return r; }
u8 gray(u8 v) { return v ^ v >> 1; }
int parity(u16 v) { v ^= v >> 8; v ^= v >> 4; v ^= v >> 2; v ^= v >> 1; return v & 1; }
s16 avg(s16 a, s16 b) { return (a + b) / 2; }
int main(int argc, char **argv) {
    int a = (int) strtol(argv[1], NULL, 10);
    u32 b = (u32) strtoul(argv[2], NULL, 10);
    u8 w = (u8) a; s8 x = (s8) a; u16 y = (u16) a; s16 z = (s16) b;
    for (int i = 0; i < 12; i++) { pkt.data[i] = (s8) (a >> i); pkt.len += pkt.data[i]; pkt.seq = pkt.seq * 31 + pkt.data[i]; }
    pkt.kind = ~w; pkt.sum = fletcher(&pkt.kind, 2);
    printf("%d %d %d %u\n", pkt.kind, pkt.len, pkt.sum, pkt.seq);
    printf("%d %d %d %d\n", crc8(pkt.data, 12), clamp(a * 2), sat(x, (s8) (b >> 3)), gray(w));
    printf("%u %d %d %d\n", swap32(b), popcount((u64) a), parity(y), avg(z, (s16) a));
    w += 200; x -= 100; y *= 3; z >>= 2; printf("%d %d %d %d\n", w, x, y, z);
    w <<= 1; x |= 0x41; y ^= 0xff0f; z %= 100; printf("%d %d %d %d\n", w, x, y, z);
    w++; ++w; x--; y = -y; z = ~z; printf("%d %d %d %d\n", w--, x++, y++, --z);
    printf("%d %d %d\n", w > x, (u32) x > b, y * y > 0 ? 1 : 0);
    u64 big = b; s8 sh = x & 31; big <<= sh; big += (u8) x; printf("%lu %ld\n", big, (long) x * b);
    int cnt = 0;
    for (u8 i = 250; i != 4; i++) cnt += i;
    for (s8 i = 126; i > 0; i++) cnt++;
    for (u16 i = 65530; i > 5; i++) cnt += 2;
    printf("%d %d\n", cnt, (s8) cnt << 4);
    char ch = (char) (a + 128); unsigned int ui = ch; long lg = ui; short st = lg; printf("%d %u %ld %d\n", ch, ui, lg, st);
    return w;
}
