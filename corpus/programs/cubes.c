/* args: int:1:5 int:-9:9 int:0:3 */
#include <stdio.h>
#include <stdlib.h>
typedef long grid[3][4][5];
typedef struct { char tag; grid cells; unsigned short edge[2]; } block;
block blocks[2];
int shape[3] = {3, 4, 5};
const char *names[] = {"zero", "one", "two", "three"};
unsigned char mask[4][2] = {{1, 2}, {4, 8}, {16, 32}, {64, 128}};
struct { int id; struct { float x, y; } at[2]; } marks[3];
long total(grid g) { long s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 5; k++) s += g[i][j][k]; return s; }
long *cell(block *b, int i, int j, int k) { return &b->cells[i][j][k]; }
long plane(long p[4][5], int step) { long s = 0; for (long *q = p[0]; q < p[0] + 20; q += step) s = s * 3 + *q; return s & 0xffffff; }
int flat(int *idx) { int r = 0; for (int d = 0; d < 3; d++) r = r * shape[d] + idx[d]; return r; }
void unflat(int v, int *idx) { for (int d = 2; d >= 0; d--) { idx[d] = v % shape[d]; v /= shape[d]; } }
int vla(int n, int m) {
    short v[n][m];
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v[i][j] = (short) (i * m - j);
    int s = 0;
    for (int j = m - 1; j >= 0; j--) for (int i = 0; i < n; i++) s = s * 2 + v[i][j];
    return s;
}
int main(int argc, char **argv) {
    int a = (int) strtol(argv[1], NULL, 10), b = (int) strtol(argv[2], NULL, 10), c = (int) strtol(argv[3], NULL, 10), idx[3];
    for (int v = 0; v < 60; v++) {
        unflat(v, idx);
        *cell(&blocks[v & 1], idx[0], idx[1], idx[2]) = (long) flat(idx) * a + b;
        blocks[1 - (v & 1)].cells[idx[0]][idx[1]][idx[2]] -= v;
    }
    blocks[0].tag = 'x'; blocks[1].tag = (char) (blocks[0].tag + c);
    blocks[0].edge[1] = (unsigned short) (b * 1000); blocks[1].edge[0] = blocks[0].edge[1] + 1;
    printf("%ld %ld %ld %ld\n", total(blocks[0].cells), total(blocks[1].cells), plane(blocks[0].cells[c % 3], a), plane(blocks[1].cells[1], 1));
    printf("%c %c %d %d %d\n", blocks[0].tag, blocks[1].tag, blocks[0].edge[1], blocks[1].edge[0], blocks[1].edge[1]);
    printf("%s %c %s\n", names[c], names[c][1], names[3 - c] + 1);
    for (int i = 0; i < 4; i++) printf("%d ", mask[i][c & 1] >> (i * 2) | mask[3 - i][0]);
    for (int i = 0; i < 3; i++) { marks[i].id = i * b; for (int k = 0; k < 2; k++) { marks[i].at[k].x = (float) (i + k) / 2; marks[i].at[k].y = marks[i].at[k].x * a; } }
    float s = 0;
    for (int i = 2; i >= 0; i--) s += marks[i].at[i & 1].y - marks[i].at[0].x + marks[i].id;
    printf("%d %d\n", (int) (s * 8), vla(a, c + 2));
    int *p = shape + 3, n = 0;
    while (p-- != shape) n = n * 10 + *p;
    printf("%d %d\n", n, (int) (&blocks[1].cells[2][3][4] - &blocks[1].cells[0][0][0]));
    return c;
}
