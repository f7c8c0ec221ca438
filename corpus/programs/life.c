/* args: int:0:99999 int:1:12 */
#include <stdio.h>
#include <stdlib.h>
#define W 14
#define H 9
#define WRAP(v, m) (((v) + (m)) % (m))
typedef unsigned char cell;
cell world[H][W];
static int generation = 0;
int neighbours(cell w[H][W], int y, int x) {
    int n = 0;
    for (int dy = -1; dy <= 1; dy++)
        for (int dx = -1; dx <= 1; dx++)
            if (dy || dx) n += w[WRAP(y + dy, H)][WRAP(x + dx, W)];
    return n;
}
void evolve(void) {
    cell old[H][W];
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) old[y][x] = world[y][x];
    for (int y = 0; y < H; y++)
        for (int x = 0; x < W; x++) {
            int n = neighbours(old, y, x);
            world[y][x] = n == 3 || (n == 2 && old[y][x]);
        }
    generation++;
}
int alive(void) { int n = 0; cell *p = &world[0][0], *e = p + W * H; while (p != e) n += *p++; return n; }
void draw(void) {
    char line[W + 1];
    line[W] = '\0';
    for (int y = 0; y < H; y++) {
        int x = 0;
        do line[x] = world[y][x] ? '*' : '.'; while (++x < W);
        printf("%s\n", line);
    }
    printf("gen %d alive %d\n", generation, alive());
}
int main(int argc, char *argv[]) {
    unsigned int s = (unsigned int)strtoul(argv[1], NULL, 10);
    int n = (int)strtol(argv[2], NULL, 10);
    for (int i = 0; i < W * H; i++) { s ^= s << 13; s ^= s >> 17; s ^= s << 5; s += i; world[i / W][i % W] = (s & 3) == 0; }
    draw();
    while (n--) evolve();
    draw();
    return alive();
}
