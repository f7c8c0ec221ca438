/* args: int:1:7 int:2:40 int:1:60 */
#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
int board[8], solutions;
int safe(int r, int c) {
    for (int i = 0; i < r; i++)
        if (board[i] == c || board[i] - c == i - r || board[i] - c == r - i) return 0;
    return 1;
}
void queens(int r, int n) {
    if (r == n) {
        solutions++;
        if (solutions <= 2) { for (int i = 0; i < n; i++) printf("%d", board[i]); printf("\n"); }
        return;
    }
    for (int c = 0; c < n; c++) {
        if (!safe(r, c)) continue;
        board[r] = c;
        queens(r + 1, n);
    }
}
char grid[12][13];
int qx[200], qy[200], dist[12][12];
int bfs(int w, int h) {
    int head = 0, tail = 0;
    int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1};
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) dist[y][x] = -1;
    dist[0][0] = 0;
    qx[tail] = 0; qy[tail++] = 0;
    while (head != tail) {
        int x = qx[head], y = qy[head++];
        for (int d = 0; d < 4; d++) {
            int nx = x + dx[d], ny = y + dy[d];
            if (nx < 0 || ny < 0 || nx >= w || ny >= h) continue;
            if (grid[ny][nx] == '#' || dist[ny][nx] >= 0) continue;
            dist[ny][nx] = dist[y][x] + 1;
            qx[tail] = nx;
            qy[tail++] = ny;
        }
    }
    return dist[h - 1][w - 1];
}
int binary(int *a, int n, int key) {
    int lo = 0, hi = n;
    while (lo < hi) {
        int mid = lo + (hi - lo) / 2;
        if (a[mid] < key) lo = mid + 1; else hi = mid;
    }
    return lo;
}
int sieve(int n, char *c) {
    int count = 0;
    for (int i = 2; i <= n; i++) {
        if (c[i]) continue;
        count++;
        for (int j = i * i; j <= n; j += i) c[j] = 1;
    }
    return count;
}
long power(long b, unsigned int e, long m) {
    long r = 1;
    while (e) { if (e & 1) r = r * b % m; b = b * b % m; e >>= 1; }
    return r;
}
int gcd(int a, int b) { return b == 0 ? a : gcd(b, a % b); }
int gcd2(int a, int b) { if (!b) return a; return gcd2(b, a % b); }
void hanoi(int n, char a, char b, char c, int *moves) {
    if (n == 0) return;
    hanoi(n - 1, a, c, b, moves);
    if ((*moves)++ < 6) printf("%c%c ", a, c);
    hanoi(n - 1, b, a, c, moves);
}
int main(int argc, char *argv[]) {
    int n = (int)strtol(argv[1], NULL, 10), m = (int)strtol(argv[2], NULL, 10), k = (int)strtol(argv[3], NULL, 10);
    queens(0, n);
    printf("queens %d: %d\n", n, solutions);
    for (int y = 0; y < 12; y++) for (int x = 0; x < 12; x++) grid[y][x] = (x * 5 + y * m + (x ^ y) * k) % 7 < 2 && x + y ? '#' : '.';
    grid[11][11] = '.';
    printf("bfs %d\n", bfs(12, 12));
    for (int y = 0; y < 12; y++) printf("%s\n", grid[y]);
    int a[40];
    for (int i = 0; i < m; i++) a[i] = i * i / 3;
    for (int i = 0; i < 5; i++) printf("%d ", binary(a, m, i * k));
    char comp[2500];
    for (int i = 0; i < 2500; i++) comp[i] = false;
    printf("primes %d\n", sieve(m * k, comp));
    printf("pow %ld gcd %d %d\n", power(k, m, 1000007), gcd(m * 6, k * 4), gcd2(m * 6, k * 4));
    int moves = 0;
    hanoi(n, 'a', 'b', 'c', &moves);
    printf("moves %d\n", moves);
    return solutions;
}
