/* args: word:1:30 word:1:30 int:1:60 */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
int tab[32][32];
int edit(const char *a, const char *b) {
    int n = (int)strlen(a), m = (int)strlen(b);
    for (int i = 0; i <= n; i++) tab[i][0] = i;
    for (int j = 0; j <= m; j++) tab[0][j] = j;
    for (int i = 1; i <= n; i++)
        for (int j = 1; j <= m; j++)
            tab[i][j] = MIN(MIN(tab[i - 1][j] + 1, tab[i][j - 1] + 1), tab[i - 1][j - 1] + (a[i - 1] != b[j - 1]));
    return tab[n][m];
}
int lcs(const char *a, const char *b, char *out) {
    int n = (int)strlen(a), m = (int)strlen(b), k;
    int t[32][32];
    for (int i = n; i >= 0; i--)
        for (int j = m; j >= 0; j--)
            if (i == n || j == m) t[i][j] = 0;
            else t[i][j] = a[i] == b[j] ? 1 + t[i + 1][j + 1] : MAX(t[i + 1][j], t[i][j + 1]);
    k = 0;
    for (int i = 0, j = 0; i < n && j < m;)
        if (a[i] == b[j]) { out[k++] = a[i]; i++; j++; }
        else if (t[i + 1][j] >= t[i][j + 1]) i++;
        else j++;
    out[k] = '\0';
    return t[0][0];
}
int match(const char *p, const char *s) {
    if (*p == '\0') return *s == '\0';
    if (*p == '*') {
        do { if (match(p + 1, s)) return 1; } while (*s++);
        return 0;
    }
    if (*s == '\0') return 0;
    if (*p != '?' && *p != *s) return 0;
    return match(p + 1, s + 1);
}
long ways[61];
long change(int n) {
    int coins[5] = {1, 2, 5, 10, 20}, c;
    for (int i = 0; i < 61; i++) ways[i] = !i;
    for (c = 0; c < 5; c++) for (int i = coins[c]; i <= n; i++) ways[i] += ways[i - coins[c]];
    return ways[n];
}
long memo[61][3];
long tri(int n, int k) {
    if (n <= 0) return n == 0;
    if (memo[n][k]) return memo[n][k];
    long r = 0;
    for (int j = 0; j < 3; j++) if (j != k) r += tri(n - 1 - j, j);
    return memo[n][k] = r % 1000003;
}
int collatz(long n, int steps) { if (n == 1) return steps; if (n % 2 == 0) return collatz(n / 2, steps + 1); return collatz(3 * n + 1, steps + 1); }
int ack(int m, int n) { if (m == 0) return n + 1; if (n == 0) return ack(m - 1, 1); return ack(m - 1, ack(m, n - 1)); }
int main(int argc, char *argv[]) {
    char out[32];
    int n = (int)strtol(argv[3], NULL, 10);
    printf("edit %d\n", edit(argv[1], argv[2]));
    printf("lcs %d", lcs(argv[1], argv[2], out));
    printf(" %s\n", out);
    printf("match %d %d %d\n", match("*a*", argv[1]), match("?*?*", argv[2]), match(argv[1], argv[1]));
    printf("%ld %ld %d %d\n", change(n), tri(n, 0), collatz(n, 0), ack(2, n / 8));
    return 0;
}
