/* args: int:1:9 int:0:9999 */
#include <stdio.h>
#include <stdlib.h>
#define N 10
typedef double row[N];
static double a[N][N], b[N][N], c[N][N];
static long li[N][N];
void fill(double m[N][N], int n, int s) {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = ((i * 7 + j * 3 + s) % 11) - 5;
}
void mul(double x[N][N], double y[N][N], double z[N][N], int n) {
    int i, j, k;
    for (i = 0; i < n; i++)
        for (j = 0; j < n; j++) {
            double s = 0;
            for (k = 0; k < n; k++) s += x[i][k] * y[k][j];
            z[i][j] = s;
        }
}
double det(double m[N][N], int n) {
    double t[N][N], d = 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t[i][j] = m[i][j];
    for (int i = 0; i < n; i++) {
        int p = i;
        while (p < n && t[p][i] == 0) p++;
        if (p == n) return 0;
        if (p != i) {
            for (int j = 0; j < n; j++) { double w = t[p][j]; t[p][j] = t[i][j]; t[i][j] = w; }
            d = -d;
        }
        d *= t[i][i];
        for (int k = i + 1; k < n; k++) {
            double f = t[k][i] / t[i][i];
            for (int j = i; j < n; j++) t[k][j] -= f * t[i][j];
        }
    }
    return d;
}
void transpose(double m[N][N], int n) {
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
        double t = m[i][j];
        m[i][j] = m[j][i];
        m[j][i] = t;
    }
}
long trace(double *p, int n) {
    double t = 0;
    for (int i = 0; i < n; i++, p += N + 1) t += *p;
    return (long)t;
}
int main(int argc, char *argv[]) {
    int n = (int)strtol(argv[1], NULL, 10), s = (int)strtol(argv[2], NULL, 10);
    fill(a, n, s);
    fill(b, n, s * 3 + 1);
    mul(a, b, c, n);
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < n; j++) printf("%ld ", (long)c[i][j]);
        printf("\n");
    }
    transpose(c, n);
    printf("%ld %ld %ld\n", trace(&c[0][0], n), trace(a[0], n), (long)(det(a, n) * 1000));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) li[i][j] = (i ^ j) << (i + j) | (long)i << 33;
    long x = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) x = (x * 31 ^ li[i][j]) & 0xffffffffffff;
    printf("%ld\n", x & 0xffffffffffff);
    return 0;
}
