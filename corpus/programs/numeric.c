/* args: int:-900:900 int:1:40 */
#include <stdio.h>
#include <stdlib.h>
double absd(double x) { return x < 0 ? -x : x; }
double root(double x) {
    double g = x > 1 ? x : 1;
    for (int i = 0; i < 60 && absd(g * g - x) > 0.000000001; i++) g = (g + x / g) / 2;
    return g;
}
double expo(double x) { double t = 1, s = 1; for (int i = 1; i < 30; i++) { t = t * x / i; s += t; } return s; }
float sinf_(float x) {
    float t = x, s = x;
    for (int i = 1; i < 8; i++) { float n = (float)((2 * i) * (2 * i + 1)); float u = x * x; u = -t * u; t = u / n; s = s + t; }
    return s;
}
double poly(const double *c, int n, double x) { double r = 0; while (n--) { r = r * x; r = r + c[n]; } return r; }
void bits(double d) { double *p = &d; unsigned int *u = (unsigned int *)p; printf("%u.%u ", u[1], u[0]); }
int fixmul(int a, int b) { return (int)(((long)a * b) >> 16); }
double simpson(double a, double b, int n) {
    double h = (b - a) / n, s = 0;
    for (int i = 0; i <= n; i++) {
        double x = a + i * h;
        double w = i == 0 || i == n ? 1 : i % 2 ? 4 : 2;
        double fx = x * x;
        fx = fx + 1;
        s += w * fx;
    }
    return s * h / 3;
}
int main(int argc, char *argv[]) {
    int a = (int)strtol(argv[1], NULL, 10), n = (int)strtol(argv[2], NULL, 10);
    double c[4] = {1.5, -2, 0.125, 3};
    bits(root(n)); bits(root((double)a * a)); bits(expo(a / 300.0)); bits(poly(c, 4, a * 0.5)); bits(simpson(0, n, 20));
    printf("\n%ld\n", (long)(sinf_((float)a / 600) * 100000));
    float f = (float)a / n, m = 0;
    for (int i = 0; i < n; i++) { m += f; if (m > 1000 || m < -1000) m = m / 2; }
    printf("%ld %d\n", (long)(m * 1000), m > f ? 1 : m == f ? 0 : -1);
    int x = a << 8, y = n << 10;
    for (int i = 0; i < 10; i++) { int t = fixmul(x, y) - (y >> 3); y = y - (x >> 4); x = t; printf("%d %d;", x, y); }
    unsigned long h = 1469598103934665603;
    for (int i = 0; i < n; i++) { h ^= (unsigned long)(a + i) & 255; h *= 1099511628211; }
    printf("\n%lu\n", h);
    return 0;
}
