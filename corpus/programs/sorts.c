/* args: int:0:99999 int:1:120 */
#include <stdio.h>
#include <stdlib.h>
unsigned int seed;
unsigned int next(void) { seed = seed * 1103515245 + 12345; return (seed >> 16) & 32767; }
void swap(int *a, int *b) { int t = *a; *a = *b; *b = t; }
void quick(int a[], int lo, int hi) {
    if (lo >= hi) return;
    int p = a[(lo + hi) / 2], i = lo, j = hi;
    while (i <= j) {
        while (a[i] < p) i++;
        while (a[j] > p) j--;
        if (i <= j) { swap(&a[i], &a[j]); i++; j--; }
    }
    quick(a, lo, j);
    quick(a, i, hi);
}
void insertion(int *a, int n) {
    for (int i = 1; i < n; i++) {
        int v = a[i], j;
        for (j = i; j > 0 && a[j - 1] > v; j--) a[j] = a[j - 1];
        a[j] = v;
    }
}
void shell(int *a, int n) {
    for (int gap = n / 2; gap > 0; gap /= 2)
        for (int i = gap; i < n; i++)
            for (int j = i - gap; j >= 0 && a[j] > a[j + gap]; j -= gap)
                swap(a + j, a + j + gap);
}
void sift(int *a, int start, int end) {
    int root = start;
    for (;;) {
        int child = 2 * root + 1;
        if (child > end) break;
        if (child + 1 <= end && a[child] < a[child + 1]) ++child;
        if (a[root] >= a[child]) return;
        swap(&a[root], &a[child]);
        root = child;
    }
}
void heap(int *a, int n) {
    int s;
    for (s = n / 2 - 1; s >= 0; s--) sift(a, s, n - 1);
    for (s = n - 1; s > 0; s--) { swap(&a[0], &a[s]); sift(a, 0, s - 1); }
}
void merge(int *a, int *tmp, int n) {
    if (n < 2) return;
    int m = n / 2;
    merge(a, tmp, m);
    merge(a + m, tmp, n - m);
    int *l = a, *r = a + m, *o = tmp;
    while (l < a + m && r < a + n) *o++ = *l <= *r ? *l++ : *r++;
    while (l < a + m) *o++ = *l++;
    while (r < a + n) *o++ = *r++;
    for (int i = 0; i < n; i++) a[i] = tmp[i];
}
void bubble(int *a, int n) {
    int again;
    do {
        again = 0;
        for (int i = 0; i + 1 < n; i++)
            if (a[i] > a[i + 1]) { swap(&a[i], &a[i + 1]); again = 1; }
    } while (again);
}
int main(int argc, char *argv[]) {
    int a[128], tmp[128], n, k;
    n = (int)strtol(argv[2], NULL, 10);
    for (k = 0; k < 6; k++) {
        seed = (unsigned int)strtol(argv[1], NULL, 0) + k;
        for (int i = 0; i < n; i++) a[i] = (int)(next() % 200) - 100;
        switch (k) {
            case 0: quick(a, 0, n - 1); break;
            case 1: insertion(a, n); break;
            case 2: shell(a, n); break;
            case 3: heap(a, n); break;
            case 4: merge(a, tmp, n); break;
            default: bubble(a, n);
        }
        for (int i = 0; i < n; i++) printf("%d%c", a[i], i + 1 < n ? ' ' : '\n');
    }
    return n;
}
