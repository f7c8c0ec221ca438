#include <stdio.h>
/* every iteration allocates a new array of variable length; its lifetime ends with the iteration */
int main(int argc, char **argv) {
    int s = 0;
    int n = 100;
    for (int i = 0; i < 200000; i++) {
        int a[n];
        a[0] = i & 7;
        a[99] = 1;
        s += a[0] + a[99];
    }
    printf("%d\n", s);
    return 0;
}
