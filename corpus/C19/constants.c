#include <stdio.h>
int main(int argc, char *argv[]) {
    char c = '\a';
    printf("%d %d %d %d %d %d %d %d %d %d\n", c, '\b', '\f', '\v', '\0', '\x41', '\101', '\\', '\'', '"');
    printf("%f %f %f %f %f %f %f\n", 09.5, 08e1, 018.25, 0779.e-1, 00.8, 08., 010.5);
    return 07 - 010;
}
