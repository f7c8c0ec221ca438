/* args: word:0:60 word:1:20 int:1:25 */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
char buf[200];
unsigned char hist[256];
char *copy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *append(char *d, const char *s) { copy(d + strlen(d), s); return d; }
int compare(const char *a, const char *b) {
    while (*a && *a == *b) { a++; b++; }
    return (unsigned char)*a - (unsigned char)*b;
}
void rev(char *s) {
    if (!*s) return;
    char *e = s + strlen(s) - 1;
    while (s < e) { char t = *s; *s++ = *e; *e-- = t; }
}
void rot(char *s, int k) {
    for (; *s; s++)
        if (islower(*s)) *s = (char)('a' + (*s - 'a' + k) % 26);
        else if (isupper(*s)) *s = (char)('A' + (*s - 'A' + k) % 26);
}
int words(const char *s) {
    int n = 0, in = 0;
    for (int i = 0; s[i] != '\0'; i++) {
        int a = isalnum(s[i]);
        if (a && !in) n++;
        in = a;
    }
    return n;
}
unsigned int crc(const char *s) {
    unsigned int c = 0xffffffff;
    while (*s) {
        c ^= (unsigned char)*s++;
        for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320 : c >> 1;
    }
    return ~c;
}
void base64(const char *s, char *o) {
    char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    int n = (int)strlen(s), i;
    for (i = 0; i < n; i += 3) {
        unsigned long v = (unsigned long)(unsigned char)s[i] << 16;
        if (i + 1 < n) v |= (unsigned char)s[i + 1] << 8;
        if (i + 2 < n) v |= (unsigned char)s[i + 2];
        *o++ = tab[v >> 18 & 63];
        *o++ = tab[v >> 12 & 63];
        *o++ = i + 1 < n ? tab[v >> 6 & 63] : '=';
        *o++ = i + 2 < n ? tab[v & 63] : '=';
    }
    *o = 0;
}
int main(int argc, char *argv[]) {
    int k = (int)strtol(argv[3], NULL, 10);
    printf("%d %d\n", (int)strlen(argv[1]), words(argv[1]));
    copy(buf, argv[1]);
    append(buf, "/");
    append(buf, argv[2]);
    printf("%s %d\n", buf, compare(argv[1], argv[2]) > 0);
    rot(buf, k);
    printf("%s\n", buf);
    rev(buf);
    printf("%s %u\n", buf, crc(buf));
    char out[120];
    base64(argv[1], out);
    printf("%s\n", out);
    for (char *p = argv[1]; *p; p++) hist[(unsigned char)*p]++;
    for (int c = 0; c < 256; c++) if (hist[c]) printf("%c%d", (char)c, hist[c]);
    char *f = strstr(argv[1], argv[2]);
    printf("\n%d %s\n", f ? (int)(f - argv[1]) : -1, f ? f : "none");
    for (int i = 0; argv[1][i]; i++)
        switch (argv[1][i]) {
            case 'a': case 'e': case 'i': case 'o': case 'u': printf("V"); break;
            case '0': case '1': case '2': case '3': case '4': printf("d");
            case '5': case '6': printf("D"); break;
            default: if (ispunct(argv[1][i])) { printf("."); continue; } printf("_");
        }
    printf("\n");
    return 0;
}
