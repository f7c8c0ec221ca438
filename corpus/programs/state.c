/* args: src:0:60 */
#include <stdio.h>
#include <stdbool.h>
#include <limits.h>
#include <stdint.h>
typedef enum state { START, NUM, ID, STR, COMMENT, ERR } state_t;
static const char *src;
static int line = 1, col;
static uint8_t flags;
static int counts[ERR + 1];
int peek(void) { return (unsigned char)*src; }
int get(void) { int c = peek(); if (c) src++; if (c == '\n') { line++; col = 0; } else col++; return c; }
int alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
int digit(int c) { return c >= '0' && c <= '9'; }
state_t token(int *value) {
    state_t s = START;
    int c, quote = 0;
    *value = 0;
again:
    c = peek();
    switch (s) {
        case START:
            if (c == ' ' || c == '\n') { get(); goto again; }
            if (!c) return START;
            if (alpha(c)) s = ID;
            else if (digit(c)) s = NUM;
            else if (c == '"' || c == '\'') { quote = get(); s = STR; goto again; }
            else if (c == '/') { get(); if (peek() == '/') { s = COMMENT; goto again; } *value = '/'; return ERR; }
            else { *value = get(); return ERR; }
            /* fall through */
        case NUM:
            while (s == NUM && digit(peek())) {
                if (*value > (INT_MAX - 9) / 10) { flags |= 1; get(); continue; }
                *value = *value * 10 + get() - '0';
            }
            if (s == NUM) break;
        case ID:
            while (alpha(c = peek()) || digit(c)) *value = (*value * 31 + get()) & 0xffff;
            break;
        case STR:
            for (;;) {
                c = get();
                if (c == 0) { flags |= 0x82; return ERR; }
                if (c == quote) break;
                if (c == '\\') get();
                ++*value;
            }
            break;
        case COMMENT:
            do c = get(); while (c && c != '\n');
            break;
        default:
            return ERR;
    }
    return s;
}
int main(int argc, char *argv[]) {
    for (int i = 1; i < argc; i++) {
        src = argv[i];
        state_t s;
        int v, n = 0;
        while ((s = token(&v)) != START && n++ < 100) {
            counts[s]++;
            printf("%d:%d@%d:%d ", s, v, line, col);
        }
        printf("\n");
    }
    for (int k = START; k <= ERR; k++) printf("%d ", counts[k]);
    printf("%u\n", flags);
    return line;
}
