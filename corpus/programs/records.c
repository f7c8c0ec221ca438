/* args: int:1:12 int:0:9999 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
enum kind { CIRCLE, RECT = 5, TRI };
struct point { short x, y; };
struct shape {
    enum kind kind;
    union { struct { int r; } c; struct { struct point a, b; } q; long whole; double d; } u;
    char name[8];
    float weight;
    struct shape *other;
};
struct shape shapes[12];
struct stats { int count[3]; double total; long xs[2][3]; } st;
int kind_index(enum kind k) { switch (k) { case CIRCLE: return 0; case RECT: return 1; case TRI: return 2; } return -1; }
void init(struct shape *s, int i, unsigned int v) {
    int k = (int)(v % 3);
    s->kind = k == 0 ? CIRCLE : k == 1 ? RECT : TRI;
    s->weight = (float)(v % 1000) / 8;
    s->other = i ? shapes + (v % i) : NULL;
    for (int j = 0; j < 7; j++) s->name[j] = (char)('a' + (v >> j) % 26);
    s->name[(v >> 3) % 7 + 1] = 0;
    s->name[7] = 0;
    switch (s->kind) {
        case CIRCLE: s->u.c.r = (int)(v % 50); break;
        case RECT: s->u.q.a.x = (short)(v % 9); s->u.q.a.y = (short)-(v % 5); s->u.q.b.x = (short)(v % 31 + 9); s->u.q.b.y = (short)(v % 17); break;
        default: s->u.d = v * 0.25;
    }
}
double area(const struct shape *s) {
    if (s->kind == CIRCLE) return s->u.c.r * s->u.c.r * 3.0;
    if (s->kind == RECT) {
        const struct point *a = &s->u.q.a, *b = &s->u.q.b;
        return (b->x - a->x) * (b->y - a->y);
    }
    return s->u.d / 2;
}
int chain(struct shape *s) { int n = 0; while (s->other) { s = s->other; n++; } return n; }
void sort(struct shape **v, int n) {
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
            if (area(v[j]) < area(v[i])) { struct shape *t = v[i]; v[i] = v[j]; v[j] = t; }
}
int main(int argc, char *argv[]) {
    int n = (int)strtol(argv[1], NULL, 10);
    unsigned int v = (unsigned int)strtoul(argv[2], NULL, 10);
    struct shape *order[12];
    for (int i = 0; i < n; i++) { v = v * 1664525 + 1013904223; init(&shapes[i], i, v >> 8); order[i] = &shapes[i]; }
    sort(order, n);
    for (int i = 0; i < n; i++) {
        struct shape *s = order[i];
        int k = kind_index(s->kind);
        st.count[k]++;
        st.total += area(s);
        st.xs[i & 1][k] += (long)(s->weight * 8) << k;
        printf("%s %d %ld %ld %d %s\n", s->name, s->kind, (long)(area(s) * 4), (long)(s->weight * 8), chain(s), s->other ? (*(*s).other).name : "-");
    }
    printf("%d %d %d %ld\n", st.count[0], st.count[1], st.count[2], (long)(st.total * 4));
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) printf("%ld%s", st.xs[i][j], j == 2 ? "\n" : ",");
    return 0;
}
