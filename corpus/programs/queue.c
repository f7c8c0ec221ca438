/* args: int:0:99999 int:1:80 */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <limits.h>
/* ring buffer, priority queue and hash table driven by one random stream */
typedef struct { int16_t items[8]; uint8_t head, count; int lost; } ring_t;
typedef struct entry { uint32_t key; int64_t value; struct entry *chain; } entry_t;
enum action { PUT, TAKE, PEEK, RAISE, DROP, LOOKUP, ACTIONS };
static ring_t ring;
static entry_t entries[32], *buckets[5], *spare;
static int heap[33], size;
uint64_t state;
uint32_t step(void) {
    state ^= state >> 12;
    state ^= state << 25;
    state ^= state >> 27;
    return (uint32_t) (state * 2685821657736338717 >> 32);
}
int put(ring_t *r, int16_t v) {
    if (r->count == 8) { r->lost++; return 0; }
    r->items[(r->head + r->count++) & 7] = v;
    return 1;
}
int take(ring_t *r, int16_t *out) {
    if (!r->count) return 0;
    *out = r->items[r->head++];
    r->head &= 7;
    r->count--;
    return 1;
}
void up(int i) { for (; i > 1 && heap[i / 2] > heap[i]; i /= 2) { int t = heap[i]; heap[i] = heap[i / 2]; heap[i / 2] = t; } }
int pop(void) {
    if (!size) return INT_MIN;
    int top = heap[1], last = heap[size--], i = 1, c;
    while ((c = i * 2) <= size) {
        if (c < size && heap[c + 1] < heap[c]) c++;
        if (last <= heap[c]) break;
        heap[i] = heap[c];
        i = c;
    }
    heap[i] = last;
    return top;
}
entry_t **where(uint32_t key) {
    entry_t **p = &buckets[key % 5];
    while (*p && (*p)->key != key) p = &(*p)->chain;
    return p;
}
int64_t add(uint32_t key, int64_t v) {
    entry_t **p = where(key), *e = *p;
    if (!e) {
        if (!spare) return -1;
        e = spare;
        spare = e->chain;
        e->key = key; e->value = 0; e->chain = NULL;
        *p = e;
    }
    return e->value += v;
}
int drop(uint32_t key) {
    entry_t **p = where(key), *e;
    if (!(e = *p)) return 0;
    *p = e->chain;
    e->chain = spare;
    spare = e;
    return 1;
}
int main(int argc, char **argv) {
    int n = (int) strtol(argv[2], NULL, 10), i;
    state = strtoul(argv[1], NULL, 10) * 77 + 1;
    for (i = 0; i < 32; i++) entries[i].chain = i < 31 ? &entries[i + 1] : NULL;
    spare = entries;
    while (n-- > 0) {
        uint32_t x = step();
        int16_t v = (int16_t) (x >> 9);
        switch (x % ACTIONS) {
            case PUT: printf("put %d ", put(&ring, v)); break;
            case TAKE: if (take(&ring, &v)) printf("take %hd ", v); else printf("none "); break;
            case PEEK: printf("top %d ", size ? heap[1] : -1); break;
            case RAISE: if (size < 32) { heap[++size] = v % 100; up(size); } else printf("full "); break;
            case DROP: printf("pop %d del %d ", pop() == INT_MIN, drop(x >> 4 & 15)); break;
            default: printf("sum %ld ", add(x >> 4 & 15, v));
        }
    }
    printf("\n%d %d %d\n", ring.count, ring.lost, size);
    for (i = 0; i < 5; i++) { for (entry_t *e = buckets[i]; e; e = e->chain) printf("%u=%ld ", e->key, e->value); printf("|"); }
    while (size) printf("%d,", pop());
    printf("\n");
    return ring.lost;
}
