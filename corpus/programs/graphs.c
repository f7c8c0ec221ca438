/* args: int:2:10 int:0:9999 int:0:9 */
#include <stdio.h>
#include <stdlib.h>
#define N 10
#define INF 9999
int w[N][N], dist[N], prev[N], color[N], order[N], norder, parent[N], rank_[N];
int n, clock_, low[N], num[N], comps;
static unsigned int rnd;
int roll(int m) { rnd = rnd * 1103515245 + 12345; return (int) ((rnd >> 16) % m); }
int dijkstra(int s, int t) {
    int done[N];
    for (int i = 0; i < n; i++) { dist[i] = INF; done[i] = 0; prev[i] = -1; }
    dist[s] = 0;
    for (;;) {
        int best = -1, i;
        for (i = 0; i < n; i++) if (!done[i] && (best < 0 || dist[i] < dist[best])) best = i;
        if (best < 0 || dist[best] == INF) break;
        if (best == t) return dist[t];
        done[best] = 1;
        for (i = 0; i < n; i++)
            if (w[best][i] && dist[best] + w[best][i] < dist[i]) {
                dist[i] = dist[best] + w[best][i];
                prev[i] = best;
            }
    }
    return INF;
}
void path(int t) { if (prev[t] >= 0) { path(prev[t]); printf("-"); } printf("%d", t); }
int visit(int v) {
    color[v] = 1;
    for (int u = 0; u < n; u++) {
        if (!w[v][u]) continue;
        if (color[u] == 1) goto cycle;
        if (color[u] == 0 && visit(u)) return 1;
    }
    color[v] = 2;
    order[norder++] = v;
    return 0;
cycle:
    return 1;
}
int find(int x) { return parent[x] == x ? x : (parent[x] = find(parent[x])); }
int join(int a, int b) {
    a = find(a), b = find(b);
    if (a == b) return 0;
    if (rank_[a] < rank_[b]) { int t = a; a = b; b = t; }
    parent[b] = a;
    rank_[a] += rank_[a] == rank_[b];
    return 1;
}
void tarjan(int v, int *stack, int *sp) {
    low[v] = num[v] = ++clock_;
    stack[(*sp)++] = v;
    for (int u = 0; u < n; u++)
        if (w[v][u]) {
            if (!num[u]) { tarjan(u, stack, sp); if (low[u] < low[v]) low[v] = low[u]; }
            else if (num[u] > 0 && num[u] < low[v]) low[v] = num[u];
        }
    if (low[v] == num[v]) {
        int u;
        comps++;
        do { u = stack[--*sp]; num[u] = -comps; } while (u != v);
    }
}
int main(int argc, char **argv) {
    n = (int) strtol(argv[1], NULL, 10);
    rnd = (unsigned int) strtoul(argv[2], NULL, 10);
    int density = (int) strtol(argv[3], NULL, 10), i, j, total = 0;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) w[i][j] = i != j && roll(10) < density ? 1 + roll(20) : 0;
    printf("d %d ", dijkstra(0, n - 1));
    path(n - 1);
    printf("\n");
    for (i = 0; i < n; i++) if (!color[i] && visit(i)) { printf("cycle at %d\n", i); break; }
    while (norder > 0) printf("%d ", order[--norder]);
    for (i = 0; i < n; i++) parent[i] = i;
    for (i = 0; i < n; i++) for (j = 0; j < i; j++) if (w[i][j] && join(i, j)) total += w[i][j];
    printf("\ntree %d\n", total);
    int stack[N], sp = 0;
    for (i = 0; i < n; i++) if (!num[i]) tarjan(i, stack, &sp);
    for (i = 0; i < n; i++) printf("%d:%d ", -num[i], low[i]);
    printf("\n");
    int all[N][N];
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) all[i][j] = i == j ? 0 : w[i][j] ? w[i][j] : INF;
    for (int k = 0; k < n; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (all[i][k] + all[k][j] < all[i][j]) all[i][j] = all[i][k] + all[k][j];
    for (i = 0, j = n - 1; i < j; i++, j--) printf("%d ", all[i][j]);
    printf("%d\n", comps);
    return comps;
}
