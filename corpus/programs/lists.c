/* args: int:0:40 int:0:9999 */
#include <stdio.h>
#include <stdlib.h>
struct node { int key; struct node *next; struct node *left, *right; };
struct node pool[64];
int used;
struct node *alloc(int key) {
    struct node *n = &pool[used++];
    n->key = key; n->next = NULL; n->left = n->right = NULL;
    return n;
}
struct node *insert(struct node *t, struct node *n) {
    if (!t) return n;
    if (n->key < t->key) t->left = insert(t->left, n);
    else t->right = insert(t->right, n);
    return t;
}
void inorder(struct node *t, int depth) {
    if (t == NULL) return;
    inorder(t->left, depth + 1);
    printf("%d@%d ", t->key, depth);
    inorder(t->right, depth + 1);
}
int height(struct node *t) {
    if (!t) return 0;
    int l = height(t->left), r = height(t->right);
    return 1 + (l > r ? l : r);
}
struct node *reverse(struct node *l) {
    struct node *r = NULL, *n;
    while (l) { n = l->next; l->next = r; r = l; l = n; }
    return r;
}
void link_sorted(struct node **head, struct node *n) {
    while (*head && (*head)->key < n->key) head = &(*head)->next;
    n->next = *head;
    *head = n;
}
int unlink_odd(struct node **p) {
    int c = 0;
    while (*p)
        if ((*p)->key & 1) { *p = (*p)->next; c++; }
        else p = &(*p)->next;
    return c;
}
struct node *merge(struct node *a, struct node *b) {
    if (!a) return b;
    if (!b) return a;
    if (a->key <= b->key) { a->next = merge(a->next, b); return a; }
    b->next = merge(a, b->next);
    return b;
}
void show(struct node *l) { for (; l; l = l->next) printf("%d ", l->key); printf(";\n"); }
int main(int argc, char *argv[]) {
    int n = (int)strtol(argv[1], NULL, 10);
    unsigned int s = (unsigned int)strtoul(argv[2], NULL, 10);
    struct node *root = NULL, *list = NULL, *other = NULL;
    for (int i = 0; i < n; i++) {
        s = s * 69069 + 1;
        struct node *x = alloc((int)(s >> 20) % 100);
        root = insert(root, x);
        if (i % 3) link_sorted(&list, x); else link_sorted(&other, x);
    }
    inorder(root, 0);
    printf("\nheight %d\n", height(root));
    show(list); show(other);
    list = merge(list, other);
    show(list);
    list = reverse(list);
    show(list);
    printf("%d\n", unlink_odd(&list));
    show(list);
    return used;
}
