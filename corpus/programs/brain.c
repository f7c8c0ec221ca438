/* args: int:0:4 word:0:20 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
/* an interpreter for a tape machine, its programs in a table */
char *programs[] = {
    "++++++++[>++++[>++>+++>+++>+<<<<-]>+>+>->>+[<]<-]>>.>---.+++++++..+++.",
    ",[.,]",
    ">,[>,]<[.<]",
    "++>+++++[<+>-]++++++++[<++++++>-]<.",
    "+[,.-----------------------------------[->+<]>[-<+>]<]"
};
unsigned char tape[64];
short jump[100];
int match(const char *s, int n) {
    int stack[16];
    int sp = 0;
    for (int i = 0; i < n; i++) {
        if (s[i] == '[') stack[sp++] = i;
        else if (s[i] == ']') {
            if (sp == 0) return -1;
            jump[i] = (short) stack[--sp];
            jump[stack[sp]] = (short) i;
        }
    }
    return sp;
}
int main(int argc, char **argv) {
    char *s = programs[strtol(argv[1], NULL, 10)], *in = argv[2];
    int n = (int) strlen(s), p = 32, fuel = 3000, used = 0;
    printf("%d\n", match(s, n));
    for (int pc = 0; pc < n && fuel; pc++, fuel--) {
        switch (s[pc]) {
            case '>': p = (p + 1) & 63; continue;
            case '<': p = (p - 1) & 63; continue;
            case '+': tape[p]++; break;
            case '-': --tape[p]; break;
            case '.': printf("%c", tape[p] >= 32 && tape[p] < 127 ? tape[p] : '?'); break;
            case ',': tape[p] = (unsigned char) (*in ? *in++ : 0); break;
            case '[': if (!tape[p]) pc = jump[pc]; break;
            case ']':
                if (tape[p]) { pc = jump[pc]; break; }
                used++;
        }
        used += tape[p] & 1;
    }
    printf("\n%d %d %d:", p, fuel, used);
    for (int i = 28; i < 40; i++) printf(" %d", tape[i]);
    printf("\n");
    return used & 63;
}
