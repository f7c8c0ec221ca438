/* args: int:0:30 int:-50:50 */
#include <stdio.h>
#include <stdlib.h>
enum op { HALT, PUSH, ADD, SUB, MUL, DUP, SWAP, JNZ, JMP, OUT, CALL, RET, POP, OVER };
struct vm { int pc; int sp; int rp; long stack[32]; int rets[32]; unsigned int steps; };
int code[] = { PUSH, 0, PUSH, 1, OVER, OUT, SWAP, OVER, ADD, CALL, 20, DUP, JNZ, 4, HALT, 0, 0, 0, 0, 0,
               PUSH, 1, ADD, PUSH, 1, SUB, RET };
void push(struct vm *v, long x) { v->stack[v->sp++] = x; }
long pop(struct vm *v) { return v->stack[--v->sp]; }
int step(struct vm *v, int *prog) {
    long a, b;
    switch (prog[v->pc++]) {
        case HALT: return 0;
        case PUSH: push(v, prog[v->pc++]); break;
        case ADD: b = pop(v); a = pop(v); push(v, a + b); break;
        case SUB: b = pop(v); a = pop(v); push(v, a - b); break;
        case MUL: b = pop(v); a = pop(v); push(v, a * b); break;
        case DUP: a = pop(v); push(v, a);
        /* fall through */
        case PUSH + 100: push(v, a); break;
        case SWAP: b = pop(v); a = pop(v); push(v, b); push(v, a); break;
        case OVER: push(v, v->stack[v->sp - 2]); break;
        case JNZ: a = pop(v); if (a) { v->pc = prog[v->pc]; break; } v->pc++; break;
        case JMP: v->pc = prog[v->pc]; break;
        case OUT: printf("%ld ", pop(v)); break;
        case CALL: v->rets[v->rp++] = v->pc + 1; v->pc = prog[v->pc]; break;
        case RET: v->pc = v->rets[--v->rp]; break;
        case POP: pop(v); break;
        default: return -1;
    }
    v->steps++;
    return 1;
}
int main(int argc, char **argv) {
    struct vm m;
    int limit = (int)strtol(argv[1], NULL, 10) * 9, r = 1;
    m.pc = 0; m.sp = 0; m.rp = 0; m.steps = 0;
    code[3] = (int)strtol(argv[2], NULL, 10);
    while (limit-- > 0 && (r = step(&m, code)) > 0) ;
    printf("\npc %d sp %d rp %d steps %u r %d\n", m.pc, m.sp, m.rp, m.steps, r);
    for (int i = 0; i < m.sp; i++) printf("[%d]=%ld ", i, m.stack[i]);
    printf("\n");
    return (int)(m.steps & 127);
}
