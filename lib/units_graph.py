"""Call-graph shaped programs: which functions are reachable from main is known by construction."""
from cgen import *


def graph_program(r, p="q"):
    """(text, number of defined functions, number reachable incl. main, library functions reachable)"""
    n = r.choice([1, 2, 3, 5, 8, 12, 20, 40])
    edges = {i: set() for i in range(-1, n)}
    cyc = r.random() < 0.5
    dens = r.choice([0.3, 0.8, 1.5, 3])
    for _ in range(int(n * dens) + r.randint(0, 2)):
        a, b = r.randrange(-1, n), r.randrange(n)
        if a == b and r.random() < 0.6:
            continue
        if not cyc and a >= b and a >= 0:
            continue
        edges[a].add(b)
    c = r.random()
    if c < 0.1:
        edges[-1] = set()
    elif c < 0.8:
        edges[-1] |= {r.randrange(n) for _ in range(r.randint(1, 3))}
    reach, todo = set(), [-1]
    while todo:
        x = todo.pop()
        if x in reach:
            continue
        reach.add(x)
        todo += list(edges[x])
    libs = ["strlen", "strtol", "strtoul", "strstr", "printf"]
    lib = {}
    order = list(range(n))
    if r.random() < 0.6:
        r.shuffle(order)
    text = "#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <ctype.h>\n"
    protos = "".join(f"int {p}{i}(int d);\n" for i in range(n))
    text += protos + "int visits = 0;\n"
    bodies = []

    def uses(i):
        s = []
        for b in sorted(edges[i]):
            k = r.randrange(9)
            call = f"{p}{b}(d - 1)"
            s.append([f"s += {call};", f"if (d > 1) s = s + {call};", f"while (d > 90) {{ s += {call}; d--; }}", f"s ^= d > 2 ? {call} : 1;",
                      f"switch (d & 1) {{ case 0: s += {call}; break; default: s++; }}", f"s = s && {call};", f"s += {p}{b}({p}{b}(d - 2) & 0);", f"for (; d > 3 && {call} < 0; d--) s++;", f"{call};"][k])
        r.shuffle(s)
        return s
    for i in order:
        lb = set()
        if r.random() < 0.4:
            lb.add(r.choice(libs))
        lib[i] = lb
        body = [f"int s = {i};", "visits++;", "if (d <= 0 || visits > 400) return s;"] + uses(i)
        for f in lb:
            body.append({"strlen": "s += strlen(\"abc\");", "strtol": "s += strtol(\"12\", (char **) 0, 10);", "strtoul": "s += strtoul(\"7\", (char **) 0, 10);",
                         "strstr": "s += strstr(\"hello\", \"lo\") != (char *) 0;", "printf": f"printf(\"f{i} \");"}[f])
        tail = sorted(edges[i])
        if tail and r.random() < 0.4:
            body.append(f"return {p}{r.choice(tail)}(d - 1);")
        else:
            body.append("return s & 1023;")
        bodies.append(f"int {p}{i}(int d) {{\n    " + "\n    ".join(body) + "\n}\n")
    mainpos = r.choice([0, len(bodies), len(bodies), r.randint(0, len(bodies))])
    mb = "int main(void) {\n    int d = 5; int s = 1;\n    " + "\n    ".join(uses(-1)) + "\n    printf(\"%d %d\\n\", s, visits);\n    return s & 63;\n}\n"
    bodies.insert(mainpos, mb)
    text += "".join(bodies)
    lr = {"printf"}
    for i in reach:
        if i >= 0:
            lr |= lib[i]
    return text, n + 1, len(reach), sorted(lr)
