"""Whole programs about program start and exit, run through the command-line runtime."""
from cgen import *


def rarg(r):
    c = r.random()
    if c < 0.12:
        return ""
    if c < 0.4:
        return str(r.randint(-10**9, 10**9))
    if c < 0.75:
        return "".join(r.choice("abc XYZ-=/.,'\"\\%$*") for _ in range(r.randint(1, 30)))
    return r.choice(["--flag", "-x", "a=b", "é€", "日本", "x" * r.randint(50, 300), "%d %s", "\t", "0x1f", "*", "-o", "--help", "a\nb", "\u00ff\u0080", "😀"])


def start_program(r):
    """(text, args)"""
    sig = r.choice(["int main(int argc, char **argv)", "int main(int argc, char *argv[])", "int main(int n, char **words)", "int main(void)", "int main()"])
    has = "char" in sig
    ac, av = ("n", "words") if "words" in sig else ("argc", "argv")
    args = [rarg(r) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 30]))]
    text = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n"
    g = []
    body = "    int i; int acc = 1;\n"
    for k in range(r.randint(0, 4)):
        c = r.randrange(5)
        if c == 0:
            g.append(f"int g{k}[{r.randint(1, 40)}];"); body += f"    for (i = 0; i < {g[-1].split('[')[1].split(']')[0]}; i++) acc += g{k}[i];\n"
        elif c == 1:
            g.append(f"char *g{k} = \"lit{'x' * r.randint(0, 9)}\";"); body += f"    printf(\"%s \", g{k});\n"
        elif c == 2:
            n = r.randint(1, 9); g.append(f"char g{k}[{n}] = {{{', '.join(str(r.randint(1, 99)) for _ in range(n))}}};"); body += f"    for (i = 0; i < {n}; i++) printf(\"%d \", g{k}[i]);\n"
        elif c == 3:
            g.append(f"long g{k} = {r.randint(-99, 99)};"); body += f"    printf(\"%ld \", g{k}); g{k} = acc;\n"
        else:
            g.append(f"int h{k}(int d) {{ int a[{r.randint(1, 30)}]; a[0] = d; return d < 2 ? a[0] : h{k}(d - 1) + a[0]; }}"); body += f"    acc += h{k}({r.randint(1, 9)});\n"
    text += "\n".join(g) + "\n"
    if has:
        body += f"    printf(\"%d\\n\", {ac});\n"
        acts = [f"for (i = 1; i < {ac}; i++) printf(\"%d:%s|\\n\", i, {av}[i]);",
                f"for (i = {ac} - 1; i > 0; i--) {{ char *s = {av}[i]; int n2 = 0; while (*s) {{ n2 = n2 * 31 + (unsigned char) *s++; n2 = n2 & 65535; }} printf(\"%d %d\\n\", n2, (int) strlen({av}[i])); }}",
                f"for (i = 1; i < {ac}; i++) {{ char *e; long v = strtol({av}[i], &e, 10); printf(\"%ld %d\\n\", v, (int) (e - {av}[i])); }}",
                f"{{ char **p = {av} + 1; while (*p) {{ char *s = *p; if (*s) {{ *s = '_'; }} printf(\"%s\\n\", *p); p++; }} printf(\"%d\\n\", (int) (p - {av})); }}",
                f"printf(\"%d\\n\", {av}[{ac}] == (char *) 0);",
                f"{{ char *t = {ac} > 2 ? {av}[1] : (char *) 0; if (t) {{ {av}[1] = {av}[2]; {av}[2] = t; printf(\"%s %s\\n\", {av}[1], {av}[2]); }} }}",
                f"printf(\"%d\\n\", strstr({av}[0], \"wasm\") != (char *) 0 || 1);",
                f"for (i = 1; i < {ac}; i++) if ({av}[i][0] == '-' && {av}[i][1] == '-') printf(\"opt %s\\n\", {av}[i] + 2); else acc += {av}[i][0];"]
        for a in r.sample(acts, r.randint(1, 3)):
            body += "    " + a + "\n"
    if r.random() < 0.12:
        body += f"    for (i = 0; i < {r.choice([3000, 20000])}; i++) printf(\"line %d\\n\", i);\n"
    if r.random() < 0.2:
        body += "    printf(\"no newline at end\");\n"
    k = r.random()
    if k < 0.15:
        ret = ""
    elif k < 0.3:
        ret = "    if (acc != 123456) return 7;\n    return 8;\n"
    else:
        e = r.choice(["0", "1", "acc & 127", "200", "255", "256", "-1", "257", "acc", "-128", "1000", "127"] + ([ac, f"{ac} * 3"] if has else []))
        ret = f"    return {e};\n"
    text += f"{sig} {{\n{body}{ret}}}\n"
    return text, args
