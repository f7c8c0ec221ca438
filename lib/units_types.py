"""Units about how operand types decide what an expression means: pointers, null pointer constants, arrays, string
literals, void pointers, enumeration constants -- in every operator that takes them."""
import re
from cgen import *
from units_expr import FMT


class P:
    """A pointer expression: text, index into its array (None: null), and whether it may be used as an lvalue."""

    def __init__(self, s, k, lv=False):
        self.s, self.k, self.lv = s, k, lv


def u_ptypes(r, p, ids=None):
    u = Unit("ptypes")
    u.includes |= {"string.h"}
    N = r.randint(4, 8)
    t = r.choice([CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, FLOAT, DOUBLE])
    T = t.name
    shape = r.choice(["plain", "plain", "struct", "matrix", "string", "pointers", "enum"])
    u.feats.add("pointee " + (T if shape == "plain" else shape))
    nm = lambda x: p + x
    en = r.randint(1, 3)
    u.d(r.choice([f"enum {{ {p}NONE, {p}E1 = {en}, {p}E2 = {p}E1 + 1, {p}LEN = {p}E1 * 2 + {N - 2 * en} }} {p}e0 = {p}E1, {p}e1 = {p}E2;",
                  f"enum {{ {p}NONE, {p}E1 = {en}, {p}E2, {p}LEN = {N} }} {p}e0, {p}e1 = {p}E2;"]))
    B = []       # statements
    if shape == "struct":
        u.d(f"struct {p}S {{ {T} a; int b; char c[{p}LEN]; }};"); el = f"struct {p}S"; A = "a"; dec = f"{el} a[{p}LEN]"
    elif shape == "matrix":
        el = None; dec = f"{T} a[{p}LEN][{p}E2]"
    elif shape == "string":
        el = "char"; dec = None
    elif shape == "pointers":
        el = f"{T} *"; dec = f"{T} *a[{p}LEN]"
    elif shape == "enum":
        u.d(f"enum {p}G {{ {p}G0 = -2, {p}G1, {p}G2 = {p}LEN }};"); el = f"enum {p}G"; dec = f"{el} a[{p}LEN]"
    else:
        el = T; dec = f"{T} a[{p}LEN]"
    M = en + 1
    glob = r.random() < 0.4 and dec is not None
    ptr = (lambda n: f"{T} (*{n})[{p}E2]") if shape == "matrix" else (lambda n: f"{el} *{n}" if not el.endswith("*") else f"{el}*{n}")
    cast = f"({T} (*)[{p}E2])" if shape == "matrix" else f"({el} *)" if not el.endswith("*") else f"({el}*)"
    if glob:
        u.d(dec.replace(" a[", f" {p}a[").replace("*a[", f"*{p}a[") + ";"); arr = nm("a")
    else:
        arr = "a"
    head = []
    if dec and not glob:
        head.append(dec + ";")
    if shape == "string":
        lit = '"' + "".join(r.choice("abcdefgh ") for _ in range(N)) + '"'
        head.append(f"char *a = {lit};")
    pre = "const " if r.random() < 0.2 and shape in ("plain", "struct", "enum") else ""
    k0, k1 = r.randint(0, N - 1), r.randint(0, N - 1)
    head.append("int o = 1, i0 = 0; long l = 2; char c = 1; unsigned short us = 1; unsigned int un = 2;")
    head += [f"{pre}{ptr('x')} = {arr} + {k0};", f"{ptr('y')} = &{arr}[{k1}];", f"{pre}{ptr('z')} = {r.choice(['0', '(void *) 0', 'i0 ? x : 0'])};", f"void *v = {arr};"]
    if not pre:
        head.append(f"{ptr('*pp').replace('(**pp)', '(**pp)')} = &x;" if shape != "matrix" else f"{T} (**pp)[{p}E2] = &x;")
    if shape in ("plain", "enum", "struct", "pointers") and not pre:
        head.append((f"{el} (*ap)[{p}LEN]" if not el.endswith("*") else f"{el}(*ap)[{p}LEN]") + f" = &{arr};")
    has_ap = any("*ap)" in h for h in head)
    has_pp = any("pp)" in h or "pp =" in h for h in head)
    # fill
    if shape in ("plain", "enum"):
        head.append(f"for (i0 = 0; i0 < {p}LEN; i0++) {arr}[i0] = i0 * 3 - 4;")
    elif shape == "struct":
        head.append(f"for (i0 = 0; i0 < {p}LEN; i0++) {{ {arr}[i0].a = i0 * 2; {arr}[i0].b = i0 - 3; {arr}[i0].c[{p}E1] = 'a' + i0; }}")
    elif shape == "matrix":
        head.append(f"for (i0 = 0; i0 < {p}LEN * {p}E2; i0++) {arr}[i0 / {p}E2][i0 % {p}E2] = i0;")
    elif shape == "pointers":
        head.append(f"{T} tgt[{p}LEN]; for (i0 = 0; i0 < {p}LEN; i0++) {{ tgt[i0] = i0 * 5; {arr}[i0] = tgt + ({p}LEN - 1 - i0); }}")
    head.append("i0 = 0;")
    cur = {"x": k0, "y": k1, "z": None}

    def small_int(want=None):
        """an integer expression of any type with a value from -3 to 3 (or the wanted one)"""
        vals = [("o", 1), ("i0", 0), ("l", 2), ("c", 1), ("us", 1), ("un", 2), (nm("E1"), en), (nm("E2"), en + 1), (nm("NONE"), 0), ("'\\1'", 1), ("'\\0'", 0), ("(char) o", 1), ("(o == 1)", 1), ("!i0", 1),
                ("-o", -1), ("(l - 1)", 1), ("sizeof(char)", 1), ("(int) sizeof(\"\")", 1), ("(c << 1)", 2), ("(o ? 2 : l)", 2), ("~i0", -1), ("~o", -2)]
        k = r.randint(0, 3)
        if want is None:
            if r.random() < 0.4: return str(k), k
            return r.choice(vals)
        s = [x for x in vals if x[1] == want]
        if s and r.random() < 0.7: return r.choice(s)
        return (str(want) if want >= 0 else f"({want})"), want

    def zero():
        return r.choice(["0", "0", "(void *) 0"])

    def pe(d=2, nonnull=True):
        c = r.random()
        if d == 0 or c < 0.3:
            n = r.choice(["x", "y"] if nonnull else ["x", "y", "z"])
            if r.random() < 0.25: return P(arr, 0)
            if n == "z" and nonnull: n = "x"
            return P(n, cur[n], True)
        if c < 0.5:
            q = pe(d - 1)
            a = r.randint(-q.k, N - 1 - q.k)
            s, a = small_int(max(-3, min(3, a)))
            un = "un" in s or "sizeof" in s and "int" not in s
            f = r.choice(["{q} + {s}", "{s} + {q}"])
            if a < 0 and r.random() < 0.5 and not un:
                return P(f"({q.s} - {-a})", q.k + a)
            return P("(" + f.format(q=q.s, s=s) + ")", q.k + a)
        if c < 0.58:
            q = pe(d - 1); k = r.randint(0, N - 1 - q.k)
            return P(f"(&{q.s}[{k}])", q.k + k)
        if c < 0.66:
            q = pe(d - 1); return P(f"(&*{q.s})", q.k)
        if c < 0.72 and has_pp:
            return P(r.choice(["(*pp)", "pp[0]", "(*&x)"]), cur["x"], True) if r.random() < 0.7 else P("(*pp)", cur["x"], True)
        if c < 0.76 and has_ap:
            return P(r.choice(["(*ap)", "ap[0]"]), 0)
        if c < 0.8:
            return P(f"({cast} v)", 0)
        if c < 0.86:
            a, b = pe(d - 1), pe(d - 1)
            cond, val = r.choice([("o", 1), ("i0", 0), (a.s, 1), ("!" + b.s, 0), (f"{a.s} == 0", 0), ("c", 1), ("z", int(cur["z"] is not None)), ("l - 2", 0)])
            if r.random() < 0.4:
                return P(f"({cond} ? {a.s} : 0)", a.k) if val else P(f"({cond} ? 0 : {b.s})", b.k)
            return P(f"({cond} ? {a.s} : {b.s})", a.k if val else b.k)
        if c < 0.92:
            q = pe(d - 1); return P(f"({r.choice(['o', 'i0', 'x', '2.5', 'v', nm('e0')])}, {q.s})", q.k)
        q = pe(d - 1)
        return P(f"({cast} (void *) {q.s})" if r.random() < 0.5 else f"({cast} {q.s})", q.k)

    def par(s):
        return s if s.isidentifier() or s.startswith("(") and s.endswith(")") and s.count("(") == 1 else f"({s})"

    def ie(d=2):
        """an int-valued expression"""
        c = r.randrange(14)
        a, b = pe(d), pe(d)
        if c == 0: u.feats.add("p-p"); return f"(int) ({a.s} - {b.s})"
        if c == 1: u.feats.add("p rel p"); return f"{a.s} {r.choice(['<', '>', '<=', '>=', '==', '!='])} {b.s}"
        if c == 2:
            q = pe(d, False); u.feats.add("p eq 0"); z = zero(); op = r.choice(["==", "!="])
            return f"{q.s} {op} {z}" if r.random() < 0.6 else f"{z} {op} {q.s}"
        if c == 3: u.feats.add("p eq void*"); return f"{r.choice(['v', '(void *) y', '(void *) 0'])} {r.choice(['==', '!='])} {a.s}"
        if c == 4: q = pe(d, False); u.feats.add("!p"); return f"{r.choice(['!', '!!'])}{par(q.s)}"
        if c == 5:
            q = pe(d, False); u.feats.add("p logical")
            return r.choice([f"{q.s} && {b.s}", f"{q.s} || {b.s}", f"o && {q.s}", f"{q.s} || i0", f"{q.s} && l", f"{q.s} ? 3 : 4", f"2.5 && {q.s}", f"{q.s} || 0.0"])
        if c == 6: u.feats.add("byte distance"); return f"(int) ((char *) {par(a.s)} - (char *) {par(b.s)})" if shape not in ("pointers", "struct") else f"(int) ({a.s} - {b.s}) * 2" if shape == "struct" else f"(int) ((char **) {par(a.s)} - (char **) {par(b.s)})"
        if c == 7:
            w = r.choice(["long", "unsigned long", "int", "unsigned int", "char", "unsigned char", "short", "unsigned short"])
            u.feats.add("(integer) p"); return f"({w}) {par(a.s)} == ({w}) {r.choice(['(long) ', '(unsigned long) '])}{par(a.s)}"
        if c == 8: u.feats.add("p via integer"); return f"{cast} {r.choice(['(long) ', '(unsigned long) '])}{par(a.s)} {r.choice(['==', '!='])} {b.s}"
        if c == 9:
            u.feats.add("value"); k = r.randint(0, N - 1 - a.k)
            q = r.choice([f"{par(a.s)}[{k}]", f"*({a.s} + {k})"])
            return {"plain": f"(int) {q}", "enum": f"{q}", "string": f"{q}", "struct": r.choice([f"({q}).b" , f"(int) ({q}).a", f"({q}).c[{p}E1]", f"(&{q})->b"]), "matrix": f"(int) ({q})[{r.randint(0, M - 1)}]", "pointers": f"(int) *{q}"}[shape]
        if c == 10:
            u.feats.add("sizeof")
            s = r.choice(["\"abc\"", "\"\"", lit_(r), "'a'", "c", "us", "+c", "(o, us)", "(c = 2)", "c++", "-us", "l", "o ? c : us", "1 ? l : o", "!l", "l == 2", "c << l", "us + c", "(short) l", "2.5", "&us - &us", nm("E1"), nm("e1"), "(char) 1", "~c", "o + 2.5", "(float) o * 2"]
                         + ([arr, f"{arr}[0]", f"*{arr}"] if dec and shape not in ("pointers", "struct") else []))
            if s.startswith("&us"): s = "us - us"
            return f"(int) sizeof({s})" if s != nm("E1") else f"(int) sizeof {s}"
        if c == 11:
            u.feats.add("string literal"); s = lit_(r); k = r.randrange(max(1, len(s) - 1))
            return r.choice([f"{s}[{k}]", f"*({s} + {k})", f"(int) strlen({s})", f"(o ? {s} : 0)[{k}]", f"*&{s}[{k}]", f"(int) strlen(i0 ? {s} : &{s}[{k}])", f"(*&{s})[{k}]", f"{s} != 0", f"!{s}", f"(int) sizeof(*&{s})"])
        if c == 12:
            u.feats.add("enum"); x, y = r.choice(["e0", "e1", "E1", "E2", "LEN", "NONE"]), r.choice(["e0", "e1", "E1", "E2", "LEN"])
            return f"{nm(x)} {r.choice(['+', '-', '*', '%', '/', '==', '<', '|', '^', '&&', '<<'])} ({nm(y)} + 1)"
        u.feats.add("switch-on"); return f"{nm('sw')}({r.choice([nm('E1'), nm('E2'), nm('e1'), 'l', 'c', 'us', str(r.randint(-4, 12))])})"

    def lit_(r):
        return '"' + "".join(r.choice("pqrs tu") for _ in range(r.randint(0, 6))) + '"'
    labs = [(f"{p}E1", en), (f"{p}E2 + 3", en + 4), ("-3", -3), ("'\\t' + 1", 10), ("(char) 8", 8), (f"{p}LEN * 2 + 20", 0), ("1 << 6", 64), ("sizeof(short) * 50", 100)]
    r.shuffle(labs)
    labs = labs[:r.randint(2, 6)]
    seen, cs = set(), []
    for s, v in labs:
        if v in seen: continue
        seen.add(v); cs.append(f"case {s}: {r.choice(['return', 'n +='])} {r.randint(10, 99)}; ")
    u.d(f"int {p}sw({r.choice(['int', 'long', 'char', 'short'])} n) {{ switch (n) {{ {''.join(cs)}default: n -= 1; }} return n; }}")
    for _ in range(r.randint(8, 20)):
        c = r.random()
        if c < 0.72:
            B.append(f"printf(\"%d \", {ie()});")
            continue
        # statements that move the pointers
        n = r.choice(["x", "y"]); k = cur[n]
        tgt = n if n == "y" or not has_pp or r.random() < 0.6 else "*pp"
        u.feats.add("move")
        if c < 0.8:
            q = pe(2)
            if pre and n == "y": q = P(arr, 0)
            B.append(f"{tgt} = {q.s};"); cur[n] = q.k
        elif c < 0.88:
            a = max(-3, min(3, r.randint(-k, N - 1 - k))); s, a = small_int(a)
            if a >= 0: B.append(f"{tgt} += {s};")
            else: B.append(f"{tgt} -= {-a};")
            cur[n] = k + a
        elif c < 0.94:
            tg = f"({tgt})" if tgt[0] == "*" else tgt
            if k < N - 1: B.append(r.choice([f"{tg}++;", f"++{tgt};"])); cur[n] = k + 1
            else: B.append(r.choice([f"{tg}--;", f"--{tgt};"])); cur[n] = k - 1
        else:
            q = pe(1)
            B.append(f"z = {'' if not pre else cast}{q.s};"); cur["z"] = q.k
            if r.random() < 0.5:
                B.append(f"z = {zero()};"); cur["z"] = None
    u.d(f"int {p}run(void) {{\n    " + "\n    ".join(head) + "\n    " + "\n    ".join(B) + "\n    printf(\"\\n\");\n    return 0;\n}")
    u.calls.append(f"{p}run();")
    return u


# statements put together without regard to types: most are refused, whatever is accepted must make a valid module
OPER = ["c", "us", "i", "u", "l", "ul", "f", "d", "p", "cp", "pp", "vp", "a", "aa", "s", "un", "sp", "fn", "vf()", '"q"', "EA", "0", "1", "2.5", "fn(1)", "pf()", "ev", "'x'", "s.x", "sp->y", "un.y", "aa[1]", "*p", "&i", "&s", "&a", "va", "&va", "gs", "ga"]
TYPES = ["char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "float", "double", "int *", "char *", "void *", "void", "struct S", "union U", "enum E", "struct S *", "int **", "double *", "const int *"]
BIN = "+ - * / % & | ^ << >> < <= > >= == != && || ,".split()
ASG = "= += -= *= /= %= &= |= ^= <<= >>=".split()
STM = ["if (@) i = 1;", "if (@) ; else i = 2;", "while (@) { i = 1; break; }", "do i = 1; while (0 && @);", "for (; @; ) break;", "for (@; i < 1; @) break;", "switch (@) { case 1: i = 2; }", "fn(@);", "fn2(@, @);", "return @;", "int q = @;", "int *q = @;",
       "char *q = @;", "double q = @;", "float q = @;", "long q = @;", "unsigned char q = @;", "struct S q = @;", "struct S q = {@, @};", "union U q = @;", "int q[3] = @;", "int q[2] = {@, @};", "char q[2] = {@, 1};", "char q[4] = @;", "int q[@];", "int q[2][@];",
       "static int q = @;", "static double q = @;", "enum E q = @;", "void *q = @;", "int **q = @;", "switch (i) { case @: i = 2; }", "i = (@, 2);", "&(@);", "(@) = 1;", "(@)++;", "sizeof(@);", "i = @ + 1;", "vp = @;", "p = @;", "d = @;", "cp = @;", "f = @;",
       "l = @;", "c = @;", "s = @;", "*p = @;", "s.y = @;", "sp->x = @;", "a[@] = @;", "printf(\"%d\", @);", "printf(@);", "vf(@);", "@;", "@;", "@;", "@;", "@;", "return (@) ? @ : @;", "{ typedef int T[@]; T q; }"]
PRELUDE = ('#include <stdio.h>\nstruct S { int x; long y; char z[3]; }; union U { int x; char y; double w; }; enum E { EA, EB };\nstruct S gs; int ga[4];\n'
           'int fn(int x) { return x; }\ndouble fn2(double x, long y) { return x + y; }\nvoid vf(void) { }\nint *pf(void) { return ga; }\n')
LOCALS = ("char c = 1; unsigned short us = 2; int i = 3; unsigned int u = 4; long l = 5; unsigned long ul = 6; float f = 1.5; double d = 2.5; int *p = &i; char *cp = &c; int **pp = &p; void *vp = p; "
          "int a[3] = {1, 2, 3}; int aa[2][2]; struct S s; union U un; struct S *sp = &s; enum E ev = EB; int va[i]; ")


def untyped(r, d=None, cond=True):
    """an expression of random operators over operands of every type (cond: also conditional expressions)"""
    d = r.choice([0, 1, 1, 1, 2, 2, 3]) if d is None else d
    if d == 0 or r.random() < 0.1:
        return r.choice(OPER)
    c = r.random()
    sub = lambda: untyped(r, d - 1, cond)
    par = lambda s: s if s.isidentifier() or s.isdigit() else f"({s})"
    if c < 0.42: return f"{par(sub())} {r.choice(BIN)} {par(sub())}"
    if c < 0.54: return f"{par(sub())} {r.choice(ASG)} {par(sub())}"
    if c < 0.64 and cond: return f"{par(sub())} ? {par(sub())} : {par(sub())}"
    if c < 0.76: return f"{r.choice(['+', '-', '~', '!', '*', '&', '++', '--', 'sizeof ', '!', '*', '&'])}{par(sub())}"
    if c < 0.84: return f"{par(sub())}{r.choice(['++', '--', '.x', '->x', '.y', '->z', '.z', '[0]', '[1]', '()', '(1)', '(1, 2)'])}"
    if c < 0.94: return f"({r.choice(TYPES)}) {par(sub())}"
    if c < 0.97: return f"{par(sub())}[{sub()}]"
    return f"{r.choice(['fn', 'fn2', 'vf', 'pf'])}({', '.join(sub() for _ in range(r.choice([0, 1, 1, 2, 2])))})"


def untyped_statement(r, cond=True):
    s = r.choice(STM)
    while not cond and ("static" in s or "?" in s or "q[@]" in s or "q[2][@]" in s or "T[@]" in s):
        s = r.choice(STM)
    while "@" in s:
        s = s.replace("@", untyped(r, None, cond), 1)
    return s


def untyped_program(r):
    """a program with one statement (or two) of random types in it"""
    out = []
    for _ in range(r.choice([1, 1, 1, 2])):
        out.append(untyped_statement(r))
    ret = r.choice(["int", "int", "int", "double", "long", "char", "void", "int *"])
    body = LOCALS + "\n    " + "\n    ".join(out)
    if ret == "int" and r.random() < 0.6:
        return PRELUDE + "int main(void) {\n    " + body + "\n    return 0;\n}\n", out
    end = "" if ret == "void" else "\n    return 0;"
    return PRELUDE + f"{ret} run(void) {{\n    {body}{end}\n}}\nint main(void) {{ run(); return 0; }}\n", out


# ---- the operator/operand type matrix: every operator with operands of every combination of these types
M_OPERANDS = ['c', 'us', 'i', 'u', 'l', 'ul', 'f', 'd', 'p', 'cp', 'pp', 'vp', 'a', 'aa', 's', 'un', 'sp', 'fn', 'vf()', '"q"', 'EA', '0', '1', '2.5', 'fn(1)', 'pf()', 'ev']
M_PRE = """struct S { int x; long y; }; union U { int x; char y; }; enum E { EA, EB };
int fn(int x) { return x; } void vf(void) { } int *pf(void) { return 0; }
"""
M_DECL = "char c = 1; unsigned short us = 2; int i = 3; unsigned int u = 4; long l = 5; unsigned long ul = 6; float f = 1.5; double d = 2.5; int *p = &i; char *cp = &c; int **pp = &p; void *vp = p; int a[3] = {1, 2, 3}; int aa[2][2]; struct S s; union U un; struct S *sp = &s; enum E ev = EB; "
M_BIN = "+ - * / % & | ^ << >> < <= > >= == != && || ,".split()
M_ASSIGN = "= += -= *= /= %= &= |= ^= <<= >>=".split()
M_CASTS = ["char", "unsigned short", "int", "long", "unsigned long", "float", "double", "int *", "char *", "void *", "struct S", "union U", "enum E", "struct S *", "int **"]
M_CONTEXTS = ['if (@) i = 1;', 'while (@) { i = 1; break; }', 'do i = 1; while (0 && @);', 'for (; @; ) break;', 'switch (@) { case 1: i = 2; }', 'fn(@);', 'return @;', 'int q = @;', 'int *q = @;', 'char *q = @;', 'double q = @;', 'long q = @;', 'unsigned char q = @;', 'struct S q = @;', 'int q[3] = @;', 'int q[2] = {@, 1};', 'int q[@];', 'char q[4] = @;', 'enum E q = @;', 'void *q = @;', 'case @: i = 1;', 'switch (i) { case @: i = 2; }', 'int **q = @;', 'union U q = @;', 'struct S q = {@, 1};', 'i = (@, 2);', '&(@);', '(@) = 1;', '(@)++;', 'sizeof(@);', 'goto @;', 'fn(fn(@));', '@ ? 1 : 2;', '! @;', 'i = @ + 1;', 'vp = @;', 'p = @;', 'd = @;', 'cp = @;']


def matrix():
    O = M_OPERANDS
    out = [f"{x} {b} {y};" for b in M_BIN + M_ASSIGN for x in O for y in O]
    out += [f"i ? {x} : {y};" for x in O for y in O] + [f"{x}[{y}];" for x in O for y in O]
    for x in O:
        out += [f"{u}{x};" for u in ["+", "-", "~", "!", "*", "&", "++", "--", "sizeof "]]
        out += [f"{x}{u};" for u in ["++", "--", ".x", "->x", ".q", "()", "(1)", "(1, 2)", "[0]", "[0][0]"]]
        out += [f"({t}) {x};" for t in M_CASTS] + [k.replace("@", x) for k in M_CONTEXTS]
    return out


def matrix_text(stmts):
    """one function per statement, each on its own line (from line M_FIRST on)"""
    return M_PRE + "".join(f"int t{k}(void) {{ {M_DECL}{s} return 0; }}\n" for k, s in enumerate(stmts)) + "int main(void) { return 0; }\n"


M_FIRST = M_PRE.count("\n") + 1


def outside_subset(s):
    """valid C that the compiler is documented not to take"""
    return bool(re.search(r"\bfn\b(?!\()|\bvf\b(?!\()|\bpf\b(?!\()|\(void\) |\*\(?sp|^[^pacsv(\"]\w*\[|^fn\(1\)\[|^sp\[|^i \? EA :|: EA;|\d\.q|char q\[4\]|\b(s|un) = (s|un);|: (s|un);", s))
