"""Units about how source text is read: tokens, precedence, comments, macros, scopes, declarators."""
from cgen import *
from units_expr import FMT, sn

BIN = ["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]


def sp(r):
    """white space or a comment between tokens"""
    c = r.random()
    if c < 0.55:
        return " "
    if c < 0.75:
        return ""
    if c < 0.85:
        return r.choice(["  ", "\t", " \\\n " if False else " "])
    return r.choice(["/* c */", "/**/", "/* \" */", "/* // */", "/***/", "/* ' */", "/* a * / b */"])


def tokexpr(r, p, depth, u):
    """a random expression over int variables a..f with few parentheses"""
    c = r.random()
    if depth <= 0 or c < 0.25:
        c = r.random()
        if c < 0.6:
            return r.choice("abcdef")
        if c < 0.85:
            return r.choice(["0", "1", "2", "3", "5", "7", "10", "0x1F", "017", "'A'", "'\\n'", "0XaB", "00", "0b101", "0B11", "0b0", "'\\a'", "'\\b'", "'\\f'", "'\\v'", "'\\0'", "'\\x41'", "'\\101'", "'\\\\'", "'\\''", "'\\t'", "'\\r'", "'\"'", "'\\\"'", "'\\?'", "' '"])
        return r.choice(["g[1]", "g[a & 3]", "s.x", "q->x", "*pa", "(int) sizeof(int)", f"{p}id(b)", "h[1][0]", "t.in.y", "(int) sizeof a", f"{p}id(c) "])
    if c < 0.4:
        op = r.choice(["-", "+", "~", "!", "- -", "!!", "~-", "-~", "(char) ", "(unsigned char) ", "(short) ", "(int) ", "(long) ", "-(char) ", "*&", "- +", "(unsigned) "])
        e = tokexpr(r, p, depth - 1, u)
        if op == "*&" and not (e in "abcdef" or e in ("s.x", "g[1]", "q->x", "t.in.y", "h[1][0]")):
            op = "-"
        u.feats.add("un" + op)
        if op[-1] in "-+" and e and e[0] == op[-1]:
            op += " "
        return op + e
    if c < 0.5:
        return f"({tokexpr(r, p, depth - 1, u)})"
    if c < 0.57:
        u.feats.add("?:")
        return f"{tokexpr(r, p, depth - 2, u)}{sp(r)}?{sp(r)}{tokexpr(r, p, depth - 2, u)}{sp(r)}:{sp(r)}{tokexpr(r, p, depth - 2, u)}"
    op = r.choice(BIN)
    a, b = tokexpr(r, p, depth - 1, u), tokexpr(r, p, depth - 1, u)
    if op in "+-" and b[0] in "+-" or op == "&" and b[0] == "&" or op == "/" and b[0] == "*" or op == "<" and b[0] == "<":
        b = " " + b
    s1, s2 = sp(r), sp(r)
    if (op == "/" and (s2[:1] in ("/", "*") or s1[-1:] == "/")) or s1[:1] == "/" and a[-1:] == "/":
        s1 = s2 = " "
    if op[-1] in "/" and b[0] == "*":
        s2 = " "
    u.feats.add("bin" + op)
    return f"{a}{s1}{op}{s2}{b}"


def u_tokens(r, p, ids=None, n=14):
    """Precedence and associativity, maximal munch, comments: each line independent of the others."""
    u = Unit("tokens")
    u.d(f"int {p}id(int x) {{ return x; }} struct {p}I {{ int y; }}; struct {p}S {{ int x; struct {p}I in; }};")
    nf = r.randint(1, 3)
    for k in range(nf):
        b = ""
        for v in "abcdef":
            b += f" int {v} = {r.choice([0, 1, 2, 3, 4, 5, 7, 9, -1, -2, -6, 12, 31])};"
        b += f" int g[4] = {{1, -2, 3, 4}}; struct {p}S s = {{3, {{4}}}}; struct {p}S t; struct {p}S *q = &s; int *pa = &a; int h[2][2] = {{{{1, 2}}, {{3, 4}}}}; int z; t.in.y = 6;\n"
        for _ in range(max(3, n // nf)):
            c = r.random()
            i = ids[0]
            ids[0] += 1
            if c < 0.72:
                b += f"    z = {tokexpr(r, p, r.randint(2, 5), u)}; printf(\"%d %d\\n\", {i}, z);\n"
            elif c < 0.9:
                x, y = r.sample("abcdef", 2)
                form = r.choice(["z = X+++Y;", "z = X---Y;", "z = X-- -Y;", "z = X+ ++Y;", "z = -X--;", "z = X = Y;", "z = X += Y -= 1;", "z = (X, Y);", "z = X, Y;", "z = X<Y==1;", "z = *pa++ ; pa = &a;",
                                 "z = ++*pa;", "z = (*pa)++;", "z = X ? Y : X ? 1 : 2;", "z = !X == Y;", "z = X & 1 == 0;", "z = X | Y & 3 ^ 1;", "z = X << 1 + 1;" if False else "z = 1 << 1 + 1;", "z = X - Y - 1;", "z = 100 / 5 / 2;", "z = X % 5 * 2;",
                                 "z = X || Y && 0;", "z = ~X + 1;", "z = -X * -Y;", "z = X-(-Y);", "z = X>Y?X:Y;", "z = X? Y? 1 : 2 : 3;", "z = (int)sizeof(int)+X;", "z = (char)X+1;", "z = X &&! Y;", "z = X==Y!=1;", "z=X*-Y;z/=2;", "z = g[1]++ + 2;", "z = 2*g[X&3];",
                                 "z = 0; if (X) if (Y) z = 1; else z = 2;", "z = 5; z <<= 2 ; z |= 1; z ^= X; z &= 255; z %= 7;", "for (z = 0; z < 3; z++);", "z = 0; do z += 3; while (z < 7);", "z = 3;;; ;", "{ z = 1; } ;", "z = 1; while (z < 9) z = z * 2 /* c */ ; // end",
                                 "z = X // comment\n + 1;", "z = /* multi\n line */ Y;", "z = s.x+++q->x;" if False else "z = s.x++ + 1;", "z = q->in.y * 2;", "z = (&s)->x;", "z = (*q).in.y;", "z = h[1][1]-h[0][1];", "z = *(g+2);", "z = *&X;", "z = &g[3] - g;", "z = !&X;"])
                u.feats.add("form:" + form)
                b += f"    {form.replace('X', x).replace('Y', y)} printf(\"%d %d %d %d\\n\", {i}, z, a, b);\n".replace("\n +", " \n +") if "//" in form and "\n" in form else f"    {form.replace('X', x).replace('Y', y)}{chr(10) if '//' in form else ''} printf(\"%d %d %d %d\\n\", {i}, z, a, b);\n"
            else:
                v = r.choice(["1.", ".5", "1.5", "1e3", "1E+2", "2.5e-1", "1.e1", ".5e1", "0.0", "00.5", "1e0", "123.456e2", "10e-1", "09.5", "08e1", "018.25", "0779.e-1", "00.8", "08.", "1E3", "1.5e+3", "0e0", "0.1e1", "99e-2"])
                u.feats.add("flt:" + v)
                b += f"    {{ double w = {v}{r.choice(['', ' ', '/* f */'])}*{r.choice([' 4', '2.', '8'])}; printf(\"%d %f\\n\", {i}, w); }}\n"
        u.d(f"void {p}f{k}() {{\n{b}}}")
        u.calls.append(f"{p}f{k}();")
    return u


def u_macros(r, p, ids=None):
    u = Unit("macros")
    P = p.upper()
    vals = [r.randint(0, 50) for _ in range(6)]
    u.d(f"#define {P}A {vals[0]}\n#define {P}B ({P}A + {vals[1]})\n#define {P}SQ(x) ((x) * (x))\n#define {P}MAX(a, b) ((a) > (b) ? (a) : (b))\n#define {P}CAT(a, b) a ## b\n#define {P}STR(x) #x\n#define {P}SWAP(t, a, b) do {{ t tmp_ = a; a = b; b = tmp_; }} while (0)")
    u.d(f"#define {P}LONG(x) \\\n    ((x) + \\\n     {vals[2]})")
    u.d(f"#define {P}EMPTY\n#define {P}VOID() {vals[3]}")
    cond = r.choice([f"{P}A > 20", f"defined({P}A) && !defined({P}NOPE)", f"defined {P}NOPE", f"{P}A == {vals[0]} && ({P}B > 10 || 0)", "0", "1", f"{vals[4]} % 2"])
    u.d(f"#if {cond}\nint {p}v = 1;\n#elif {P}A % 3 == 0\nint {p}v = 2;\n#else\nint {p}v = 3;\n#endif")
    u.d(f"#ifdef {P}B\n#undef {P}B\n#define {P}B {vals[5]}\n#endif\n#ifndef {P}B\n#error no\n#endif")
    u.d(f"""void {p}run() {{
    int x = {r.randint(1, 9)}; int y = {r.randint(1, 9)}; int {P}CAT(x, y) = 5; {P}EMPTY
    {P}SWAP(int, x, y);
    printf("%d %d %d %d %d %d\\n", {p}v, {P}A, {P}B, {P}SQ(x + 1), {P}MAX(x, y), {P}LONG(y));
    printf("%s %d %d\\n", {P}STR(hello world), {P}VOID(), xy);
    if (x > y) {P}SWAP(int, x, y); else x = -x;
    printf("%d %d // not /* a */ comment\\n", x, y); // "comment
    printf("'%c' /* no */ \\"q\\" \\\\\\n", '"'); /* 'x */ printf("%c%c\\n", '\\'', '/');
}}""")
    u.calls.append(f"{p}run();")
    return u


def u_scopes(r, p, ids=None):
    """Shadowing: the same few names re-declared at every level; each use prints what it names."""
    u = Unit("scopes")
    names = ["x", "y", "z"]
    gl = {n: r.randint(1, 99) for n in names}
    for n in names:
        u.d(f"int {p}{n} = {gl[n]};")
    cnt = [100]

    def block(d, vis):
        s = "{\n"
        vis = dict(vis)
        own = set()
        for _ in range(r.randint(2, 5)):
            c = r.random()
            n = r.choice(names)
            if c < 0.3 and n not in own:
                own.add(n)
                cnt[0] += 1
                t = r.choice(["int", "long", "short", "unsigned char", "char"])
                init = r.choice([f" = {cnt[0] % 100}", f" = {cnt[0] % 100} + 1"])
                s += f"{t} {p}{n}{init};\n"
                vis[n] = FMT[t]
                u.feats.add("shadow:" + t)
            elif c < 0.34 and n not in own:
                own.add(n)
                s += f"extern int {p}{n};\n"
                vis[n] = "%d"
                u.feats.add("block extern")
            elif c < 0.45:
                s += f"{p}{n} = {r.randint(0, 99)};\n"
            elif c < 0.6:
                s += f"printf(\"{vis[n]} \", {p}{n});\n"
            elif c < 0.7 and d:
                i = r.choice(names)
                s += f"for (int {p}{i} = 0; {p}{i} < {r.randint(1, 3)}; {p}{i}++) {block(d - 1, {**vis, i: '%d'})}"
                u.feats.add("for-scope")
            elif c < 0.78 and d:
                s += f"if ({p}{n}) {block(d - 1, vis)} else {block(d - 1, vis)}"
            elif c < 0.85:
                s += f"{{ struct {p}T {{ {r.choice(['int', 'char', 'long'])} {p}{n}; int b; }} t; t.{p}{n} = 7; t.b = {p}{n}; printf(\"%d %d %d \", (int) t.{p}{n}, t.b, (int) sizeof(t.{p}{n})); }}\n"
                u.feats.add("tag-scope")
            elif c < 0.92:
                s += f"{{ typedef {r.choice(['char', 'short', 'long'])} {p}ty; {p}ty w = 70000; printf(\"%ld %d \", (long) w, (int) sizeof({p}ty)); }}\n" if False else f"{{ enum {{ {p}E = {r.randint(0, 9)} }}; printf(\"%d \", {p}E); }}\n"
                u.feats.add("enum-scope")
            elif d:
                s += block(d - 1, vis)
        for n in r.sample(names, 2):
            s += f"printf(\"{vis[n]} \", {p}{n});\n"
        return s + "}\n"
    pn = r.choice(names)
    u.d(f"void {p}f(int {p}{pn}) {{" + block(3, {**{n: "%d" for n in names}}) + "}")
    u.d(f"void {p}g() " + block(2, {n: "%d" for n in names}))
    u.calls += [f"{p}f({r.randint(0, 9)});", f"{p}g();", "printf(\"\\n\");", f"printf(\"%d %d %d\\n\", {p}x, {p}y, {p}z);"]
    return u


def u_decls(r, p, ids=None):
    """Declarators and type names."""
    u = Unit("decls")
    b = ""
    u.d(f"typedef int {p}I; typedef {p}I *{p}PI; typedef unsigned char {p}B; typedef struct {p}S {{ {p}B c; {p}I v; struct {p}S *n; }} {p}St; typedef long {p}L, *{p}PL; typedef char *{p}Str;")
    u.d(f"int *{p}fp(int *q, int k) {{ return q + k; }} char **{p}pp(char **s) {{ return s + 1; }} {p}St *{p}sp({p}St *s) {{ return s->n; }}")
    st = [
        f"int *a, b2 = {r.randint(0, 99)}, c[3], **d; a = &b2; d = &a; c[2] = **d + 1; printf(\"%d %d %d\\n\", *a, c[2], **d);",
        f"char *s[2] = {{\"ab\", \"cd\"}}, ch = 'x'; printf(\"%s %c %s %c\\n\", s[1], ch, *{p}pp(s), *s[0]);",
        f"int m[2][3]; int (*row)[3] = m; int i; for (i = 0; i < 6; i++) row[i / 3][i % 3] = i * {r.randint(1, 9)}; printf(\"%d %d %d\\n\", m[1][2], *m[1], (*row)[2]);",
        f"{p}I v = {r.randint(0, 999)}; {p}PI pv = &v; *pv += 1; printf(\"%d %d\\n\", v, (int) sizeof({p}L));",
        f"{p}St s1; {p}St s2; s1.n = &s2; s2.n = &s1; s1.v = 4; s2.v = 9; s1.c = 300 - 45; printf(\"%d %d %d\\n\", {p}sp(&s1)->v, s1.n->n->v, s1.c);",
        f"const int k = {r.randint(0, 99)}; int w = k + 1; register int rg = w * 2; auto int au = rg; printf(\"%d %d\\n\", w, au);",
        f"unsigned u1 = 3000000000; unsigned int u2 = u1; signed s = -4; long int li = u1; short int si = -5; unsigned short int us = 65535; long unsigned lu = u1; int unsigned iu = 7; printf(\"%u %u %d %ld %d %d %lu %u\\n\", u1, u2, s, li, si, us, lu, iu);",
        f"int arr[5] = {{5, 4, 3, 2, 1}}; int *e = {p}fp(arr, 2); printf(\"%d %d %d %d\\n\", *e, e[-1], *(e + 1), (int) ({p}fp(e, 2) - arr));",
        f"const char *cs = \"const\"; const char *cc = \"x\"; const {p}B cb = 9; printf(\"%s %s %d\\n\", cs, cc, cb);",
        f"struct {{ int x; struct {{ char y; long z; }} in; }} an; an.x = 1; an.in.y = 'q'; an.in.z = -7; printf(\"%d %c %ld\\n\", an.x, an.in.y, an.in.z);",
        f"union {{ int i; unsigned char by[4]; }} un; un.i = 16909060; printf(\"%d %d\\n\", un.by[0], un.by[3]);",
        f"void *vp; int iv = 12; vp = &iv; printf(\"%d %d\\n\", *(int *) vp, *({p}PI) vp);",
        f"int x1 = 1; int x2 = x1 + 1, x3 = x2 * 2; int y[] = {{x1, x2, x3}}; printf(\"%d %d %d %d\\n\", y[0], y[1], y[2], (int) (sizeof y / sizeof y[0]));",
        f"{p}Str str = \"typed\"; {p}PL pl; {p}L l0 = 5; pl = &l0; printf(\"%s %ld\\n\", str, *pl);",
        f"goto {p}skip; printf(\"no\\n\"); {p}skip: printf(\"yes\\n\"); int skip = 3; {p}l2: if (skip-- > 0) goto {p}l2; printf(\"%d\\n\", skip);",
        f"enum {p}E {{ {p}X, {p}Y = 10, {p}Z }}; enum {p}E ev = {p}Z; switch (ev) {{ case {p}X: printf(\"X\\n\"); break; case {p}Z: printf(\"Z%d\\n\", {p}Y); break; default: printf(\"d\\n\"); }}",
    ]
    for k, s in enumerate(r.sample(st, r.randint(4, 9))):
        u.d(f"void {p}t{k}() {{ {s} }}")
        u.calls.append(f"{p}t{k}();")
        u.feats.add(f"decl{st.index(s)}")
    return u


def u_names(r, p, ids=None):
    """The same few spellings in every name space at once (ordinary, tags, members, labels), hidden and
    restored at block boundaries; enumeration constants, tags and typedef names of every scope."""
    u = Unit("names")
    sp = [p + n for n in ("a", "b", "c")]
    u.d(f"enum {{ {p}G0 = {r.randint(0, 50)}, {p}G1, {p}G2 = {r.randint(60, 99)} }};")
    u.d(f"int {sp[0]} = {r.randint(1, 99)}; struct {sp[0]} {{ int {sp[0]}, {sp[1]}; }}; struct {sp[1]} {{ struct {sp[0]} {sp[1]}; int {sp[2]}; }};")
    u.d(f"int {sp[1]}(int {sp[0]}) {{ return {sp[0]} * {r.randint(2, 9)} + {p}G1; }}")
    u.d(f"long {sp[2]} = {r.randint(1, 9)}; enum {sp[2]} {{ {p}H0, {p}H1 = {r.randint(2, 9)} }};")
    uid = [0]

    def fresh(t):
        uid[0] += 1
        return f"{p}{t}{uid[0]}"

    # an environment maps a spelling to what can be printed about it: (format, expression) for ordinary names, member lists for tags
    def show(env, tags, tds):
        out = []
        for n, v in env.items():
            if v[0] == "fn":
                out.append(f"printf(\"%d \", {n}({r.randint(0, 9)}));")
            else:
                out.append(f"printf(\"{v[1]} \", {n});")
            if v[0] == "var":
                out.append(f"printf(\"%d \", (int) sizeof({n}));")
        for n, size in tags.items():
            out.append(f"printf(\"%d \", (int) sizeof({size} {n}));")
        for n in tds:
            out.append(f"printf(\"%d \", (int) sizeof({n}));")
        r.shuffle(out)
        return " ".join(out[:r.randint(2, 5)]) + "\n"

    def block(d, env, tags, tds, inloop=False):
        env, tags, tds = dict(env), dict(tags), list(tds)
        own, owntag = set(), set()
        s = "{\n" + show(env, tags, tds)
        for _ in range(r.randint(2, 5)):
            c = r.random()
            n = r.choice(sp + [f"{p}G0", f"{p}G1", f"{p}H1"])
            if c < 0.16 and n not in own:
                own.add(n)
                t = r.choice(["int", "long", "short", "unsigned char", "char", "double"])
                c = r.random()
                if c < 0.25:
                    s += f"{t} {n} = {r.choice(['sizeof', '(int) sizeof'])}({n}){r.choice(['', ' * 3', ' + 1'])};\n"
                    u.feats.add("own initialiser: sizeof")
                elif c < 0.4:
                    k = fresh("m")
                    u.d(f"{t} {k}({t} *q, int v) {{ *q = v; return *q + 1; }}")
                    s += f"{t} {n} = {k}(&{n}, {r.randint(0, 90)});\n"
                    u.feats.add("own initialiser: address")
                else:
                    s += f"{t} {n} = {r.randint(0, 99)}{'.5' if t == 'double' else ''};\n"
                env[n] = ("var", "%f" if t == "double" else FMT[t])
                u.feats.add("hide:" + t)
            elif c < 0.24 and n not in own:
                own.add(n)
                s += f"enum {{ {n} = {r.randint(-9, 99)}, {fresh('e')} }};\n"
                env[n] = ("enum", "%d")
                u.feats.add("hide:enum constant")
            elif c < 0.36 and n not in owntag:
                kw = r.choice(["struct", "struct", "union"]) if n not in (sp[2],) else "struct"
                if n in tags and tags[n] != kw and tags[n] == "enum":
                    continue
                if n in tags:
                    kw = tags[n]
                owntag.add(n)
                m = r.sample(sp, r.randint(1, 3))
                mt = r.choice(["int", "char", "long", "short", "double"])     # one type: no padding, whatever the ABI
                s += f"{kw} {n} {{ " + " ".join(f"{mt} {x};" for x in m) + " };\n"
                v = fresh("v")
                s += f"{kw} {n} {v}; {kw} {n} *{v}q = &{v}; {v}.{m[0]} = {r.randint(0, 99)}; {v}q->{m[0]} += 1; printf(\"%d %d \", (int) {v}.{m[0]}, (int) sizeof({v}));\n"
                tags[n] = kw
                u.feats.add("tag:" + kw)
            elif c < 0.46:
                t = fresh("t")
                s += f"typedef {r.choice(['char', 'short', 'long', 'double'])} {t}; {t} {t}v; printf(\"%d \", (int) sizeof({t}v));\n"
                tds.append(t)
                u.feats.add("typedef in block")
            elif c < 0.54 and d:
                # one name is a typedef in two sibling blocks and a variable in a third
                t = fresh("s")
                a, b2 = r.sample(["char", "short", "long", "double", "int"], 2)
                s += f"{{ typedef {a} {t}; printf(\"%d \", (int) sizeof({t})); {{ {t} w = 3; printf(\"%d \", (int) w); }} }} {{ typedef {b2} {t}; {t} w = 70; printf(\"%d %d \", (int) sizeof({t}), (int) w); }} {{ int {t} = {r.randint(0, 9)}; {t}++; printf(\"%d \", {t}); }}\n"
                u.feats.add("typedef siblings")
            elif c < 0.62:
                t = fresh("k")
                s += f"typedef struct {t} {t}; struct {t} {{ int {t}v; {t} *next; }}; {t} {t}x; struct {t} *{t}y = &{t}x; {t}x.{t}v = {r.randint(0, 99)}; {t}x.next = {t}y; printf(\"%d \", {t}y->next->{t}v);\n"
                u.feats.add("typedef names its tag")
            elif c < 0.7:
                l = r.choice([x for x in sp])
                if ("label", l) in labels:
                    continue
                labels.add(("label", l))
                k = fresh("g")
                s += f"int {k} = 0;\n{l}: {k}++; if ({k} < {r.randint(1, 3)}) goto {l}; printf(\"%d \", {k});\n"
                u.feats.add("label named like a variable")
            elif c < 0.78 and d:
                i = r.choice(sp)
                s += f"for (int {i} = 0; {i} < {r.randint(1, 2)}; {i}++) {block(d - 1, {**env, i: ('var', '%d')}, tags, tds)}"
                u.feats.add("for-scope")
            elif c < 0.84 and d:
                # the initialiser of an inner declaration of another name sees the outer one; a later declarator sees the earlier
                x, y = fresh("x"), fresh("y")
                o = [q for q, v in env.items() if v[0] in ("var", "enum") and v[1] != "%f"]
                if o:
                    s += f"int {x} = {r.choice(o)}, {y} = {x} + 1, *{y}p = &{x}; printf(\"%d %d %d \", {x}, {y}, *{y}p);\n"
            elif d:
                s += block(d - 1, env, tags, tds)
        s += show(env, tags, tds)
        return s + "}\n"
    env0 = {sp[0]: ("var", "%d"), sp[1]: ("fn", "%d"), sp[2]: ("var", "%ld"), f"{p}G0": ("enum", "%d"), f"{p}G1": ("enum", "%d"), f"{p}G2": ("enum", "%d"), f"{p}H1": ("enum", "%d")}
    tags0 = {sp[0]: "struct", sp[1]: "struct", sp[2]: "enum"}
    for k in range(r.randint(2, 3)):
        labels = set()
        pn = r.choice(sp)
        u.d(f"void {p}f{k}(int {pn}) {{" + block(3, {**env0, pn: ("var", "%d")}, tags0, []) + "}")
        u.calls.append(f"{p}f{k}({r.randint(0, 9)}); printf(\"\\n\");")
    u.calls.append(f"printf(\"%d %ld %d\\n\", {sp[0]}, {sp[2]}, {sp[1]}(1));")
    return u


def include_program(r):
    """(text, args): a program and a header of its own that is included several times, at file scope, in functions, between
    initialisers and enumerators, under conditions and with different macros defined."""
    P = "P"
    inc = lambda: r.choice(['#include "@STEM@.h"', '#include "@STEM@.h" /* again */', '  #  include "@STEM@.h"', '#include\t"@STEM@.h"  // c', '# include "@STEM@.h"'])
    std = ["#include <string.h>", "#include <stdlib.h>", "#include <ctype.h>", "#include <stddef.h>", "#include <limits.h>"]
    head, main, body = "", "", ""
    if r.random() < 0.5:
        head += f"#ifndef P_ONCE\n#define P_ONCE {r.randint(1, 99)}\n{r.choice(std + [''])}\nint once = P_ONCE;\n#endif\n"
        body += '    printf("once %d\\n", once);\n'
        main += inc() + "\n"
    flags = [f"P_F{k}" for k in range(3)]
    for k in range(r.randint(3, 7)):
        kind = r.choice(["decl", "stmt", "xlist", "enum", "init", "macro", "func", "cond", "skip", "comment", "std", "self", "late", "string"])
        v, v2 = r.randint(1, 99), r.randint(1, 99)
        f = r.choice(flags)
        setf = r.choice([f"#define {f}\n", f"#undef {f}\n", f"#define {f} {v}\n".replace("#define", "#undef " + f + "\n#define")])
        both = f"#ifdef {f}\nAAA\n#else\nBBB\n#endif\n"
        if kind == "decl":
            head += f"#ifdef P_W{k}\n" + both.replace("AAA", f"int g{k} = {v};").replace("BBB", f"int g{k} = {v2};") + f"#undef P_W{k}\n#endif\n"
            main += setf + f"#define P_W{k}\n{inc()}\n"
            body += f'    printf("g{k} %d\\n", g{k});\n'
        elif kind == "stmt":
            head += f"#ifdef P_W{k}\n" + both.replace("AAA", f"x = x * 2 + {v};").replace("BBB", f"x += {v2};") + f"#undef P_W{k}\n#endif\n"
            main += f"int s{k}(int x) {{\n#define P_W{k}\n{inc()}\n" + setf + f"  if (x > {v})\n#define P_W{k}\n{inc()}\n  return x;\n}}\n"
            body += f'    printf("s{k} %d %d\\n", s{k}({v2}), s{k}(1));\n'
        elif kind == "xlist":
            head += f"#ifdef P_W{k}\nP_X(a{k}, {v})\nP_X(b{k}, {v2})\n#ifdef {f}\nP_X(c{k}, 7)\n#endif\n#undef P_W{k}\n#undef P_X\n#endif\n"
            main += setf + f"#define P_X(n, v) int n = v;\n#define P_W{k}\n{inc()}\nint x{k}(void) {{\n  int t = 0;\n#define P_X(n, v) t = t * 3 + n - v / 2;\n#define P_W{k}\n{inc()}\n  return t;\n}}\n"
            body += f'    printf("x{k} %d\\n", x{k}());\n'
        elif kind == "enum":
            head += f"#ifdef P_W{k}\nE{k}A = {v},\n#ifdef {f}\nE{k}X,\n#endif\nE{k}B,\n#undef P_W{k}\n#endif\n"
            main += setf + f"#define P_W{k}\nenum e{k} {{\n{inc()}\nE{k}Z }};\n"
            body += f'    printf("e{k} %d %d %d\\n", E{k}A, E{k}B, E{k}Z);\n'
        elif kind == "init":
            head += f"#ifdef P_W{k}\n{v}, {v2}, {r.choice(['P_N' + str(k), '3'])}\n#undef P_W{k}\n#endif\n"
            main += f"#define P_N{k} {r.randint(1, 50)}\n#define P_W{k}\nint i{k}[] = {{\n{inc()}\n}};\n"
            body += f'    printf("i{k} %d %d %d\\n", i{k}[0], i{k}[1], i{k}[2]);\n'
        elif kind == "macro":
            head += f"#ifdef P_W{k}\n#undef P_M{k}\n#define P_M{k}(q) ((q) + P_V{k})\n#undef P_W{k}\n#endif\n"
            main += f"#define P_V{k} {v}\n#define P_W{k}\n{inc()}\nint m{k} = P_M{k}({v2});\n#undef P_V{k}\n#define P_V{k} {v2}\nint n{k} = P_M{k}(1);\n"
            body += f'    printf("m{k} %d %d\\n", m{k}, n{k});\n'
        elif kind == "func":
            head += f"#ifdef P_W{k}\nint f{k}(int a, char *b) {{ return a + b[0]; }}\n#undef P_W{k}\n#elif defined(P_U{k})\nint f{k}(int a, char *b);\n#undef P_U{k}\n#endif\n"
            main += f"#define P_U{k}\n{inc()}\nint u{k}(void) {{ return f{k}({v}, \"q\"); }}\n#define P_W{k}\n{inc()}\n"
            body += f'    printf("f{k} %d\\n", u{k}());\n'
        elif kind == "cond":
            head += f"#ifdef P_W{k}\n#undef C{k}\n#define C{k} {v}\n#undef P_W{k}\n#endif\n"
            c = r.choice(["0", "1", f"defined({f})", f"!defined {f}", f"{v} > 50", "defined(NOPE) || 0"])
            main += setf + f"#define C{k} {v2}\n#if {c}\n#define P_W{k}\n{inc()}\n#endif\n"
            body += f'    printf("C{k} %d\\n", C{k});\n'
        elif kind == "skip":
            head += f"#ifdef K{k}\nint k{k} = 1;\n#endif\n"
            main += f"#define K{k}\n#if 0\n{inc()}\n#endif\n#ifdef NOPE\n{inc()}\n#else\nint k{k} = {v};\n#endif\n#undef K{k}\n"
            body += f'    printf("k{k} %d\\n", k{k});\n'
        elif kind == "comment":
            head += f"#ifdef L{k}\nint l{k} = 1;\n#endif\n"
            main += f"#define L{k}\n/* not included:\n#include \"@STEM@.h\"\n#include \"nothere.h\"\n*/ int l{k} = {v}; // /* still code after this\n#undef L{k}\n/* // */ int lb{k} = '\"'; /* \" */\n"
            main += r.choice(["", "// #include \"nothere.h\"\n", "/* a */ /* b\n * c */\n", f"char *lc{k} = \"/*\"; int ld{k} = '\\'';\n#define P_LATE{k} 3\n{inc()}\n"])
            body += f'    printf("l{k} %d %d\\n", l{k}, lb{k});\n'
        elif kind == "std":
            main += r.choice(std) + "\n" + f"int t{k} = sizeof(int);\n{r.choice(std)}\n"
        elif kind == "self":
            head += f"#ifndef P_S{k}\n#define P_S{k}\n#include \"@STEM@.h\"\nint z{k} = {v};\n#endif\n"
            main += inc() + "\n"
            body += f'    printf("z{k} %d\\n", z{k});\n'
        elif kind == "late":
            head += f"#if defined(P_L{k}) && !defined(P_D{k})\n#define P_D{k}\nint y{k} = P_L{k};\n#endif\n"
            main += f"{inc()}\n#define P_L{k} {v}\n{inc()}\n#undef P_L{k}\n#define P_L{k} {v2}\n{inc()}\n"
            body += f'    printf("y{k} %d %d\\n", y{k}, P_L{k});\n'
        else:
            head += f"#ifdef P_W{k}\nP_W{k}\n#undef P_W{k}\n#endif\n"
            main += f"char *q{k} =\n#define P_W{k} \"text {v}\"\n{inc()}\n;\n"
            body += f'    printf("%s\\n", q{k});\n'
    if "P_S" in head: main = inc() + "\n" + main
    pos = r.choice(["first", "first", "last"])
    io = "#include <stdio.h>\n"
    text = (io if pos == "first" else "") + main + (io if pos == "last" else "") + r.choice(["", "#if 0\n" + io + "#endif\n"]) + f"int main(void) {{\n{body}    return 0;\n}}\n"
    return text + "//@@HEADER@@\n" + head, []
