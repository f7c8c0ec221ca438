"""Units about size: encodings change length at 2^7, 2^13/14, 2^20/21 ...; tables, indices and
offsets of the emitted module must stay right on both sides of each boundary."""
from cgen import *
from units_expr import FMT, sn
from units_static import strlit

EDGE = [63, 64, 65, 127, 128, 129]


def u_locals(r, p, ids=None):
    """many locals and temporaries in one frame: frame offsets and local addresses cross 128"""
    u = Unit("locals")
    n = r.choice([15, 16, 17, 31, 33, 40])
    ts = [r.choice(INTS) for _ in range(n)]
    b = "".join(f"    {t.name} v{i} = {r.randint(0, 100)};\n" for i, t in enumerate(ts))
    for _ in range(6):
        i, j = r.randrange(n), r.randrange(n)
        b += f"    v{i} = (v{j} & 63) + {r.randint(0, 9)};\n"
    b += "".join(f"    printf(\"{FMT[t.name]} \", v{i});\n" for i, t in enumerate(ts))
    u.d(f"void {p}f() {{\n{b}    printf(\"\\n\"); }}")
    u.calls.append(f"{p}f();")
    u.feats.add(f"locals{n}")
    return u


def u_bigframe(r, p, ids=None):
    """large arrays and far offsets: struct members and elements beyond 128, 8192, 16384"""
    u = Unit("bigframe")
    n = r.choice([127, 128, 129, 130, 1000, 2047, 2048, 2049, 4095, 4096, 4100])
    t = r.choice([CHAR, UCHAR, SHORT, INT])
    while n * t.size > 9000:
        n //= 2
    glob = r.random() < 0.4
    decl = f"{t.name} {p}a[{n}];"
    if glob:
        u.d(decl)
    u.d(f"struct {p}S {{ char pad[{r.choice(EDGE + [8191 - 4000, 3000])}]; int x; short y; }};")
    ix = sorted(set([0, 1, n // 2, n - 2 if n > 2 else 0, n - 1] + [min(n - 1, e) for e in EDGE]))
    b = "" if glob else f"    {decl}\n"
    b += f"    struct {p}S s; int i; long sum = 0; s.x = {r.randint(1, 99)}; s.y = -3; s.pad[{r.randint(0, 60)}] = 1;\n"
    b += f"    for (i = 0; i < {n}; i++) {p}a[i] = i * {r.randint(1, 5)};\n"
    b += "".join(f"    {p}a[{i}] = {r.randint(0, 100)};\n" for i in ix)
    b += f"    for (i = 0; i < {n}; i++) sum = sum * 3 + {p}a[i] & 1048575;\n"
    b += f"    printf(\"%ld %d %d\\n\", sum, s.x, s.y);\n"
    b += "".join(f"    printf(\"%d \", (int) {p}a[{i}]);\n" for i in ix)
    u.d(f"void {p}f() {{\n{b}    printf(\"\\n\"); }}")
    u.calls.append(f"{p}f();")
    u.feats.add(f"array{n}x{t.size}")
    return u


def u_manyfuns(r, p, ids=None):
    """more functions than fit in a one-byte index, called in a scattered order"""
    u = Unit("manyfuns")
    n = r.choice([20, 60, 118, 122, 128, 135, 140])
    for i in range(n):
        u.d(f"int {p}f{i}(int x) {{ return x * {i % 7 + 1} + {i}; }}")
    ks = sorted(set([0, n - 1, n // 2] + [k for k in (117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128) if k < n] + r.sample(range(n), 6)))
    u.d(f"void {p}run() {{ " + " ".join(f"printf(\"%d \", {p}f{k}({r.randint(0, 9)}));" for k in ks) + " printf(\"\\n\"); }")
    u.calls.append(f"{p}run();")
    u.feats.add(f"funs{n}")
    return u


def u_params_many(r, p, ids=None):
    u = Unit("manyparams")
    n = r.choice([9, 16, 17, 31, 33, 40])
    ts = [r.choice(ALL) for _ in range(n)]
    u.d(f"long {p}f({', '.join(f'{t.name} a{i}' for i, t in enumerate(ts))}) {{ long s = 0; " + " ".join(f"s = s * 2 + (long) a{i} & 1048575;" for i in range(n)) + " return s; }")
    args = ", ".join(f"{r.randint(0, 99)}.5" if t.flt else str(r.randint(0, 100)) for t in ts)
    u.calls.append(f"printf(\"%ld\\n\", {p}f({args}));")
    u.feats.add(f"params{n}")
    return u


def u_literals(r, p, ids=None):
    """string storage beyond 128 / 8192 / 16384 bytes, one very long literal"""
    u = Unit("literals")
    c = r.random()
    if c < 0.4:
        n = r.choice([126, 127, 128, 129, 1000, 4000])
        s = "".join(r.choice("abcdefghijklmnopqrstuvwxyz ") for _ in range(n))
        u.d(f"char *{p}s = \"{s}\";")
        u.d(f"void {p}run() {{ int h = 0; char *q = {p}s; while (*q) {{ h = (h * 31 + *q++) & 65535; }} printf(\"%d %d\\n\", h, (int) (q - {p}s)); printf(\"{s[:200]}\\n\"); }}")
        u.feats.add(f"lit{n}")
    else:
        n = r.choice([10, 30, 60])
        ss = [strlit(r, r.choice([0, 3, 20, 60, 130])).replace("%", "p") for _ in range(n)]
        u.d(f"char *{p}t[{n}] = {{{', '.join(chr(34) + s + chr(34) for s in ss)}}};")
        u.d(f"void {p}run() {{ int i; for (i = 0; i < {n}; i++) {{ int h = 0; char *q = {p}t[i]; while (*q) {{ h = (h * 31 + *q++) & 65535; }} printf(\"%d \", h); }} printf(\"\\n\"); }}")
        u.feats.add(f"lits{n}")
    u.calls.append(f"{p}run();")
    return u


def hugedata(r):
    """(text, args): static storage on both sides of 2^13, 2^14, 2^15 and up to most of the page, as one literal, many literals, globals of their own, or arrays"""
    size = r.choice([8192, 16384, 32768, 32768, 40000, 50000]) + r.choice([-200, -60, -17, -2, -1, 0, 1, 2, 17, 60, 200])
    form = r.choice(["one", "few", "many", "mixed", "array", "scalars"])
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 "
    block = "".join(r.choice(al) for _ in range(257))
    mk = lambda n: (block * (n // 257 + 1))[:n]
    top, body = "", ""
    check = lambda e: f"    {{ char *q = {e}; int h = 0; int n = 0; while (q[n]) {{ h = (h * 31 + q[n]) & 65535; n++; }} printf(\"%d %d\\n\", h, n); }}\n"
    if form == "one":
        top += f'char *lit = "{mk(size)}";\n'
        body = check("lit")
    elif form in ("few", "many", "mixed"):
        left, k = size, 0
        while left > 0:
            n = min(left, {"few": r.randint(3000, 9000), "many": r.randint(200, 500), "mixed": r.choice([0, 1, 30, 127, 128, 5000])}[form])
            top += f'char *l{k} = "{chr(65 + k % 26)}{mk(n)[1:]}";\n'
            left -= n + 1 + 4
            if k % max(1, {"few": 1, "many": 9, "mixed": 5}[form]) == 0: body += check(f"l{k}")
            k += 1
        body += check(f"l{k - 1}")
    elif form == "array":
        w = r.choice(["char", "int", "long"])
        n = size // {"char": 1, "int": 4, "long": 8}[w]
        top += f"{w} arr[{n}]; char *after = \"{mk(20)}\"; int last = 77;\n"
        body = f"    for (i = 0; i < {n}; i++) arr[i] = i * 5 + 1;\n" + check("after")
        body += f"    printf(\"%d\\n\", last);\n"
        fin = f"    {{ long s = 0; for (i = 0; i < {n}; i++) s = (s * 3 + arr[i]) & 1048575; printf(\"%ld\\n\", s); }}\n"
        body = body + "    f(9);\n" + fin
    else:
        n = min(size, 9000) // 100
        top += "".join(f"long g{k} = {k * 7919};\n" for k in range(n))
        top += f'char *lit = "{mk(max(1, size - 8 * n))}";\n'
        body = "".join(f"    s += g{k};\n" for k in range(0, n, 11)) + check("lit")
    d = r.randint(5, 25)
    text = f"#include <stdio.h>\n{top}int f(int n) {{ int a[4]; long b = n; a[0] = n; a[1] = n + 1; a[2] = n + 2; a[3] = n + 3; if (n > 0) return f(n - 1) + a[3] + (int) b; return a[0] + a[1]; }}\n"
    text += f"int main() {{\n    int i = 0; long s = 0;\n    printf(\"%d\\n\", f({d}));\n{body}    printf(\"%ld %d %d\\n\", s, i, f({d}));\n{body if r.random() < 0.5 else ''}    return 0;\n}}\n"
    return text, []


def u_cases(r, p, ids=None):
    """long switches and if-chains: jump depths beyond 64/128"""
    u = Unit("cases")
    n = r.choice([20, 40, 66])
    vals = r.sample(range(-100, 300), n)
    if r.random() < 0.5:
        u.d(f"int {p}f(int x) {{ int r = 0; switch (x) {{ " + " ".join(f"case {v}: r += {i};{' break;' if r.random() < 0.8 else ''}" for i, v in enumerate(vals)) + " default: r += 1000; } return r; }")
    else:
        u.d(f"int {p}f(int x) {{ " + " else ".join(f"if (x == {v}) return {i};" for i, v in enumerate(vals)) + " return -1; }")
    pk = r.sample(vals, 6) + [vals[0], vals[-1], 1000, -1000]
    u.d(f"void {p}run() {{ " + " ".join(f"printf(\"%d \", {p}f({v}));" for v in pk) + " printf(\"\\n\"); }")
    u.calls.append(f"{p}run();")
    u.feats.add(f"cases{n}")
    return u


def u_nest(r, p, ids=None):
    """deeply nested statements and expressions"""
    u = Unit("nest")
    d = r.choice([8, 16, 30])
    s = "k = k + 1;"
    for i in range(d):
        c = r.randrange(4)
        s = [f"if (x > {i}) {{ {s} k += {i}; }}", f"{{ int y{i} = {i}; {s} k += y{i}; }}", f"if (x < {i}) k -= 1; else {{ {s} }}", f"for (int i{i} = 0; i{i} < 1; i{i}++) {{ {s} }}" if i > d - 6 else f"while (x > {i + 3}) {{ {s} break; }}"][c]
    e = "x"
    for i in range(r.choice([10, 30, 50])):
        e = r.choice([f"({e} + {i})", f"({e} & 1023)", f"({e} ^ {i})", f"-({e})"])
    u.d(f"int {p}f(int x) {{ int k = 0; {s} return (k & 4095) + ({e} & 7); }}")
    u.calls.append(f"printf(\"%d %d %d\\n\", {p}f(0), {p}f({d // 2}), {p}f(100));")
    u.feats.add(f"nest{d}")
    return u


def u_consts(r, p, ids=None):
    """constants on both sides of every length of their encoding"""
    u = Unit("consts")
    b = ""
    for _ in range(14):
        k = r.choice([6, 7, 13, 14, 20, 21, 27, 28, 31, 32, 34, 35, 41, 42, 48, 49, 55, 56, 62, 63])
        v = (1 << k) + r.choice([-2, -1, 0, 1])
        if r.random() < 0.4:
            v = -v
        t = LONG
        if r.random() < 0.4 and INT.min <= v <= INT.max:
            t = INT
        u.feats.add(f"2^{k}")
        v = max(-(1 << 63) + 1, min((1 << 63) - 1, v))
        b += r.choice([f"    {{ {t.name} x = {v}; printf(\"{FMT[t.name]}\\n\", x); }}\n", f"    printf(\"%ld\\n\", one * {v} / 1);\n", f"    printf(\"%d\\n\", one * {v} == {v});\n",
                       f"    {{ unsigned long x = {abs(v)}; printf(\"%lu\\n\", x + one - 1); }}\n", f"    {{ double x = {v}; printf(\"%ld\\n\", (long) (x / 2)); }}\n"])
    u.d(f"void {p}run() {{\n    long one = 1;\n{b}}}")
    u.calls.append(f"{p}run();")
    return u


def u_bigbody(r, p, ids=None):
    """a function body longer than 16383 bytes (no control flow, so it compiles in reasonable time)"""
    u = Unit("bigbody")
    n = r.choice([40, 80, 120])
    u.d(f"int {p}g = 1; int {p}add(int k) {{ {p}g = ({p}g * 3 + k) & 65535; return {p}g; }}")
    u.d(f"void {p}run() {{ " + " ".join(f"{p}add({r.randint(0, 999)});" for _ in range(n)) + f" printf(\"%d\\n\", {p}g); }}")
    u.calls.append(f"{p}run();")
    u.feats.add(f"body{n}")
    return u


ALLSCALE = [u_locals, u_bigframe, u_manyfuns, u_params_many, u_literals, u_cases, u_nest, u_consts, u_bigbody]
