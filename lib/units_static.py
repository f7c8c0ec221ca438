"""Units about data with static storage: globals and their initialisers, enums, string literals."""
from cgen import *
from units_expr import FMT, sn
from units_calls import show, small, num

ESC = ["\\n", "\\t", "\\\\", "\\\"", "\\'", "\\a", "\\b", "\\f", "\\r", "\\v", "\\?", "\\x41", "\\x7e", "\\x09", "\\101", "\\60", "\\7", "\\177", "\\xe9", "\\377", "\\x80"]


def strlit(r, n=None, ascii_only=False, zero=False):
    """C spelling of a random string literal (without embedded NUL unless zero)."""
    n = r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 30, 63, 64, 65]) if n is None else n
    s = ""
    esc = 0
    for _ in range(n):
        c = r.random()
        if c < 0.16 and not ascii_only:
            e = r.choice(ESC)
            s += e
            esc = e.startswith("\\x") or (e[1:].isdigit())
            continue
        if zero and c < 0.2:
            s += "\\0"
            esc = 1
            continue
        ch = r.choice("abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789 .,;:!@#$^&*()-_=+[]{}<>/|~`")
        if esc and ch in "0123456789abcdefABCDEF":
            ch = r.choice("ghijk ,;!")
        esc = 0
        s += ch
    return s


def cexpr(r, t):
    """(spelling, kind) a constant expression whose value fits t and whose evaluation is plain int arithmetic"""
    a, b = r.randint(0, 100), r.randint(1, 50)
    c = r.randrange(12)
    return [f"{a}", f"{a} + {b} * 2", f"({a} - {b}) % 7 + 20", f"1 << {r.randint(0, 6)}", f"{a} & {b} | 1", f"{a} > {b}", f"{a} == {a} && {b}",
            f"{a} > {b} ? {a} : {b}", f"(char) {a}", f"sizeof({r.choice(['int', 'long', 'char', 'short', 'double'])})", f"!{a}", f"{a * 100} / {b}"][c]


def u_globals(r, p, ids=None):
    u = Unit("globals")
    objs = []       # (lvalue, type) of scalars
    k = [0]

    def nm(s):
        k[0] += 1
        return f"{p}{s}{k[0]}"
    body = []
    order = []
    nd = r.randint(5, 11)
    for _ in range(nd):
        t = r.choice(ALL)
        c = r.random()
        g = nm("g")
        if c < 0.22:
            v = num(r, t) if not t.flt else small(r, t)
            if r.random() < 0.35:
                v = cexpr(r, t)
                u.feats.add("init:constexpr")
            u.d(f"{r.choice(['', '', 'static ' if False else ''])}{r.choice(['', '', 'const '])}{t.name} {g} = {v};")
            body.append(show(t, g, g + "="))
            if "const" not in u.decls[-1]:
                objs.append((g, t))
            u.feats.add("ginit:" + sn(t))
        elif c < 0.36:
            u.d(f"{t.name} {g};")
            body.append(show(t, g, g + "="))
            objs.append((g, t))
            u.feats.add("zero:" + sn(t))
        elif c < 0.5:
            n = r.randint(1, 7)
            brace = ", ".join(small(r, t) for _ in range(n))
            u.d(f"{t.name} {g}[{r.choice([str(n), ''])}] = {{{brace}{r.choice(['', ','])}}};")
            body.append(f"for (i = 0; i < {n}; i++) {show(t, f'{g}[i]')}")
            body.append(f"printf(\"%d \", (int) (sizeof({g}) / sizeof({g}[0])));")
            objs += [(f"{g}[{j}]", t) for j in range(n)]
            u.feats.add("garray")
            if r.random() < 0.5:
                q, j = nm("q"), r.randrange(n)
                u.d(f"{t.name} *{q} = {r.choice([f'&{g}[{j}]', f'{g} + {j}', f'{j} + {g}'])};")
                body.append(show(t, f"*{q}", q + "="))
                u.feats.add("addr-init")
        elif c < 0.58:
            n = r.randint(1, 9)
            u.d(f"{t.name} {g}[{n}];")
            body.append(f"for (i = 0; i < {n}; i++) {show(t, f'{g}[i]')}")
            objs += [(f"{g}[{j}]", t) for j in range(n)]
            u.feats.add("zero-array")
        elif c < 0.66:
            a, b = r.randint(1, 3), r.randint(1, 4)
            u.d(f"{t.name} {g}[{a}][{b}] = {{{', '.join('{' + ', '.join(small(r, t) for _ in range(b)) + '}' for _ in range(a))}}};")
            body.append(f"for (i = 0; i < {a}; i++) for (j = 0; j < {b}; j++) {show(t, f'{g}[i][j]')}")
            objs += [(f"{g}[{x}][{y}]", t) for x in range(a) for y in range(b)]
            u.feats.add("g2d")
        elif c < 0.8:
            s = nm("S")
            ms = [(f"m{i}", r.choice(ALL)) for i in range(r.randint(1, 5))]
            arr = r.random() < 0.3
            u.d(f"struct {s} {{ {' '.join(f'{mt.name} {m};' for m, mt in ms)}{f' short ar[3];' if arr else ''} }};")
            one = lambda: "{" + ", ".join(small(r, mt) for _, mt in ms) + (", {4, -5, 6}" if arr else "") + "}"
            c2 = r.random()
            if c2 < 0.5:
                u.d(f"struct {s} {g} = {one()};")
                els = [g]
            elif c2 < 0.75:
                n = r.randint(1, 3)
                u.d(f"struct {s} {g}[{n}] = {{{', '.join(one() for _ in range(n))}}};")
                els = [f"{g}[{i}]" for i in range(n)]
            else:
                u.d(f"struct {s} {g};")
                els = [g]
            for e in els:
                for m, mt in ms:
                    body.append(show(mt, f"{e}.{m}"))
                    objs.append((f"{e}.{m}", mt))
                if arr:
                    body.append(f"printf(\"%d,%d,%d \", {e}.ar[0], {e}.ar[1], {e}.ar[2]);")
            if r.random() < 0.4:
                q = nm("q")
                u.d(f"struct {s} *{q} = &{els[-1]};")
                body.append(show(ms[0][1], f"{q}->{ms[0][0]}"))
            u.feats.add("gstruct")
        elif c < 0.9:
            n = r.randint(1, 4)
            lits = [strlit(r, r.randint(0, 9)) for _ in range(n)]
            c2 = r.random()
            if c2 < 0.35:
                u.d(f"char *{g}[{n}] = {{{', '.join(chr(34) + x + chr(34) for x in lits)}}};")
                body.append(f"for (i = 0; i < {n}; i++) printf(\"<%s>\", {g}[i]);")
                u.feats.add("string-array")
            elif c2 < 0.65:
                u.d(f"char {g}[] = \"{lits[0]}\";")
                body.append(f"printf(\"<%s>%d \", {g}, (int) sizeof({g}));")
                if r.random() < 0.5:
                    body.append(f"{g}[0] = 0; printf(\"<%s>\", {g});")
                u.feats.add("char-array")
            else:
                u.d(f"char *{g} = \"{lits[0]}\";")
                body.append(f"printf(\"<%s>\", {g});")
                u.feats.add("char-ptr")
        else:
            e = nm("E")
            v = r.randint(-50, 50)
            names = [f"{p}{chr(65 + i)}{k[0]}" for i in range(r.randint(2, 6))]
            items, n = [], -1
            for x in names:
                if r.random() < 0.4:
                    n = r.randint(-100, 1000)
                    items.append(f"{x} = {r.choice([str(n), f'{n - 3} + 3', f'({n})', f'{n} * 1', f'-({-n})'])}")
                else:
                    n += 1
                    items.append(x)
            u.d(f"enum {e} {{ {', '.join(items)} }};")
            u.d(f"enum {e} {g} = {r.choice(names)};")
            body.append(f"printf(\"{' '.join(['%d'] * len(names))} %d \", {', '.join(names)}, {g});")
            if len(set(names)) > 1:
                vals = {}
            objs.append((g, INT))
            u.feats.add("enum")
    # mutators: each writes one object through a function; everything else must be unchanged
    r.shuffle(objs)
    ob = objs[:r.randint(0, 6)]
    dump = "\n    ".join(body)
    u.d(f"void {p}dump() {{\n    int i; int j;\n    {dump}\n    printf(\"\\n\"); }}")
    seq = [f"{p}dump();"]
    for i, (lv, t) in enumerate(ob):
        c = r.random()
        if c < 0.4:
            u.d(f"void {p}set{i}({t.name} v) {{ {lv} = v; }}")
            seq.append(f"{p}set{i}({small(r, t)});")
        elif c < 0.6:
            u.d(f"void {p}set{i}() {{ {t.name} *q = &{lv}; *q = {small(r, t)}; }}")
            seq.append(f"{p}set{i}();")
        elif c < 0.8:
            u.d(f"{t.name} {p}set{i}() {{ {lv} += 3; return {lv}; }}" if not t.flt else f"{t.name} {p}set{i}() {{ {lv} = {lv} / 2; return {lv}; }}")
            seq.append(show(t, f"{p}set{i}()"))
        else:
            u.d(f"void {p}set{i}() {{ {lv}++; }}" if t not in (CHAR, SHORT) and not (t.signed and t.size >= 4 and not t.flt) or t in (CHAR, SHORT) else f"void {p}set{i}() {{ {lv} = 5; }}")
            seq.append(f"{p}set{i}();")
    if ob:
        seq.append(f"{p}dump();")
    u.calls += seq
    return u


def u_strings(r, p, ids=None):
    """Literals: every byte of every literal, literals sharing text, arrays initialised from them."""
    u = Unit("strings")
    u.includes |= {"string.h"}
    n = r.randint(2, 8)
    pool = []
    for _ in range(n):
        c = r.random()
        if pool and c < 0.2:
            s = r.choice(pool)
        elif pool and c < 0.45:
            b = r.choice(pool)
            k = r.randint(0, len(b))
            s = b[k:] if "\\" not in b else b
            if r.random() < 0.4:
                s = b + r.choice(["x", "zz", "!"])
        else:
            s = strlit(r, zero=r.random() < 0.15)
        pool.append(s)
    u.d(f"void {p}bytes(char *s, int n) {{ int i; for (i = 0; i < n; i++) printf(\"%d,\", (int) (unsigned char) s[i]); printf(\"\\n\"); }}")
    u.d(f"char *{p}pick(int k) {{ switch (k) {{ " + " ".join(f"case {i}: return \"{s}\";" for i, s in enumerate(pool)) + f" }} return \"none\"; }}")
    b = ""

    def ln(s):
        return len(bytes(s, "latin1").decode("unicode_escape").encode("latin1", "replace")) if "\\?" not in s else len(s.replace("\\?", "?").encode().decode("unicode_escape"))
    for i, s in enumerate(pool):
        L = ln(s) + 1
        c = r.random()
        if c < 0.35:
            b += f"    {p}bytes(\"{s}\", {L});\n"
        elif c < 0.6:
            b += f"    {{ char a[] = \"{s}\"; {p}bytes(a, {L}); printf(\"%d %d\\n\", (int) sizeof(a), (int) strlen(a)); a[{L // 2}] = 'Q'; {p}bytes(a, {L}); {p}bytes(\"{s}\", {L}); }}\n"
        elif c < 0.8:
            b += f"    {{ char *q = {p}pick({i}); printf(\"%d \", (int) strlen(q)); {p}bytes(q, {L}); }}\n"
        else:
            b += f"    {{ char *q = \"{s}\"; int k = 0; while (*q++) k++; printf(\"%d %d\\n\", k, (int) sizeof(\"{s}\")); }}\n"
    pf = [s for s in pool if "\\" not in s and "%" not in s]
    if pf:
        b += f"    printf(\"{r.choice(pf)}\"); printf(\"\\n\");\n"
    u.d(f"void {p}run() {{\n{b}}}")
    u.calls.append(f"{p}run();")
    for s in pool:
        for e in ESC:
            if e in s:
                u.feats.add("esc" + e)
        u.feats.add(f"len{min(len(s), 70) // 8}")
    return u


def u_statics(r, p, ids=None):
    """Static local variables: initialised once whatever the call history, one object for every activation
    (recursion, tail calls, loops, blocks never entered), distinct objects for equal names."""
    u = Unit("statics")
    u.d(f"int {p}log = 0;")
    fns = []
    nf = r.randint(2, 5)
    for k in range(nf):
        f = f"{p}f{k}"
        body, upd, out = [], [], []
        nv = r.randint(1, 4)
        for j in range(nv):
            v = f"{p}s"+"abcd"[j]      # same spellings in every function
            c = r.randrange(9)
            if c == 0:
                body.append(f"static int {v};"); upd.append(f"{v} += n + 1;"); out.append(("%d", v))
            elif c == 1:
                t = r.choice([CHAR, UCHAR, SHORT, USHORT])
                body.append(f"static {t.name} {v} = {r.randint(-40, 40) if t.signed else r.randint(0, 200)};"); upd.append(f"{v} = {v} + 1;"); out.append(("%d", v))
            elif c == 2:
                body.append(f"static unsigned long {v} = {r.randint(0, 1 << 31)};"); upd.append(f"{v} = {v} * 3 + n;"); out.append(("%lu", f"{v} % 1000000"))
            elif c == 3:
                body.append(f"static double {v} = {r.randint(-20, 20)}.25;"); upd.append(f"{v} = {v} / 2 + n;"); out.append(("%f", v))
            elif c == 4:
                n = r.randint(2, 9)
                body.append(f"static int {v}[{n}] = {{{', '.join(str(r.randint(-9, 99)) for _ in range(n))}}};"); upd.append(f"{v}[n % {n}] += {v}[(n + 1) % {n}] % 100;"); out += [("%d", f"{v}[{i}]") for i in r.sample(range(n), 2)]
            elif c == 5:
                body.append(f"static char {v}[] = \"{r.choice(['mutable', 'x', 'abc def', 'longer than sixteen bytes'])}\";"); upd.append(f"{v}[0] = {v}[0] == 'z' ? 'a' : 'z';"); out.append(("%s", v))
            elif c == 6:
                body.append(f"static struct {p}t{k}{j} {{ int a; int b; struct {p}t{k}{j} *p; }} {v};"); upd.append(f"{v}.b += 2; {v}.a += {v}.p ? {v}.p->b : 1; {v}.p = &{v};"); out += [("%d", f"{v}.a"), ("%d", f"{v}.b")]
            elif c == 7:
                body.append(f"static int *{v} = &{p}log;"); upd.append(f"*{v} += 1;"); out.append(("%d", f"*{v}"))
            else:
                body.append(f"static const char *{v} = \"abcdefgh\";"); upd.append(f"if (*{v} != 'h') {v}++;"); out.append(("%s", v))
            u.feats.add(f"static:{c}")
        dump = f"printf(\"{' '.join(x for x, _ in out)} | \", {', '.join(x for _, x in out)});"
        shape = r.randrange(7)
        st = " ".join(body)
        up = " ".join(upd)
        if shape == 0:
            code = f"{st} {up} {dump} return n;"
        elif shape == 1:        # recursion: the callee changes what the caller then reads
            code = f"{st} int r = n; {up} if (n > 0) r += {f}(n - 1) + 1; {dump} return r;"
        elif shape == 2:        # tail call
            code = f"{st} {up} {dump} if (n <= 0) return 7; return {f}(n - 1);"
        elif shape == 3:        # declared in a loop
            code = f"int i; for (i = 0; i < 3; i++) {{ {st} {up} {dump} }} return n;"
        elif shape == 4:        # block not entered, or jumped into
            code = f"if (n > 100) {{ static int dead = 9; dead++; return dead; }} switch (n) {{ case 0: return -1; default: {{ {st} {up} {dump} }} }} return n;"
        elif shape == 5:        # shadowing a static by a static
            code = f"static int {p}q = 5; {st} {{ static int {p}q = 100; {p}q += 10; printf(\"%d \", {p}q); {{ int {p}q = 1; {p}q++; printf(\"%d \", {p}q); }} }} {p}q++; {up} printf(\"%d \", {p}q); {dump} return n;"
        else:                   # address escapes
            code = f"static int {p}cell = {r.randint(0, 9)}; {st} int *{p}w = &{p}cell; {p}log += *{p}w; {up} *{p}w = *{p}w + n; {dump} return {p}cell;"
        u.feats.add(f"static shape:{shape}")
        u.d(f"int {f}(int n) {{ {code} }}")
        fns.append(f)
    if r.random() < 0.6:
        u.d(f"int *{p}ptr() {{ static int kept = 3; kept++; return &kept; }}")
        u.calls.append(f"*{p}ptr() += 5; printf(\"%d %d\\n\", *{p}ptr(), *{p}ptr());" if False else f"*{p}ptr() = 5; printf(\"%d\\n\", *{p}ptr());")
    for _ in range(r.randint(4, 12)):
        u.calls.append(f"printf(\"%d\\n\", {r.choice(fns)}({r.randint(0, 4)}));")
    u.calls.append(f"printf(\"%d\\n\", {p}log);")
    return u
