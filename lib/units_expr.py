"""Units about values of expressions: integer operators, conversions, floating point."""
from cgen import *


def promote(t):
    return INT if t.size < 4 and not t.flt else t


def usual(a, b):
    if a is DOUBLE or b is DOUBLE:
        return DOUBLE
    if a is FLOAT or b is FLOAT:
        return FLOAT
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.size == b.size:
        return a if not a.signed else b
    return a if a.size > b.size else b


SHORTN = {"char": "c", "unsigned char": "uc", "short": "s", "unsigned short": "us", "int": "i", "unsigned int": "ui",
          "long": "l", "unsigned long": "ul", "float": "f", "double": "d"}


def sn(t):
    return SHORTN[t.name]


def const_type(v, spelled):
    if spelled.startswith("'"):
        return INT
    dec = spelled[0] != "0"
    if v <= 0x7fffffff:
        return INT
    if not dec and v <= 0xffffffff:
        return UINT
    if v <= 0x7fffffffffffffff:
        return LONG
    return ULONG


class ExprCtx:
    """Generates typed expressions over a fixed set of readable operands."""

    def __init__(self, r, p, u):
        self.r, self.p, self.u = r, p, u
        self.ops = {}          # type -> list of operand spellings
        self.scratch = {}      # type -> list of scratch lvalues
        self.used_scratch = set()
        self.fn = {}
        self.pairs = set()

    def operand(self, t=None, flt=0.0):
        """(text, type)"""
        r = self.r
        if t is None:
            t = r.choice(FLTS) if r.random() < flt else r.choice(INTS)
        c = r.random()
        if c < 0.26:
            if t.flt:
                return flit(r, t), DOUBLE
            v = rint(r, t)
            s = ilit(r, v)
            if v == -(1 << 63):
                return s, LONG
            if v < 0:
                return s, (INT if v >= -(1 << 31) else LONG)
            return s, const_type(v, s)
        c = r.random()
        if c < 0.08 and t in self.fn:
            a, _ = self.operand(r.choice(INTS) if not t.flt else t)
            return f"{self.fn[t]}({a})", t
        if c < 0.16:
            a, _ = self.operand(r.choice(INTS) if r.random() > flt else t)
            return f"({r.choice(t.spell)}){a}", t
        return r.choice(self.ops[t]), t

    def side(self, t):
        """An expression with a side effect on a scratch variable nothing else in the line touches."""
        r = self.r
        av = [s for s in self.scratch.get(t, []) if s not in self.used_scratch]
        if not av:
            return None
        s = r.choice(av)
        self.used_scratch.add(s)
        c = r.randrange(4)
        if c == 0:
            self.pairs.add(("preinc", sn(t)))
            return r.choice([f"(++{s})", f"(--{s})"]), t
        if c == 1:
            self.pairs.add(("postinc", sn(t)))
            return r.choice([f"({s}++)", f"({s}--)"]), t
        a, at = self.operand(None, (0.1 if not t.flt else 0.5) if FLOAT in self.ops else 0.0)
        if c == 2:
            self.pairs.add(("asgn", sn(t), sn(at)))
            return f"({s} = {a})", t
        if t.flt or at.flt:
            op = r.choice(["+=", "-=", "*=", "/="])
        else:
            op = r.choice(["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="])
        if op in ("<<=", ">>="):
            a, at = str(r.randint(0, promote(t).bits - 1)), INT
        self.pairs.add((op, sn(t), sn(at)))
        return f"({s} {op} {a})", t

    def expr(self, depth, flt=0.0):
        r = self.r
        if depth <= 0 or r.random() < 0.08:
            if r.random() < 0.12:
                x = self.side(r.choice(ALL) if r.random() < flt else r.choice(INTS))
                if x:
                    return x
            return self.operand(None, flt)
        c = r.random()
        if c < 0.1:
            a, t = self.expr(depth - 1, flt)
            op = r.choice(["-", "~", "!", "+", "-", "!"])
            if op == "~" and t.flt:
                op = "-"
            self.pairs.add(("u" + op, sn(t)))
            return f"({op} {a})", (INT if op == "!" else promote(t))
        if c < 0.16:
            a, t = self.expr(depth - 1, flt)
            d = r.choice(ALL) if r.random() < flt else r.choice(INTS)
            self.pairs.add(("cast", sn(t), sn(d)))
            return f"(({r.choice(d.spell)}){a})", d
        if c < 0.22:
            q, qt = self.expr(depth - 2, flt)
            a, at = self.expr(depth - 1, flt)
            b, bt = self.expr(depth - 1, flt)
            self.pairs.add(("?:", sn(at), sn(bt)))
            return f"({q} ? {a} : {b})", usual(at, bt)
        if c < 0.25:
            a, at = self.expr(depth - 2, flt)
            b, bt = self.expr(depth - 1, flt)
            return f"({a}, {b})", bt
        if c < 0.33:
            a, at = self.expr(depth - 1, flt)
            b, bt = self.expr(depth - 1, flt)
            op = r.choice(["&&", "||"])
            self.pairs.add((op, sn(at), sn(bt)))
            return f"({a} {op} {b})", INT
        a, at = self.expr(depth - 1, flt)
        b, bt = self.expr(depth - 1, flt)
        op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">="])
        if (at.flt or bt.flt) and op in ("%", "&", "|", "^", "<<", ">>"):
            op = r.choice(["+", "-", "*", "/", "<", ">=", "=="])
        if op in ("<<", ">>"):
            w = promote(at).bits
            k = r.random()
            if k < 0.5:
                b, bt = str(r.choice([0, 1, 2, 3, 7, 8, 15, 16, 24, 30, 31] + ([32, 33, 40, 48, 62, 63] if w == 64 else []))), INT
            else:
                b, bt = f"({b} & {w - 1})", promote(bt)
            if at.signed and op == "<<":
                # left shifts of negative values are undefined: shift a masked value
                a, at = f"({a} & {0xffff if w == 32 else 0xffffffff})", usual(at, INT if w == 32 else LONG)
                if w == 32:
                    b = f"({b} & 15)" if not b.isdigit() else str(int(b) & 15)
                else:
                    b = f"({b} & 31)" if not b.isdigit() else str(int(b) & 31)
        elif op in ("/", "%") and not (at.flt or bt.flt) and r.random() < 0.4:
            b, bt = f"({b} | {r.choice([1, 1, 5, 64])})", usual(bt, INT)
        elif op in ("/", "%") and not (at.flt or bt.flt) and r.random() < 0.8:
            v = rint(r, r.choice(INTS)) or 3
            b = ilit(r, v)
            bt = const_type(v, b) if v >= 0 else (INT if v >= -(1 << 31) else LONG)
        self.pairs.add((op, sn(at), sn(bt)))
        s = f"({a} {op} {b})"
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return s, INT
        if op in ("<<", ">>"):
            return s, promote(at)
        return s, usual(at, bt)


FMT = {"char": "%d", "unsigned char": "%d", "short": "%d", "unsigned short": "%d", "int": "%d", "unsigned int": "%u",
       "long": "%ld", "unsigned long": "%lu"}


def u_arith(r, p, nfun=4, nlines=8, flt=0.0, depth=None, ids=None, kind="arith"):
    u = Unit(kind)
    cx = ExprCtx(r, p, u)
    types = ALL if flt else INTS

    def val(t):
        return flit(r, t) if t.flt else ilit(r, rint(r, t))
    # globals, array, struct
    for t in types:
        u.d(f"{r.choice(t.spell)} {p}g_{sn(t)} = {val(t)};")
        u.d(f"{t.name} {p}ga_{sn(t)}[3] = {{{val(t)}, {val(t)}, {val(t)}}};")
    order = list(types)
    r.shuffle(order)
    u.d(f"struct {p}S {{ " + " ".join(f"{t.name} m_{sn(t)};" for t in order) + " };")
    u.d(f"struct {p}S {p}gs;")
    for t in types:
        u.d(f"{t.name} {p}id_{sn(t)}({t.name} x) {{ return x; }}")
    if flt:
        u.d(f"void {p}bits(int id, double x) {{ double y = x; unsigned long *q = (unsigned long *)&y; printf(\"%d %lu\\n\", id, *q); }}")
    for f in range(nfun):
        np_ = r.randint(0, 4)
        ptys = [r.choice(types) for _ in range(np_)]
        params = [(t, f"p{i}") for i, t in enumerate(ptys)]
        L = []
        cx.ops = {t: [f"{p}g_{sn(t)}", f"{p}ga_{sn(t)}[{r.randrange(3)}]"] for t in types}
        cx.scratch = {t: [] for t in types}
        cx.fn = {t: f"{p}id_{sn(t)}" for t in types}
        for t, n in params:
            cx.ops[t].append(n)
        L.append(f"    int ix = {r.randrange(3)}; struct {p}S ls; struct {p}S *sp = &{p}gs;")
        loc = r.sample(types, min(len(types), r.randint(4, 7)))
        for i, t in enumerate(loc):
            L.append(f"    {r.choice(t.spell)} v{i} = {val(t)}; {t.name} w{i} = {val(t)};")
            cx.ops[t].append(f"v{i}")
            cx.scratch[t].append(f"w{i}")
        for t in types:
            c = r.random()
            if c < 0.3:
                L.append(f"    ls.m_{sn(t)} = {val(t)};")
                cx.ops[t].append(f"ls.m_{sn(t)}")
            elif c < 0.6:
                L.append(f"    sp->m_{sn(t)} = {val(t)};")
                cx.ops[t].append(r.choice([f"sp->m_{sn(t)}", f"{p}gs.m_{sn(t)}", f"(*sp).m_{sn(t)}"]))
            elif c < 0.8:
                cx.ops[t].append(f"{p}ga_{sn(t)}[ix]")
            else:
                L.append(f"    {t.name} *q_{sn(t)} = &{p}g_{sn(t)};")
                cx.ops[t].append(f"*q_{sn(t)}")
        L.append("    char rc; unsigned char ruc; short rs; unsigned short rus; int ri; unsigned int rui; long rl; unsigned long rul; float rf; double rd;")
        lines = []
        for _ in range(nlines):
            cx.used_scratch = set()
            dep = depth if depth is not None else r.choice([1, 1, 1, 2, 2, 3, 4])
            e, et = cx.expr(dep, flt)
            ident = ids[0]
            ids[0] += 1
            if flt and (et.flt or r.random() < 0.3):
                rt = r.choice([FLOAT, DOUBLE])
                lines.append((ident, f"    r{sn(rt)} = {e}; {p}bits({ident}, r{sn(rt)});"))
            else:
                c = r.random()
                if c < 0.35:
                    rt = LONG
                elif c < 0.5:
                    rt = ULONG
                elif c < 0.65 and not et.flt:
                    rt = et
                else:
                    rt = r.choice(INTS)
                rv = f"r{sn(rt)}"
                c = r.random()
                if c < 0.75:
                    st = f"    {rv} = {e}; printf(\"%d {FMT[rt.name]}\\n\", {ident}, {rv});"
                elif c < 0.85 and et in INTS:
                    st = f"    printf(\"%d {FMT[et.name]}\\n\", {ident}, {e});"
                elif c < 0.92:
                    st = f"    if ({e}) {{ printf(\"%d T\\n\", {ident}); }} else {{ printf(\"%d F\\n\", {ident}); }}"
                else:
                    st = f"    printf(\"%d %d\\n\", {ident}, (int) sizeof({e}));"
                lines.append((ident, st))
        L += [s for _, s in lines]
        if r.random() < 0.5:
            ws = [(i, t) for i, t in enumerate(loc)]
            for i, t in ws:
                if t.flt:
                    L.append(f"    {p}bits({ids[0]}, w{i});")
                else:
                    L.append(f"    printf(\"%d {FMT[t.name]}\\n\", {ids[0]}, w{i});")
                ids[0] += 1
        args = ", ".join(val(t) for t in ptys)
        u.d(f"void {p}t{f}({', '.join(t.name + ' ' + n for t, n in params)}) {{\n" + "\n".join(L) + "\n}")
        u.calls.append(f"{p}t{f}({args});")
    u.feats |= {"op:" + " ".join(x) for x in cx.pairs}
    return u


def u_float(r, p, ids=None, **k):
    return u_arith(r, p, flt=0.65, ids=ids, kind="float", **k)


def tie(r, t, f):
    """an integer of type t at or next to the middle between two neighbouring values of the floating type f"""
    mant = 24 if f is FLOAT else 53
    top = t.bits - (2 if t.signed else 1)
    if top <= mant:
        return rint(r, t)
    k = r.randint(mant, top)
    v = (1 << k) | (r.getrandbits(mant - 1) << (k - mant + 1) if r.random() < 0.7 else 0) | (1 << (k - mant))
    v += r.choice([-1, 0, 1, 1, -1, 1 << max(0, k - 54), -(1 << max(0, k - 54))])
    v = min(v, t.max)
    return -v if t.signed and r.random() < 0.5 else v


def u_conv(r, p, ids=None, npairs=14):
    """Every way a value can be converted implicitly or explicitly, over random (from, to) pairs."""
    u = Unit("conv")
    u.d(f"void {p}bits(int id, double x) {{ double y = x; unsigned long *q = (unsigned long *)&y; printf(\"%d %lu\\n\", id, *q); }}")
    forms = ["assign", "init", "cast", "arg", "ret", "elem", "member", "deref", "ginit", "gassign", "ternary", "comp", "ainit", "sinit", "chain", "retlit", "arglit", "voidptr", "argmix"]
    L = []
    u.d(f"union {p}U {{ {'; '.join(t.name + ' x' + sn(t) for t in ALL)}; }};")

    def val(t):
        return flit(r, t) if t.flt else ilit(r, rint(r, t))

    def out(t, e):
        i = ids[0]
        ids[0] += 1
        return f"{p}bits({i}, {e});" if t.flt else f"printf(\"%d {FMT[t.name]}\\n\", {i}, {e});"
    for k in range(npairs):
        a, b = r.choice(ALL), r.choice(ALL)
        if b.flt and not a.flt and a.bits >= 32 and r.random() < 0.5:
            v = ilit(r, tie(r, a, b))
        elif a.flt and not b.flt:
            v = f"{r.choice(['-', '']) if b.signed else ''}{r.choice([0, 1, 5, b.max >> 1, b.max, r.randint(0, b.max)]) % (1 << (23 if a is FLOAT else 52))}.{r.choice(['0', '5', '75', '999', '001'])}"
            if v.startswith("-"):
                v = f"({v})"
        else:
            v = val(a)
        f = r.choice(forms)
        u.feats.add(f"conv:{f} {sn(a)}>{sn(b)}")
        A, B, n = a.name, b.name, f"{p}{k}"
        body = f"    {A} a = {v};\n"
        if f == "assign":
            body += f"    {B} b; b = a; {out(b, 'b')}\n"
        elif f == "init":
            body += f"    {B} b = a; {out(b, 'b')}\n"
        elif f == "cast":
            body += f"    {B} b = ({r.choice(b.spell)}) a; {out(b, 'b')} {out(b, f'({B}) a')}\n"
        elif f == "arg":
            u.d(f"void {n}f({B} x, int z) {{ {out(b, 'x')} }}")
            body += f"    {n}f(a, 3);\n"
        elif f == "arglit":
            u.d(f"void {n}f(int z, {B} x, char y) {{ {out(b, 'x')} {out(CHAR, 'y')} {out(INT, 'z')} }}")
            body += f"    {n}f({rint(r, SHORT)}, {v}, {rint(r, CHAR)});\n"
        elif f == "argmix":
            u.d(f"int {n}f({A} y, {B} x, {A} w) {{ {out(b, 'x')} {out(a, 'y')} {out(a, 'w')} return 1; }}")
            body += f"    {n}f(a, a, a);\n"
        elif f == "ret":
            u.d(f"{B} {n}f({A} x) {{ return x; }}")
            body += f"    {out(b, f'{n}f(a)')}\n"
        elif f == "retlit":
            u.d(f"{B} {n}f() {{ return {v}; }}")
            body += f"    {out(b, f'{n}f()')}\n"
        elif f == "elem":
            body += f"    {B} b[3]; int i = 1; b[0] = 1; b[2] = 2; b[i] = a; {out(b, 'b[1]')} {out(b, 'b[0]')} {out(b, 'b[2]')}\n"
        elif f == "member":
            u.d(f"struct {n}S {{ char c; {B} m; char d; }};")
            body += f"    struct {n}S s; s.c = 5; s.d = 6; s.m = a; {out(b, 's.m')} {out(CHAR, 's.c')} {out(CHAR, 's.d')}\n"
        elif f == "deref":
            body += f"    {B} b = 0; {B} *q = &b; *q = a; {out(b, 'b')} {out(b, '*q')}\n"
        elif f == "ginit":
            u.d(f"{B} {n}g = {v};")
            body += f"    {out(b, n + 'g')}\n"
        elif f == "gassign":
            u.d(f"{B} {n}g;")
            body += f"    {n}g = a; {out(b, n + 'g')}\n"
        elif f == "ternary":
            t2 = r.choice([c for c in ALL])
            rt = DOUBLE if (a.flt or t2.flt) else LONG
            body += f"    {t2.name} c2 = 1; int z = {r.randrange(2)}; {rt.name} b = z ? a : c2; {out(rt, 'b')}\n"
        elif f == "comp":
            op = r.choice(["+=", "-=", "*="])
            body += f"    {B} b = {r.randint(0, 3)}; b {op} a; {out(b, 'b')}\n"
        elif f == "ainit":
            body += f"    {B} b[3] = {{1, a, {v}}}; {out(b, 'b[0]')} {out(b, 'b[1]')} {out(b, 'b[2]')}\n"
        elif f == "sinit":
            u.d(f"struct {n}S {{ char c; {B} m; short d; }};")
            body += f"    struct {n}S s = {{7, a, -2}}; {out(b, 's.m')} {out(CHAR, 's.c')} {out(SHORT, 's.d')}\n"
        elif f == "chain":
            c = r.choice(ALL)
            body += f"    {B} b; {c.name} c; c = b = a; {out(b, 'b')} {out(c, 'c')}\n"
        elif f == "voidptr":
            body += f"    void *q = (void *) &a; {A} *t = ({A} *) q; {B} b = *t; {out(b, 'b')}\n"
        u.d(f"void {n}t() {{\n{body}}}")
        u.calls.append(f"{n}t();")
    return u


def constexpr(r, depth, names=None):
    """(text, value): an integer constant expression; the value of every subexpression fits in int"""
    if depth <= 0 or r.random() < 0.12:
        v = r.choice([r.randint(0, 9), r.randint(0, 100), r.randint(0, 70000), r.randint(0, 0x7fffffff), 1, 2, 31, 255, 65535, 2147483647])
        if 32 < v < 127 and chr(v) not in "\\'\"" and r.random() < 0.4:
            return f"'{chr(v)}'", v
        if r.random() < 0.06:
            e, v = r.choice([("'\\n'", 10), ("'\\0'", 0), ("'\\xff'", -1), ("'\\177'", 127), ("'\\\\'", 92)])
            return e, v
        return r.choice([str(v), f"0x{v:x}", f"0{v:o}" if v else "0", f"0b{v:b}"]) if r.random() < 0.3 else str(v), v
    while True:
        k = r.random()
        if k < 0.2:
            op = r.choice("-~!+-")
            e, v = constexpr(r, depth - 1)
            v2 = {"-": -v, "~": ~v, "!": int(v == 0), "+": v}[op]
            s = f"{op} ({e})" if r.random() < 0.6 else f"({op} {e})" if re_atom(e) else f"({op} ({e}))"
        elif k < 0.3:
            q, qv = constexpr(r, depth - 1)
            a, av = constexpr(r, depth - 1)
            b, bv = constexpr(r, depth - 1)
            s, v2 = f"(({q}) ? ({a}) : ({b}))", av if qv else bv
        else:
            a, av = constexpr(r, depth - 1)
            b, bv = constexpr(r, depth - 1)
            op = r.choice(["+", "-", "*", "/", "%", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"])
            if op in ("/", "%") and bv == 0 or op in ("<<", ">>") and not 0 <= bv <= 31:
                b, bv = (str(r.randint(1, 12)),) * 2
                bv = int(bv)
            if op == "<<" and av < 0:
                continue
            if op in ("/", "%"):
                q = abs(av) // abs(bv)
                if (av < 0) != (bv < 0):
                    q = -q
            v2 = {"+": lambda: av + bv, "-": lambda: av - bv, "*": lambda: av * bv, "/": lambda: q, "%": lambda: av - q * bv, "<<": lambda: av << bv,
                  ">>": lambda: av >> bv, "&": lambda: av & bv, "|": lambda: av | bv, "^": lambda: av ^ bv, "<": lambda: int(av < bv), ">": lambda: int(av > bv),
                  "<=": lambda: int(av <= bv), ">=": lambda: int(av >= bv), "==": lambda: int(av == bv), "!=": lambda: int(av != bv),
                  "&&": lambda: int(av != 0 and bv != 0), "||": lambda: int(av != 0 or bv != 0)}[op]()
            s = f"(({a}) {op} ({b}))"
        if -0x7fffffff <= v2 <= 0x7fffffff:
            return s, v2


def re_atom(e):
    return e.replace("x", "").isalnum()


def u_const(r, p, ids=None):
    """Constant expressions where the language requires them (enumeration constants, array bounds,
    case labels, initialisers of static storage) against the same expressions evaluated at run time."""
    u = Unit("const")
    u.feats.add("const")
    n = r.randint(3, 7)
    es = [constexpr(r, r.choice([1, 2, 2, 3, 4])) for _ in range(n)]
    items = []
    for i, (e, v) in enumerate(es):
        items.append(f"{p}E{i} = {e}")
        if v < 0x7fffffff and r.random() < 0.4:
            items.append(f"{p}F{i}")
    u.d(f"enum {p}en {{ {', '.join(items)} }};")
    body = "    " + " ".join(f"printf(\"%d \", {x.split(' ')[0]});" for x in items) + "\n"
    for i, (e, v) in enumerate(es):
        t = r.choice([INT, LONG] + ([CHAR, SHORT] if -100 < v < 100 else []))
        u.d(f"{t.name} {p}g{i} = {e};")
        body += f"    printf(\"{FMT[t.name]} \", {p}g{i});\n"
        if r.random() < 0.5:
            body += f"    {{ static {t.name} st = {e}; st++; printf(\"%d \", (int) (st != {p}g{i})); }}\n" if v < 99 or t.size > 1 and v < 0x7fffffff else ""
        m, mv = constexpr(r, 2)
        m, mv = f"((({e}) & 15) + 1)", (v & 15) + 1
        t = r.choice(INTS)
        u.d(f"{t.name} {p}a{i}[{m}];")
        body += f"    {{ {t.name} la[{m}]; printf(\"%d %d \", (int) sizeof({p}a{i}), (int) (sizeof(la) / sizeof la[0])); }}\n"
    vals = {}
    for e, v in es + [constexpr(r, 2) for _ in range(3)]:
        vals.setdefault(v, e)
    probe = list(vals) + [v + 1 for v in vals if v < 0x7fffffff]
    r.shuffle(probe)
    u.d(f"int {p}sw(int x) {{ switch (x) {{ {' '.join(f'case {e}: return {i};' for i, e in enumerate(vals.values()))} }} return -1; }}")
    body += "    " + " ".join(f"printf(\"%d \", {p}sw({ilit(r, v)}));" for v in probe[:10]) + "\n"
    # the same expression with its first literal taken from a variable
    for e, v in es:
        body += f"    {{ int q = {e}; printf(\"%d \", q); }}\n"
    u.d(f"void {p}t() {{\n{body}    printf(\"\\n\");\n}}")
    u.calls.append(f"{p}t();")
    return u


def u_special(r, p, ids=None):
    """Infinities, NaNs, signed zeros, subnormals and values next to rounding boundaries through every
    operator and every way of testing a result.  NaNs are printed as "nan" whatever their payload."""
    u = Unit("special")
    u.feats.add("special")
    u.d(f"double {p}mk(unsigned long b) {{ unsigned long x = b; double *q = (double *) &x; return *q; }}")
    u.d(f"float {p}mkf(unsigned int b) {{ unsigned int x = b; float *q = (float *) &x; return *q; }}")
    u.d(f"void {p}pd(double v) {{ double y = v; unsigned long *q = (unsigned long *) &y; unsigned long b = *q; "
        f"if ((b >> 52 & 2047) == 2047 && (b & 4503599627370495) != 0) printf(\"nan \"); else printf(\"%lx \", b); }}".replace("%lx", "%lu"))
    D = [0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8 << 48, 1, (1 << 63) | 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff,
         0x3ff0 << 48, 0xbff0 << 48, 0x3ff0000000000001, 0x3fefffffffffffff, 0x4340000000000000, 0x433fffffffffffff, 0x3fe0 << 48, 0x47efffffe0000000, 0x47effffff0000000, 0x36a0 << 48, 0x3690 << 48, 0x3810 << 48, 0x3ff0000010000000, 0x3ff0000010000001]
    F = [0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0x3f800000, 0xbf800000, 0x3f800001, 0x3f7fffff, 0x4b800000, 0x4b7fffff, 0x3f000000]

    def v(t):
        if t is DOUBLE:
            b = r.choice(D) if r.random() < 0.85 else r.getrandbits(64)
            return f"{p}mk({b})"
        b = r.choice(F) if r.random() < 0.85 else r.getrandbits(32)
        return f"{p}mkf({b})"
    body = ""
    for k in range(r.randint(6, 12)):
        ta, tb = r.choice(FLTS), r.choice(FLTS)
        a, b = v(ta), v(tb)
        if r.random() < 0.2:
            b = a
            tb = ta
        tc = r.choice(FLTS)
        op = r.choice(["<", "<=", ">", ">=", "==", "!="])
        s = f"    {{ {ta.name} a = {a}; {tb.name} b = {b}; {tc.name} c; "
        if r.random() < 0.15:
            b2 = r.choice(["1.0", "0", "0.0", "1", "-1", "'a'", "2.5"])
        else:
            b2 = "b"
        f = r.randrange(9)
        u.feats.add(f"special:{f}:{op}:{sn(ta)}{sn(tb)}")
        if f == 0:
            s += "printf(\"%d%d%d%d%d%d \", " + ", ".join(f"a {o} {b2}" for o in ("<", "<=", ">", ">=", "==", "!=")) + ");"
        elif f == 1:
            s += f"if (a {op} {b2}) printf(\"T \"); else printf(\"F \");"
        elif f == 2:
            s += f"int n = 0; while (a {op} {b2} && n < 3) n++; do n++; while (!(a {op} {b2}) && n < 7); printf(\"%d \", n);"
        elif f == 3:
            s += f"printf(\"%d%d%d%d \", !(a {op} {b2}), (a {op} {b2}) && a, a || (b {op} a), (a {op} {b2}) ? 3 : 4);"
        elif f == 4:
            s += f"printf(\"%d%d%d \", !a, a ? 1 : 2, !!b); if (a) printf(\"t\"); while (b) {{ printf(\"w\"); break; }}"
        elif f == 5:
            s += " ".join(f"c = a {o} {b2}; {p}pd(c);" for o in r.sample(["+", "-", "*"], 2)) + f" c = -a; {p}pd(c); c = +b; {p}pd(c);"
            if b2 == "b":
                s += f" if (b != 0) {{ c = a / b; {p}pd(c); }}"
        elif f == 6:
            s += f"c = a; {p}pd(c); c = b; {p}pd(c); float x = a; {p}pd(x); double y = x; {p}pd(y);"
        elif f == 7:
            s += f"c = b; c {r.choice(['+=', '-=', '*='])} a; {p}pd(c); c = a; c{r.choice(['++', '--'])}; {p}pd(c); {p}pd(c {r.choice(['+', '-', '*'])} (a {op} b));"
        else:
            s += f"c = (a {op} b) ? a : b; {p}pd(c); for (int n = 0; n < 2 && a {op} b; n++) printf(\"f\"); printf(\"%d \", (a {op} b) + (b {op} a));"
        body += s + " }\n"
    # integers next to rounding boundaries
    for k in range(3):
        t = r.choice([LONG, ULONG, INT, UINT])
        x = (1 << r.choice([24, 25, 31, 53, 54, 62])) + r.choice([-1, 0, 1, 2, 3]) + (r.getrandbits(60) & r.choice([0, 0, 0xff]))
        x &= t.max
        if r.random() < 0.6:
            x = abs(tie(r, t, r.choice(FLTS)))
        body += f"    {{ {t.name} x = {x}; {p}pd((double) x); {p}pd((float) x); float g = x; double h = x; {p}pd(g - h); }}\n"
    u.d(f"void {p}t() {{\n{body}    printf(\"\\n\");\n}}")
    u.calls.append(f"{p}t();")
    return u
