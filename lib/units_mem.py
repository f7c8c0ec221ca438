"""Units about objects in memory: arrays, structs, unions, pointers, strings, globals."""
from cgen import *
from units_expr import FMT, sn, promote


class Leaf:
    """A scalar sub-object with a shadow description: type + how to name it."""

    def __init__(self, ty, routes):
        self.ty, self.routes = ty, routes


def small(r, t):
    if t.flt:
        return f"{r.randint(-50, 50)}.{r.choice(['0', '5', '25', '125'])}"
    return str(max(t.min, min(t.max, r.randint(-100, 120)))) if r.random() < 0.7 else ilit(r, rint(r, t))


def pr(t, e, tag):
    if t.flt:
        return f"printf(\"{tag}%ld \", (long) ({e} * 8));"
    return f"printf(\"{tag}{FMT[t.name]} \", {e});"


class MemGen:
    def __init__(self, r, p, u):
        self.r, self.p, self.u = r, p, u
        self.n = 0
        self.structs = {}      # name -> list of (member, type)
        self.order = []

    def fresh(self, s="v"):
        self.n += 1
        return f"{self.p}{s}{self.n}"

    # ---- types: ("s", Ty) ("a", elem, n) ("st", name) ("un", name) ("p", Ty) pointer to scalar
    def scalar(self):
        return self.r.choice(INTS + INTS + FLTS)

    def rtype(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.35:
            return ("s", self.scalar())
        if c < 0.42:
            return ("un", self.mkunion())
        if c < 0.65:
            return ("a", self.rtype(d - 1), r.choice([1, 2, 3, 4, 5]))
        if c < 0.9 or not self.structs:
            if self.structs and r.random() < 0.4:
                return ("st", r.choice(list(self.structs)))
            return ("st", self.mkstruct(d - 1))
        return ("st", r.choice(list(self.structs)))

    def mkstruct(self, d):
        name = self.fresh("S")
        ms = [(f"m{i}", self.rtype(d)) for i in range(self.r.randint(1, 5))]
        if self.r.random() < 0.25:
            ms.insert(self.r.randint(0, len(ms)), ("un", ("un", self.mkunion())))
        self.structs[name] = ms
        self.u.d(f"struct {name} {{ " + " ".join(self.decl(t, m) + ";" for m, t in ms) + " };")
        return name

    def mkunion(self):
        """Members: scalars, arrays, structures of any size in any order; one of them, chosen at
        random, is the one in use."""
        r = self.r
        name = self.fresh("U")
        ms = []
        for t in r.sample(INTS + FLTS, r.randint(1, 4)):
            c = r.random()
            if c < 0.6:
                ms.append(("x" + sn(t), ("s", t)))
            elif c < 0.8 or not self.structs:
                ms.append(("x" + sn(t), ("a", ("s", t), r.randint(1, 4))))
            else:
                ms.append(("x" + sn(t), ("st", r.choice(list(self.structs)))))
        if len(ms) < 2:
            ms.append(("xlast", ("s", r.choice(INTS))))
        self.unions = getattr(self, "unions", {})
        self.unions[name] = r.choice(ms)
        self.u.d(f"union {name} {{ " + " ".join(self.decl(t, m) + ";" for m, t in ms) + " };")
        self.u.feats.add("union")
        self.u.feats.add("union:" + "".join(t[0][0] for _, t in ms))
        return name

    def base(self, t):
        return {"s": lambda: t[1].name, "st": lambda: "struct " + t[1], "un": lambda: "union " + t[1], "p": lambda: t[1].name + " *"}[t[0]]()

    def decl(self, t, n):
        dims = ""
        while t[0] == "a":
            dims += f"[{t[2]}]"
            t = t[1]
        return f"{self.base(t)} {n}{dims}"

    def leaves(self, t, path):
        """All (scalar type, access path) below an lvalue of type t."""
        if t[0] == "s":
            yield t[1], path
        elif t[0] == "a":
            for i in range(t[2]):
                yield from self.leaves(t[1], path + [("i", i)])
        elif t[0] == "st":
            for m, mt in self.structs[t[1]]:
                yield from self.leaves(mt, path + [("m", m, mt)])
        elif t[0] == "un":
            m, mt = self.unions[t[1]]
            yield from self.leaves(mt, path + [("m", m, mt)])

    def render(self, root, path, idx):
        """Spell one access to root followed by path. idx: value -> names of int variables holding it."""
        r = self.r
        kind, name = root
        s, ptr = name, kind == "ptr"       # ptr: s is a pointer to the current object
        for k, st in enumerate(path):
            if st[0] == "i":
                i = st[1]
                it = r.choice(idx[i]) if i in idx and r.random() < 0.5 else str(i)
                if r.random() < 0.15:
                    j = r.randint(0, i)
                    it = f"{it} - {j} + {j}" if it != str(i) else f"{i - j} + {j}"
                if ptr:
                    s, ptr = f"(*{s})", False
                c = r.random()
                if c < 0.65:
                    s = f"{s}[{it}]"
                elif c < 0.85:
                    s = f"(*({s} + {it}))"
                    self.u.feats.add("*(a+i)")
                elif c < 0.93:
                    s = f"(&{s}[{it}])[0]"
                    self.u.feats.add("(&a[i])[0]")
                else:
                    s = f"(*&{s}[{it}])"
                    self.u.feats.add("*&a[i]")
            else:
                if ptr:
                    s = r.choice([f"{s}->{st[1]}", f"(*{s}).{st[1]}"])
                    ptr = False
                    self.u.feats.add("->")
                else:
                    s = f"{s}.{st[1]}" if r.random() < 0.85 else f"(&{s})->{st[1]}"
        return f"(*{s})" if ptr else s


def u_memory(r, p, ids=None, nobj=None, nst=None):
    u = Unit("memory")
    g = MemGen(r, p, u)
    objs = []          # (name, type, where)
    for _ in range(nobj or r.randint(2, 4)):
        t = g.rtype(r.choice([1, 2, 2, 3]))
        if len(list(g.leaves(t, []))) > 60:
            t = ("a", ("s", g.scalar()), 5)
        objs.append([g.fresh("o"), t, r.choice(["global", "local", "local", "vla"]) if t[0] == "a" and t[1][0] == "s" else r.choice(["global", "local"])])
    body = []
    L = body.append
    for o in objs:
        if o[2] == "global":
            u.d(g.decl(o[1], o[0]) + ";")
        elif o[2] == "vla":
            u.feats.add("vla")
            L(f"int {o[0]}n = {o[1][2]}; {g.base(o[1][1])} {o[0]}[{o[0]}n];")
        else:
            L(g.decl(o[1], o[0]) + ";")
    idx = {}
    for v in range(5):
        nm = f"ix{v}"
        ty = r.choice(["int", "int", "char", "unsigned char", "long", "unsigned int", "short"])
        L(f"{ty} {nm} = {v};")
        idx.setdefault(v, []).append(nm)
        u.feats.add("index:" + ty)
    roots = {}
    for nm, t, where in objs:
        roots[nm] = [("obj", nm)]
        if t[0] in ("st", "s"):
            q = g.fresh("q")
            L(f"{g.base(t)} *{q} = &{nm};")
            roots[nm].append(("ptr", q))
            u.feats.add("ptr-to-" + t[0])
            if r.random() < 0.3:
                qq = g.fresh("qq")
                L(f"{g.base(t)} **{qq} = &{q};")
                roots[nm].append(("ptr", f"(*{qq})"))
                u.feats.add("ptr-to-ptr")
        elif t[1][0] in ("s", "st"):
            q = g.fresh("q")
            L(f"{g.base(t[1])} *{q} = {nm};" if r.random() < 0.6 else f"{g.base(t[1])} *{q} = &{nm}[0];")
            roots[nm].append(("obj", q))      # q[i] works as the array does
            u.feats.add("ptr-to-elem")
            k = r.randint(0, t[2] - 1)
            q2 = g.fresh("q")
            L(f"{g.base(t[1])} *{q2} = {nm} + {k};")
            roots[nm].append(("off", q2, k))
            if r.random() < 0.3:
                q3 = g.fresh("q")
                L(f"void *{q3} = {nm};")
                roots[nm].append(("obj", f"(({g.base(t[1])} *) {q3})"))
                u.feats.add("void*")

    all_leaves = [(nm, lt, path) for nm, t, _ in objs for lt, path in g.leaves(t, [])]

    def access(nm, path):
        root = r.choice(roots[nm])
        if root[0] == "off":
            i = path[0][1] - root[2]
            it = str(i) if i >= 0 else f"-{-i}"
            u.feats.add("ptr-offset")
            base = r.choice([f"{root[1]}[{it}]", f"(*({root[1]} + {it}))" if i >= 0 else f"(*({root[1]} - {-i}))"])
            return g.render(("obj", base), path[1:], idx)
        return g.render(root, path, idx)

    # initialise every leaf (any order)
    ini = list(all_leaves)
    r.shuffle(ini)
    for nm, lt, path in ini:
        L(f"{access(nm, path)} = {small(r, lt)};")
    helper = set()

    def swapfn(t):
        fn = f"{p}swap_{sn(t)}"
        if fn not in helper:
            helper.add(fn)
            u.d(f"void {fn}({t.name} *a, {t.name} *b) {{ {t.name} t = *a; *a = *b; *b = t; }}")
        return fn

    def incfn(t):
        fn = f"{p}inc_{sn(t)}"
        if fn not in helper:
            helper.add(fn)
            u.d(f"{t.name} {fn}({t.name} *a, int d) {{ *a = *a + d; return *a; }}")
        return fn

    def sumfn(t):
        fn = f"{p}sum_{sn(t)}"
        if fn not in helper:
            helper.add(fn)
            arr = r.choice([f"{t.name} *a", f"{t.name} a[]"])
            u.d(r.choice([
                f"long {fn}({arr}, int n) {{ long s = 0; int i; for (i = 0; i < n; i++) {{ s = s * 3 + (long) a[i]; }} return s; }}",
                f"long {fn}({arr}, int n) {{ long s = 0; {t.name} *e = a + n; while (a < e) {{ s = s * 3 + (long) *a++; }} return s; }}",
                f"long {fn}({arr}, int n) {{ long s = 0; while (n-- > 0) {{ s = s * 3 + (long) *a; a += 1; }} return s; }}"]))
        return fn
    safe = lambda e, t: f"({e} % 50)" if not t.flt and t.size >= 4 else e
    for _ in range(nst or r.randint(8, 20)):
        nm, lt, path = r.choice(all_leaves)
        c = r.random()
        same = [x for x in all_leaves if x[1] is lt]
        if c < 0.25:
            L(f"{access(nm, path)} = {small(r, lt)};")
        elif c < 0.45:
            n2, t2, p2 = r.choice([x for x in all_leaves if not (x[1].flt and not lt.flt)] or same)
            L(f"{access(nm, path)} = {access(n2, p2)};")
            u.feats.add(f"copy {sn(t2)}>{sn(lt)}")
        elif c < 0.55:
            op = r.choice(["+=", "-="]) if lt.flt else r.choice(["^=", "|=", "&="] + (["+=", "-="] if not lt.signed or lt.size < 4 else []))
            L(f"{access(nm, path)} {op} {r.randint(0, 20)};")
            u.feats.add("compound")
        elif c < 0.62 and (not lt.signed or lt.size < 4 or lt.flt):
            a = access(nm, path)
            L(r.choice([f"({a})++;", f"--({a});", f"++({a});"]))
            u.feats.add("incdec-mem")
        elif c < 0.72 and len(same) > 1:
            a, b = r.sample(same, 2)
            L(f"{swapfn(lt)}(&{access(a[0], a[2])}, &{access(b[0], b[2])});")
            u.feats.add("swap")
        elif c < 0.8 and (not lt.signed or lt.size < 4):
            L(pr(lt, f"{incfn(lt)}(&{access(nm, path)}, {r.randint(0, 5)})", "i"))
            u.feats.add("inc-by-ptr")
        elif c < 0.9:
            o = r.choice(objs)
            if o[1][0] == "a" and o[1][1][0] == "s":
                t = o[1][1][1]
                if not t.flt:
                    k = r.randint(0, o[1][2])
                    base = f"(int) " if False else ""
                    if t.size < 8:
                        L(f"printf(\"s%ld \", {sumfn(t)}({r.choice([o[0], '&' + o[0] + '[0]'])}, {k}));")
                        u.feats.add("array-arg")
            elif o[1][0] == "a":
                a, b = r.randint(0, o[1][2] - 1), r.randint(0, o[1][2] - 1)
                L(f"printf(\"d%d \", (int) (&{o[0]}[{a}] - &{o[0]}[{b}])); printf(\"c%d \", &{o[0]}[{a}] {r.choice(['<', '>=', '==', '!='])} &{o[0]}[{b}]);")
                u.feats.add("ptrdiff")
        else:
            # a pointer to the leaf, stored, used twice
            q = g.fresh("q")
            L(f"{lt.name} *{q} = &{access(nm, path)}; *{q} = {small(r, lt)}; {pr(lt, access(nm, path), 'q')}")
            u.feats.add("ptr-to-leaf")
    for nm, lt, path in all_leaves:
        L(pr(lt, access(nm, path), ""))
    for nm, t, where in objs:
        if t[0] == "a" and t[1][0] == "s" and where != "vla":
            L(f"printf(\"z%d \", (int) sizeof({nm}));")
    L('printf("\\n");')
    k = r.randrange(2)
    u.d(f"void {p}run({'int pa, char pb' if k else ''}) {{\n  " + "\n  ".join(body) + "\n}")
    u.calls.append(f"{p}run({'5, 6' if k else ''});")
    return u


def u_bytes(r, p, ids=None):
    """Raw byte views of scalars and arrays (little endian, two's complement), unions as views."""
    u = Unit("bytes")
    L = []
    n = 0
    for _ in range(r.randint(3, 6)):
        t = r.choice(ALL)
        n += 1
        v = flit(r, t) if t.flt else ilit(r, rint(r, t))
        c = r.randrange(6)
        if c == 0:
            L.append(f"{t.name} a{n} = {v}; unsigned char *b{n} = (unsigned char *) &a{n}; int i{n}; for (i{n} = 0; i{n} < {t.size}; i{n}++) printf(\"%d,\", b{n}[i{n}]);")
            u.feats.add("bytes-of " + sn(t))
        elif c == 1:
            k = r.randint(2, 4)
            L.append(f"{t.name} a{n}[{k}]; int i{n}; char *b{n} = (char *) a{n}; for (i{n} = 0; i{n} < {k * t.size}; i{n}++) b{n}[i{n}] = (i{n} * {r.randint(1, 40)} + {r.randint(0, 60)}) & 63;")
            if not t.flt:
                L.append(f"for (i{n} = 0; i{n} < {k}; i{n}++) printf(\"{FMT[t.name]},\", a{n}[i{n}]);")
            u.feats.add("bytes-to " + sn(t))
        elif c == 2:
            t2 = r.choice(INTS)
            if t2.size > t.size:
                t2 = UCHAR
            u.d(f"union {p}U{n} {{ {t.name} x; {t2.name} y[{max(1, t.size // t2.size)}]; unsigned char z[{t.size}]; }};")
            L.append(f"union {p}U{n} a{n}; a{n}.x = {v}; int i{n}; for (i{n} = 0; i{n} < {max(1, t.size // t2.size)}; i{n}++) printf(\"{FMT[t2.name]},\", a{n}.y[i{n}]); a{n}.z[{t.size - 1}] = {r.randint(0, 63)}; ")
            if not t.flt:
                L.append(f"printf(\"{FMT[t.name]},\", a{n}.x); printf(\"%d,\", (int) sizeof(union {p}U{n}));")
            u.feats.add("union-view " + sn(t) + " " + sn(t2))
        elif c == 3:
            # neighbours must not be disturbed by a narrow store
            t = r.choice(INTS)
            L.append(f"{t.name} a{n}[5] = {{1, 2, 3, 4, 5}}; a{n}[{r.randint(1, 3)}] = {ilit(r, rint(r, LONG))}; printf(\"{FMT[t.name]} {FMT[t.name]} {FMT[t.name]} {FMT[t.name]} {FMT[t.name]},\", a{n}[0], a{n}[1], a{n}[2], a{n}[3], a{n}[4]);")
            u.feats.add("narrow-store " + sn(t))
        elif c == 4:
            # addresses as integers: differences and round trips
            t, k, m = r.choice(INTS), r.randint(2, 5), r.randint(2, 4)
            ci = r.choice(["long", "unsigned long"])
            L.append(f"{t.name} a{n}[{k}]; {t.name} m{n}[{m}][{k}]; {t.name} *q{n}; int i{n}; for (i{n} = 0; i{n} < {k}; i{n}++) {{ a{n}[i{n}] = i{n} * 3 + 1; m{n}[{m - 1}][i{n}] = i{n} + 40; }}")
            L.append(f"printf(\"%ld %ld %ld,\", (long) (({ci}) &a{n}[{k - 1}] - ({ci}) a{n}), (long) (({ci}) m{n}[{m - 1}] - ({ci}) m{n}), (long) (({ci}) (a{n} + 1) - ({ci}) &a{n}));")
            L.append(f"q{n} = ({t.name} *) (({ci}) a{n} + {t.size * (k - 1)}); printf(\"%d %d %d,\", (int) *q{n}, (int) *({t.name} *) ({ci}) m{n}[{m - 1}], q{n} == a{n} + {k - 1});")
            L.append(f"printf(\"%d %d,\", ((unsigned char *) a{n})[0], *(char *) (({ci}) a{n} + {t.size * r.randrange(k)}));")
            u.feats.add("address-integers " + sn(t))
        else:
            t = r.choice(INTS)
            L.append(f"{t.name} a{n} = {v if not 'e' in v and '.' not in v else 3}; {t.name} c{n} = 1; {t.name} *q{n} = &a{n}; *q{n} = {ilit(r, rint(r, t))}; printf(\"{FMT[t.name]} {FMT[t.name]},\", a{n}, c{n});")
    L.append('printf("\\n");')
    u.d(f"void {p}run() {{\n  " + "\n  ".join(L) + "\n}")
    u.calls.append(f"{p}run();")
    return u


def u_list(r, p, ids=None):
    """Pointer-linked structures in static or local arrays of nodes, and pointer arithmetic walks."""
    u = Unit("list")
    n = r.randint(3, 9)
    kt = r.choice([CHAR, SHORT, INT, LONG, UCHAR, USHORT])
    kind = r.choice(["list", "tree", "sort", "matrix", "stack", "ptrarray"])
    u.feats.add("structure:" + kind)
    vals = [r.randint(0, 99) for _ in range(n)]
    where = r.choice(["global", "local"])
    if kind == "list":
        u.d(f"struct {p}N {{ {kt.name} v; struct {p}N *next; {r.choice(['char', 'long', 'short'])} pad; }};")
        if where == "global":
            u.d(f"struct {p}N {p}n[{n}];")
        u.d(f"int {p}len(struct {p}N *h) {{ {r.choice(['int k = 0; while (h) { k++; h = h->next; } return k;', 'if (!h) return 0; return 1 + ' + p + 'len(h->next);', 'int k; for (k = 0; h != (void *) 0; h = h->next) k++; return k;'])} }}")
        u.d(f"struct {p}N *{p}rev(struct {p}N *h) {{ struct {p}N *q = (void *) 0; while (h) {{ struct {p}N *t = h->next; h->next = q; q = h; h = t; }} return q; }}")
        b = (f"struct {p}N {p}n[{n}];\n" if where == "local" else "") + f"struct {p}N *h = (void *) 0; int i;\n"
        for i, v in enumerate(vals):
            b += f"{p}n[{i}].v = {v}; {p}n[{i}].pad = {i}; {p}n[{i}].next = h; h = {r.choice(['&', ''])}{p}n{'[' + str(i) + ']' if True else ''};\n".replace(f"h = {p}n[{i}]", f"h = {p}n + {i}")
        b += f"struct {p}N *c; for (c = h; c; c = c->next) printf(\"%d:%d \", (int) c->v, (int) c->pad); printf(\"L%d \", {p}len(h)); h = {p}rev(h); for (c = h; c; c = c->next) printf(\"%d \", (int) c->v); if (h->next) printf(\"%d \", (int) h->next->v);"
    elif kind == "tree":
        u.d(f"struct {p}N {{ struct {p}N *l; {kt.name} v; struct {p}N *r; }};")
        u.d(f"struct {p}N {p}n[{n}]; int {p}k;")
        u.d(f"struct {p}N *{p}ins(struct {p}N *t, int v) {{ if (!t) {{ t = &{p}n[{p}k++]; t->v = v; t->l = (void *) 0; t->r = (void *) 0; return t; }} if (v < t->v) t->l = {p}ins(t->l, v); else t->r = {p}ins(t->r, v); return t; }}")
        u.d(f"void {p}walk(struct {p}N *t, int d) {{ if (t) {{ {p}walk(t->l, d + 1); printf(\"%d@%d \", (int) t->v, d); {p}walk(t->r, d + 1); }} }}")
        b = f"struct {p}N *root = (void *) 0; {p}k = 0;\n" + "".join(f"root = {p}ins(root, {v});\n" for v in vals) + f"{p}walk(root, 0);"
    elif kind == "sort":
        u.d(f"void {p}sort({kt.name} *a, int n) {{ " + r.choice([
            f"int i; int j; for (i = 0; i < n; i++) for (j = 0; j + 1 < n - i; j++) if (a[j] > a[j + 1]) {{ {kt.name} t = a[j]; a[j] = a[j + 1]; a[j + 1] = t; }}",
            f"int i; for (i = 1; i < n; i++) {{ {kt.name} v = a[i]; int j = i - 1; while (j >= 0 && a[j] > v) {{ a[j + 1] = a[j]; j--; }} a[j + 1] = v; }}",
            f"if (n > 1) {{ {kt.name} pv = a[n - 1]; int i = 0; int j; for (j = 0; j < n - 1; j++) if (a[j] < pv) {{ {kt.name} t = a[i]; a[i] = a[j]; a[j] = t; i++; }} a[n - 1] = a[i]; a[i] = pv; {p}sort(a, i); {p}sort(a + i + 1, n - i - 1); }}"]) + " }")
        b = f"{kt.name} a[{n}] = {{{', '.join(map(str, vals))}}}; int i; {p}sort(a, {n}); for (i = 0; i < {n}; i++) printf(\"%d \", (int) a[i]);"
    elif kind == "matrix":
        a, m, c = r.randint(2, 4), r.randint(2, 4), r.randint(2, 4)
        b = f"{kt.name} x[{a}][{m}]; {kt.name} y[{m}][{c}]; long z[{a}][{c}]; int i; int j; int k;\n"
        b += f"for (i = 0; i < {a}; i++) for (j = 0; j < {m}; j++) x[i][j] = (i * {r.randint(1, 5)} + j) % 7;\nfor (i = 0; i < {m}; i++) for (j = 0; j < {c}; j++) y[i][j] = (i + j * {r.randint(1, 5)}) % 5;\n"
        b += f"for (i = 0; i < {a}; i++) for (j = 0; j < {c}; j++) {{ z[i][j] = 0; for (k = 0; k < {m}; k++) z[i][j] += x[i][k] * y[k][j]; }}\nfor (i = 0; i < {a}; i++) for (j = 0; j < {c}; j++) printf(\"%ld \", z[i][j]);"
    elif kind == "stack":
        u.d(f"{kt.name} {p}st[{n}]; {kt.name} *{p}sp = {p}st;" if False else f"{kt.name} {p}st[{n}]; int {p}sp = 0;")
        u.d(f"void {p}push({kt.name} v) {{ {p}st[{p}sp++] = v; }} {kt.name} {p}pop() {{ return {p}st[--{p}sp]; }}")
        b = ""
        d = 0
        for i in range(20):
            if d < n and (d == 0 or r.random() < 0.55):
                b += f"{p}push({r.randint(0, 99)}); "
                d += 1
            else:
                b += f"printf(\"%d \", (int) {p}pop()); "
                d -= 1
    else:
        b = f"{kt.name} a[{n}] = {{{', '.join(map(str, vals))}}}; {kt.name} *q[{n}]; int i; {kt.name} **qq = q;\nfor (i = 0; i < {n}; i++) q[i] = a + ({n} - 1 - i);\nfor (i = 0; i < {n}; i++) {{ *q[i] += 1; printf(\"%d \", (int) **(qq + i)); }}\n*qq[0] = 7; printf(\"%d %d\", (int) a[{n - 1}], (int) (q[0] - q[{n - 1}]));"
    b += '\nprintf("\\n");'
    u.d(f"void {p}run() {{\n{b}\n}}")
    u.calls.append(f"{p}run();")
    return u


def u_locals(r, p, ids=None, rounds=None):
    """Objects of block scope wherever a block can be entered: loop bodies run many times, switch bodies
    before the first label, blocks entered by goto past the declaration, branches, nested blocks,
    recursion; fixed-size arrays, structures, unions, arrays with initialisers, one array of variable length."""
    u = Unit("locals")
    k = [0]
    u.d(f"struct {p}S {{ char c; {r.choice(INTS).name} m[3]; long l; }};")
    u.d(f"long {p}sum; void {p}add(long v) {{ {p}sum = ({p}sum * 31 + v) & 1048575; }}")

    def obj(d):
        """(declaration, [statements that fill it], [scalars to read back])"""
        k[0] += 1
        v = f"o{k[0]}"
        t = r.choice(INTS)
        c = r.random()
        if c < 0.45:
            n = r.choice([1, 2, 3, 5, 8, 20, 60])
            return f"{t.name} {v}[{n}];", [f"for (int q = 0; q < {n}; q++) {v}[q] = (q * 3 + i) & 63;"] if r.random() < 0.6 else [f"{v}[{j}] = (i + {j}) & 31;" for j in sorted({0, n - 1, n // 2})], [f"{v}[{j}]" for j in sorted({0, n - 1, n // 2})], t
        if c < 0.6:
            n = r.randint(2, 5)
            return f"{t.name} {v}[{r.choice(['', str(n)])}] = {{{', '.join(r.choice([str(r.randint(0, 99)), 'i & 7', '(i + 1) & 15']) for _ in range(n))}}};", [f"{v}[{r.randrange(n)}] += 1;"], [f"{v}[{j}]" for j in range(n)], t
        if c < 0.72:
            return f"struct {p}S {v};", [f"{v}.c = i & 63; {v}.m[0] = 1; {v}.m[2] = i & 15; {v}.l = i;"], [f"{v}.c", f"{v}.m[2]", f"{v}.l"], LONG
        if c < 0.82:
            return f"struct {p}S {v}[2];", [f"{v}[0].c = 1; {v}[1].c = i & 31; {v}[1].l = i; {v}[0].m[1] = 5;"], [f"{v}[1].c", f"{v}[0].m[1]", f"{v}[1].l"], LONG
        if c < 0.92:
            a, b = r.randint(1, 4), r.randint(1, 4)
            return f"{t.name} {v}[{a}][{b}];", [f"for (int q = 0; q < {a}; q++) for (int w = 0; w < {b}; w++) {v}[q][w] = q * 5 + w + (i & 3);"], [f"{v}[{a - 1}][{b - 1}]", f"{v}[0][0]", f"{v}[{a - 1}][0]"], t
        return f"char {v}[] = \"{''.join(r.choice('abcdef') for _ in range(r.randint(0, 9)))}\";", [f"{v}[0] = 'A' + (i & 7);"], [f"{v}[0]"], CHAR

    def use(d):
        """a block with its own objects, read back after nested blocks have run"""
        s, rd = "", []
        late = []
        for _ in range(r.choice([1, 1, 2])):
            dc, fill, reads, t = obj(d)
            s += dc + " "
            (late if r.random() < 0.3 and "=" not in dc else [None]).append(None)
            s += " ".join(fill) + " "
            rd += reads
        if d and r.random() < 0.7:
            s += stmt(d - 1)
        if r.random() < 0.3:
            s += f"{p}add({rd[0]}); "
        s += " ".join(f"{p}add({x});" for x in rd)
        return s

    def stmt(d):
        c = r.randrange(9)
        u.feats.add(f"block:{c}")
        if c == 0:
            return f"{{ {use(d)} }}\n"
        if c == 1:
            k[0] += 1
            return f"for (int j{k[0]} = 0; j{k[0]} < {r.randint(1, 4)}; j{k[0]}++) {{ {use(d)} if ({p}sum & {r.choice([1, 2, 4])}) {r.choice(['continue', 'break'])}; {p}add(3); }}\n"
        if c == 2:
            k[0] += 1
            return f"int z{k[0]} = 0; while (z{k[0]}++ < {r.randint(1, 3)}) {{ {use(d)} }}\n" if d >= 1 else f"if (i & 1) {{ {use(d)} }}\n"
        if c == 3:
            dc, fill, reads, t = obj(d)
            while "=" in dc:
                dc, fill, reads, t = obj(d)
            f, rd = " ".join(fill), " ".join(f"{p}add({x});" for x in reads)
            return f"switch (i % 3) {{ {dc} case 0: {f} {rd} {r.choice(['break;', ''])} case 1: {f} {rd} break; default: {{ {use(0)} }} }}\n"
        if c == 4:
            k[0] += 1
            g = f"{p}g{k[0]}"
            dc, fill, reads, t = obj(d)
            while "=" in dc:
                dc, fill, reads, t = obj(d)
            return f"if (i & 1) goto {g}; {p}add(1); {{ {dc} {p}add(2); {g}: {' '.join(fill)} {' '.join(f'{p}add({x});' for x in reads)} }}\n"
        if c == 5:
            return f"if (i % 3 == 0) {{ {use(d)} }} else {{ {use(d)} }}\n"
        if c == 6:
            k[0] += 1
            kk = k[0]
            g = f"{p}b{kk}"
            return f"int w{kk} = 0; {g}: w{kk}++; {{ {use(0)} }} if (w{kk} < {r.randint(1, 3)}) goto {g};\n"
        if c == 7:
            k[0] += 1
            kk = k[0]
            return f"int y{kk} = 0; do {{ {use(d)} if (y{kk} == 1) continue; {p}add(y{kk}); }} while (++y{kk} < {r.randint(1, 3)});\n"
        return f"switch (i & 3) {{ case 0: {{ {use(d)} }} case 2: {{ {use(d)} break; }} case 1: ; {use(0)} }}\n"
    n = rounds or r.choice([3, 7, 40, 300])
    body = ""
    dc, fill, reads, t = obj(0)
    outer = "" if "=" in dc else dc
    if outer:
        body += "int i = 5; " + outer + " " + " ".join(fill) + "\n"
    else:
        body += "int i;\n"
    if r.random() < 0.25:
        k[0] += 1
        u.feats.add("vla")
        vt = r.choice(INTS).name
        body += f"int n{k[0]} = {r.randint(1, 9)}; {vt} vl[n{k[0]}]; vl[n{k[0]} - 1] = 7; vl[0] = 7;\n"
        reads = reads + ["vl[0]"]
        if not outer:
            reads = ["vl[0]"]
            outer = "v"
    body += f"for (i = 0; i < {n}; i++) {{\n" + "".join(stmt(2) for _ in range(r.randint(1, 3))) + "}\n"
    if outer:
        body += " ".join(f"printf(\"%ld \", (long) {x});" for x in reads)
    u.d(f"void {p}run() {{\n{body}\nprintf(\"%ld\\n\", {p}sum);\n}}")
    u.calls.append(f"{p}run();")
    if r.random() < 0.3:
        u.calls.append(f"{p}run();")
    return u
