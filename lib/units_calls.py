"""Units about functions: parameters, results, recursion, frames, tail calls."""
from cgen import *
from units_expr import FMT, sn


def num(r, t):
    if t.flt:
        return f"{r.randint(-999, 999)}.{r.choice(['0', '5', '25', '75'])}"
    return ilit(r, rint(r, t))


def show(t, e, tag=""):
    """statement printing a value exactly"""
    if t.flt:
        return f"printf(\"{tag}%ld \", (long) ({e} * 4));"
    return f"printf(\"{tag}{FMT[t.name]} \", {e});"


def small(r, t):
    if t.flt:
        return f"{r.randint(-99, 99)}.{r.choice(['0', '5', '25', '75'])}"
    lo = 0 if not t.signed else -100
    return str(r.randint(lo, 100))


def u_params(r, p, ids=None):
    """Functions of random signatures: all argument values, the order they arrive in, results of
    every type, results used in every position, callers' locals surviving the calls."""
    u = Unit("params")
    n = r.randint(3, 6)
    sigs = []
    protos = r.random() < 0.6
    defs = []
    for k in range(n):
        np = r.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 8, 12])
        pts = [r.choice(ALL) for _ in range(np)]
        rt = r.choice(ALL + [None])
        name = f"{p}f{k}"
        sigs.append((name, rt, pts))
        plist = ", ".join(f"{r.choice(t.spell) if t is not CHAR else "char"} a{i}" for i, t in enumerate(pts)) or r.choice(["", "void"])
        rts = rt.name if rt else "void"
        if protos:
            if r.random() < 0.5 and pts:
                u.d(f"{rts} {name}({', '.join(t.name for t in pts)});")
            else:
                u.d(f"{rts} {name}({plist});")
        b = f"{rts} {name}({plist}) {{\n"
        # locals of random types interleaved
        loc = []
        for j in range(r.randint(0, 4)):
            t = r.choice(ALL)
            loc.append((f"l{j}", t, small(r, t)))
            b += f"    {t.name} l{j} = {loc[-1][2]};\n"
        arr = r.random() < 0.35
        if arr:
            at = r.choice(INTS)
            an = r.randint(1, 9)
            b += f"    {at.name} arr[{an}]; int q; for (q = 0; q < {an}; q++) arr[q] = q + {r.randint(0, 9)};\n"
        for i, t in enumerate(pts):
            b += f"    {show(t, f'a{i}', f'a{i}=')}\n"
        # modify a parameter (by value: the caller's object must not change)
        for i, t in enumerate(pts):
            if r.random() < 0.3:
                b += f"    a{i} = {small(r, t)};\n"
        # nested calls to earlier-numbered functions
        if k and (protos or True):
            for _ in range(r.randint(0, 2)):
                cn, crt, cpts = sigs[r.randrange(k)]
                args = []
                for ct in cpts:
                    same = [f"a{i}" for i, t in enumerate(pts) if t is ct] + [f"l{i}" for i, (_, t, _) in enumerate(loc) if t is ct]
                    args.append(r.choice(same) if same and r.random() < 0.6 else num(r, ct) if not ct.flt else small(r, ct))
                call = f"{cn}({', '.join(args)})"
                if crt is None:
                    b += f"    {call};\n"
                elif r.random() < 0.3:
                    b += f"    {call};\n"
                else:
                    b += f"    {show(crt, call, 'r=')}\n"
        for nm, t, _ in loc:
            if r.random() < 0.7:
                b += f"    {show(t, nm, nm + '=')}\n"
        if arr:
            b += f"    for (q = 0; q < {an}; q++) {show(at, 'arr[q]')}\n"
        b += "    printf(\"\\n\");\n"
        if rt:
            cand = [f"a{i}" for i, t in enumerate(pts) if t is rt] + [nm for nm, t, _ in loc if t is rt]
            b += f"    return {r.choice(cand) if cand and r.random() < 0.7 else num(r, rt) if not rt.flt else small(r, rt)};\n"
        elif r.random() < 0.3:
            b += "    return;\n"
        b += "}"
        defs.append(b)
        u.feats.add(f"nparams={np}")
        u.feats.add("ret:" + (sn(rt) if rt else "void"))
        for t in pts:
            u.feats.add("param:" + sn(t))
    if protos:
        r.shuffle(defs)
        u.feats.add("prototypes")
    for d in defs:
        u.d(d)
    # a driver with its own live locals around nested argument calls
    b = f"void {p}run() {{\n"
    keep = []
    for j in range(r.randint(2, 6)):
        t = r.choice(ALL)
        v = small(r, t)
        keep.append((f"k{j}", t))
        b += f"    {t.name} k{j} = {v};\n"
    for _ in range(r.randint(3, 7)):
        cn, crt, cpts = r.choice(sigs)
        args = []
        pre = ""
        nest = 0
        for ct in cpts:
            c = r.random()
            cands = [s for s in sigs if s[1] is ct and len(s[2]) <= 3]
            loc = [nm for nm, t in keep if t is ct]
            if c < 0.25 and cands and not nest:
                s = r.choice(cands)
                nest += 1
                args.append(f"{s[0]}({', '.join(small(r, t) for t in s[2])})")
                u.feats.add("nested-call-arg")
            elif c < 0.6 and loc:
                args.append(r.choice(loc))
            elif c < 0.7 and loc and not ct.flt:
                # arithmetic with an in-range value
                args.append(f"({r.choice(loc)} & 15)")
            else:
                args.append(num(r, ct) if not ct.flt else small(r, ct))
        call = f"{cn}({', '.join(args)})"
        same = [nm for nm, t in keep if t is crt]
        c = r.random()
        if crt is None or c < 0.15:
            b += f"    {call};\n"
        elif c < 0.45 and same:
            b += f"    {r.choice(same)} = {call};\n"
        elif c < 0.7 and not crt.flt:
            b += f"    if ({call}) printf(\"T\\n\"); else printf(\"F\\n\");\n"
        else:
            b += f"    {show(crt, call, 'r=')}\n"
    for nm, t in keep:
        b += f"    {show(t, nm, nm + '=')}\n"
    b += "    printf(\"\\n\");\n}"
    u.d(b)
    u.calls.append(f"{p}run();")
    return u


def u_recur(r, p, ids=None):
    """Recursion: many live frames, each with its own locals, arrays and parameters."""
    u = Unit("recur")
    c = r.randrange(8)
    u.feats.add(f"recur{c}")
    if c == 0:
        n, m = r.randint(3, 12), r.randint(1, 9)
        t = r.choice(INTS)
        u.d(f"""long {p}f(int d, {t.name} x) {{
    {t.name} a[{m}]; int i; long s = 0; char c = 'a' + d;
    for (i = 0; i < {m}; i++) a[i] = x + i * d;
    if (d > 0) s = {p}f(d - 1, x + 1);
    for (i = 0; i < {m}; i++) s += a[i];
    printf("%d%c ", d, c);
    return s; }}""")
        u.calls.append(f"printf(\"%ld\\n\", {p}f({n}, {r.randint(0, 50)}));")
    elif c == 1:
        u.d(f"int {p}odd(int n); int {p}even(int n) {{ if (n == 0) return 1; return {p}odd(n - 1); }}")
        u.d(f"int {p}odd(int n) {{ if (n == 0) return 0; return {p}even(n - 1); }}")
        k = r.randint(2, 40)
        u.calls.append(f"printf(\"%d %d %d\\n\", {p}even({k}), {p}odd({k}), {p}even({k + 1}));")
    elif c == 2:
        u.d(f"long {p}fib(int n) {{ long a; long b; if (n < 2) return n; a = {p}fib(n - 1); b = {p}fib(n - 2); return a + b; }}")
        u.d(f"int {p}ack(int m, int n) {{ if (m == 0) return n + 1; if (n == 0) return {p}ack(m - 1, 1); return {p}ack(m - 1, {p}ack(m, n - 1)); }}")
        u.calls.append(f"printf(\"%ld %d\\n\", {p}fib({r.randint(5, 13)}), {p}ack(2, {r.randint(1, 4)}));")
    elif c == 3:
        # pointers to callers' locals threaded through recursion
        n = r.randint(3, 12)
        t = r.choice(INTS)
        u.d(f"""void {p}go(int d, {t.name} *up, int *cnt) {{
    {t.name} mine = d * 3; int k = *cnt;
    *cnt = k + 1; *up = *up + d;
    if (d > 0) {p}go(d - 1, &mine, cnt);
    printf("{FMT[t.name]}/%d ", mine, k); }}""")
        u.calls.append(f"{{ {t.name} top = 1; int cnt = 0; {p}go({n}, &top, &cnt); printf(\"{FMT[t.name]} %d\\n\", top, cnt); }}")
    elif c == 4:
        n = r.randint(2, 6)
        u.d(f"void {p}hanoi(int n, char a, char b, char c) {{ if (n > 0) {{ {p}hanoi(n - 1, a, c, b); printf(\"%c%c \", a, c); {p}hanoi(n - 1, b, a, c); }} }}")
        u.calls.append(f"{p}hanoi({n}, 'A', 'B', 'C'); printf(\"\\n\");")
    elif c == 5:
        n = r.randint(3, 5)
        u.d(f"""void {p}perm(int *a, int k, int n) {{
    int i; int t;
    if (k == n) {{ for (i = 0; i < n; i++) printf("%d", a[i]); printf(" "); return; }}
    for (i = k; i < n; i++) {{ t = a[k]; a[k] = a[i]; a[i] = t; {p}perm(a, k + 1, n); t = a[k]; a[k] = a[i]; a[i] = t; }} }}""")
        u.calls.append(f"{{ int a[{n}] = {{{', '.join(str(r.randint(0, 9)) for _ in range(n))}}}; {p}perm(a, 0, {n}); printf(\"\\n\"); }}")
    elif c == 6:
        n = r.randint(4, 9)
        u.d(f"""void {p}qs({r.choice(['int', 'long', 'short'])} *a, int lo, int hi) {{
    int i = lo; int j = hi; long piv; long t;
    if (lo >= hi) return;
    piv = a[(lo + hi) / 2];
    while (i <= j) {{ while (a[i] < piv) i++; while (a[j] > piv) j--; if (i <= j) {{ t = a[i]; a[i] = a[j]; a[j] = t; i++; j--; }} }}
    {p}qs(a, lo, j); {p}qs(a, i, hi); }}""")
        ty = u.decls[-1].split("qs(")[1].split(" ")[0]
        u.calls.append(f"{{ {ty} a[{n}] = {{{', '.join(str(r.randint(-99, 99)) for _ in range(n))}}}; int i; {p}qs(a, 0, {n - 1}); for (i = 0; i < {n}; i++) printf(\"{FMT[ty]} \", a[i]); printf(\"\\n\"); }}")
    else:
        d, k = r.randint(20, 150), r.randint(1, 4)
        ts = [r.choice(INTS) for _ in range(k)]
        u.d(f"int {p}deep(int d{''.join(f', {t.name} x{i}' for i, t in enumerate(ts))}) {{ int r; {' '.join(f'{t.name} y{i} = x{i} / 2;' for i, t in enumerate(ts))} if (d == 0) return 1; r = {p}deep(d - 1{''.join(f', x{i} / 2 + 1' for i, t in enumerate(ts))}); return (r + {' + '.join(f'(int) (y{i} & 7)' for i in range(k))}) % 10007; }}")
        u.calls.append(f"printf(\"%d\\n\", {p}deep({d}{''.join(', ' + num(r, t) for t in ts)}));")
    return u


def u_tail(r, p, ids=None, big=None, peak=False):
    """Self tail calls and look-alikes: permuted parameters, several tail sites, calls under
    control flow, address-taken locals, arrays, results used after the call, void functions."""
    u = Unit("tail")
    np = r.randint(1, 5)
    tpool = r.sample(INTS + [FLOAT, DOUBLE], r.choice([1, 1, 2, 10]))
    pts = [r.choice(tpool) for _ in range(np)]
    rt = r.choice(INTS + [DOUBLE, None, None])
    f = f"{p}t"
    depth = r.randint(1, 25) if not big else big
    look = r.random() < 0.45 and not big
    names = [f"x{i}" for i in range(np)]

    def upd():
        """new argument list: permutations and updates of the parameters"""
        out = []
        for i, t in enumerate(pts):
            c = r.random()
            same = [nm for nm, q in zip(names, pts) if q is t]
            ints = [nm for nm, q in zip(names, pts) if not q.flt]
            if c < 0.4:
                out.append(r.choice(same))
            elif c < 0.5:
                out.append(small(r, t))
            elif t.flt:
                out.append(r.choice([f"{r.choice(same)} / 2", f"{r.choice(same)} + 1", small(r, t), "(n & 15)"]))
            elif c < 0.7:
                nm = r.choice(same)
                out.append(r.choice([f"({nm} & 1023) + {r.randint(1, 9)}", f"({nm} ^ {r.randint(1, 99)}) & 127", f"{nm} / 2", f"~{nm} & 255"]))
            elif c < 0.85 and len(ints) > 1:
                a, b = r.sample(ints, 2)
                out.append(f"({a} & 63) + ({b} & 63)")
            elif c < 0.93:
                out.append("n & 127")
            else:
                out.append(small(r, t))
        return ", ".join(out)

    def state():
        return " ".join(show(t, nm) for nm, t in zip(names, pts))
    body = ""
    pre = r.random() if not peak else 1.0
    uses = []
    if pre < 0.3:
        t = r.choice(INTS)
        body += f"    {t.name} loc = n & 31; {t.name} *lp = &loc;\n    *lp = loc + 1; {show(t, 'loc', 'loc=') if not big else ''}\n"
        u.feats.add("addr-taken-local")
    elif pre < 0.5:
        k = r.randint(2, 6)
        body += f"    int arr[{k}]; int q; for (q = 0; q < {k}; q++) arr[q] = q + (n & 3);\n"
        if not big:
            body += f"    printf(\"%d \", arr[{r.randrange(k)}]);\n"
        u.feats.add("local-array")
    elif pre < 0.6 and not big:
        i = r.randrange(np)
        if not pts[i].flt:
            body += f"    {pts[i].name} *pp = &x{i}; *pp = x{i} & 77;\n"
            u.feats.add("addr-taken-param")
    if not big:
        body += f"    {state()} printf(\"| \");\n"
    base = {None: "return;"}.get(rt, None)
    if rt:
        same = [nm for nm, q in zip(names, pts) if q is rt]
        base = f"return {r.choice(same) if same else small(r, rt)};"
    body += f"    if (n <= 0) {{ {base} }}\n"

    def tailsite():
        call = f"{f}(n - 1, {upd()})"
        if rt is None:
            return f"{call}; return;" if r.random() < 0.7 else f"{{ {call}; return; }}"
        return f"return {call};"

    def lookalike():
        call = f"{f}(n - 1, {upd()})"
        u.feats.add("look-alike")
        if rt is None:
            return r.choice([f"{call}; printf(\"after%d \", (int) n); return;", f"{call}; g{p} += n; return;"])
        if rt.flt:
            return r.choice([f"return {call} + 1;", f"{{ {rt.name} z = {call}; {show(rt, 'z', 'z')} return z; }}", f"return ({rt.name}) (int) {call};", f"return -{call};"])
        oth = r.choice([t for t in INTS if t is not rt])
        return r.choice([f"return ({call} & 1023) + 1;", f"{{ {rt.name} z = {call}; printf(\"z\"); return z; }}", f"return ({oth.name}) {call};", f"return !{call};",
                         f"{{ {rt.name} z = {call}; return z / 2; }}", f"return {call} == 3;", f"{{ {rt.name} z = {call}; if (n & 1) return z; return 5; }}", f"return {f}(n - 2, {upd()}) ^ n;"])
    kind = r.randrange(7)
    u.feats.add(f"shape{kind}")
    site = lambda: lookalike() if look and r.random() < 0.6 else tailsite()
    if kind == 0:
        body += f"    {site()}\n"
    elif kind == 1:
        body += f"    if (n % {r.randint(2, 3)}) {{ {site()} }} else {{ {site()} }}\n"
    elif kind == 2:
        body += f"    switch (n % 4) {{ case 0: {site()} case 1: {site()} case 3: {{ {site()} }} default: {site()} }}\n"
    elif kind == 3:
        body += f"    while (n > 0) {{ if (n % 3 == 1) {{ {site()} }} n--; }}\n    {base}\n"
    elif kind == 4:
        body += f"    if (n % 5 == 2) goto out;\n    {site()}\nout:\n    {site()}\n"
    elif kind == 5:
        t = pts[0]
        body += f"    for (int i = 0; i < 3; i++) {{ {t.name} w = x0; if (i == n % 3) {{ x0 = w; {site()} }} }}\n    {base}\n"
    else:
        if rt:
            body += f"    return n % 2 ? {f}(n - 1, {upd()}) : {f}(n - 1, {upd()});\n"
        else:
            body += f"    if (n % 2) {f}(n - 1, {upd()}); else {f}(n - 1, {upd()});\n"
    u.d(f"int g{p} = 0;")
    u.d(f"{rt.name if rt else 'void'} {f}(int n{''.join(f', {t.name} {nm}' for t, nm in zip(pts, names))}) {{\n{body}}}")
    args = ", ".join(small(r, t) for t in pts)
    if kind == 3 or kind == 2 or look:
        depth = min(depth, 18) if not big else depth
    call = f"{f}({depth}, {args})"
    u.calls.append((show(rt, call, "R") if rt else call + ";") + f" printf(\"%d\\n\", g{p});")
    u.feats.add("rt:" + (sn(rt) if rt else "void"))
    return u


def u_frames(r, p, ids=None):
    """Many functions with different frame layouts calling each other while holding live data in
    scalars, arrays and aggregates; checks each one's data after its callees returned."""
    u = Unit("frames")
    n = r.randint(3, 5)
    u.d(f"struct {p}S {{ char a; long b; short c[3]; }};")
    for k in range(n):
        nl = r.randint(1, 7)
        b = f"int {p}w{k}(int d, int s) {{\n"
        chk = []
        for j in range(nl):
            t = r.choice(ALL)
            kind = r.random()
            if kind < 0.5:
                b += f"    {t.name} v{j} = (d + {j}) & 31;\n"
                chk.append(show(t, f"v{j}"))
            elif kind < 0.75:
                m = r.randint(1, 6)
                b += f"    {t.name} v{j}[{m}]; for (int i{j} = 0; i{j} < {m}; i{j}++) v{j}[i{j}] = i{j} + d;\n"
                chk.append(f"for (int i{j} = 0; i{j} < {m}; i{j}++) {show(t, f'v{j}[i{j}]')}")
            elif kind < 0.9:
                b += f"    struct {p}S v{j}; v{j}.a = d; v{j}.b = d * 2; v{j}.c[d & 1] = 7; \n"
                chk.append(f"printf(\"%d %ld %d \", (int) v{j}.a, v{j}.b, (int) v{j}.c[d & 1]);")
            else:
                b += f"    {t.name} v{j} = d & 7; {t.name} *q{j} = &v{j};\n"
                chk.append(f"{show(t, f'*q{j}')} {show(t, f'v{j}')}")
        b += f"    if (d > 0) {{ s = s + {p}w{r.randrange(k + 1)}(d - 1, s); }}\n"
        if k and r.random() < 0.6:
            b += f"    if (d > 1) s = (s + {p}w{r.randrange(k)}(d - 2, s)) & 4095;\n"
        r.shuffle(chk)
        b += "    " + "\n    ".join(chk) + f"\n    printf(\"w{k} \");\n    return (s + d) & 4095;\n}}"
        u.d(b)
    u.calls.append(f"printf(\"%d\\n\", {p}w{n - 1}({r.randint(1, 4)}, 3));")
    return u


def u_mutual(r, p, ids=None, big=None):
    """A ring of functions that only tail-call one another, with different parameter lists and frame
    sizes, as a state machine; also tail calls to library functions and to non-recursive helpers."""
    u = Unit("mutual")
    k = r.randint(2, 4)
    sigs = [[r.choice(INTS + [FLOAT, DOUBLE]) for _ in range(r.randint(0, 6))] for _ in range(k)]
    rt = r.choice([INT, INT, LONG, DOUBLE, UINT, CHAR, SHORT, FLOAT])
    depth = big or r.randint(1, 30)
    u.d(f"{rt.name} {p}leaf({rt.name} a, int b) {{ {rt.name} t = a; if (b > 3) return t; return t + 1; }}")
    for i, sg in enumerate(sigs):
        u.d(f"{rt.name} {p}m{i}(int n{''.join(f', {t.name} x{j}' for j, t in enumerate(sg))});")
    for i, sg in enumerate(sigs):
        def args(to):
            out = []
            for t in sigs[to]:
                same = [f"x{j}" for j, q in enumerate(sg) if q is t]
                other = [f"x{j}" for j, q in enumerate(sg) if not q.flt]
                c = r.random()
                if same and c < 0.6:
                    e = r.choice(same)
                    if not t.flt and r.random() < 0.4:
                        e = f"({e} & 63) + 1"
                elif other and c < 0.85:
                    e = f"({r.choice(other)} & 31)"
                else:
                    e = small(r, t)
                out.append(e)
            return "".join(", " + a for a in out)
        nl = r.randint(0, 5)
        b = f"{rt.name} {p}m{i}(int n{''.join(f', {t.name} x{j}' for j, t in enumerate(sg))}) {{\n"
        for j in range(nl):
            t = r.choice(INTS)
            b += f"    {t.name} y{j} = (n + {j}) & {r.choice([3, 7, 127])};\n"
        if not big:
            b += "    " + " ".join(show(t, f"x{j}") for j, t in enumerate(sg)) + f" printf(\"m{i} \");\n"
        if nl and r.random() < 0.7 and not big:
            b += "    " + " ".join(f"printf(\"%d \", (int) y{j});" for j in range(nl)) + "\n"
        base = [f"x{j}" for j, q in enumerate(sg) if q is rt]
        base = f"return {p}leaf({r.choice(base) if base else small(r, rt)}, n + {r.randint(0, 6)});" if r.random() < 0.6 else f"return {r.choice(base) if base else small(r, rt)};"
        if rt is INT and r.random() < 0.3:
            base = f"return printf(\"end%d\\n\", n + {i});"
        b += f"    if (n <= 0) {{ {base} }}\n"
        nx = [r.randrange(k) for _ in range(3)]
        if i == 0:
            nx[2] = k - 1
        step = 1
        kind = r.randrange(3)
        extra = f" + (y{r.randrange(nl)} & 0)" if nl and r.random() < 0.5 else ""
        if kind == 0:
            b += f"    return {p}m{nx[2]}(n - 1{extra}{args(nx[2])});\n"
        elif kind == 1:
            b += f"    if (n % 3 == 1) return {p}m{nx[0]}(n - 1{args(nx[0])});\n    return {p}m{nx[2]}(n - 1{extra}{args(nx[2])});\n"
        else:
            b += f"    switch (n & 3) {{ case 0: return {p}m{nx[0]}(n - 1{args(nx[0])}); case 2: return {p}m{nx[1]}(n - 1{args(nx[1])}); }}\n    return {p}m{nx[2]}(n - 1{args(nx[2])});\n"
        u.d(b + "}")
    call = f"{p}m0({depth}{''.join(', ' + small(r, t) for t in sigs[0])})"
    u.calls.append(show(rt, call, "R") + " printf(\"\\n\");")
    u.feats |= {f"ring{k}", "rt:" + rt.name}
    return u


def u_void(r, p, ids=None):
    """Calls whose results are discarded, void functions, calls in every statement position."""
    u = Unit("void")
    u.d(f"int {p}cnt = 0;")
    for k in range(3):
        t = r.choice(ALL)
        t2 = r.choice(ALL + [None])
        ret = f"return ({t2.name}) (a + {k});" if t2 else r.choice(["return;", ""])
        u.d(f"{t2.name if t2 else 'void'} {p}v{k}({t.name} a{r.choice(['', ', int b'])}) {{ int z[{r.randint(1, 5)}]; z[0] = {p}cnt; {p}cnt = z[0] + (int) a; {ret} }}")
    sig = [d.count("int b)") for d in u.decls[1:]]
    c = lambda k, e: f"{p}v{k}({e}{', 3' if sig[k] else ''})"
    u.d(f"""void {p}run(int n) {{
    int i;
    for (i = 0; i < n; {c(0, 'i')}, i++) {{ {c(1, 'i + 1')}; if (i & 1) {c(2, '2')}; else {{ {c(0, '1')}; {c(1, '0')}; }} }}
    while ({c(1, '1') + ',' if r.random() < 0.5 else ''} n-- > 0) {c(2, 'n')};
    do {c(0, 'n + 9')}; while (n++ < 0);
    switch (n) {{ default: {c(1, 'n & 7')}; }}
    ({c(2, '1')}, {c(0, '5')});
    printf("%d\\n", {p}cnt);
}}""")
    u.calls.append(f"{p}run({r.randint(0, 6)});")
    return u


def u_live(r, p, ids=None):
    """Many scalars whose lifetimes start and end at different places, across branches, loops,
    gotos and calls; every value is checked where it is last used."""
    u = Unit("live")
    n = r.randint(4, 12)
    ts = [r.choice(ALL if r.random() < 0.8 else [CHAR, LONG]) for _ in range(n)]
    u.d(f"int {p}id(int x) {{ int a = x + 1; int b = a * 2; return b / 2 - 1; }}")
    b = f"int {p}live(int n) {{\n    int s = 0; int i; {' '.join(f'{t.name} v{j} = {j + 1};' for j, t in enumerate(ts))}\n"
    lab = [0]

    def ex():
        j = r.randrange(n)
        return f"v{j} + {r.randint(0, 3)}" if r.random() < 0.7 else f"{p}id((int) v{j})"

    def asg():
        j = r.randrange(n)
        e = ex()
        return f"v{j} = ((int) ({e})) & 31;" if not ts[j].flt else f"v{j} = ((int) ({e})) & 15;"

    def use():
        js = r.sample(range(n), min(n, r.randint(1, 3)))
        return f"s = (s * 5 + {' + '.join(f'(int) v{j}' for j in js)}) & 16383;"

    def stm(d):
        c = r.random()
        if c < 0.4 or d == 0:
            return asg()
        if c < 0.55:
            return use()
        if c < 0.65:
            return f"if ((int) ({ex()}) & 1) {{ {stm(d - 1)} {stm(d - 1)} }}" + (f" else {{ {stm(d - 1)} {use()} }}" if r.random() < 0.6 else "")
        if c < 0.75:
            return f"for (i = 0; i < {r.randint(1, 3)}; i++) {{ {asg()} {r.choice(['if (s & 1) continue;', 'if (s & 4) break;', ''])} {asg()} {use()} }}"
        if c < 0.8:
            lab[0] += 1
            return f"if (s & {r.choice([1, 2, 4])}) goto l{lab[0]}; {asg()} {use()} {asg()} l{lab[0]}: {use()}"
        if c < 0.87:
            lab[0] += 1
            k = r.randrange(n)
            return f"i = 0; r{lab[0]}: {asg()} {use()} if (++i < {r.randint(2, 3)}) goto r{lab[0]}; {use()}"
        if c < 0.94:
            return f"switch (s & 3) {{ case 0: {asg()} case 1: {use()} break; default: {asg()} {asg()} }}"
        a, c2 = r.randrange(n), r.randrange(n)
        return f"{{ {ts[a].name} t = v{a}; v{a} = ((int) v{c2}) & 31; v{c2} = ((int) t) & 31; }}"
    for _ in range(r.randint(6, 14)):
        b += "    " + stm(2) + "\n"
        if r.random() < 0.15:
            b += "    printf(\"%d \", s);\n"
    b += f"    printf(\"{' '.join('%d' for _ in ts)}\\n\", {', '.join(f'(int) v{j}' for j in range(n))});\n    return s;\n}}"
    u.d(b)
    u.calls.append(f"printf(\"%d \", {p}live({r.randint(0, 9)})); printf(\"%d\\n\", {p}live({r.randint(10, 40)}));")
    u.feats |= {f"n{n}"}
    return u


def u_args(r, p, ids=None):
    """Argument expressions with side effects: each is evaluated once per call, however often the same expression
    occurs in the list, wherever the call stands.  Identical arguments go to callees that treat them alike, since
    C leaves the order of evaluation open."""
    u = Unit("args")
    ts = [r.choice([t for t in INTS if t.size >= 4]) for _ in range(3)]
    u.d(f"int {p}n = {r.randint(0, 9)}; int {p}m = {r.randint(0, 9)}; int {p}log[64]; int {p}at = 0; int {p}g[8];")
    u.d(f"int {p}next(void) {{ {p}n = {p}n + {r.randint(1, 5)}; {p}log[{p}at++ & 63] = {p}n; return {p}n; }}")
    u.d(f"int {p}inc(int d) {{ {p}m += d; return {p}m; }}")
    u.d(f"int {p}at2(int i) {{ {p}g[i & 7]++; return {p}g[i & 7]; }}")
    u.d(f"void {p}bump(void) {{ {p}m = {p}m * 2 + 1; if ({p}m > 10000) {p}m = 3; }}")
    k = r.randint(2, 5)
    names = [f"v{i}" for i in range(k)]
    u.d(f"int {p}sum({', '.join('int ' + v for v in names)}) {{ return {' + '.join(f'{v} * {v}' for v in names)}; }}")
    u.d(f"int {p}two(int v, int w) {{ return v * w + v + w; }}")
    u.d(f"int {p}pos(int v, int w, int x) {{ return v * 10000 + w * 100 + x; }}")
    u.d(f"double {p}mid({ts[0].name} v, {ts[0].name} w, double d) {{ return v + w + d; }}")
    u.d(f"int *{p}ptr(int *q, int *s) {{ *q += 1; *s += 1; return q; }}")
    b = f"    int a = {r.randint(1, 9)}; int b = {r.randint(1, 9)}; int c = {r.randint(1, 9)}; int z = 0; int i;\n"

    def effect():
        """an expression with a side effect, that may occur several times in one argument list"""
        x = r.choice(["next", "next2", "inc", "at", "cond", "and", "cast", "sum"])
        u.feats.add("same:" + x)
        return {"next": f"{p}next()", "next2": f"{p}next() + {r.randint(1, 9)}", "inc": f"{p}inc({r.randint(1, 9)})", "at": f"{p}at2({r.choice('abc')})",
                "cond": f"({r.choice('abc')} > 4 ? {p}next() : {p}inc(2))", "and": f"({r.choice('abc')} > 2 && {p}next())", "cast": f"(short) {p}next()", "sum": f"{p}inc(1) * {r.randint(2, 5)}"}[x]

    def single(v):
        """an expression whose only side effect is on v"""
        x = r.choice(["post", "pre", "postd", "asg", "add", "comma", "cond", "shift"])
        u.feats.add("one:" + x)
        return {"post": f"{v}++", "pre": f"++{v}", "postd": f"{v}--", "asg": f"{v} = {r.randint(1, 9)}", "add": f"{v} += {r.randint(1, 9)}", "comma": f"({v}++, {v} * 2)", "cond": f"{v} > 5 ? {v}-- : {v}++", "shift": f"{v} ^= {r.randint(1, 9)}"}[x]

    for j in range(r.randint(5, 10)):
        w = r.choice(["same", "same", "two", "one", "flt", "ptr", "stmt", "incond", "inidx", "loop", "nested"])
        u.feats.add("args:" + w)
        e = effect()
        if w == "same": s = f"z = {p}sum({', '.join([e] * k)});"
        elif w == "two": s = f"z = {p}two({e}, {e});"
        elif w == "one": s = f"z = {p}pos({single('a')}, {single('b')}, {single('c')});"
        elif w == "flt": s = f"z = (int) {p}mid({e}, {e}, {r.randint(0, 9)}.5);"
        elif w == "ptr": s = f"z = *{p}ptr(&{p}g[a & 7], &{p}g[a & 7]);"
        elif w == "stmt": s = f"{p}two({e}, {e});"
        elif w == "incond": s = f"if ({p}two({e}, {e}) % 3 == 1) z = 1; else z = 2;"
        elif w == "inidx": s = f"z = {p}g[{p}two({e}, {e}) & 7]++;"
        elif w == "loop": s = f"for (i = 0; i < {r.randint(1, 4)}; i++) z += {p}two({e}, {e}) & 15;"
        else: s = f"z = {p}two({p}two({e}, {e}), {r.randint(1, 9)});"
        b += f"    {s} {r.choice([f'{p}bump(); ', ''])}z &= 65535; {p}n &= 255; {p}m &= 255; a &= 15; b &= 15; c &= 15;\n    printf(\"%d %d %d %d %d %d %d\\n\", {j}, z, {p}n, {p}m, a, b, c);\n"
    b += f"    for (i = 0; i < 8; i++) printf(\"%d \", {p}g[i]); for (i = 0; i < {p}at && i < 64; i++) printf(\"%d \", {p}log[i]); printf(\"\\n\");\n"
    u.d(f"void {p}run() {{\n{b}}}")
    u.calls.append(f"{p}run();")
    return u
