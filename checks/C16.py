from common_checks import *
import itertools, re
import invalid as I
import units_types as Y
c = Check("C16", "each evaluation is a twin pair: a random valid program with one statement or declaration inserted at a random nesting position, and the same program with a single fault in that insertion (from a catalogue of constraint and "
          "syntax violations, conflicting type specifiers, or a statement of random operators whose operand types do not fit). The faulty program must be refused (non-zero exit, diagnostic, nothing written at the output path), its twin accepted and its module valid; clang decides that the twin is valid and the faulty one is not. "
          "Distinct by program text.", quick_s=70, thorough_s=600)
pool = Pool()
BASES = [u_arith, K.u_control, M.u_memory, F.u_params, X.u_decls, S.u_globals]


ENTRIES = [("stmt", e) for e in I.STMT] + [("bare", e) for e in I.BARE] + [("file", e) for e in I.FILE] + [("whole", e) for e in I.WHOLE] + [("spec", None)] * 20 + [("types", None)] * 60
random.Random(f"C16:{SEED}").shuffle(ENTRIES)


def nest(r, snip, bare):
    """snip inside random statements; bare: no loop or switch."""
    lines = ["    " + l for l in [snip]]
    loop = False
    for d in range(r.randint(0, 4)):
        kinds = ["block", "if", "else", "ifelse"] + ([] if bare else ["for", "while", "do", "switch", "forvar"])
        k = r.choice(kinds)
        body = "\n".join(lines)
        if k == "block": body = "{\n" + body + "\n}"
        elif k == "if": body = f"if (k > {r.randint(0, 9)}) {{\n{body}\n}}"
        elif k == "else": body = f"if (k > {r.randint(0, 9)}) k++; else {{\n{body}\n}}"
        elif k == "ifelse": body = f"if (k > {r.randint(0, 9)}) {{ k--;\n{body}\n}} else k = 2;"
        elif k == "for": body = f"for (n = 0; n < {r.randint(1, 3)}; n++) {{\n{body}\n}}"
        elif k == "forvar": body = f"for (int i{d} = 0; i{d} < 2; i{d}++) {{ k += i{d};\n{body}\n}}"
        elif k == "while": body = f"n = 2;\nwhile (n-- > 0) {{\n{body}\n}}"
        elif k == "do": body = f"do {{\n{body}\n}} while (0);"
        else: body = f"switch (k) {{ case {r.randint(0, 3)}: {{\n{body}\n}} break; default: k = 1; }}"
        lines = body.split("\n")
    return "\n".join(lines)


STRICT = ["-Werror=implicit-function-declaration", "-Werror=return-type", "-Werror=excess-initializers", "-Werror=int-conversion"]


def clang_ok(path, strict=True):
    p = subprocess.run(["clang", "-std=gnu99", "-fsyntax-only", "-Wno-everything", *(STRICT if strict else ["-Wno-int-conversion"]), "-x", "c", path],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=RUN_ENV)
    return p.returncode == 0


def types(r):
    """a statement of random operators over operands of every type that the reference refuses, and one that it takes"""
    rename = lambda s: re.sub(r"\b(fn2?|vf|pf|gs|ga|EA|EB|S|U|E)\b", lambda m: "@" + m.group(1), s)
    while True:
        s = Y.untyped_statement(r, False)
        if '"%' in s: continue
        p = write_src(c, Y.PRELUDE + f"int main(void) {{ {Y.LOCALS}\n{s}\nreturn 0; }}\n")
        ok = clang_ok(p, False)
        os.unlink(p)
        if not ok: break
    good = r.choice(["i += 1;", "d = f * c;", "p = a + i;", "*p = us;", "sp->y = l;", "cp = &c;", "a[1] = aa[1][1];", "s.x = sp->x;", "if (p && *p) u++;", "vp = sp;", "i = fn(c) + un.x;", "l = p - a;", "switch (ev) { case EB: i = 2; }"])
    blk = lambda t: "{ " + rename(Y.LOCALS) + "\n    " + rename(t) + " }"
    return "operand types: " + s, blk(s), blk(good), rename(Y.PRELUDE.split("\n", 1)[1])


def make(r, i):
    us = [r.choice(BASES)(r, f"a{k}_", ids=[1]) for k in range(r.randint(0, 2))]
    text = program(us)
    pre = f"q{i % 7}_"
    kind, entry = ENTRIES[i % len(ENTRIES)]
    if kind in ("stmt", "bare", "spec", "types"):
        bare = kind == "bare"
        name, bad, good, sup, *more = entry or (I.specifiers(r) if kind == "spec" else types(r))
        supg = more[0] if more else sup
        fname = pre + "inj"
        ret = "int"
        state = r.getstate()
        def build(s, sup):
            r.setstate(state)
            body = nest(r, s, bare)
            pad = "".join(f"    k += {r.randint(1, 9)};\n" for _ in range(r.randint(0, 3)))
            where = r.choice(["before", "main", "reached", "proto"])
            fn = f"int {fname}(int k) {{\n    int n = 0;\n{pad}{body}\n{pad}    return k + n;\n}}\n"
            if where == "main":
                t = text.replace("int main(int argc, char **argv) {\n", sup.replace("@", pre) + "int main(int argc, char **argv) {\n    int k = 1; int n = 0;\n" + body + "\n", 1)
                return t
            if where == "proto":
                t = text.replace("int main(int argc, char **argv) {\n", f"int {fname}(int k);\nint main(int argc, char **argv) {{\n    {fname}(argc);\n", 1)
                return t + sup.replace("@", pre) + fn
            call = f"    {fname}(argc);\n" if where == "reached" else ""
            return text.replace("int main(int argc, char **argv) {\n", sup.replace("@", pre) + fn + "int main(int argc, char **argv) {\n" + call, 1)
        return name, build(bad.replace("@", pre), sup), build(good.replace("@", pre), supg)
    if kind == "file":
        name, bad, good = entry
        bad, good = bad.replace("@", pre) + "\n", good.replace("@", pre) + "\n"
        lines = text.split("\n")
        # file-scope boundaries: before main, at the end, or right after the includes
        k = r.choice(["start", "main", "end"])
        if k == "main":
            f = lambda s: text.replace("int main(int argc, char **argv) {\n", s + "int main(int argc, char **argv) {\n", 1)
        elif k == "end":
            f = lambda s: text + s
        else:
            j = max([n for n, l in enumerate(lines) if l.startswith("#include")] + [0]) + 1
            f = lambda s: "\n".join(lines[:j]) + "\n" + s + "\n".join(lines[j:])
        return name, f(bad), f(good)
    name = entry
    if name == "no main":
        return name, text.replace("int main(", "int notmain("), text
    if name == "second main":
        return name, text + "int main(int argc, char **argv) { return 1; }\n", text
    if name == "unclosed comment":
        return name, text + "/* tail", text + "/* tail */"
    return name, text[:text.rindex("}")], text


def one(i):
    if c.violations:
        return
    r = random.Random(f"C16:{SEED}:{i}")
    name, bad, good = make(r, i)
    cfg, flags = r.choice(CONFIGS + [DEFAULT])
    pb, pg = write_src(c, bad), write_src(c, good)
    if name not in ("no main",) and clang_ok(pb):
        return c.unsure(f"reference accepts the faulty program: {name}")
    if not clang_ok(pg):
        return c.unsure(f"reference refuses the twin: {name}")
    stale = r.random() < 0.3
    rg, rb = c.cc.compile_file(pg, flags), c.cc.compile_file(pb, flags)
    if rg.timeout or rb.timeout:
        return c.unsure("compile watchdog")
    bad_ = None
    if rb.rc == 0:
        bad_ = f"invalid program accepted: {name}"
    elif rb.out_exists:
        bad_ = f"refused ({name}) but an output file was written"
    elif not rb.err.strip():
        bad_ = f"refused ({name}) without a diagnostic"
    elif rg.rc != 0:
        bad_ = f"valid twin refused ({name}): {rg.err[-300:]}"
    else:
        rep = pool.execute({"id": 1, "wasm": rg.wasm, "args": [], "norun": True})
        if "inconclusive" in rep:
            return c.unsure(rep["inconclusive"])
        if not rep.get("valid"):
            bad_ = f"module of the valid twin is invalid: {rep.get('err')}"
    for p in (rg.wasm, rb.wasm, pb, pg):
        if os.path.exists(p): os.unlink(p)
    if bad_:
        return c.violate(bad_, f"flags {flags}", {"program.c": bad, "twin.c": good})
    c.observe(bad)
    c.sample(f"{name}", 12)
    c.count("twin_pairs")
    with c._lock:
        name = name.split(":")[0]
        kinds[name] = kinds.get(name, 0) + 1
        how["panic" if rb.rc == 101 else "diagnosed"] += 1


# ---- every operator with operands of every type; the reference judges a whole file of statements at once
def judge(stmts):
    """per statement: errors, and whether it is free of any complaint"""
    p = write_src(c, Y.matrix_text(stmts))
    q = subprocess.run(["clang", "-std=gnu99", "-fsyntax-only", "-ferror-limit=0", "-pedantic", "-Wall", "-Wextra", "-Wno-unused", "-Wno-error", "-Wno-error=int-conversion", "-fno-caret-diagnostics", "-x", "c", p],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=RUN_ENV, text=True)
    os.unlink(p)
    err, warn = set(), set()
    for m in re.finditer(r":(\d+):\d+: (?:fatal )?(error|warning):", q.stdout):
        (err if m.group(2) == "error" else warn).add(int(m.group(1)) - Y.M_FIRST)
    return [(k in err, k not in err and k not in warn) for k in range(len(stmts))]


def cell(x):
    s, (bad, clean) = x
    if c.violations:
        return
    p = write_src(c, Y.matrix_text([s]))
    rc = c.cc.compile_file(p, random.Random(s).choice(CONFIGS)[1])
    err = None
    if rc.timeout:
        c.unsure("compile watchdog")
    elif bad and rc.rc == 0:
        err = "statement with operands that do not fit its operator accepted"
    elif rc.rc != 0 and rc.out_exists:
        err = "refused but an output file was written"
    elif rc.rc != 0 and not rc.err.strip():
        err = "refused without a diagnostic"
    elif clean and rc.rc != 0 and not Y.outside_subset(s):
        err = f"valid statement refused: {rc.err[-300:]}"
    elif rc.rc == 0:
        rep = pool.execute({"id": 1, "wasm": rc.wasm, "args": [], "norun": True})
        if "inconclusive" not in rep and not rep.get("valid"):
            err = f"module of an accepted statement is invalid: {rep.get('err')}"
    for f in (p, rc.wasm):
        if os.path.exists(f): os.unlink(f)
    if err:
        return c.violate(f"{err} [{s}]", s, {"program.c": Y.matrix_text([s])})
    with c._lock:
        cells["refused" if rc.rc else "accepted"] += 1
        cells["judged invalid"] += bad


import time
cells = {"refused": 0, "accepted": 0, "judged invalid": 0}
M = Y.matrix()
random.Random(f"C16m:{SEED}").shuffle(M)
kinds, how = {}, {"panic": 0, "diagnosed": 0}
m_end = time.time() + c.left() * 0.25
def batches():
    for k in range(0, len(M), 400):
        if time.time() >= m_end or c.violations: return
        b = M[k:k + 400]
        yield from zip(b, judge(b))
for _ in pool.map_until(cell, batches(), lambda: time.time() >= m_end or c.violations):
    pass
for k, v in cells.items(): c.cov["type_matrix_" + k.replace(" ", "_")] = v
for _ in pool.map_until(one, itertools.count(), lambda: c.left() <= 0 or len(c.violations) >= 3):
    pass
c.cov["fault_kinds"] = len(kinds)
c.cov["fault_kinds_total"] = len(I.STMT) + len(I.BARE) + len(I.FILE) + len(I.WHOLE) + 2
c.cov["refused_by_diagnosis"] = how["diagnosed"]
c.cov["refused_by_abort"] = how["panic"]
c.finish(min_evals=40)
