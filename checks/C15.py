from common_checks import *
import itertools, re, resource, shutil, signal
import units_types as Y
c = Check("C15", "each evaluation compiles one hostile input (token- and byte-level mutations and splices of random valid programs, token soup, raw bytes, deep nesting, huge literals, odd line structure, well-formed statements of random operators over operands of every type) in a random configuration under CPU and memory "
          "limits; one in forty is a valid program whose output cannot be written. Exit 0 requires a file at the output path that the WebAssembly validator accepts and that has the promised imports, exports and memory layout; any other exit requires a diagnostic and no new file. "
          "Non-trivial: every input; distinct by content.", quick_s=70, thorough_s=900)
pool = Pool()
BASES = [E.u_arith, E.u_float, E.u_conv, K.u_control, M.u_memory, M.u_bytes, F.u_params, F.u_frames, X.u_decls, X.u_scopes, X.u_tokens, S.u_globals, S.u_strings, L.u_printf]
TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|#[^\n]*\n|[A-Za-z_]\w*|\d[\w.]*|\s+|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.', re.S)
FRAG = ["int", "char", "double", "float", "long", "short", "unsigned", "signed", "void", "struct", "union", "enum", "typedef", "const", "static", "extern", "register", "auto", "inline", "return", "if", "else", "while", "do",
        "for", "switch", "case", "default", "break", "continue", "goto", "sizeof", "(", ")", "{", "}", "[", "]", ";", ",", ":", "?", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<", ">", "==", "!=", "<=", ">=",
        "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", "->", ".", "...", "0", "1", "2147483647", "2147483648", "4294967296", "18446744073709551615", "99999999999999999999", "0x", "0xg", "08",
        "1e400", "1e-400", ".5", "5.", "1.5f", "'a'", "'\\n'", "'\\x41'", "'ab'", "\"\"", "\"%d\\n\"", "\"\\x80\"", "\"\\777\"", "main", "argc", "argv", "printf", "x", "(int)", "(char *)", "(double)", "(void)", "*&", "&*", "/*", "*/",
        "//", "\\\n", "#define X x\n", "#if 0\n", "#endif\n", "#include <string.h>\n", "\0", "\x80", "\r\n", "\f"]


def mutate(r, t, others):
    toks = TOK.findall(t)
    kind = r.choice(["del", "dup", "swap", "rep", "repsame", "ins", "splice", "bytes", "cut", "type", "num", "multi", "delspan", "op", "wrap"])
    n = len(toks)
    solid = [i for i, x in enumerate(toks) if not x.isspace()]
    if kind == "bytes":
        b = bytearray(t.encode("latin1", "replace"))
        for _ in range(r.randint(1, 6)):
            b[r.randrange(len(b))] = r.randrange(256)
        return kind, bytes(b)
    if kind == "cut":
        return kind, t[:r.randrange(len(t))].encode("latin1", "replace")
    for _ in range(1 if kind != "multi" else r.randint(2, 5)):
        k = kind if kind != "multi" else r.choice(["del", "dup", "swap", "rep", "ins", "type", "op"])
        if not solid: break
        i = r.choice(solid)
        if k == "del": toks[i] = " "
        elif k == "dup": toks[i] = toks[i] + " " + toks[i]
        elif k == "swap":
            j = r.choice(solid); toks[i], toks[j] = toks[j], toks[i]
        elif k == "rep": toks[i] = " " + r.choice(FRAG) + " "
        elif k == "repsame": toks[i] = " " + toks[r.choice(solid)] + " "
        elif k == "ins": toks[i] = toks[i] + " " + r.choice(FRAG) + " "
        elif k == "splice":
            o = TOK.findall(r.choice(others)); a = r.randrange(len(o)); toks[i] = " " + "".join(o[a:a + r.randint(1, 40)]) + " "
        elif k == "type":
            ty = [q for q in solid if toks[q] in ("int", "char", "double", "float", "long", "short", "unsigned", "void")]
            if ty: toks[r.choice(ty)] = r.choice(["int", "char", "double", "float", "void", "long", "struct s", "char *", "unsigned char", "int **", "long long", "void *"])
        elif k == "op":
            ops = [q for q in solid if toks[q] in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "<", "=", "&&", "||", "!=")]
            if ops: toks[r.choice(ops)] = " " + r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "<", "=", "&&", "||", ",", "+=", "<<=", "?", "->", ".", "["]) + " "
        elif k == "num":
            nu = [q for q in solid if toks[q][0].isdigit()]
            if nu: toks[r.choice(nu)] = r.choice(["0", "-1", "2147483648", "4294967295", "9223372036854775808", "18446744073709551616", "1e999", "1.0", "0x1p3", "1u", "1L", "00", "0xffffffffff", "'a'", "\"s\"", "(0)"])
        elif k == "delspan":
            j = min(n, i + r.randint(2, 30))
            for q in range(i, j): toks[q] = ""
        elif k == "wrap":
            toks[i] = r.choice(["(" + toks[i] + ")", "*" + toks[i], "&" + toks[i], "-" + toks[i], "(char)" + toks[i], "sizeof " + toks[i], toks[i] + "[0]", toks[i] + "()", toks[i] + "++", "{" + toks[i] + "}"])
    return kind, "".join(toks).encode("latin1", "replace")


def whole(r):
    k = r.choice(["soup", "raw", "deep", "empty", "long", "lines", "huge"])
    if k == "soup": return k, (" ".join(r.choice(FRAG) for _ in range(r.randint(1, 200)))).encode("latin1")
    if k == "raw": return k, bytes(r.randrange(256) for _ in range(r.randint(0, 400)))
    if k == "empty": return k, r.choice([b"", b"\n", b" ", b"\0", b"//", b"/**/", b"#", b"#include", b"#include <stdio.h>", b"\xef\xbb\xbfint main(void) { return 0; }\n", b";", b"int main(void) { return 0; }", b"\\", b"\r"])
    if k == "deep":
        n = r.choice([10, 50, 120, 250])
        o, z = r.choice([("(", ")"), ("-", ""), ("!", ""), ("~(", ")"), ("(int) ", ""), ("1 + (", ")"), ("1 ? 2 : (", ")"), ("1 && (", ")"), ("0 || (", ")"), ("(1, ", ")")])
        if any(x in o for x in "?&|"): n = min(n, 50)  # the time grows with about the fourth power of the number of nested branches: 1 s here
        s = r.choice([f"int main(void) {{ return {o * n}1{z * n}; }}\n", f"int main(void) {{ int x = 1; {'{' * n} x = 2; {'}' * n} return x; }}\n", f"int main(void) {{ int x = 1; {'if (x) ' * min(n, 120)} x = 2; return x; }}\n",
                      f"int main(void) {{ int {'*' * n}p; return 0; }}\n", f"int main(void) {{ int x = 0; {'while (x) ' * min(n, 60)} x = 0; return 7; }}\n"])
        return k, s.encode()
    if k == "long": return k, f"int main(void) {{ int {'a' * r.choice([100, 1000, 5000])} = 1; char *s = \"{'x' * r.choice([10, 5000, 30000])}\"; return s[2] - 'x'; }}\n".encode()
    if k == "huge": return k, f"int a[{r.choice([0, 1, 5000, 20000, 10 ** 6, 2 ** 31, 2 ** 40, 2 ** 70])}];\nint main(void) {{ char b[{r.choice([0, 1, 5000, 10 ** 7, 2 ** 33])}]; return 0; }}\n".encode()
    return k, r.choice(["\r\n", "\n\n\n", "\\\n", "\f\n", "\n\t"]).join(["int main(void)", "{", "int x = 1;", "return", "x;", "}", ""]).encode()


GUARD = b"#ifndef H_\n#define H_\n%s\n#endif\n"


def with_header(r, data, others):
    """the program with a header of its own name: complete, mutated, including itself or others, or no text at all"""
    toks = TOK.findall(data)
    cut = r.choice([0, len(toks) // 3, len(toks) // 2])
    head = "".join(toks[:cut]).encode("latin1", "replace")
    k = r.choice(["plain", "self", "selfguard", "selfbare", "mutated", "std", "dir", "none", "bytes", "empty", "twice"])
    own = b'#include "prog.h"\n'
    h = {"plain": head, "self": GUARD % (own + head), "selfguard": GUARD % (head + b"\n" + own), "selfbare": head + b"\n" + own, "std": b"#include <string.h>\n#include <stdio.h>\n" + head + b"\n#include <stdio.h>\n",
         "mutated": None, "dir": None, "none": None, "bytes": bytes(r.randrange(256) for _ in range(200)), "empty": b"", "twice": GUARD % head}[k]
    if k == "mutated":
        h = mutate(r, head.decode("latin1") or "int x;\n", others)[1]
    body = "".join(toks[cut:]).encode("latin1", "replace")
    return "header-" + k, own * (2 if k == "twice" else 1) + body, h


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def tiny():
    limits()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (64, 64))


def unwritable(i):
    """a valid program whose output cannot be written: the compiler must say so"""
    r = random.Random(f"C15w:{SEED}:{i}")
    text = program([r.choice(BASES)(r, "a_", ids=[1])])
    cfg, flags = r.choice(CONFIGS + [DEFAULT])
    kind = ["no-such-directory", "is-a-directory", "below-a-file", "write-error"][i % 4]
    d = c.scratch.path(".d")
    os.mkdir(d)
    try:
        p = os.path.join(d, "prog.c")
        with open(p, "w", encoding="latin1") as f:
            f.write(text)
        w = {"no-such-directory": d + "/none/out.wasm", "is-a-directory": d + "/out", "below-a-file": p + "/out.wasm", "write-error": d + "/out.wasm"}[kind]
        if kind == "is-a-directory": os.mkdir(w)
        env = dict(RUN_ENV); env["RUST_LOG"] = "error"
        try:
            q = subprocess.run([c.bin, p, "-o", w, *flags], cwd=REPO, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400, preexec_fn=tiny if kind == "write-error" else limits)
        except subprocess.TimeoutExpired:
            return c.unsure("wall-clock watchdog (unwritable output)")
        bad = None
        if q.returncode == 0:
            bad = f"exit 0 although the output could not be written ({kind})"
        elif not (q.stderr + q.stdout).strip():
            bad = f"exit {q.returncode} without a diagnostic for an output that cannot be written ({kind})"
        if bad:
            return c.violate(f"{bad} ({cfg})", q.stderr.decode("utf8", "replace")[-1500:], {"program.c": text, "flags.txt": " ".join(flags)})
        c.observe(digest(text.encode("latin1") + kind.encode()))
        c.count("outputs_unwritable")
        with c._lock:
            kinds.add("output-" + kind)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(i):
    if i % 40 == 7:
        return unwritable(i // 40)
    if len(c.violations) >= 3:
        return
    r = random.Random(f"C15:{SEED}:{i}")
    header = None
    if r.random() < 0.1:
        kind, data = whole(r)
    elif r.random() < 0.3:
        kind, data = "types", Y.untyped_program(r)[0].encode()
    else:
        ps = [program([r.choice(BASES)(r, f"a{k}_", ids=[1]) for k in range(r.randint(1, 2))]) for _ in range(2)]
        kind, data = mutate(r, ps[0], ps) if r.random() < 0.93 else (None, None)
        if kind is None:
            kind, data, header = with_header(r, ps[0], ps)
    # keep the preprocessor away from real files: only known header names may be included
    def tame(data):
        return re.sub(rb'(#\s*(?:include|import|embed)\w*)\s*([<"])[^>"\n]*', lambda m: m.group(0) if re.search(rb'<(stdio|string|stdlib|ctype|limits|stddef)\.h$|"prog\.h$', m.group(0)) else m.group(1) + b" " + m.group(2) + b"nothere.h", data)
    cfg, flags = r.choice(CONFIGS + [DEFAULT])
    text = tame(data)
    d = c.scratch.path(".d")
    os.mkdir(d)
    try:
        judge(c, i, kind, cfg, flags, d, text, tame(header) if header is not None else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(c, i, kind, cfg, flags, d, text, header):
    p, w = os.path.join(d, "prog.c"), os.path.join(d, "out.wasm")
    with open(p, "wb") as f:
        f.write(text)
    if kind == "header-dir":
        os.mkdir(os.path.join(d, "prog.h"))
    elif header is not None:
        with open(os.path.join(d, "prog.h"), "wb") as f:
            f.write(header)
    env = dict(RUN_ENV); env["RUST_LOG"] = "error"
    try:
        q = subprocess.run([c.bin, p, "-o", w, *flags], cwd=REPO, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return c.unsure(f"wall-clock watchdog ({kind})")
    err = (q.stderr + q.stdout).decode("utf8", "replace")
    bad = None
    if q.returncode in (-24, -9):
        bad = f"does not terminate: more than 60 s of CPU for {len(text)} bytes"
    elif q.returncode == 0:
        if not os.path.exists(w):
            bad = "exit 0 without an output file"
        else:
            rep = pool.execute({"id": 1, "wasm": w, "args": [], "norun": True})
            if "inconclusive" in rep:
                return c.unsure(rep["inconclusive"])
            if not rep.get("valid"):
                bad = f"exit 0 with a module that does not validate: {rep.get('err')}"
            else:
                imps = {tuple(x[:2]) if isinstance(x, list) else x for x in rep.get("imports", [])}
                if "main" not in str(rep.get("exports")):
                    bad = f"exit 0 with a module that exports {rep.get('exports')}"
    elif os.path.exists(w):
        bad = f"exit {q.returncode} but a file was written"
    elif not err.strip():
        bad = f"exit {q.returncode} without a diagnostic"
    extra = sorted(set(os.listdir(d)) - {"prog.c", "prog.h", "out.wasm"})
    if not bad and extra:
        bad = f"left other files behind: {extra}"
    if bad:
        files = {"program.c": text, "flags.txt": " ".join(flags)}
        if header is not None: files["prog.h"] = header
        return c.violate(f"{bad} ({kind}, {cfg})", err[-1500:], files)
    c.observe(digest(text))
    c.sample(f"{kind} under {cfg}: exit {q.returncode}: {text[:120]!r}")
    c.count("inputs_" + ("accepted" if q.returncode == 0 else "aborted" if q.returncode != 1 else "refused"))
    with c._lock:
        kinds.add(kind)
    if q.returncode not in (0, 1):
        m = re.search(r"panicked at ([^\n]*)", err)
        with c._lock:
            panics[m.group(1) if m else f"status {q.returncode}"] = panics.get(m.group(1) if m else f"status {q.returncode}", 0) + 1


kinds, panics = set(), {}
for _ in pool.map_until(one, itertools.count(), lambda: c.left() <= 0 or len(c.violations) >= 3):
    pass
c.cov["mutation_kinds"] = len(kinds)
c.cov["abort_sites"] = len(panics)
c.cov["aborts"] = dict(sorted(panics.items(), key=lambda x: -x[1])[:20])
c.finish(min_evals=100)
