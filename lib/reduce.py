"""Developer tool: shrink a failing program (token/brace aware line removal), keeping `same kind of failure`.
usage: reduce.py DIR_OR_FILE [CFG]"""
import sys, os, re, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *

src = sys.argv[1]
if os.path.isdir(src):
    flags = open(os.path.join(src, "flags.txt")).read().split()
    src = os.path.join(src, "program.c")
else:
    flags = CONFIG[sys.argv[2] if len(sys.argv) > 2 else "TUS"]
text = open(src, encoding="latin1").read()
s = Scratch()
cc = Compiler(build(), s)
w = Worker()


def kind(t):
    p = s.path(".c")
    open(p, "w", encoding="latin1").write(t)
    x = cc.compile_file(p, flags, timeout=20)
    if x.rc == 1:
        r = reference(s, p)
        return "rej:" + re.sub(r"\d+", "", x.err[-60:]) if r.kind == "ok" else None
    if x.rc != 0:
        r = Reference()
        r.kind = "ok" if subprocess.run(["gcc", "-std=gnu99", "-w", "-fsyntax-only", p], stderr=subprocess.DEVNULL).returncode == 0 else "reject"
        m = re.search(r"panicked at ([^\n]*)", x.err)
        return ("crash:" + (m.group(1) if m else "")) if r.kind == "ok" else None
    rep = w.run({"id": 0, "wasm": x.wasm, "args": [], "poison": 0xA5, "maxTicks": 300000}, 20)
    os.unlink(x.wasm)
    if "inconclusive" in rep:
        return None
    if rep.get("err"):
        return "err"
    r = reference(s, p, timeout=10)
    if r.kind != "ok":
        return None
    if rep.get("trap"):
        return "trap" + rep["trap"][:20]
    if rep["out"] != r.out or rep["exit"] != r.exit:
        return "diff"
    if rep["viol"]:
        return "mon"
    return None


def tokens(t):
    return re.findall(r'#[^\n]*\n|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_0-9.]+|\s+|.', t, re.S)


def split(t):
    """statement-ish chunks"""
    out, cur, par = [], "", 0
    for k in tokens(t):
        cur += k
        if k == "(":
            par += 1
        elif k == ")":
            par -= 1
        elif par == 0 and k in ";{}" or k.startswith("#"):
            out.append(cur)
            cur = ""
    if cur:
        out.append(cur)
    return out


base = kind(text)
print("kind:", base, file=sys.stderr)
if base is None:
    sys.exit("does not fail")
best = text


def match(ch, i):
    """index of chunk closing the brace opened by chunk i"""
    d = 0
    for j in range(i, len(ch)):
        d += ch[j].count("{") - ch[j].count("}")
        if d <= 0:
            return j
    return None


def attempt(t):
    global best
    if time.time() - T0 > LIMIT:
        print(best)
        os._exit(0)
    if len(t) < len(best) and kind(t) == base:
        best = t
        return True
    return False


T0, LIMIT = time.time(), float(os.environ.get('LIMIT', 200))
changed = True
while changed:
    changed = False
    for size in (16, 8, 4, 2, 1):
        i = 0
        while True:
            ch = split(best)
            if i >= len(ch):
                break
            if ch[i].rstrip().endswith("{"):
                j = match(ch, i)
                if j is not None:
                    if attempt("".join(ch[:i] + ch[j + 1:])):
                        changed = True
                        continue
                    if attempt("".join(ch[:i] + ch[i + 1:j] + ch[j + 1:])) or attempt("".join(ch[:i] + ["{"] + ch[i + 1:])):
                        changed = True
                        continue
                i += 1
                continue
            if attempt("".join(ch[:i] + ch[i + size:])):
                changed = True
                continue
            i += 1
    # parenthesised expressions -> simpler
    tk = tokens(best)
    i = 0
    while i < len(tk):
        if tk[i] == "(":
            d, j = 0, i
            while j < len(tk):
                d += (tk[j] == "(") - (tk[j] == ")")
                if d == 0:
                    break
                j += 1
            done = False
            inner = tk[i + 1:j]
            for rep in (["0"], ["(1)"], ["(a)"], inner):
                if attempt("".join(tk[:i] + rep + tk[j + 1:])):
                    done = True
                    break
            if not done and len(inner) > 1:
                # binary operands
                d = 0
                for q, x in enumerate(inner):
                    d += (x == "(") - (x == ")")
                    if d == 0 and x in ("&", "|", "<", ">", "+", "-", "?", ":", ",", "^", "*", "=", "!"):
                        if attempt("".join(tk[:i] + ["("] + inner[:q] + [")"] + tk[j + 1:])) or attempt("".join(tk[:i] + ["("] + inner[q + 1:] + [")"] + tk[j + 1:])):
                            done = True
                            break
            if done:
                changed = True
                tk = tokens(best)
                continue
        i += 1
print(best)
