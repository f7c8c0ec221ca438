"""Programs as people write them (corpus/programs): run on random arguments, and, more often, varied first: a few
operators, constants, conditions, names, types or whole statements are replaced.  Most variants are still valid
programs that nobody has written before; the strict reference decides which (see common.reference)."""
import glob, os, re
from common import VERIF

DIR = os.path.join(VERIF, "corpus", "programs")
_cache = {}


def sources():
    if not _cache:
        for p in sorted(glob.glob(os.path.join(DIR, "*.c"))):
            with open(p) as f:
                t = f.read()
            _cache[os.path.basename(p)[:-2]] = (t, re.search(r"/\* args: (.*?) \*/", t)[1])
    return _cache


def expression(r, d):
    c = r.random()
    if d <= 0 or c < .25:
        return str(r.randint(0, 999))
    if c < .4:
        return "(" + expression(r, d - 1) + ")"
    if c < .5:
        return r.choice("-~") + expression(r, d - 1)
    if c < .54:
        return r.choice("+)(x")
    return expression(r, d - 1) + r.choice("+-*/%") + expression(r, d - 1)


def arguments(r, spec):
    out = []
    for s in spec.split():
        k, lo, hi = s.split(":")
        lo, hi = int(lo), int(hi)
        if k == "int":
            out.append(str(r.randint(lo, hi)))
        elif k == "word":
            out.append("".join(r.choice("abcABCxyzXYZ019 .,-_!") for _ in range(r.randint(lo, hi))))
        elif k == "src":
            ts = ["a", "b1", "_x", " ", "12", "999999999999", '"q"', "'", '"', "\\", "/", "//", "\n", "+", "$"]
            out += ["".join(r.choice(ts) for _ in range(r.randint(lo, hi))) for _ in range(r.randint(0, 3))]
        elif k == "expr":
            out += [expression(r, r.randint(0, 5))[:60] for _ in range(r.randint(0, hi // 8))]
    return out


TOK = re.compile(r"""\s+|/\*.*?\*/|//[^\n]*|^\#[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\d+\.\d+|0[xX][0-9a-fA-F]+|\d+|[A-Za-z_]\w*|<<=|>>=|\.\.\.|[-+*/%&|^!=<>]=|&&|\|\||<<|>>|\+\+|--|->|.""", re.S | re.M)
CLASSES = [["+", "-", "*"], ["&", "|", "^"], ["<<", ">>"], ["<", "<=", ">", ">=", "==", "!="], ["&&", "||"], ["+=", "-=", "*=", "|=", "&=", "^="], ["++", "--"], ["/", "%"]]
TYPES = {"int": ["long", "short", "unsigned int", "signed char", "unsigned char", "unsigned short"], "long": ["int", "unsigned long", "unsigned int", "short"],
         "double": ["float", "long"], "float": ["double"], "char": ["unsigned char", "signed char", "short"]}
WORDS = set("int long short char unsigned signed double float void struct union enum typedef static const if else for while do switch case default break continue return goto sizeof "
            "main argc argv printf strtol strtoul strlen strstr NULL include define isalpha islower isupper isdigit isalnum ispunct".split())


def mutate(r, text, n):
    t = TOK.findall(text)
    start = next((i for i, x in enumerate(t) if x == "{"), 0)
    done = []
    for _ in range(200):
        if len(done) >= n:
            break
        k = r.choice(["op", "op", "op", "const", "const", "type", "name", "negate", "stmt", "chr"])
        code = [i for i in range(start, len(t)) if t[i] and not t[i].isspace() and t[i][:2] not in ("/*", "//") and t[i][0] != "#"]
        i = r.choice(code)
        x = t[i]
        p = next((t[j] for j in range(i - 1, 0, -1) if t[j] and not t[j].isspace()), "")
        q = next((t[j] for j in range(i + 1, len(t)) if t[j] and not t[j].isspace()), "")
        if k == "op":
            cl = next((c for c in CLASSES if x in c), None)
            binary = re.match(r"[\w)\]]", p[-1:]) and p not in WORDS or x in ("++", "--")
            if not cl or not binary or p == ")" and x in "+-*&" and r.random() < .7:
                continue
            y = r.choice([o for o in cl if o != x])
            if {x, y} & {"*", "/"} and "p" in (p, q):
                continue
        elif k == "const":
            if not re.fullmatch(r"\d+|0[xX]\w+|\d+\.\d+", x) or p in ("[", "#") and q == "]" or len(x) > 9:
                continue
            if "." in x:
                y = r.choice(["0.5", "1.0", "2.25", "0.1"])
            else:
                v = int(x, 0)
                y = str(r.choice([max(v - 1, 0), v + 1, v + 1, 0, 1, 2, v * 2, v // 2, 255, 7]))
            if y == x:
                continue
        elif k == "chr":
            if not re.fullmatch(r"'[^\\]'", x):
                continue
            y = "'" + r.choice("abzAZ09 _*/(-") + "'"
        elif k == "type":
            if x not in TYPES or p in ("unsigned", "signed", "long", "short") or q in ("*", ")", "main"):
                continue
            j = t.index(x, i)
            rest = "".join(t[j + 1:j + 8])
            if re.match(r"\s*\w+\s*\(", rest):
                continue
            y = r.choice(TYPES[x])
        elif k == "name":
            if not re.fullmatch(r"[A-Za-z_]\w*", x) or x in WORDS or q in ("(", ":") or p in (".", "->", "struct", "union", "enum", "goto") or p in WORDS and p not in ("return", "case"):
                continue
            lo, hi = i, i
            while lo > start and not (t[lo] == "}" and t[lo - 1].endswith("\n")):
                lo -= 1
            while hi < len(t) and not (t[hi] == "}" and t[hi - 1].endswith("\n")):
                hi += 1
            near = [t[j] for j in range(lo, hi) if re.fullmatch(r"[a-z]\w?", t[j]) and t[j] not in WORDS and t[j - 1] not in (".", "->")]
            if p in ("*", "->", ".") or q in ("[", "->", "."):
                continue
            if not near:
                continue
            y = r.choice(near)
        elif k == "negate":
            if x not in ("if", "while") or q != "(":
                continue
            d, j = 0, i
            while True:
                j += 1
                d += (t[j] == "(") - (t[j] == ")")
                if d == 0 and t[j] == ")":
                    break
            a = t.index("(", i)
            t[a], t[j] = "(!(", "))"
            done.append(("negate", x))
            continue
        else:
            if x != ";" or p in (")",) and False:
                continue
            # the statement that ends here: back to the previous ; { or }
            j = i - 1
            while j > start and t[j] not in (";", "{", "}", ")", "else", ":"):
                if t[j] == ")":
                    break
                j -= 1
            # with a call the text contains ")": take whole lines instead
            while j > start and not (t[j].isspace() and "\n" in t[j]):
                j -= 1
            s = "".join(t[j + 1:i + 1])
            if re.match(r"\s*(int|long|char|double|float|struct|unsigned|short|static|typedef|return|break|continue|goto|case|default|else|if|for|while|do|switch|big|cell|u64|state_t|enum)\b|\s*}", s) or "\n" in s.strip() or s.count("{") != s.count("}") or s.count("(") != s.count(")"):
                continue
            if r.random() < .5:
                t[i] = "; " + s.strip() if r.random() < .5 else ";"
                t[j + 1] = t[j + 1] if t[i] != ";" else t[j + 1]
                if t[i] == ";":
                    for q2 in range(j + 1, i):
                        t[q2] = ""
            else:
                t[j] += "{ "
                t[i] = "; }"
            done.append(("stmt", ""))
            continue
        t[i] = y
        done.append((k, x))
    return "".join(t)


def c_string(s):
    return '"' + "".join("\\" + c if c in '"\\' else "\\n" if c == "\n" else c for c in s) + '"'


def idiom_program(r):
    src = sources()
    name = r.choice(sorted(src))
    text, spec = src[name]
    args = arguments(r, spec)
    if r.random() < .25:
        return text + f"// {args!r}\n", args, {}
    m = mutate(r, text, r.choice([1, 1, 2, 2, 3, 4, 6]))
    # the arguments become objects of the program, so that the reference sees accesses beyond their ends
    m = re.sub(r"\bmain\s*\(", "entry(", m)
    # (a sanitized object has its red zone behind it: one object of each kind stands in front of the others)
    m = "#ifdef __clang__\nchar guard_zero[64] = {0};\nchar guard_data[2] = {1, 2};\n#endif\n" + m
    ws = "".join(f"char word{i}[] = {c_string(a)};\n" for i, a in enumerate(args))
    m += f"{ws}char prog[] = \"p\";\nchar *word_list[{len(args) + 2}];\nint main(void) {{\n    word_list[0] = prog;\n" + "".join(f"    word_list[{i + 1}] = word{i};\n" for i in range(len(args))) + f"    word_list[{len(args) + 1}] = 0;\n    return entry({len(args) + 1}, word_list);\n}}\n#ifdef __clang__\nchar guard_zero2[64] = {{0}};\nchar guard_data2[2] = {{1, 2}};\n#endif\n"
    return m, [], {"strict": True}
