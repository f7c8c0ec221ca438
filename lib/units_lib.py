"""Units about the runtime library: printf, strtol/strtoul, strlen/strstr, ctype, limits, argv."""
from cgen import *
from units_expr import FMT, sn
from units_calls import small, num
from units_static import strlit


def fval(r):
    v = fval0(r)
    return v if "." in v or "e" in v else v + ".0"


def fval0(r):
    c = r.random()
    if c < 0.25:
        return r.choice(["0.0", "-0.0", "1.0", "-1.0", "0.5", "0.000001", "0.0000004", "-0.0000001", "123456789.123456789", "0.1", "0.2", "0.7", "99999.999", "1e10", "1e15", "1e20", "1e21", "1e22", "123456789012345678.0", "-1e30", "1e100", "0.999999", "0.99999996", "2147483647.5", "1e-5", "1e-300"])
    if c < 0.6:
        return f"{r.choice(['', '-'])}{r.randint(0, 10**r.randint(1, 12))}.{r.randint(0, 10**r.randint(1, 10))}"
    if c < 0.8:
        return f"{r.choice(['', '-'])}{r.random() * 10 ** r.randint(-8, 18):.17g}" if r.random() < 0.5 else f"{r.randint(1, 999)}e{r.randint(-12, 25)}"
    return f"{r.choice(['', '-'])}{r.randint(0, 1000)}.{r.choice(['25', '125', '0625', '75', '3', '1', '9'])}"


def u_printf(r, p, ids=None):
    """printf: directives in every order, mixes of argument sizes, text around them, return value."""
    u = Unit("printf")
    b = ""
    lit_nul = False
    for _ in range(r.randint(4, 10)):
        fmt, args = "", []
        pre = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 14])):
            if r.random() < 0.6:
                t = strlit(r, r.randint(0, 6)).replace("%", "%%")
                fmt += t
            c = r.randrange(11)
            if c < 2:
                fmt += r.choice(["%d", "%i"])
                t = r.choice([INT, INT, SHORT, CHAR, UCHAR, USHORT])
                v = num(r, t)
                args.append(v if r.random() < 0.4 and t is INT and len(v) < 12 and v[0] != "'" and not v.startswith("0x") and not v.startswith("0X") else f"({t.name}) {v}")
                if args[-1] == v and not (-(1 << 31) <= eval_c(v) < (1 << 31)):
                    args[-1] = f"(int) {v}"
                u.feats.add("%d<-" + sn(t))
            elif c == 2:
                fmt += "%u"
                args.append(f"(unsigned int) {num(r, UINT)}")
                u.feats.add("%u")
            elif c == 3:
                d = r.choice(["%ld", "%li", "%lu"])
                fmt += d
                t = ULONG if d == "%lu" else LONG
                args.append(f"({t.name}) {num(r, t)}")
                u.feats.add(d)
            elif c == 4:
                d = r.choice(["%hd", "%hu", "%hi"])
                fmt += d
                t = USHORT if d == "%hu" else SHORT
                args.append(f"({t.name}) {num(r, t)}")
                u.feats.add(d)
            elif c == 5:
                fmt += "%c"
                ch = r.choice([f"'{r.choice('abzAZ09 .!~')}'", str(r.randint(1, 255)), f"(char) {r.randint(-128, 127) or 1}", f"(unsigned char) {r.randint(1, 255)}", "'\\n'", "'\\t'", str(256 + r.randint(1, 255)), "0"])
                args.append(ch)
                u.feats.add("%c")
            elif c == 6:
                fmt += "%s"
                args.append(f"\"{strlit(r, r.choice([0, 1, 3, 9, 40]))}\"")
                u.feats.add("%s")
            elif c == 7 or c == 8:
                fmt += "%f"
                v = fval(r)
                args.append(f"({v})" if r.random() < 0.75 else f"(float) ({v})")
                if "e1" in v and "(float)" in args[-1]:
                    args[-1] = f"({v})"
                u.feats.add("%f")
            elif c == 9:
                fmt += "%%"
                u.feats.add("%%")
            else:
                fmt += r.choice(["\\n", "\\t", " ", "\\xe9", "\\\"", "\\\\"])
                fmt += " "
        if r.random() < 0.5:
            fmt += r.choice(["\\n", " end\\n", "."])
        call = f"printf(\"{fmt}\"{''.join(', ' + a for a in args)})"
        c = r.random()
        if c < 0.5:
            b += f"    k = {call}; printf(\"[%d]\\n\", k);\n"
        elif c < 0.6:
            b += f"    printf(\"<%d>\\n\", {call});\n"
        else:
            b += f"    {call}; printf(\"\\n\");\n"
        u.feats.add(f"nargs{len(args)}")
    u.d(f"void {p}run() {{\n    int k;\n{b}}}")
    u.calls.append(f"{p}run();")
    return u


def eval_c(v):
    try:
        s = v.replace("(", "").replace(")", "")
        if s.startswith("-0") and len(s) > 2 and s[2] not in "xX":
            return -int(s[1:], 8)
        if s.startswith("0") and len(s) > 1 and s[1] not in "xX":
            return int(s, 8)
        return int(eval(v, {}, {})) if not v.startswith("(-0") else 0
    except Exception:
        return 1 << 40


def numstr(r):
    s = r.choice(["", "", "", " ", "  ", "\\t", "\\n ", " \\v\\f\\r"]) + r.choice(["", "", "", "-", "+", "--", "- "])
    c = r.random()
    if c < 0.25:
        s += r.choice(["0x", "0X", "0", ""]) + r.choice(["", "0", "1f", "FF", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "10000000000000000", "g", "xyz", "deadBEEF"])
    elif c < 0.5:
        s += str(r.choice(BOUND + [18446744073709551616, 99999999999999999999999, 9223372036854775809]))
    elif c < 0.7:
        s += str(r.randint(0, 10**r.randint(1, 25)))
    elif c < 0.85:
        s += "".join(r.choice("0123456789abcdefghijklmnopqrstuvwxyzABCXYZ") for _ in range(r.randint(0, 9)))
    else:
        s += "".join(r.choice("01234567") for _ in range(r.randint(1, 12)))
    s += r.choice(["", "", "", " ", "abc", ".5", "z", "-1", " 12", "x"])
    return s


def u_strto(r, p, ids=None):
    u = Unit("strto")
    u.includes |= {"stdlib.h", "stddef.h"}
    b = ""
    for _ in range(r.randint(4, 9)):
        s = numstr(r)
        base = r.choice([0, 0, 10, 10, 16, 8, 2, 36, r.randint(2, 36), 0])
        fn = r.choice(["strtol", "strtoul"])
        f = "%ld" if fn == "strtol" else "%lu"
        c = r.random()
        if c < 0.65:
            b += f"    s = \"{s}\"; e = s; {'v' if fn == 'strtol' else 'w'} = {fn}(s, &e, {base}); printf(\"{f} %d\\n\", {'v' if fn == 'strtol' else 'w'}, (int) (e - s));\n"
        elif c < 0.8:
            b += f"    printf(\"{f}\\n\", {fn}(\"{s}\", {r.choice(['NULL', '0', '(char **) 0'])}, {base}));\n"
        else:
            b += f"    {{ int x = {fn}(\"{s}\", NULL, {base}); short y = {fn}(\"{s}\", NULL, {base}); printf(\"%d %d\\n\", x, (int) y); }}\n"
        u.feats.add(f"{fn}/{base}")
    u.d(f"void {p}run() {{\n    char *s; char *e; long v; unsigned long w;\n{b}}}")
    u.calls.append(f"{p}run();")
    return u


def u_string_fns(r, p, ids=None):
    u = Unit("strfn")
    u.includes |= {"string.h"}
    b = ""
    for _ in range(r.randint(4, 9)):
        al = r.choice(["ab", "abc", "aA ", "01", "xyz\\n"])
        h = "".join(r.choice(["a", "b"] if al == "ab" else list(al.replace("\\n", "\n"))).replace("\n", "\\n") for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, 40])))
        n = "".join(r.choice(["a", "b"] if al == "ab" else list(al.replace("\\n", "\n"))).replace("\n", "\\n") for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5, 9])))
        if r.random() < 0.3 and "\\" not in h and h:
            i = r.randint(0, len(h))
            n = h[i:i + r.randint(0, 6)]
        if r.random() < 0.15:
            h += "\\351\\377" + n
        c = r.random()
        if c < 0.45:
            b += f"    h = \"{h}\"; q = strstr(h, \"{n}\"); printf(\"%d\\n\", q ? (int) (q - h) : -1);\n"
        elif c < 0.6:
            b += f"    {{ char a[] = \"{h}\"; q = strstr(a, \"{n}\"); if (q) {{ *q = '#'; printf(\"%s %d\\n\", a, (int) strlen(q)); }} else printf(\"none\\n\"); }}\n"
        elif c < 0.8:
            b += f"    printf(\"%d %d\\n\", (int) strlen(\"{h}\"), (int) strlen(\"{h}\\0{n}\"));\n"
        else:
            b += f"    {{ char a[] = \"{h}\"; int i; for (i = 0; i <= (int) strlen(a); i++) printf(\"%d,\", (int) strlen(a + i)); printf(\"\\n\"); }}\n"
    u.d(f"void {p}run() {{\n    char *h; char *q;\n{b}}}")
    u.calls.append(f"{p}run();")
    return u


CT = ["isalnum", "isalpha", "iscntrl", "isdigit", "isxdigit", "isgraph", "ispunct", "isprint", "islower", "isupper", "isspace"]


def u_ctype(r, p, ids=None):
    """Exhaustive over the ASCII range or over all of EOF and unsigned char in every program."""
    u = Unit("ctype")
    u.includes |= {"ctype.h", "limits.h"}
    lo, hi = r.choice([(0, 128), (1, 128), (30, 128), (-1, 256), (-1, 256), (100, 256)])
    fns = r.sample(CT, len(CT))
    u.d(f"void {p}run() {{ int c; for (c = {lo}; c < {hi}; c++) {{ printf(\"%d:\", c); " + " ".join(f"printf(\"%d\", {f}(c) != 0);" for f in fns) + f" printf(\" %d %d\\n\", (int) tolower(c), (int) toupper(c)); }} }}")
    u.calls.append(f"{p}run();")
    u.feats |= set(CT)
    lim = ["CHAR_BIT", "SCHAR_MIN", "SCHAR_MAX", "UCHAR_MAX", "CHAR_MIN", "CHAR_MAX", "SHRT_MIN", "SHRT_MAX", "USHRT_MAX", "INT_MIN", "INT_MAX"]
    u.calls.append("printf(\"" + " ".join(["%d"] * len(lim)) + " %u %ld %ld %lu\\n\", " + ", ".join(lim) + ", UINT_MAX, LONG_MIN, LONG_MAX, ULONG_MAX);")
    u.calls.append("printf(\"%d %d %d\\n\", INT_MIN < 0, UINT_MAX > 0, (int) (LONG_MIN / 3 < LONG_MAX / 3));")
    return u


def u_text(r, p, ids=None):
    """User-style string code: copy, reverse, concatenate, tokenise, compare, itoa, caesar."""
    u = Unit("text")
    u.includes |= {"string.h", "ctype.h"}
    w = [strlit(r, r.randint(1, 12), ascii_only=True).replace("\\", "").replace("%", "") for _ in range(4)]
    u.d(f"""void {p}cpy(char *d, const char *s) {{ while ((*d++ = *s++)); }}
int {p}cmp(const char *a, const char *b) {{ while (*a && *a == *b) {{ a++; b++; }} return (*a > *b) - (*a < *b); }}
void {p}rev(char *s) {{ int i = 0; int j = strlen(s) - 1; while (i < j) {{ char t = s[i]; s[i++] = s[j]; s[j--] = t; }} }}
void {p}cat(char *d, const char *s) {{ {p}cpy(d + strlen(d), s); }}
int {p}words(const char *s) {{ int n = 0; int in = 0; for (; *s; ++s) {{ if (isspace(*s)) in = 0; else if (!in) {{ in = 1; n++; }} }} return n; }}
void {p}itoa(int v, char *out) {{ char b[12]; int i = 0; int neg = v < 0; unsigned int x = neg ? 0 - (unsigned int) v : v; do {{ b[i++] = '0' + x % 10; x /= 10; }} while (x); if (neg) *out++ = '-'; while (i) *out++ = b[--i]; *out = 0; }}
void {p}caesar(char *s, int k) {{ for (; *s; s++) {{ if (islower(*s)) *s = (*s - 'a' + k) % 26 + 'a'; else if (isupper(*s)) *s = (*s - 'A' + k) % 26 + 'A'; }} }}
void {p}run() {{
    char buf[80]; char num[14];
    {p}cpy(buf, "{w[0]}"); {p}rev(buf); printf("%s\\n", buf);
    {p}cat(buf, " {w[1]}"); {p}caesar(buf, {r.randint(1, 25)}); printf("%s %d\\n", buf, (int) strlen(buf));
    printf("%d %d %d\\n", {p}cmp("{w[2]}", "{w[3]}"), {p}cmp("{w[2]}", "{w[2]}"), {p}words("{w[0]}  {w[1]} {w[2]}"));
    {p}itoa({rint(r, INT) if True else 0} , num); printf("%s\\n", num);
}}""".replace("-2147483648", "(-2147483647 - 1)"))
    u.calls.append(f"{p}run();")
    return u


def argv_program(r):
    """Whole program printing its arguments; returns (text, args)."""
    n = r.choice([0, 1, 2, 3, 5, 9, 20])
    args = []
    for _ in range(n):
        c = r.random()
        if c < 0.15:
            args.append("")
        elif c < 0.5:
            args.append(str(r.randint(-10**9, 10**9)))
        elif c < 0.8:
            args.append("".join(r.choice("abc XYZ-=/.,'\"\\%$*") for _ in range(r.randint(1, 30))))
        else:
            args.append(r.choice(["--flag", "-x", "a=b", "é€", "日本", "x" * r.randint(50, 400), "%d %s", "\t", "0x1f", "*"]))
    k = r.randrange(4)
    g = "char gbuf[7] = {1, 2, 3, 4, 5, 6, 7}; int gz[5]; char *gs = \"lit\";"
    body = ["for (i = 1; i < argc; i++) printf(\"%d:%s|\\n\", i, argv[i]);",
            "for (i = argc - 1; i > 0; i--) { char *s = argv[i]; int n = 0; while (*s) { n = n * 31 + (unsigned char) *s++; n = n & 65535; } printf(\"%d %d\\n\", n, (int) strlen(argv[i])); }",
            "for (i = 1; i < argc; i++) { char *e; long v = strtol(argv[i], &e, 0); printf(\"%ld %d\\n\", v, (int) (e - argv[i])); }",
            "char **p = argv + 1; while (p - argv < argc) { char *s = *p; if (*s) { *s = '_'; } printf(\"%s\\n\", *p); p++; }"][k]
    text = f"#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n{g}\nint helper(int d) {{ int a[20]; int i; for (i = 0; i < 20; i++) a[i] = d; gz[d % 5] += a[3]; return gz[d % 5]; }}\n" \
        f"int main(int argc, char **argv) {{\n    int i; int loc = 77;\n    printf(\"%d\\n\", argc); printf(\"%d %d\\n\", helper(argc), loc);\n    {body}\n    printf(\"%s %d %d %d\\n\", gs, gbuf[0], gbuf[6], gz[4]);\n    return {r.choice(['argc', 'argc * 3', '0', '200', 'argc + 250'])};\n}}\n"
    return text, args


def u_printf_hist(r, p, ids=None):
    """printf over time: formats and strings that live in memory the program keeps changing, tails of other strings,
    formats chosen at run time, calls from different depths, long runs of output."""
    u = Unit("printf-hist")
    n = r.randint(12, 24)
    u.d(f"char {p}buf[{n + 1}]; char {p}names[4][6]; char *{p}fs[4]; int {p}calls = 0;")
    u.d(f"void {p}set(char *d, char *s) {{ while (*s) *d++ = *s++; *d = 0; }}")
    u.d(f"int {p}deep(int k, char *f) {{ char pad[{r.randint(1, 40)}]; pad[0] = 'a' + k % 26; {p}calls++; if (k == 0) return printf(f, pad[0], {p}calls); return {p}deep(k - 1, f) + {r.randint(0, 3)}; }}")
    dirs = ["%d", "%c", "%i", "%u", "%%", "%hd"]
    b = f"    int k = 0; int i; char loc[{n + 1}]; char *q;\n"
    for j in range(r.randint(5, 10)):
        w = r.choice(["change", "change", "local", "tail", "choose", "deep", "names", "build", "long", "wipe"])
        u.feats.add("hist:" + w)
        f = "".join(r.choice(["a", "b", " ", "=", ":", "z"]) for _ in range(r.randint(0, 4)))
        d = r.choice(["%d", "%i", "%u", "%c", "%hd"])
        if w in ("change", "local"):
            x = f"{p}buf" if w == "change" else "loc"
            at = r.randrange(len(f) + 1)
            s = f"{p}set({x}, \"{f}{d};\"); for (i = 0; i < {r.randint(2, 5)}; i++) {{ k += printf({x}, {r.randint(65, 90)} + i); "
            s += r.choice([f"{x}[{at}] = {x}[{at}] == '%' ? '%' : 'A' + i;", f"if (i == 1) {p}set({x}, \"{r.choice(dirs)}{f}.\");", f"{p}set({x} + i, \"%c,\");", f"if (i & 1) {x}[0] = 0; else {p}set({x}, \"<%d>\");"]) + " }"
        elif w == "tail": s = f"q = \"{f}xy{d}{f}%%|\"; for (i = 0; i < {len(f) + 3}; i++) k += printf(q + i, 'a' + i);"
        elif w == "choose": s = f"{p}fs[0] = \"%d{f}\"; {p}fs[1] = \"{f}\"; {p}fs[2] = {p}buf; {p}fs[3] = \"%c%%\"; {p}set({p}buf, \"b%i\"); for (i = 0; i < {r.randint(3, 9)}; i++) {{ k += printf({p}fs[(i * {r.choice([1, 3, 5])} + {r.randint(0, 3)}) & 3], i + 66); {p}buf[0]++; }}"
        elif w == "deep": s = f"k += {p}deep({r.randint(0, 12)}, \"{f}%c%d\"); k += {p}deep({r.randint(0, 3)}, {r.choice([f'{p}buf', chr(34) + '%d.%d' + chr(34)])});".replace(f"{p}buf)", "\"-%c\")")
        elif w == "names": s = f"for (i = 0; i < 4; i++) {{ {p}set({p}names[i], \"{f}\"); {p}names[i][{len(f)}] = '0' + i; {p}names[i][{len(f) + 1}] = 0; }} for (i = {r.randint(4, 7)}; i >= 0; i--) k += printf(\"%s/%s \", {p}names[i & 3], {p}names[(i + 1) & 3] + (i & 1));"
        elif w == "build": s = f"for (i = 0; i < {n}; i++) {{ loc[i] = 'a' + i; loc[i + 1] = 0; k += printf(\"%s\", loc + i / 2); }}"
        elif w == "long": s = f"for (i = 0; i < {r.choice([200, 700, 1500])}; i++) {{ k += printf(\"%d%c\", i, i % 10 == 9 ? '\\n' : ' '); }}"
        else: s = f"for (i = 0; i < {n}; i++) {{ loc[i] = 0; {p}buf[i] = 0; }} k += printf(loc); k += printf({p}buf, 1); k += printf(\"\");"
        b += f"    {s}\n    printf(\"\\n%d\\n\", k);\n"
    u.d(f"void {p}run() {{\n{b}}}")
    u.calls.append(f"{p}run();")
    return u
