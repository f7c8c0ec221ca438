"""Whole programs about the standard headers: any subset, order, repetition and spelling of includes."""
HS = ["stdio.h", "stdlib.h", "string.h", "ctype.h", "limits.h", "stddef.h", "stdint.h", "stdbool.h"]
LIM = {"CHAR_BIT": 8, "SCHAR_MIN": 0, "SCHAR_MAX": 0, "UCHAR_MAX": 0, "CHAR_MIN": 0, "CHAR_MAX": 0, "SHRT_MIN": 0, "SHRT_MAX": 0, "USHRT_MAX": 0, "INT_MIN": 0, "INT_MAX": 0, "UINT_MAX": 0, "LONG_MIN": 0, "LONG_MAX": 0, "ULONG_MAX": 0,
       "LLONG_MIN": 0, "LLONG_MAX": 0, "ULLONG_MAX": 0}
INTS = [(s + k + str(b) + "_t", s == "", b) for s in ("", "u") for k in ("int",) for b in (8, 16, 32, 64)]
LEAST = [(s + "int_least" + str(b) + "_t", s == "", b) for s in ("", "u") for b in (8, 16, 32, 64)]
FAST = [(s + "int_fast" + str(b) + "_t", s == "", b) for s in ("", "u") for b in (8, 16, 32, 64)]


def spell(r, h):
    k = r.random()
    if k < 0.6:
        return f"#include <{h}>"
    q = r.choice([("<", ">"), ('"', '"')])
    return r.choice(["", " ", "\t", "   "]) + "#" + r.choice(["", " ", "  "]) + "include" + r.choice(["", " ", "\t", "  "]) + q[0] + h + q[1] + r.choice(["", " ", " // <x.h>", " /* \"y.h\" */", "\t"])


def val(r, signed, b):
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)
    return r.choice([lo, hi, 0, 1, hi - 1, lo + 1, r.randint(lo, hi)])


def lit(v):
    if v == -(1 << 63):
        return "(-9223372036854775807 - 1)"
    if v == -(1 << 31):
        return "(-2147483647 - 1)"
    if v > (1 << 63) - 1:
        return hex(v)
    return str(v) if v >= 0 else f"({v})"


def headers_program(r):
    use = r.sample(HS, r.randint(1, len(HS)))
    if "stdio.h" not in use:
        use.append("stdio.h")
    r.shuffle(use)
    inc = [spell(r, h) for h in use]
    for h in use:
        if r.random() < 0.2:
            inc.insert(r.randint(0, len(inc)), spell(r, h))
    body, decls, fs, n = [], [], [], 0

    def put(fmt, e):
        nonlocal n
        n += 1
        body.append(f'printf("{n} {fmt}\\n", {e});')

    if "limits.h" in use:
        for k in r.sample(sorted(LIM), r.randint(3, 10)):
            x = r.random()
            if k == "CHAR_BIT" or x < 0.3:
                put("%d", f"(int) ({k} {r.choice(['== 8', '> 0', '< 200', '!= 127', '<= -128'])})")
            elif k.startswith("U") and "LONG" not in k and "INT" not in k or k in ("SCHAR_MIN", "SCHAR_MAX", "CHAR_MIN", "CHAR_MAX", "SHRT_MIN", "SHRT_MAX", "INT_MIN", "INT_MAX"):
                put("%d", f"(int) ({k}{r.choice(['', ' / 2', ' % 7', ' / 3 * 2'])})")
            else:
                put("%ld", f"(long) ({k}{r.choice(['', ' / 2', ' % 7', ' / 3'])})")
            if r.random() < 0.4:
                # the type of the constant shows in its size and in how it wraps and compares
                put("%d", f"(int) sizeof({k} + 0) / 4" if "L" not in k.split("_")[0] else f"(int) sizeof({k})")
                put("%d", f"(int) (-1 < {k})")
        if r.random() < 0.6:
            k = r.choice(["UINT_MAX", "ULONG_MAX", "ULLONG_MAX"])
            put("%ld", f"(long) ({k} + 1)")
            put("%ld", f"(long) ({k} * 2)")
    if "stdint.h" in use:
        for t, s, b in r.sample(INTS + LEAST, r.randint(3, 7)):
            v = val(r, s, b)
            nm = f"v{n}"
            g = r.random() < 0.4
            (decls if g else body).append(f"{t} {nm} = {lit(v)};")
            put("%ld", f"(long) {nm}")
            put("%d", f"(int) sizeof({t})")
            body.append(f"{nm} = {nm}; {nm} {r.choice(['^', '|', '&'])}= {lit(val(r, s, b))}; ")
            put("%ld", f"(long) {nm}")
            if not s:
                body.append(f"{nm} += {lit(val(r, False, b))};")
                put("%ld", f"(long) {nm}")
                put("%d", f"(int) ({nm} > {lit(val(r, False, b))})")
            else:
                put("%d", f"(int) ({nm} < {lit(val(r, True, b))})")
        for t, s, b in r.sample(FAST, 2):
            nm = f"v{n}"
            v = val(r, s, b)
            body.append(f"{t} {nm} = {lit(v)};")
            put("%ld", f"(long) {nm}")
            if b in (8, 64):
                put("%d", f"(int) sizeof({t})")
        t, s = r.choice([("intmax_t", True), ("uintmax_t", False)])
        put("%ld", f"(long) ({t}) {lit(val(r, s, 64))}")
        put("%d", f"(int) (({t}) -1 < 0)")
        if r.random() < 0.5:
            body.append(f"int o{n} = {r.randint(1, 99)};")
            put("%d", f"*(int *) ({r.choice(['intptr_t', 'uintptr_t'])}) &o{n}")
    if "stddef.h" in use or "string.h" in use:
        body.append(f"size_t z = {r.randint(0, 9)};")
        put("%d", f"(int) (z - {r.randint(10, 20)} > 0)")
        put("%d", "(int) ((size_t) -1 > 0)")
        put("%d", f"(int) (sizeof(char) {r.choice(['<', '>', '-', '+'])} -1 > 0)")
    if "stddef.h" in use:
        body.append(f"ptrdiff_t pd = {r.randint(-9, 9)}; wchar_t wc = {r.choice([65, 1000, 70000])};")
        put("%d", "(int) (pd < 0)")
        put("%d", "(int) wc")
    if {"stddef.h", "stdlib.h", "string.h"} & set(use):
        decls.append("char *np = NULL; int *ip = NULL;")
        put("%d", "np == NULL")
        put("%d", r.choice(["ip != NULL", "!ip", "ip == 0 ? 3 : 4", "np || ip"]))
        body.append("np = \"q\"; ip = &argc;")
        put("%d", "(np != NULL) + (ip == NULL) * 2 + (NULL == np) * 4")
    if "stdbool.h" in use:
        put("%d", r.choice(["true", "false", "true + true", "!true", "!false", "true && false", "true ? 5 : 6", "(3 > 2) == true"]))
        body.append("#ifdef __bool_true_false_are_defined\n    printf(\"bool defined\\n\");\n#endif")
    if "stdlib.h" in use:
        put("%d", "EXIT_SUCCESS")
        put("%ld", f'strtol("{r.randint(-999, 999)}", NULL, 10)')
        put("%ld", f'(long) strtoul("{r.randint(0, 999)}", NULL, {r.choice([0, 10, 16])})')
    if "string.h" in use:
        put("%d", f'(int) strlen("{"x" * r.randint(0, 9)}")')
        put("%d", f'(int) (strlen("{"x" * r.randint(0, 5)}") - {r.randint(3, 9)} > 2)')
        put("%s", 'strstr("abcabc", "ca")')
    if "ctype.h" in use:
        c = r.choice("aZ5 .~")
        put("%d", f"isalpha('{c}') != 0")
        put("%c%c", f"toupper('{c}'), tolower('{c}')")
    for h, g in [("limits.h", "INT_MAX"), ("stdlib.h", "EXIT_SUCCESS"), ("stdbool.h", "true")]:
        if r.random() < 0.4 and (h in use or h not in ("stdlib.h",)):
            body.append(f"#ifdef {g}\n    printf(\"have {g}\\n\");\n#else\n    printf(\"no {g}\\n\");\n#endif")
    # names that headers not included must leave free
    free = [x for x, h in [("size", None), ("isdigit", "ctype.h"), ("strlen", "string.h"), ("INT_MAX", "limits.h"), ("uint8_t", "stdint.h"), ("wchar_t", "stddef.h"), ("strtol", "stdlib.h")] if h not in use]
    if "ctype.h" not in use and r.random() < 0.3:
        decls.append("int isdigit(char c) { return c == 'x' ? 77 : 3; }")
        put("%d", "isdigit('x') + isdigit('5')")
    if "stdint.h" not in use and r.random() < 0.3:
        decls.append("int uint8_t = 12;")
        put("%d", "uint8_t")
    if "limits.h" not in use and r.random() < 0.3:
        decls.append("int INT_MAX = 31;")
        put("%d", "INT_MAX")
        # keep the presence test honest
    k = r.randint(2, 90)
    for h, d, e in [("string.h", f"static int strlen(int c) {{ return c + {k}; }}", "strlen(4)"), ("string.h", f"static double strstr(double d, int k) {{ return d * k; }}", "(int) strstr(2.5, 4)"),
                    ("stdlib.h", f"static int strtol(void) {{ return {k}; }}", "strtol()"), ("stdlib.h", f"static int *strtoul(int *q) {{ *q = *q * {k}; return q; }}", "*strtoul(&lib_cell)"),
                    (None, f"int log_stack_ptr(int a) {{ return a - {k}; }}", "log_stack_ptr(3)"), (None, f"long log_stack_ptr_ = {k};", "(int) log_stack_ptr_")]:
        if h not in use and r.random() < 0.2:
            if "lib_cell" in e:
                decls.append("int lib_cell = 7;")
            decls.append(d)
            put("%d", e)
    where = r.random()
    text = "\n".join(inc) + "\n" if where < 0.7 else ""
    if where >= 0.7:
        k = r.randint(0, len(inc))
        text = "/* c */\n" + "\n".join(inc[:k]) + "\nint before;\n" + "\n".join(inc[k:]) + "\n"
    text += "\n".join(decls) + "\nint main(int argc, char **argv) {\n    " + "\n    ".join(body) + "\n    return 0;\n}\n"
    return text, []
