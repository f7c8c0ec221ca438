"""Random generators of C test units.

A unit is a piece of program: `decls` (types, globals, functions, all names carrying the unit's
prefix) and `calls` (statements for main).  Units are composed into programs.  Everything a unit
generates stays inside the language subset the compiler under observation accepts and inside
defined behaviour with a specified evaluation order; gcc + UBSan/ASan decides the latter once more
before a program counts.
"""


class Ty:
    def __init__(self, name, size, signed, flt=False, spell=None):
        self.name, self.size, self.signed, self.flt = name, size, signed, flt
        self.bits = size * 8
        self.spell = spell or [name]

    @property
    def min(self):
        return -(1 << (self.bits - 1)) if self.signed else 0

    @property
    def max(self):
        return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1


CHAR = Ty("char", 1, True, spell=["char", "signed char"])
UCHAR = Ty("unsigned char", 1, False)
SHORT = Ty("short", 2, True, spell=["short", "signed short", "short int"])
USHORT = Ty("unsigned short", 2, False)
INT = Ty("int", 4, True, spell=["int", "signed int", "signed"])
UINT = Ty("unsigned int", 4, False, spell=["unsigned int", "unsigned"])
LONG = Ty("long", 8, True, spell=["long", "signed long", "long int"])
ULONG = Ty("unsigned long", 8, False)
FLOAT = Ty("float", 4, True, True)
DOUBLE = Ty("double", 8, True, True)
INTS = [CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG]
FLTS = [FLOAT, DOUBLE]
ALL = INTS + FLTS

BOUND = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 255, 256, 1000, 8191, 8192, 16383, 16384,
         32767, 32768, 65535, 65536, 1048575, 1048576, 2097151, 134217727, 134217728, 268435455, 268435456, 2147483646, 2147483647,
         2147483648, 4294967295, 4294967296, 34359738367, 34359738368, 4398046511103, 281474976710655, 9007199254740993,
         562949953421311, 72057594037927935, 72057594037927936, 4611686018427387904, 9223372036854775806, 9223372036854775807,
         9223372036854775808, 18446744073709551614, 18446744073709551615]


def rint(r, t):
    """A value of integer type t, biased to boundaries."""
    c = r.random()
    if c < 0.45:
        v = r.choice(BOUND)
        if r.random() < 0.45:
            v = -v
        if t.min <= v <= t.max:
            return v
        v &= (1 << t.bits) - 1
        return v - (1 << t.bits) if t.signed and v > t.max else v
    if c < 0.55:
        return t.max - r.randint(0, 2)
    if c < 0.65:
        return t.min + r.randint(0, 2)
    if c < 0.8:
        v = r.randint(-20, 20)
        return v if t.signed else abs(v)
    k = r.randint(1, t.bits)
    v = r.getrandbits(k)
    if t.signed:
        v = v & ((1 << (t.bits - 1)) - 1)
        if r.random() < 0.5:
            v = -v
    return v


def ilit(r, v):
    """An integer constant expression with value v (its type: what C gives the spelling)."""
    if v < 0:
        if v == -(1 << 63):
            return "(-9223372036854775807 - 1)"
        if v == -(1 << 31):
            return "(-2147483647 - 1)"
        return f"(-{ilit(r, -v)})" if -v <= 9223372036854775807 else str(v)
    if v > 9223372036854775807:
        return f"0x{v:x}"
    c = r.random()
    if c < 0.72:
        return str(v)
    if c < 0.82:
        return f"0x{v:x}" if r.random() < 0.5 else f"0X{v:X}"
    if c < 0.9:
        return f"0{v:o}"
    if c < 0.92:
        return f"0b{v:b}" if r.random() < 0.5 else f"0B{v:b}"
    if 32 <= v < 127 and chr(v) not in "\\'\"":
        return f"'{chr(v)}'"
    return str(v)


def rflt(r, t):
    c = r.random()
    if c < 0.35:
        return r.choice(["0.0", "1.0", "0.5", "2.0", "0.1", "0.25", "3.75", "1.5", "10.0", "1024.0", "0.001", "7.0", "16777216.0", "16777217.0", "123456.75", "2147483648.0", "4294967296.5", "0.3333333333"])
    if c < 0.6:
        return f"{r.randint(0, 100000)}.{r.randint(0, 9999)}"
    if c < 0.8:
        return f"0.{r.randint(0, 999999):06d}"
    if c < 0.9:
        return f"{r.randint(0, 10**12)}.{r.randint(0, 99)}"
    return f"{r.randint(0, 127)}.0"


def flit(r, t, neg=True):
    s = rflt(r, t)
    return f"(-{s})" if neg and r.random() < 0.3 else s


class Unit:
    def __init__(self, kind):
        self.kind = kind
        self.decls = []
        self.calls = []
        self.includes = set()
        self.feats = set()
        self.lines = None

    def d(self, s):
        self.decls.append(s)


def program(units, main_args=False, extra_main="", order=None):
    inc = {"stdio.h"}
    for u in units:
        inc |= u.includes
    s = "".join(f"#include <{i}>\n" for i in sorted(inc))
    s += "\n".join("\n".join(u.decls) for u in units)
    s += "\nint main(int argc, char **argv) {\n"
    for u in units:
        for c in u.calls:
            s += "    " + c + "\n"
    s += extra_main + "    return 0;\n}\n"
    return s


def feats(units):
    f = set()
    for u in units:
        f |= u.feats
    return f
