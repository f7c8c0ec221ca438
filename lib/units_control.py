"""Units about control flow: every executed step leaves a trace event, so order, count and
branch decisions are all observable."""
from cgen import *


class Ctl:
    def __init__(self, r, p, u):
        self.r, self.p, self.u = r, p, u
        self.nid = 0
        self.loops = 0
        self.labels = 0
        self.gotos = 0
        self.size = 0
        self.close, self.inloop = [], []

    def ev(self):
        self.nid += 1
        return self.nid

    def var(self):
        return self.r.choice(["a", "b", "c", "d", "x", "y"])

    def lvar(self):
        return self.r.choice(["a", "b", "c", "d"])

    def pure(self, d=1):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return r.choice([self.var(), self.var(), str(r.randint(0, 9))])
        return f"({self.pure(d - 1)} {r.choice(['+', '-', '&', '|', '^'])} {self.pure(d - 1)})"

    def cond(self, d=2):
        """A condition; may contain trace events whose order the language specifies."""
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.3:
            return f"{self.pure()} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.pure()}"
        if c < 0.42:
            return f"{self.p}T({self.ev()}, {self.pure()} & {r.choice([1, 2, 3, 4])})"
        if c < 0.5:
            self.u.feats.add("not")
            return f"!({self.cond(d - 1)})"
        if c < 0.75:
            op = r.choice(["&&", "||"])
            self.u.feats.add(op)
            return f"({self.cond(d - 1)}) {op} ({self.cond(d - 1)})"
        if c < 0.85:
            self.u.feats.add("?:cond")
            return f"({self.cond(d - 1)}) ? ({self.cond(d - 1)}) : ({self.cond(d - 1)})"
        if c < 0.9:
            self.u.feats.add("comma-cond")
            return f"({self.p}T({self.ev()}, {self.var()}), {self.cond(d - 1)})"
        if c < 0.93:
            return f"({self.pure()}) & 1"
        if c < 0.96:
            return r.choice([f"{self.lvar()}++ < {r.randint(1, 9)}", f"--{self.lvar()} > {r.randint(-3, 4)}", f"({self.lvar()} = {self.pure()} & 7)"])
        return r.choice(["1", "0", f"(double) {self.var()} * 0.5", f"(char) {self.var()}", f"(long) {self.var()}"])

    def simple(self):
        r = self.r
        c = r.random()
        v = self.lvar()
        if c < 0.5:
            return f"{self.p}T({self.ev()}, {self.pure()});"
        if c < 0.62:
            return f"{v} = ({self.pure(2)}) & {r.choice([7, 15, 63])};"
        if c < 0.7:
            return r.choice([f"{v}++;", f"--{v};", f"{v} += {r.randint(1, 3)};", f"{v} ^= {r.randint(1, 7)};"])
        if c < 0.8:
            self.u.feats.add("?:stmt")
            return f"{v} = ({self.cond(1)}) ? {self.p}T({self.ev()}, {self.pure()}) & 7 : {self.p}T({self.ev()}, {self.pure()}) & 3;"
        if c < 0.86:
            self.u.feats.add("&&stmt")
            return f"{v} = ({self.cond(1)}) {r.choice(['&&', '||'])} {self.p}T({self.ev()}, {self.pure()} & 1);"
        if c < 0.9:
            return f"{v} = ({self.p}T({self.ev()}, 1), {self.p}T({self.ev()}, {self.pure()})) & 15;"
        if c < 0.93:
            return ";"
        if c < 0.97:
            self.u.feats.add("&&exprstmt")
            return f"({self.cond(1)}) {r.choice(['&&', '||'])} {self.p}T({self.ev()}, 2);"
        return f"{v} = ({self.cond(2)});"

    def body(self, d, loop, sw, lab):
        """A statement usable as the body of another: block or (sometimes) a bare statement."""
        r = self.r
        if r.random() < 0.2:
            return self.stmt(d, loop, sw, False, bare=True)
        return "{ " + self.block(d, loop, sw, lab) + " }"

    def block(self, d, loop, sw, lab, n=None):
        r = self.r
        n = n if n is not None else r.choice([1, 2, 2, 3, 3, 4])
        return "\n".join(self.stmt(d, loop, sw, lab) for _ in range(n))

    def stmt(self, d, loop, sw, lab, bare=False):
        r = self.r
        self.size += 1
        if self.size > 70:
            d = 0
        c = r.random()
        pre = ""
        if lab and c < 0.95 and r.random() < 0.1:
            self.labels += 1
            pre = f"{self.p}L{self.labels}: "
            self.u.feats.add("label")
        if c < 0.06 and loop:
            self.u.feats.add("break")
            return pre + (f"if ({self.cond(1)}) break;" if r.random() < 0.8 else "break;")
        if c < 0.12 and loop:
            self.u.feats.add("continue")
            return pre + (f"if ({self.cond(1)}) continue;" if r.random() < 0.85 else "continue;")
        if c < 0.16 and sw:
            return pre + (f"if ({self.cond(1)}) break;" if r.random() < 0.6 else "break;")
        if c < 0.21 and lab:
            self.gotos += 1
            return pre + f"if (fuel-- > 0 && ({self.cond(0)})) goto @G@;"
        if c < 0.24:
            self.u.feats.add("return")
            return pre + (f"if ({self.cond(1)}) return {self.pure()};" if r.random() < 0.93 else f"return {self.pure()};")
        if d <= 0 or c < 0.45:
            return pre + self.simple()
        c = r.random()
        if c < 0.22:
            s = f"if ({self.cond()}) {self.body(d - 1, loop, sw, lab)}"
            while r.random() < 0.3:
                self.u.feats.add("else-if")
                s += f" else if ({self.cond()}) {self.body(d - 1, loop, sw, lab)}"
            if r.random() < 0.55:
                self.u.feats.add("else")
                s += f" else {self.body(d - 1, loop, sw, lab)}"
            return pre + s
        if c < 0.28:
            self.u.feats.add("dangling-else")
            return pre + f"if ({self.cond(1)}) if ({self.cond(1)}) {self.simple()} else {self.simple()}"
        if c < 0.6:
            self.loops += 1
            k = f"k{self.loops}"
            b = r.randint(1, 4)
            kind = r.choice(["while", "do", "for", "for", "forever", "whilebreak", "fordecl"])
            self.u.feats.add(kind)
            sw2 = False
            if kind == "while":
                cond = r.choice([f"{k}++ < {b} && ({self.cond(1)})", f"{k}++ < {b}", f"({self.cond(1)}) && ++{k} < {b}"])
                return pre + f"{k} = 0; while ({cond}) {self.body(d - 1, True, sw2, lab)}" if not bare else f"{{ {k} = 0; while ({cond}) {self.body(d - 1, True, sw2, lab)} }}"
            if kind == "do":
                cond = r.choice([f"++{k} < {b} && ({self.cond(1)})", f"++{k} < {b}"])
                return "{ " + f"{k} = 0; do {self.body(d - 1, True, sw2, lab)} while ({cond});" + " }" if bare else pre + f"{k} = 0; do {self.body(d - 1, True, sw2, lab)} while ({cond});"
            if kind == "for":
                init = r.choice([f"{k} = 0", f"{k} = 0, {self.p}T({self.ev()}, {self.var()})"])
                step = r.choice([f"{k}++", f"{k} += 1", f"++{k}, {self.p}T({self.ev()}, {self.var()})", f"{k} = {k} + 1"])
                cond = r.choice([f"{k} < {b}", f"{k} < {b} && ({self.cond(1)})", f"{self.p}T({self.ev()}, {k}) < {b}"])
                return pre + f"for ({init}; {cond}; {step}) {self.body(d - 1, True, sw2, lab)}"
            if kind == "fordecl":
                self.loops -= 1
                v = f"i{self.ev()}"
                return pre + f"for (int {v} = 0; {v} < {b}; {v}++) {{ {self.p}T({self.ev()}, {v}); {self.block(d - 1, True, sw2, False)} }}"
            if kind == "forever":
                return "{ " * bare + pre + f"{k} = 0; for (;;) {{ if (++{k} > {b}) break; {self.block(d - 1, True, sw2, lab)} }}" + " }" * bare
            return "{ " * bare + pre + f"{k} = 0; while (1) {{ if (++{k} > {b}) {r.choice(['break;', '{ ' + self.simple() + ' break; }'])} {self.block(d - 1, True, sw2, lab)} }}" + " }" * bare
        if c < 0.86:
            self.u.feats.add("switch")
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 9])
            base = r.choice([0, 0, 0, 0, -2, 5, 100, 1000000])
            pool = [base + i for i in range(-1, 10)]
            if r.random() < 0.25:
                pool = [r.randint(-300, 300) for _ in range(12)]
            vals = r.sample(sorted(set(pool)), min(n, len(set(pool))))
            e = r.choice([f"({self.pure(2)}) & 7", f"{self.var()}", f"({self.pure()}) % 5", f"{self.p}T({self.ev()}, {self.pure()} & 3)"])
            if base and r.random() < 0.8:
                e = f"({e}) + {base}" if base > 0 else f"({e}) - {-base}"
            ty = r.choice(["", "", "", "(char) ", "(long) ", "(unsigned) ", "(short) "])
            if ty:
                e = f"{ty}({e})"
                self.u.feats.add("switch" + ty)
                if ty == "(char) ":
                    vals = [v for v in vals if -128 <= v <= 127]
                if ty == "(unsigned) ":
                    vals = [v for v in vals if v >= 0]
            arms = [("case", v) for v in vals]
            if r.random() < 0.6:
                arms.insert(r.randint(0, len(arms)), ("default", None))
                self.u.feats.add("default-at-end" if arms[-1][0] == "default" else "default-inside")
            s = f"switch ({e}) {{ "
            for kind, v in arms:
                lit = "default:" if kind == "default" else r.choice([f"case {v}:", f"case {v}:", f"case ({v}):", f"case {v - 1} + 1:" if v > 0 else f"case {v}:", f"case {v}:"])
                c2 = r.random()
                if c2 < 0.2:
                    s += f"{lit}\n"
                    self.u.feats.add("empty-case")
                    if (kind, v) == arms[-1]:
                        s += self.simple()
                    continue
                s += f"{lit} {self.block(d - 1, loop, True, lab, n=r.choice([1, 1, 2, 3]))}\n"
                if r.random() < 0.6:
                    s += "break;\n"
                else:
                    self.u.feats.add("fallthrough")
            return pre + s + "}"
        if c < 0.9:
            return pre + self.scattered(d, loop, lab)
        if c < 0.94:
            self.u.feats.add("nested-block")
            return pre + "{ " + self.block(d - 1, loop, sw, lab) + " }"
        self.u.feats.add("shadow")
        v = self.lvar()
        return pre + f"{{ int {v} = {r.randint(0, 9)}; {self.block(d - 1, loop, sw, False)} {self.p}T({self.ev()}, {v}); }}"


    def scattered(self, d, loop, lab):
        """A switch whose labels stand inside loops, blocks and branches of its body (Duff's device)."""
        r = self.r
        self.u.feats.add("scattered-labels")
        n = r.randint(2, 6)
        vals = r.sample(range(-1, 8), n)
        arms = [f"case {v}:" for v in vals]
        if r.random() < 0.5:
            arms.insert(r.randint(0, n), "default:")
        pre = ""
        s = ""
        opened = 0
        for a in arms:
            x = r.random()
            if x < 0.45 and opened < 2:
                k2 = r.randrange(5)
                opened += 1
                if k2 < 3:
                    self.loops += 1
                    k = f"k{self.loops}"
                    b = r.randint(2, 4)
                    pre += f"{k} = 0; "
                    if k2 == 0:
                        s += f"do {{ {self.simple()} "
                        self.close.append(f"{self.simple()} }} while (++{k} < {b});")
                    elif k2 == 1:
                        s += f"while ({k}++ < {b}) {{ "
                        self.close.append("}")
                    else:
                        s += f"for (; {k} < {b}; {k}++) {{ "
                        self.close.append("}")
                    self.inloop.append(True)
                elif k2 == 3:
                    s += f"if ({self.cond(1)}) {{ "
                    self.close.append("} else { " + self.simple() + " }" if r.random() < 0.5 else "}")
                    self.inloop.append(False)
                else:
                    s += "{ "
                    self.close.append("}")
                    self.inloop.append(False)
            elif x < 0.65 and opened:
                s += self.close.pop() + " "
                self.inloop.pop()
                opened -= 1
            here = any(self.inloop[len(self.inloop) - opened:]) if opened else False
            s += f"{a} {self.block(min(d - 1, 1), here or loop, True, lab, n=r.choice([1, 1, 2]))}\n"
            if r.random() < 0.3:
                s += r.choice(["break;", "break;", "continue;" if here else "break;", f"if ({self.cond(1)}) break;"]) + "\n"
        while opened:
            s += self.close.pop() + " "
            self.inloop.pop()
            opened -= 1
        e = r.choice([f"({self.pure()}) & 7", self.var(), f"{self.p}T({self.ev()}, {self.pure()} & 7)"])
        return "{ " + pre + f"switch ({e}) {{ {s} }} }}"


def u_control(r, p, ids=None, depth=None, nfun=1):
    u = Unit("control")
    lim = 400
    u.d(f"int {p}n; unsigned int {p}h;\n"
        f"int {p}T(int id, int v) {{ {p}h = {p}h * 31 + id * 7 + v; {p}n++; if ({p}n < {lim}) printf(\"%d:%d \", id, v); return v; }}")
    for f in range(nfun):
        g = Ctl(r, p, u)
        top = g.block(depth or r.choice([2, 3, 3, 4]), False, False, True, n=r.randint(3, 6))
        if g.labels == 0:
            top += f"\n{p}L1: ;"
            g.labels = 1
        for _ in range(g.gotos):
            top = top.replace("@G@", f"{p}L{r.randint(1, g.labels)}", 1)
        if g.gotos:
            u.feats.add("goto")
        ks = "".join(f" int k{i} = 0;" for i in range(1, g.loops + 1))
        ret = f"return {g.pure()};"
        top = top.replace(f"{p}L", f"{p}{f}L")
        u.d(f"int {p}f{f}(int x, int y) {{\n int fuel = {r.randint(2, 7)}; int a = {r.randint(0, 5)}; int b = {r.randint(0, 9)}; int c = x; int d = y;{ks}\n{top}\n{ret}\n}}")
        for _ in range(r.randint(2, 4)):
            u.calls.append(f"printf(\"=%d\\n\", {p}f{f}({r.randint(-3, 9)}, {r.randint(0, 12)}));")
    u.calls.append(f"printf(\"%d %u\\n\", {p}n, {p}h);")
    return u
