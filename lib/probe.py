#!/usr/bin/env python3
"""Development aid: run C files (cases separated by lines '//// name') through reference and all configs."""
import sys, re, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
def main():
    san = "--nosan" not in sys.argv
    files = [a for a in sys.argv[1:] if not a.startswith("--")]
    s = Scratch(); b = build(); cc = Compiler(b, s); pool = Pool(4)
    cases = []
    for f in files:
        cur, name = [], os.path.basename(f)
        for line in open(f):
            m = re.match(r"////\s*(.*)", line)
            if m:
                if "".join(cur).strip(): cases.append((name, "".join(cur)))
                cur, name = [], m.group(1)
            else: cur.append(line)
        if "".join(cur).strip(): cases.append((name, "".join(cur)))
    def one(c):
        name, src = c
        if "#include" not in src: src = "#include <stdio.h>\n" + src
        if "main" not in src: src += "\n"
        p = s.path(".c"); open(p, "w").write(src)
        ref = reference(s, p, sanitize=san)
        res = []
        groups = {}
        for cn, fl in (CONFIGS if "--all" in sys.argv else [CONFIGS[0], CONFIGS[7]]):
            r = cc.compile_file(p, fl)
            if r.rc != 0: o = f"compile rc={r.rc}: {r.err.strip()[:300]}"
            else:
                x = pool.execute({"id": 1, "wasm": r.wasm})
                o = repr((x.get("out"), x.get("exit"), x.get("trap"), x.get("err"), x.get("viol"), x.get("inconclusive")))
            groups.setdefault(o, []).append(cn)
        exp = repr((ref.out, ref.exit, None, None, [], None))
        if ref.kind == "ok" and list(groups) == [exp]: return f"ok   {name}: {ref.out!r}"[:150]
        t = f"DIFF {name}: ref {ref.kind} {ref.out!r} {ref.exit} {ref.msg[:300]}"
        for o, c in groups.items(): t += f"\n     {c}: {o}"
        return t
    for r in pool.ex.map(one, cases): print(r)
    os._exit(0)
main()
