from common_checks import *
import units_graph as G
c = Check("C21", "random call graphs (chains, cycles, disconnected components, self recursion, library calls, tail and nested calls, any definition order) whose set of functions reachable "
          "from main is known by construction; every module is decoded and its function and import inventory compared with that set with the elimination enabled and with the full set when disabled, "
          "and its behaviour with the reference. Non-trivial: at least one function reachable besides main or at least one unreachable; distinct by program text.", quick_s=70, thorough_s=600)
pool = Pool()
INC = "#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <ctype.h>\n"
base = {}
bp = write_src(c, INC + "int main(void) {\n    return 0;\n}\n")
for cfg, fl in CONFIGS:
    x = run_config(c, pool, bp, cfg, fl)
    if x.problem:
        c.violate(x.problem, "empty main", {"program.c": INC + "int main(void) {\n    return 0;\n}\n"})
    else:
        base[cfg] = (x.rep["nfuncs"] - 1, set(x.rep["isigs"]))


def one(i):
    if c.violations:
        return
    r = random.Random(f"C21:{SEED}:{i}")
    text, n, reach, libs = G.graph_program(r)
    path = write_src(c, text)
    ref = reference(c.scratch, path)
    c.count("programs_generated")
    if ref.kind != "ok":
        c.count("generated_" + ref.kind)
        os.unlink(path)
        return
    ok = True
    for cfg, fl in [("TUS", CONFIG["TUS"])] + [CONFIGS[(i * 2 + k) % 8] for k in (0, 1)]:
        x = run_config(c, pool, path, cfg, fl, ref.out, (), ref.exit)
        if x.kind == "inconclusive":
            ok = False
            continue
        bad = x.problem
        if not bad:
            want = (reach if "U" in cfg else n) + base[cfg][0]
            if x.rep["nfuncs"] != want:
                bad = f"[{cfg}] module defines {x.rep['nfuncs'] - base[cfg][0]} of the program's {n} functions, {'reachable' if 'U' in cfg else 'defined'}: {want - base[cfg][0]}"
            il = {k.split(".")[1] for k in x.rep["isigs"]}
            if not bad and "U" in cfg and il != set(libs):
                bad = f"[{cfg}] module imports {sorted(il)}, called from reachable code: {libs}"
        if bad:
            c.violate(bad, "flags " + " ".join(fl), {"program.c": text, "flags.txt": " ".join(fl), "expected.txt": ref.out})
            ok = False
            break
        c.count("modules_inventoried")
    if ok:
        c.observe(text, n > 1)
        c.count("functions_reachable", reach)
        c.count("functions_unreachable", n - reach)
        c.sample(text[:1200], 2)
    os.unlink(path)


import itertools
for _ in pool.map_until(one, itertools.count(), lambda: c.left() <= 0 or bool(c.violations)):
    pass
c.assumptions += MON_ASSUME
c.finish(min_evals=20)
