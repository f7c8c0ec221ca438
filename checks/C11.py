from common_checks import *
import units_graph as G, units_start as ST
c = Check("C11", "modules compiled from every generator of the suite in every switch combination, with and without profiling: each must validate, decode, import exactly one memory of at most one page and only the runtime's functions "
          "(no other kind of import), export a function main that takes two 32-bit integers and returns one, declare no start function, hold its initial data inside the first page without overlaps, leave an initial stack pointer behind all of it, and "
          "instantiate and run with the runtime's imports alone. Non-trivial: the module ran to its end with the reference's behaviour; distinct by module bytes.", quick_s=70, thorough_s=600)
pool = Pool()
LIB = {"stdlib.printf", "stdlib.strtol", "stdlib.strtoul", "stdlib.strlen", "stdlib.strstr", "stdlib.log_stack_ptr"}
GENS = [K.u_control, M.u_memory, M.u_bytes, M.u_list, F.u_frames, F.u_params, F.u_recur, F.u_tail, F.u_mutual, F.u_void, F.u_live, S.u_globals, S.u_strings, X.u_scopes, X.u_decls, X.u_macros, L.u_text, L.u_printf,
        L.u_strto, L.u_string_fns, L.u_ctype] + Z.ALLSCALE * 2


def abi(rep, prof):
    """What is wrong with the shape of a module."""
    mem = [i for i in rep["imports"] if i.split(":")[1] == "2"]
    if len(mem) != 1 or not mem[0].startswith("runtime.memory:"):
        return f"memory imports {mem}"
    lim = mem[0].split(":")[2].split("-")
    if int(lim[0]) > 1 or (len(lim) > 1 and int(lim[1]) < 1):
        return f"memory import limits {lim}: the runtime provides one page"
    fn = [i.split(":")[0] for i in rep["imports"] if i.split(":")[1] == "0"]
    if len(set(fn)) != len(fn) or not set(fn) <= LIB:
        return f"function imports {fn}"
    if not prof and "stdlib.log_stack_ptr" in fn:
        return "profiling import without profiling"
    if any(i.split(":")[1] not in ("0", "2") for i in rep["imports"]):
        return f"imports {rep['imports']}"
    if "main:0" not in rep["exports"]:
        return f"exports {rep['exports']}"
    if rep["esigs"].get("main") != "7f,7f>7f":
        return f"type of main {rep['esigs'].get('main')}"
    if 8 in rep["sections"]:
        return "start section"
    if rep["ncodes"] != rep["nfuncs"]:
        return "function and code sections differ in length"
    order = [x for x in rep["sections"] if x]
    if order != sorted(set(order), key=lambda x: (5.5 if x == 13 else 9.5 if x == 12 else x)):
        return f"section order {order}"
    ds = sorted((o, o + n) for o, n in rep["datas"] if n and o is not None)
    for (a, b), (a2, b2) in zip(ds, ds[1:]):
        if a2 < b:
            return f"initial data overlap: {a}..{b} and {a2}..{b2}"
    if ds and (ds[0][0] < 0 or ds[-1][1] > 65536):
        return f"initial data outside memory: {ds[0]} {ds[-1]}"
    if ds and rep.get("sp0") is not None and rep["sp0"] < ds[-1][1]:
        return f"the initial stack pointer {rep['sp0']} lies inside the initial data, which ends at {ds[-1][1]}"
    return None


def one(i):
    if c.violations:
        return
    r = random.Random(f"C11:{SEED}:{i}")
    k = r.random()
    args = []
    if k < 0.15:
        text = G.graph_program(r)[0]
    elif k < 0.23:
        text, args = Z.hugedata(r)
    elif k < 0.35:
        text, args = ST.start_program(r)
    else:
        g = r.choice(GENS)
        us = [g(r, f"a{j}_", ids=[1]) for j in range(r.randint(1, 2))]
        text = program(us)
    path = write_src(c, text)
    ref = reference(c.scratch, path, args)
    c.count("programs_generated")
    if ref.kind != "ok":
        c.count("generated_not_usable")
        return
    for n, (cfg, fl) in enumerate(config_plan(i, 3)):
        prof = (i + n) % 3 == 0
        f2 = fl + (["--prof-stack"] if prof else [])
        cc = c.cc.compile_file(path, f2)
        if cc.timeout:
            return c.unsure("compile watchdog")
        bad = None
        if cc.rc != 0:
            bad = f"[{cfg}] compiler exit {cc.rc} on a valid program: {cc.err[-300:]}"
        else:
            data = open(cc.wasm, "rb").read()
            x = judge(c, pool, cc.wasm, cfg, ref.out, args, ref.exit)
            if x.kind == "inconclusive":
                return
            if x.rep and "imports" in x.rep:
                bad = abi(x.rep, prof)
                bad = bad and f"[{cfg}] module shape: {bad}"
            bad = bad or x.problem
            os.unlink(cc.wasm)
        if bad:
            c.violate(bad, "", {"program.c": text.encode("latin1", "replace"), "expected.txt": ref.out.encode("latin1"), "flags.txt": " ".join(f2), "args.json": json.dumps(args)})
            return
        c.observe(digest(data))
        c.count("module_bytes", len(data))
        c.peak("largest_module", len(data))
        c.count("functions_decoded", x.rep["nfuncs"])
        c.count("data_segments_checked", len(x.rep["datas"]))
    os.unlink(path)
    c.sample(text[:600], 1)


import itertools
for _ in pool.map_until(one, itertools.count(), lambda: c.left() <= 0 or bool(c.violations)):
    pass
c.assumptions += MON_ASSUME
c.finish(min_evals=20)
