from common_checks import *
c = Check("C10", "calls of every kind under frame monitors: after each call the frame and stack pointers, the saved-frame link and the caller's data must be as before; memory above the stack pointer is poisoned on "
          "every function entry; no access may touch the reserved pointer words with another width, string storage is never written; and one round of calls is repeated 2 and 12 times: the peak of the linear stack must be the same; likewise 500 and 2000 iterations of loops whose bodies declare objects. "
          "Non-trivial: reference accepted, at least one call of a defined function observed; distinct by program text.", quick_s=70, thorough_s=900)
pool = Pool()


def rounds(i):
    if c.violations:
        return
    r = random.Random(f"C10r:{SEED}:{i}")
    loops = r.random() < 0.3
    gens = [F.u_frames, F.u_frames, F.u_params, F.u_recur, F.u_tail, F.u_mutual, K.u_control, M.u_list, M.u_locals, S.u_strings, L.u_text, F.u_void]
    us = [r.choice(gens)(r, f"a{k}_", ids=[1]) for k in range(r.randint(1, 2))] if not loops else [M.u_locals(r, "a0_", rounds=77777)]
    inc = {"stdio.h"}
    for u in us:
        inc |= u.includes
    head = "".join(f"#include <{x}>\n" for x in sorted(inc)) + "\n".join("\n".join(u.decls) for u in us)
    body = "\n    ".join(cl for u in us for cl in u.calls)
    cfgs = ["TUS", ["---", "-US", "T--", "TU-", "--S"][i % 5]]
    ns = ("00500", "02000") if loops else ("02", "12")
    if loops:
        head = head.replace("77777", "rounds_n")
        head = head.replace("\n", "\nint rounds_n;\n", 1)
        text = "#include <stdlib.h>\n" + head + f"\nint main(int argc, char **argv) {{\n    rounds_n = (int) strtol(argv[1], (char **) 0, 10);\n    {body}\n    return 0;\n}}\n"
    else:
        text = "#include <stdlib.h>\n" + head + f"\nvoid round_(void) {{\n    {body}\n}}\nint main(int argc, char **argv) {{\n    int k; int n = (int) strtol(argv[1], (char **) 0, 10);\n    for (k = 0; k < n; k++) round_();\n    return 0;\n}}\n"
    path = write_src(c, text)
    refs = {}
    for n in ns:
        refs[n] = reference(c.scratch, path, [n])
        if refs[n].kind != "ok":
            c.count("generated_not_usable")
            return
    for cfg in cfgs:
        cc = c.cc.compile_file(path, CONFIG[cfg])
        bad = None
        if cc.timeout:
            c.unsure("compile watchdog")
            return
        if cc.rc != 0:
            bad = f"[{cfg}] compiler exit {cc.rc} on a valid program: {cc.err[-300:]}"
        seen = []
        for n in ns:
            if bad:
                break
            x = judge(c, pool, cc.wasm, cfg, refs[n].out, [n], refs[n].exit, {"poison": 0xA5} if i % 2 else None)
            if x.kind == "inconclusive":
                return
            bad = x.problem
            if not bad:
                seen.append((x.rep["mon"]["peakSP"], x.rep["spEnd"]))
        if not bad and (seen[0] != seen[1] if not loops else seen[1][0] - seen[0][0] > 1000 or seen[0][1] != seen[1][1]):
            bad = f"[{cfg}] peak of the stack and stack pointer at exit {seen[0]} after {ns[0]} rounds of the same {'iterations' if loops else 'calls'}, {seen[1]} after {ns[1]}"
        if bad:
            c.violate(bad, "", {"program.c": text, "expected.txt": refs[ns[1]].out, "flags.txt": " ".join(CONFIG[cfg])})
            return
        os.unlink(cc.wasm)
    os.unlink(path)
    c.count("round_pairs_measured", len(cfgs))
    c.observe(text)


import itertools
for _ in pool.map_until(rounds, itertools.count(), lambda: c.left() <= c.budget * 0.4 or bool(c.violations)):
    pass
campaign(c, [(3, F.u_frames), (2, F.u_params), (2, F.u_recur), (1, F.u_tail), (1, F.u_mutual), (1, M.u_memory), (1, M.u_locals)], pool=pool)
c.finish(min_evals=20)
