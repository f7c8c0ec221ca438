from common_checks import *
c = Check("C22", "programs compiled with the stack allocation optimisation on and off under the same other switches; both must behave as the reference does with all memory above the stack pointer poisoned, "
          "the peak of the linear stack (sampled at every access) with the optimisation must not exceed the one without, and for k repetitions of a block with block-local values the peak must grow by less than a third of the growth "
          "without it. Non-trivial: the program's functions hold several values; distinct by program text.", quick_s=70, thorough_s=900)
pool = Pool()
GENS = [K.u_control, K.u_control, M.u_memory, M.u_bytes, M.u_list, F.u_frames, F.u_frames, F.u_params, F.u_recur, F.u_tail, S.u_globals, X.u_scopes, L.u_text, Z.u_locals, F.u_live, F.u_live, F.u_live]


def pair(i):
    if c.violations:
        return
    r = random.Random(f"C22:{SEED}:{i}")
    us = [r.choice(GENS)(r, f"a{k}_", ids=[1]) for k in range(r.randint(1, 2))]
    text = program(us)
    path = write_src(c, text)
    ref = reference(c.scratch, path)
    if ref.kind != "ok":
        c.count("generated_not_usable")
        return
    base = ["TU", "T-", "-U", "--"][i % 4]
    use = {}
    for cfg in (base + "S", base + "-"):
        x = run_config(c, pool, path, cfg, CONFIG[cfg], ref.out, (), ref.exit, {"poison": 0xA5})
        if x.kind == "inconclusive":
            return
        bad = x.problem
        if not bad:
            use[cfg] = x.rep["mon"]["peakSP"] - x.rep["spMain"]
        if not bad and len(use) == 2 and use[base + "S"] > use[base + "-"]:
            bad = f"the optimisation increases stack use: {use}"
        if bad:
            c.violate(bad, "", {"program.c": text, "expected.txt": ref.out, "flags.txt": " ".join(CONFIG[cfg])})
            return
    os.unlink(path)
    c.count("stack_bytes_optimised", use[base + "S"])
    c.count("stack_bytes_plain", use[base + "-"])
    c.observe(text)
    c.sample(text[:1000], 1)


def reuse(i):
    if c.violations:
        return
    r = random.Random(f"C22r:{SEED}:{i}")
    nt = r.randint(2, 4)
    ts = [r.choice(ALL) for _ in range(nt)]
    b = "{ " + " ".join(f"{t.name} v{j} = " + (f"(n + {r.randint(1, 9)}) & 63" if j == 0 or r.random() < 0.4 else f"v{j - 1} + {r.randint(1, 5)}") + ";" for j, t in enumerate(ts))
    b += f" s = (s + (int) v{nt - 1} + (int) v0) & 4095; }}"
    if r.random() < 0.4:
        b = f"if (n & {r.choice([1, 2, 4])}) {b} else {b.replace('v', 'w')}"
    elif r.random() < 0.3:
        b = f"for (int q = 0; q < 2; q++) {b}"
    peak = {}
    for k in (3, 15):
        text = "#include <stdio.h>\nint f(int n) {\n    int s = 0;\n    " + "\n    ".join([b] * k) + "\n    return s;\n}\nint main(void) {\n    printf(\"%d\\n\", f(" + str(r.randint(0, 9) if k == 3 else 5) + "));\n    return 0;\n}\n"
        path = write_src(c, text)
        ref = reference(c.scratch, path)
        if ref.kind != "ok":
            c.count("generated_not_usable")
            return
        for cfg in ("TUS", "TU-"):
            x = run_config(c, pool, path, cfg, CONFIG[cfg], ref.out, (), ref.exit)
            if x.kind == "inconclusive":
                return
            if x.problem:
                c.violate(x.problem, "", {"program.c": text, "expected.txt": ref.out, "flags.txt": " ".join(CONFIG[cfg])})
                return
            peak[cfg, k] = x.rep["mon"]["peakSP"]
        os.unlink(path)
    g, g0 = peak["TUS", 15] - peak["TUS", 3], peak["TU-", 15] - peak["TU-", 3]
    if g * 3 > g0:
        c.violate(f"storage of finished blocks is not reused: 12 more blocks cost {g} bytes with the optimisation, {g0} without", "", {"program.c": text, "flags.txt": ""})
        return
    c.count("reuse_pairs_measured")
    c.observe(text)


import itertools
for _ in pool.map_until(reuse, range(40 if TIER == "quick" else 600), lambda: c.left() <= c.budget * 0.8 or bool(c.violations)):
    pass
for _ in pool.map_until(pair, itertools.count(), lambda: c.left() <= 0 or bool(c.violations)):
    pass
c.assumptions += MON_ASSUME
c.finish(min_evals=20)
