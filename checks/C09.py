from common_checks import *
c = Check("C09", "self tail calls in seven statement shapes with permuted and updated parameters of ten types, rings of mutually tail-calling functions with different frame sizes, look-alikes that are not "
          "tail calls, escaping locals; behaviour compared with the reference with the optimisation on and off; for the value-returning tail calls the peak of the linear stack is measured at "
          "two recursion depths. Non-trivial: reference accepted and runs finished; distinct by program text.", quick_s=70, thorough_s=900)
pool = Pool()
SH = {"shape0", "shape1", "shape2", "shape3", "shape4", "shape5"}


def bounded(i):
    if c.violations:
        return
    for k in range(20):
        seed = f"C09b:{SEED}:{i}:{k}"
        r = random.Random(seed)
        self_ = r.random() < 0.6
        gen = (lambda r, d: F.u_tail(r, "p", big=d, peak=True)) if self_ else (lambda r, d: F.u_mutual(r, "p", big=d))
        st = r.getstate()
        u = gen(r, 50)
        if not self_ or (u.feats & SH and "rt:void" not in u.feats):
            break
    else:
        return
    ds = ("00050", r.choice(["04000", "09000", "30000"]) if self_ else "00900")
    r.setstate(st)
    text = "#include <stdlib.h>\n" + program([gen(r, 77777)]).replace("(77777", "((int) strtol(argv[1], (char **) 0, 10)")
    path = write_src(c, text)
    refs = {}
    for d in ds:
        refs[d] = reference(c.scratch, path, [d], sanitize=not self_)
        if refs[d].kind != "ok":
            c.count("generated_not_usable")
            return
    for cfg in ("TUS", ["T--", "TU-", "T-S"][i % 3]):
        cc = c.cc.compile_file(path, CONFIG[cfg])
        bad = None
        if cc.timeout:
            c.unsure("compile watchdog")
            return
        if cc.rc != 0:
            bad = f"[{cfg}] compiler exit {cc.rc} on a valid program: {cc.err[-300:]}"
        peaks = []
        for d in ds:
            if bad:
                break
            x = judge(c, pool, cc.wasm, cfg, refs[d].out, [d], refs[d].exit, None)
            if x.kind == "inconclusive":
                return
            bad = x.problem
            if not bad:
                peaks.append(x.rep["mon"]["peakSP"])
        # different arguments may take different paths through frames of different sizes, so only growth with the depth counts
        if not bad and peaks[1] - peaks[0] > (int(ds[1]) - int(ds[0])) * 0.5:
            bad = f"[{cfg}] stack use of a tail call grows with the recursion depth: peak {peaks[0]} at depth {ds[0]}, {peaks[1]} at depth {ds[1]}"
        if bad:
            c.violate(bad, f"depths {ds}", {"program.c": text, "expected.txt": refs[ds[1]].out, "flags.txt": " ".join(CONFIG[cfg])})
            return
        os.unlink(cc.wasm)
    os.unlink(path)
    c.count("depth_pairs_measured", 2)
    c.peak("deepest_tail_recursion", int(ds[1]))
    c.observe(text)


import itertools
t_end = c.budget * 0.4
for _ in pool.map_until(bounded, itertools.count(), lambda: c.left() <= c.budget - t_end or bool(c.violations)):
    pass
import runner
alt = [["TUS", "-US"], ["TUS", "T--"], ["TU-", "---"], ["T-S", "TUS"]]
runner.config_plan = lambda i, n: [(k, CONFIG[k]) for k in alt[i % 4]]
campaign(c, [(3, F.u_tail), (3, F.u_mutual), (0.3, F.u_recur)], units=(1, 4), pool=pool)
c.finish(min_evals=20)
