from common_checks import *
import glob
c = Check("C17", "programs compiled with stack profiling in every optimisation configuration; under instrumentation every change of the stack pointer must be logged before the program does anything else (step, call, return, "
          "host call, load, store), the largest logged value must be the true peak, the logged values must lie between the start of the stack and the end of memory, and behaviour must be the reference's; "
          "a sample is run through the command-line runtime, whose log file must hold the same history and must not exist when profiling is off. Non-trivial: at least one stack pointer change logged; distinct by program text.",
          quick_s=70, thorough_s=600)
pool = Pool()
rt = os.path.join(c.scratch.dir, "rt")
os.makedirs(os.path.join(rt, "logs"))
shutil.copytree(os.path.join(REPO, "runtime"), os.path.join(rt, "runtime"))
GENS = [K.u_control, M.u_memory, M.u_bytes, M.u_list, F.u_frames, F.u_params, F.u_recur, F.u_tail, F.u_mutual, F.u_void, F.u_live, S.u_globals, S.u_strings, X.u_scopes, L.u_text, L.u_printf, L.u_strto, Z.u_locals, Z.u_bigframe]


def own_logger(r):
    """a function of the program with the name of the runtime's logging function"""
    u = Unit("own logger")
    u.d(f"int log_stack_ptr(int a, int b) {{ return a * {r.randint(2, 9)} - b; }}")
    u.calls.append(f"printf(\"%d\\n\", log_stack_ptr({r.randint(0, 9)}, {r.randint(0, 9)}));")
    return u


def one(i):
    if c.violations:
        return
    r = random.Random(f"C17:{SEED}:{i}")
    us = [own_logger(r)] if i % 9 == 4 else []
    us += [r.choice(GENS)(r, f"a{k}_", ids=[1]) for k in range(r.randint(1, 2))]
    text = program(us)
    path = write_src(c, text)
    ref = reference(c.scratch, path)
    c.count("programs_generated")
    if ref.kind != "ok":
        c.count("generated_not_usable")
        return
    cfg, fl = CONFIGS[i % 8]
    cc = c.cc.compile_file(path, fl + ["--prof-stack"])
    plainc = c.cc.compile_file(path, fl + (["--noprof-stack"] if i % 2 else []))
    bad = None
    if cc.timeout or plainc.timeout:
        return c.unsure("compile watchdog")
    if cc.rc != 0 or plainc.rc != 0:
        bad = f"[{cfg}] compiler exit {cc.rc} / {plainc.rc} on a valid program: {cc.err[-300:]}"
    if not bad:
        x = judge(c, pool, cc.wasm, cfg + "+profile", ref.out, (), ref.exit, {"prof": True})
        y = judge(c, pool, plainc.wasm, cfg, ref.out, (), ref.exit, None)
        if "inconclusive" in (x.kind, y.kind):
            return
        bad = x.problem or y.problem
        if not bad and y.rep["nlogs"]:
            bad = f"[{cfg}] {y.rep['nlogs']} stack pointer logs without profiling"
        if not bad:
            log, m = x.rep["prof"], x.rep["mon"]
            if x.rep["nlogs"] <= len(log):
                if log and max(log) != max(m["peakSP"], max(log[:1])):
                    bad = f"[{cfg}] largest logged stack pointer {max(log)}, true peak {m['peakSP']}"
                elif not log and m["peakSP"] > x.rep["spMain"]:
                    bad = f"[{cfg}] nothing logged, but the stack reached {m['peakSP']}"
                elif log and (min(log) < x.rep["sp0"] or max(log) > 65536):
                    bad = f"[{cfg}] logged stack pointers outside the stack: {min(log)}..{max(log)}"
            c.count("stack_pointer_changes_logged", x.rep["nlogs"])
        if not bad and i % 6 == 0 and x.rep["nlogs"] < 20000:
            for prof, wasm in ((True, cc.wasm), (False, plainc.wasm)):
                name = f"p{i}_{int(prof)}.wasm"
                w = os.path.join(c.scratch.dir, name)
                shutil.copy(wasm, w)
                try:
                    p = subprocess.run(["node", os.path.join(rt, "runtime/run.mjs"), w], cwd=c.scratch.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=RUN_ENV)
                except subprocess.TimeoutExpired:
                    return c.unsure("node watchdog")
                logs = glob.glob(os.path.join(rt, "logs", glob.escape(name) + ".*.stackptrlog"))
                if p.returncode != ref.exit or p.stdout.decode("latin1") != ref.out:
                    bad = f"[{cfg}] profile={prof}: run.mjs exit {p.returncode}, reference {ref.exit}: {first_diff(ref.out, p.stdout.decode('latin1'))}"
                elif not prof and logs:
                    bad = f"[{cfg}] a log file was written without profiling"
                elif prof and x.rep["nlogs"] and len(logs) != 1:
                    bad = f"[{cfg}] {len(logs)} log files after a profiled run"
                elif prof and logs:
                    got = open(logs[0]).read()
                    try:
                        vals = [int(v) for v in got.split("\n")[:-1]]
                    except ValueError:
                        vals = None
                    if vals is None or not got.endswith("\n"):
                        bad = f"[{cfg}] malformed log file: {got[:100]!r}"
                    elif [b - a for a, b in zip(vals, vals[1:])] != [b - a for a, b in zip(log, log[1:])]:
                        bad = f"[{cfg}] log file differs from the observed history: {len(vals)} values against {len(log)}; {vals[:8]} against {log[:8]}"
                    c.count("log_files_compared")
                for f in logs + [w]:
                    os.unlink(f)
                if bad:
                    break
    if bad:
        c.violate(bad, "", {"program.c": text, "expected.txt": ref.out, "flags.txt": " ".join(fl + ["--prof-stack"])})
        return
    for f in (path, cc.wasm, plainc.wasm):
        os.unlink(f)
    c.observe(text, x.rep["nlogs"] > 0)
    c.sample(text[:800], 1)


import itertools
for _ in pool.map_until(one, itertools.count(), lambda: c.left() <= 0 or bool(c.violations)):
    pass
c.assumptions += MON_ASSUME
c.finish(min_evals=20)
