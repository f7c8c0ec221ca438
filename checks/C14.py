from common_checks import *
import threading
import units_start as ST
c = Check("C14", "whole programs run through the command-line runtime (node run.mjs MODULE ARGS...) in a scratch copy of the runtime, with argument lists of 0 to 30 strings (empty, long, UTF-8, option-like, "
          "containing newlines), all signatures of main, static storage of many layouts, small and large outputs, every kind of exit status; standard output bytes and exit status of the process are compared "
          "with the natively compiled program given the same arguments. Standard output is a file, a pipe, or a pipe that is read late and slowly. Non-trivial: reference accepted; distinct by program text and arguments.", quick_s=70, thorough_s=600)
rt = os.path.join(c.scratch.dir, "rt")
os.makedirs(os.path.join(rt, "logs"))
shutil.copytree(os.path.join(REPO, "runtime"), os.path.join(rt, "runtime"))
os.symlink("runtime/run.mjs", os.path.join(rt, "run.mjs"))
pool = Pool()


def run_to(argv, how, r):
    """exit status, standard output, standard error; standard output is a file, a pipe, or a pipe whose reader starts late and dawdles"""
    with open(c.scratch.path(".err"), "w+b") as e:
        os.unlink(e.name)
        kw = dict(cwd=c.scratch.dir, stdin=subprocess.DEVNULL, stderr=e, env=RUN_ENV)
        if how == "file":
            with open(c.scratch.path(".out"), "w+b") as o:
                os.unlink(o.name)
                status = subprocess.run(argv, stdout=o, timeout=60, **kw).returncode
                o.seek(0)
                out = o.read()
        elif how == "pipe":
            p = subprocess.run(argv, stdout=subprocess.PIPE, timeout=60, **kw)
            status, out = p.returncode, p.stdout
        else:
            q = subprocess.Popen(argv, stdout=subprocess.PIPE, **kw)
            dog = threading.Timer(60, q.kill)
            dog.start()
            time.sleep(r.choice([0.2, 0.6, 1.2]))
            out = b""
            while chunk := os.read(q.stdout.fileno(), r.choice([100, 4096, 65536])):
                out += chunk
                if r.random() < 0.2: time.sleep(0.01)
            q.stdout.close()
            status = q.wait()
            alive = dog.is_alive()
            dog.cancel()
            if not alive:
                raise subprocess.TimeoutExpired(argv, 60)
        e.seek(0)
        return status, out.decode("latin1"), e.read().decode("utf8", "replace")


def one(i):
    if c.violations:
        return
    r = random.Random(f"C14:{SEED}:{i}")
    text, args = ST.start_program(r)
    path = write_src(c, text)
    ref = reference(c.scratch, path, args)
    c.count("programs_generated")
    if ref.kind != "ok":
        c.count("generated_" + ref.kind)
        c.cov.setdefault("generated_bad_example", ref.msg[:200])
        return
    cfg, fl = CONFIGS[i % 8]
    cc = c.cc.compile_file(path, fl)
    bad = None
    if cc.timeout:
        return c.unsure("compile watchdog")
    if cc.rc != 0:
        bad = f"[{cfg}] compiler exit {cc.rc} on a valid program: {cc.err[-300:]}"
    else:
        wasm = cc.wasm
        if i % 3 == 0:
            wasm = cc.wasm[:-5] + r.choice([" with space.wasm", "-é.wasm", ".bin", "x"])
            os.rename(cc.wasm, wasm)
        for rep in range(1):
            argv = ["node", os.path.join(rt, "run.mjs" if i % 2 else "runtime/run.mjs"), wasm, *args]
            how = r.choice(["pipe", "pipe", "slow", "file"]) if len(ref.out) < 30000 else r.choice(["pipe", "slow", "slow", "slow", "file"])
            try:
                status, out, err = run_to(argv, how, r)
            except subprocess.TimeoutExpired:
                return c.unsure("node watchdog")
            c.count("stdout_" + how)
            if status != ref.exit:
                bad = f"[{cfg}] process exit status {status}, reference {ref.exit}; stderr {err[-300:]}"
            elif out != ref.out:
                bad = f"[{cfg}] output ({how}) differs: {first_diff(ref.out, out)}"
            c.count("process_runs")
            c.peak("largest_output_bytes", len(out))
            c.peak("most_arguments", len(args))
        os.unlink(wasm)
    if bad:
        c.violate(bad, f"args {args!r}", {"program.c": text.encode("latin1"), "expected.txt": ref.out.encode("latin1"), "args.json": json.dumps(args)})
        return
    os.unlink(path)
    c.cov.setdefault("exit_statuses", 0)
    with c._lock:
        exits.add(ref.exit)
        c.cov["exit_statuses"] = len(exits)
    c.observe(text + repr(args))
    c.sample(text[:900] + f"\n// args {args!r}"[:300], 2)


exits = set()
import itertools
for _ in pool.map_until(one, itertools.count(), lambda: c.left() <= 0 or bool(c.violations)):
    pass
c.assumptions += MON_ASSUME
c.finish(min_evals=20)
