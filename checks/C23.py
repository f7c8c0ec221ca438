from common_checks import *
import itertools, stat
c = Check("C23", "random command lines (switches on/off/absent/contradictory in any order and position, output option in all spellings or absent, existing or missing or unwritable targets, missing or directory inputs, unknown options, own headers, "
          "odd file names) run in a scratch directory; exit status, the set of files created or changed, and the effect of each switch on the produced module (functions kept, stack growth of a tail recursion, stack use of disjoint "
          "locals, logging import) are compared with a model of the command line. Non-trivial: every command line; distinct by arguments.", quick_s=70, thorough_s=400)
pool = Pool()
AX = [("tailcall", "opt-tailcall", "noopt-tailcall", True), ("unreach", "opt-unreachable-procedure", "noopt-unreachable-procedure", True),
      ("stack", "opt-stack-allocation", "noopt-stack-allocation", True), ("prof", "prof-stack", "noprof-stack", False)]


def probe(r, own):
    k = r.randint(6, 12)
    blk = "\n".join(f"    {{ int a{i} = n + {i}; int b{i} = a{i} * 2; s += b{i}; }}" for i in range(k))
    inc = f'#include "{own}"\n' if own else ""
    use = " + OWN_CONST" if own else ""
    return f"""#include <stdio.h>
{inc}#include <string.h>
int unused1(int x) {{ return x + 1; }}
int unused2(int x) {{ return unused1(x) * 2; }}
int tail(int n, int acc) {{ if (n == 0) return acc; return tail(n - 1, acc + {r.randint(1, 9)}); }}
int blocks(int n) {{ int s = 0;
{blk}
    return s; }}
int main(int argc, char **argv) {{
    if (argc > 2) printf("%d\\n", blocks(argc)); else printf("%d\\n", tail(argc > 1 ? 300 : 3, 1{use}));
    return (int) strlen("abc");
}}
"""


def snapshot(d):
    s = {}
    for root, ds, fs in os.walk(d):
        if os.path.basename(root) == "headers":
            continue
        for f in fs:
            p = os.path.join(root, f)
            s[os.path.relpath(p, d)] = open(p, "rb").read()
    return s


def one(i):
    if c.violations:
        return
    r = random.Random(f"C23:{SEED}:{i}")
    d = os.path.join(c.scratch.dir, f"cli{i}")
    os.makedirs(os.path.join(d, "sub dir"))
    os.symlink(os.path.join(REPO, "headers"), os.path.join(d, "headers"))
    name = r.choice(["a.c", "prog.c", "my prog.c", "sub dir/x.c", "noext", "dots.in.name.c", "é.c", "UPPER.C", "stdio_.c"])
    own = None
    if name not in ("noext",) and r.random() < 0.35:
        own = os.path.splitext(os.path.basename(name))[0] + ".h"
        with open(os.path.join(d, os.path.dirname(name), own), "w") as f:
            f.write(f"#define OWN_CONST {r.randint(1, 9)}\nint unused2(int x);\n" + ("#include <stddef.h>\n" if r.random() < 0.3 else ""))
    text = probe(r, own)
    valid = True
    with open(os.path.join(d, name), "w") as f:
        f.write(text)
    want = {a: dv for a, _, _, dv in AX}
    opts = []
    for a, on, off, dv in AX:
        k = r.random()
        if k < 0.4:
            continue
        if k < 0.68:
            opts.append(["--" + on]); want[a] = True
        elif k < 0.95:
            opts.append(["--" + off]); want[a] = False
        else:
            opts.append(["--" + on]); opts.append(["--" + off]); valid = False
    out = "module.wasm"
    why = "valid" if valid else "contradictory switches"
    if r.random() < 0.75:
        out = r.choice(["o.wasm", "sub dir/o.wasm", "out", "b.c.wasm", "ünï.wasm", os.path.join(d, "abs.wasm")])
        opts.append(r.choice([["-o", out], ["--output", out], ["--output=" + out], ["-o" + out], ["-o=" + out]]))
    src = r.choice([name, "./" + name, os.path.join(d, name)])
    k = r.random()
    pos = [[src]]
    if k < 0.05:
        pos, valid, why = [["missing_" + os.path.basename(name)]], False, "missing input"
    elif k < 0.08:
        pos, valid, why = [["sub dir"]], False, "directory as input"
    elif k < 0.11:
        pos, valid, why = [], False, "no input"
    elif k < 0.14:
        opts.append([r.choice(["--opt-everything", "-x", "--optimise", "--no-opt-tailcall"])]); valid, why = False, "unknown option"
    elif k < 0.17:
        out = "nodir/o.wasm"; opts = [o for o in opts if not any("o.wasm" in z or z.startswith(("-o", "--output")) for z in o)] + [["-o", out]]; valid, why = False, "unwritable output"
    elif k < 0.20:
        pos.append([name]); valid, why = False, "two inputs"
    elif k < 0.23:
        with open(os.path.join(d, name), "a") as f:
            f.write(r.choice(["int broken(", "}\n", "#include <nosuchheader.h>\nint z;\n", "int f(void) { return undeclared_thing; }\n", "#error no\n"]))
        valid, why = False, "invalid program"
    groups = opts + pos
    r.shuffle(groups)
    argv = [x for g in groups for x in g]
    op = os.path.join(d, out)
    pre = None
    if "nodir" not in out and r.random() < 0.4:
        pre = bytes(r.getrandbits(8) for _ in range(r.choice([0, 10, 90000])))
        with open(op, "wb") as f:
            f.write(pre)
    before = snapshot(d)
    env = dict(RUN_ENV)
    if r.random() < 0.2:
        env["RUST_LOG"] = r.choice(["info", "trace", "debug", "error", "off"])
    try:
        p = subprocess.run([c.bin, *argv], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
    except subprocess.TimeoutExpired:
        return c.unsure(f"compile watchdog {argv} {name} {own} {env.get('RUST_LOG')}")
    after = snapshot(d)
    rel = os.path.relpath(op, d)
    changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
    bad = None
    if valid:
        if p.returncode != 0:
            bad = f"exit {p.returncode} for a valid command line: {p.stderr.decode('utf8', 'replace')[-300:]}"
        elif rel not in after:
            bad = f"no file {rel} written; files changed: {sorted(changed)}"
        elif changed - {rel}:
            bad = f"files besides the output changed: {sorted(changed - {rel})}"
    else:
        if p.returncode == 0:
            bad = f"exit 0 ({why})"
        elif changed:
            bad = f"failed ({why}) but changed files {sorted(changed)}"
        elif not p.stderr.strip() and env.get("RUST_LOG") not in ("off",):
            bad = f"failed ({why}) without a diagnostic"
    if not bad and valid:
        reps = []
        for args in ([], ["x"], ["x", "y"]):
            x = judge(c, pool, op, why, None, args, 3)
            if x.kind == "inconclusive":
                return
            if x.problem:
                bad = x.problem
                break
            reps.append(x.rep)
        if not bad:
            grow = reps[1]["mon"]["peakSP"] - reps[0]["mon"]["peakSP"]
            blocks = reps[2]["mon"]["peakSP"] - reps[2]["spMain"]
            got = {"tailcall": grow < 900, "unreach": reps[0]["nfuncs"] < 6, "stack": None, "prof": reps[0]["nlogs"] > 0}
            with c._lock:
                (small if want["stack"] else large).append(blocks)
                if small and large and max(small) >= min(large):
                    bad = f"stack use of disjoint locals: {blocks} bytes with the switch {'on' if want['stack'] else 'off'}; others on {max(small)}, off {min(large)}"
            for a in ("tailcall", "unreach", "prof"):
                if got[a] != want[a]:
                    bad = f"switch {a} should be {'on' if want[a] else 'off'}, the module behaves as if it were {'on' if got[a] else 'off'}"
    if bad:
        c.violate(bad, f"cwd {d}\nargv {argv!r}", {"argv.json": json.dumps(argv), "program.c": text})
        return
    c.count("command_lines_" + ("accepted" if valid else "refused"))
    c.observe(repr(groups))
    c.sample(" ".join(argv), 6)
    with c._lock:
        kinds.add(why)
        c.cov["situations"] = sorted(kinds)
    shutil.rmtree(d)


small, large, kinds = [], [], set()
for _ in pool.map_until(one, itertools.count(), lambda: c.left() <= 0 or bool(c.violations)):
    pass
c.finish(min_evals=30)
