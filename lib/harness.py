"""Differential execution under monitors: one C program, a reference run, N monitored runs."""
import os, re, subprocess
from common import *
from cgen import program, feats


def ub_lines(scratch, text, args=(), timeout=60):
    """Reference run with UBSan in recovering mode: (kind, stdout, set of offending lines)."""
    path, exe = scratch.path(".c"), scratch.path(".ref")
    with open(path, "w", encoding="latin1") as f:
        f.write(text)
    try:
        p = subprocess.run(CLANG + [SAN, path, "-o", exe],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=RUN_ENV)
        if p.returncode != 0:
            return "reject", p.stdout.decode("utf8", "replace")[-800:], set()
        warned = set(int(x) for x in re.findall(rb"\.c:(\d+):\d+: warning: ", p.stdout))
        p = subprocess.run([exe, *args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=RUN_ENV)
        lines = warned | set(int(x) for x in re.findall(rb"\.c:(\d+):\d+: runtime error", p.stderr))
        if p.returncode < 0:
            return "crash", p.stderr.decode("utf8", "replace")[:400], lines
        return "ok", p.stdout.decode("latin1"), lines
    except subprocess.TimeoutExpired:
        return "timeout", "", set()
    finally:
        for f in (exe, path):
            try:
                os.unlink(f)
            except OSError:
                pass


def drop_ub(scratch, text):
    """Remove the lines of a line-independent program that execute undefined behaviour.
    Returns (kind, text, expected stdout, dropped)."""
    dropped = 0
    for _ in range(5):
        k, out, bad = ub_lines(scratch, text)
        if not bad:
            return k, text, out, dropped
        ls = text.split("\n")
        for n in bad:
            ls[n - 1] = ""
        dropped += len(bad)
        text = "\n".join(ls)
    return "ub", text, out, dropped


HEADER = "//@@HEADER@@\n"


def split_header(text, stem):
    """(program, header or None): a text can bring a header named after its file behind a marker line"""
    a, m, b = text.replace("@STEM@", stem).partition(HEADER)
    return a, b if m else None


def replay_files(text):
    p, h = split_header(text, "program")
    return {"program.c": p.encode("latin1"), **({"program.h": h.encode("latin1")} if h is not None else {})}


def write_src(c, text):
    path = c.scratch.path(".c")
    text, header = split_header(text, os.path.basename(path)[:-2])
    with open(path, "w", encoding="latin1") as f:
        f.write(text)
    if header is not None:
        with open(path[:-2] + ".h", "w", encoding="latin1") as f:
            f.write(header)
    return path


class Run:
    """Outcome of compiling and executing one program in one configuration."""
    __slots__ = ("cfg", "flags", "comp", "rep", "problem", "kind")


def run_config(c, pool, path, cfg, flags, expect=None, args=(), exit_code=None, job=None, monitors=True, keep=False, expect_kind="reference"):
    """Compile `path` with `flags` and run it under the monitors; problem=None when everything agreed."""
    x = Run()
    x.cfg, x.flags, x.rep, x.problem, x.kind = cfg, flags, None, None, None
    x.comp = cc = c.cc.compile_file(path, flags)
    if cc.timeout:
        x.kind = "inconclusive"
        c.unsure("compile watchdog")
        return x
    if cc.hang:
        x.kind, x.problem = "crash", f"[{cfg}] the compiler is still running after {c.cc.CPU} s of CPU on a valid program"
        return x
    if cc.rc != 0:
        x.kind = "rejected" if cc.rc == 1 else "crash"
        x.problem = f"[{cfg}] compiler exit {cc.rc} on a valid program: {cc.err[-500:]}"
        return x
    judge(c, pool, cc.wasm, cfg, expect, args, exit_code, job, monitors, expect_kind, x)
    if not keep:
        try:
            os.unlink(cc.wasm)
        except OSError:
            pass
    return x


def judge(c, pool, wasm, cfg, expect=None, args=(), exit_code=None, job=None, monitors=True, expect_kind="reference", x=None):
    """Run a compiled module under the monitors and compare."""
    if x is None:
        x = Run()
        x.cfg, x.flags, x.rep, x.problem, x.kind = cfg, None, None, None, None
    j = {"id": 0, "wasm": wasm, "args": list(args)}
    if job:
        j.update(job)
    x.rep = rep = pool.execute(j)
    if "inconclusive" in rep:
        x.kind = "inconclusive"
        c.unsure(rep["inconclusive"])
        return x
    if rep.get("err"):
        x.kind, x.problem = "invalid", f"[{cfg}] {rep['err']}"
        return x
    if rep.get("trap") in ("hoststack",):
        x.kind = "inconclusive"
        c.unsure("host stack limit")
        return x
    if rep.get("trap"):
        x.kind, x.problem = "trap", f"[{cfg}] {rep['trap']} (out so far: ...{rep['out'][-200:]!r})"
        return x
    if expect is not None and rep["out"] != expect:
        x.kind, x.problem = "output", f"[{cfg}] output differs from the {expect_kind}: {first_diff(expect, rep['out'])}"
        return x
    if exit_code is not None and rep["exit"] != exit_code:
        x.kind, x.problem = "exit", f"[{cfg}] exit status {rep['exit']}, {expect_kind} {exit_code}"
        return x
    if monitors and rep["viol"]:
        x.kind, x.problem = "monitor", f"[{cfg}] monitors: " + "; ".join(rep["viol"])
        return x
    c.count("ticks", rep["mon"]["ticks"])
    c.count("calls_observed", rep["mon"]["calls"] + rep["mon"]["hcalls"])
    c.count("memory_accesses_observed", rep["mon"]["loads"] + rep["mon"]["stores"])
    c.peak("max_call_depth", rep["mon"]["maxDepth"])
    return x


def first_diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else "<end>"
        y = lb[i] if i < len(lb) else "<end>"
        if x != y:
            return f"line {i + 1}: expected {x[:200]!r}, got {y[:200]!r}"
    return "same lines"


def differential(c, pool, text, configs, args=(), lines_independent=False, label="", job=None, monitors=True, only_kinds=None, poison=True, sanitize=True, maxticks=None, known=None, strict=False):
    """Full oracle for one program. Returns True when it counted as an observation."""
    if lines_independent:
        k, text, out, dropped = drop_ub(c.scratch, text)
        c.count("undefined_lines_dropped", dropped)
        if k != "ok":
            c.count("generated_not_usable")
            if k in ("timeout",):
                c.unsure("reference " + k)
            elif k == "reject":
                c.count("generator_rejects")
                c.cov.setdefault("generator_reject_example", out[-300:])
            return False
        code = 0
        path = write_src(c, text)
    else:
        path = write_src(c, text)
        ref = reference(c.scratch, path, args, sanitize=sanitize, strict=strict)
        if ref.kind != "ok":
            c.count("generated_not_usable")
            c.count("generated_" + ref.kind)
            if ref.kind == "reject":
                c.cov.setdefault("generator_reject_example", ref.msg[-300:])
            if ref.kind == "ub":
                c.cov.setdefault("generator_ub_example", ref.msg[:300])
            os.unlink(path)
            return False
        out, code = ref.out, ref.exit
    ok = True
    for i, (cfg, flags) in enumerate(configs):
        j = dict(job or {})
        if poison and i % 2 == 0:
            j["poison"] = 0xA5
        if maxticks:
            j["maxTicks"] = maxticks
        x = run_config(c, pool, path, cfg, flags, out, args, code, j, monitors)
        if x.kind == "inconclusive":
            ok = False
            continue
        if strict and (x.kind == "rejected" or x.kind == "trap" and (x.problem.find("steplimit") >= 0 or x.rep["mon"]["peakSP"] > 30000)):
            # a variation may leave the subset of C the compiler takes, run longer than the monitors wait or fill the one page of memory
            c.count("variations_beyond_limits")
            ok = False
            continue
        if x.problem and not (only_kinds and x.kind not in only_kinds):
            c.violate(x.problem, f"flags {' '.join(flags)}\nargs {list(args)}\nexpected output and exit {code} in expected.txt",
                      {**replay_files(text), "expected.txt": out.encode("latin1"), "flags.txt": " ".join(flags)})
            ok = False
            break
        c.count("monitored_runs")
    os.unlink(path)
    return ok
