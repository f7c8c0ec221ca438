"""Generic campaign: directed corpus first, then seeded random programs until the budget is spent."""
import glob, re
from harness import *
import harness

MON_ASSUME = [
    "reference: clang -O0 with ASan/UBSan decides that a program is free of undefined behaviour, gcc must agree with it; programs on which they disagree are discarded",
    "execution host: node's WebAssembly engine and the repository's own JavaScript runtime",
]


def corpus(prop):
    """(name, text, args, extra job fields) of the directed programs of a property."""
    for p in sorted(glob.glob(os.path.join(VERIF, "corpus", prop, "*.c"))):
        with open(p, encoding="latin1") as f:
            t = f.read()
        m = re.search(r"^// args: (.*)$", t, re.M)
        args = json.loads(m.group(1)) if m else []
        yield os.path.basename(p), t, args


def config_plan(i, n):
    """Configurations for the i-th program: the default one always, then the others in rotation."""
    names = [x for x, _ in CONFIGS if x != "TUS"]
    r = [("TUS", CONFIG["TUS"])]
    for k in range(n - 1):
        x = names[(i * (n - 1) + k) % len(names)]
        r.append((x, CONFIG[x]))
    return r


def weighted(r, makers):
    t = sum(w for w, _ in makers)
    x = r.random() * t
    for w, m in makers:
        x -= w
        if x < 0:
            return m
    return makers[-1][1]


def known_runs(c, pool):
    """Every listed finding is reproduced (and then reported as known) by the very program it names; a
    program that fails in another way than the listed one is a violation, one that works is silent."""
    for k in known_findings()["findings"]:
        if k["property"] != c.prop:
            continue
        path = os.path.join(VERIF, k["file"])
        ref = reference(c.scratch, path, [], sanitize=True)
        if ref.kind != "ok":
            c.unsure("known finding: reference " + ref.kind)
            continue
        x = run_config(c, pool, path, "TUS", CONFIG["TUS"], ref.out, [], ref.exit)
        if x.kind == k["fails"]:
            c.known.append(k["what"])
        elif x.problem:
            c.violate(x.problem, "", {"program.c": open(path, encoding="latin1").read(), "expected.txt": ref.out, "flags.txt": " ".join(CONFIG["TUS"])})


def campaign(c, makers, nconf=2, units=(2, 4), pool=None, corpus_configs=None, job=None, after=None, **kw):
    """makers: (weight, fn) where fn is a unit generator fn(r, prefix, ids=) or a whole-program
    generator carrying attribute `whole` (fn(r) -> text, args).  A maker module attribute
    `independent` says that the lines of main do not depend on one another."""
    pool = pool or Pool()
    ccfg = corpus_configs or CONFIGS

    known_runs(c, pool)

    def one_corpus(it):
        name, text, args = it
        if differential(c, pool, text, ccfg, args, job=job, **kw):
            c.observe("corpus:" + name)
            c.count("directed_programs")
        return None

    for _ in pool.map_until(one_corpus, list(corpus(c.prop)), lambda: bool(c.violations)):
        pass

    def one(i):
        if c.violations:
            return
        r = random.Random(f"{c.prop}:{SEED}:{i}")
        m = weighted(r, makers)
        li = getattr(m, "independent", False)
        args, opts = [], {}
        if getattr(m, "whole", False):
            text, args, *more = m(r)
            opts = more[0] if more else {}
            fs = {m.__name__}
        else:
            ids = [1]
            nu = getattr(m, "units", None) or r.randint(*units)
            us = [m(r, f"a{k}_", ids=ids) for k in range(nu)]
            if not li and len(makers) > 1 and r.random() < 0.3:
                m2 = weighted(r, makers)
                if not getattr(m2, "independent", False) and not getattr(m2, "whole", False):
                    us.append(m2(r, "b_", ids=ids))
            text = program(us)
            fs = feats(us)
        c.count("programs_generated")
        if differential(c, pool, text, config_plan(i, nconf), args, lines_independent=li, job=job, **opts, **kw):
            c.observe(text)
            c.sample(text[:1500], 2)
            with c._lock:
                seen.update(fs)
            if after:
                after(i, text)

    seen = set()
    import itertools
    for _ in pool.map_until(one, itertools.count(), lambda: c.left() <= 0 or len(c.violations) >= 3):
        pass
    c.cov["features_exercised"] = len(seen)
    c.cov["features_sample"] = sorted(str(x) for x in seen)[:25]
    c.assumptions += MON_ASSUME
    return pool


def attr(fn, **kw):
    def g(*a, **k):
        return fn(*a, **k)
    g.__name__ = fn.__name__
    for k, v in kw.items():
        setattr(g, k, v)
    return g
