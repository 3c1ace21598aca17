"""P06: what the statistical tests resample."""
from .util import *
from ..spaces import Form, Unknown, Wrong
from .. import val

WITHOUT = ("permutation", "shuffled", "permuted")
WITH = ("choice", "integers")
NOISE = ("normal", "standard_normal", "uniform", "random")


def resamples(t):
    return sorted({x for x in walk(t) if x.op == "draw" and x.args[0] not in NOISE}, key=lambda x: (str(x.args[2]), x.args[0]))


def undraw(t):
    """the value with every resampling undone: draws replaced by what was resampled"""
    def f(x):
        if x.op == "index" and x.args[1].op == "draw" and x.args[1].args[0] in WITHOUT + WITH:
            d = x.args[1]
            a = d.args[4][0] if d.args[4] else None
            if d.args[0] == "integers" or (a is not None and (a.op in ("len", "param", "lin") or is_num(a))):
                return x.args[0]
        if x.op == "draw" and x.args[0] in WITHOUT + ("choice",) and x.args[4]:
            return x.args[4][0]
        return x
    return transform(t, f)


SHAPEY = ("shape", "ndim", "size", "dtype", "strides")


def exposed(t, owner):
    """a use of the owner's sample values that does not pass through a resampling draw (None if there is none)"""
    memo = {}

    def go(x, up):
        if x is owner:
            return up
        if x.op == "draw" and x.args[0] not in NOISE:
            return None
        if x.op == "index" and x.args[1].op == "draw" and x.args[1].args[0] not in NOISE:
            return None
        if x.op == "len" or (x.op == "attr" and x.args[1] in SHAPEY):
            return None
        if x in memo:
            return memo[x]
        memo[x] = None
        r = None
        for y in children(x):
            r = go(y, x)
            if r is not None:
                break
        memo[x] = r
        return r
    return go(t, t)


def touched(t, owner):
    """a use of the owner's values that passes through a resampling draw"""
    for x in walk(t):
        if x.op == "draw" and x.args[0] not in NOISE and any(mentions_value(y, owner) for y in x.args[4]):
            return x
        if x.op == "index" and x.args[1].op == "draw" and x.args[1].args[0] not in NOISE and mentions_value(x.args[0], owner):
            return x
    return None


def mentions_value(t, p):
    if t is p:
        return True
    if t.op == "len" or (t.op == "attr" and t.args[1] in SHAPEY):
        return False
    return any(mentions_value(y, p) for y in children(t))


def describe(d):
    return f"{d.args[0]}({', '.join(show(a, 3) for a in d.args[4])}{''.join(f', {k}={show(v, 3)}' for k, v in d.args[5])})"


def carried(s, m):
    """the loop variable m holds, after each pass, what was drawn from its own value before"""
    ups = s.I.mu_updates.get(m, [])
    return bool(ups) and all(touched(end, m) is not None for _, end in ups)


def turns(cond, to):
    """a number of observations for which the condition takes this value"""
    for n in (3, 4, 7, 10, 11, 20, 31, 50, 99, 100, 101, 128, 257, 500, 999, 1000, 1001, 2000, 4096, 5000, 10 ** 4, 10 ** 4 + 1, 10 ** 5, 10 ** 6, 10 ** 7):
        try:
            if bool(val.at(cond, {P("N"): n, P("M"): n, P("n_tests"): 100})) == to:
                return f"for {n} observations"
        except (val.NoAnswer, TypeError, ValueError, ZeroDivisionError):
            return None
    return None


def check_draw(s, sc, meth, tv, looped):
    """contradictions of the resampled value tv with the documented resampling"""
    out = []
    ds = resamples(tv)
    src = P("x")
    if not ds:
        return ["the test values contain no resampling at all: every one of them equals the observed value"]
    if len(ds) > 1:
        out.append("different resamples are combined in one value: " + " / ".join(describe(d) for d in ds[:3]))
    for d in ds:
        k = dict(d.args[5])
        name = d.args[0]
        repl = k.get("replace")
        no_repl = name in WITHOUT or (name == "choice" and repl is FALSE)
        if name not in WITHOUT + WITH:
            out.append(f"{meth} draws with {name}")
        elif meth == "permutation_test" and not no_repl:
            out.append(f"the permutation test draws with replacement: {describe(d)}")
        elif name == "choice" and repl is not None and repl not in (TRUE, FALSE) and turns(repl, meth == "permutation_test"):
            out.append(f"the {meth.replace('_', ' ')} draws {'with' if meth == 'permutation_test' else 'without'} replacement {turns(repl, meth == 'permutation_test')}: {describe(d)}")
        elif meth == "bootstrap" and no_repl:
            out.append(f"the bootstrap draws without replacement: {describe(d)}")
        if k.get("axis") is not None and k["axis"] is not const(0):
            out.append(f"resampled along axis {show(k['axis'])} instead of along the observations")
        if k.get("p") is not None and k["p"] is not NONE:
            out.append("observations are resampled with unequal weights")
        if name == "permuted" and d.args[4] and s.facts.ndim(d.args[4][0]) not in (1, None):
            out.append(f"the entries of each observation are permuted independently of each other: {describe(d)}")
        if name == "choice" and "size" in k and d.args[4]:
            n = E.length(s.I, d.args[4][0])
            sz = k["size"]
            if n is not None and sz is not n and strip_copies(sz) is not strip_copies(n) and not (sz.op == "tuple" and sz.args and sz.args[0] is n):
                out.append(f"the bootstrap sample has {show(sz, 3)} observations instead of {show(n, 3)}")
        if looped and not d.args[3]:
            out.append("the same resample is used for every test")
    if meth == "bootstrap" and any(m.op == "mu" and carried(s, m) and touched(tv, m) is not None for m in walk(tv)):
        out.append("each bootstrap sample is drawn from the sample of the test before, not from the observations")
    e = exposed(tv, src)
    if e is not None:
        out.append(f"part of the value uses the source without resampling: {show(e, 5)[:200]}")
    for o in ("y", "z"):
        if P(o) in s.facts.meta:
            t = touched(tv, P(o))
            if t is not None:
                out.append(f"{o} is resampled as well: {show(t, 4)[:160]}")
    return out


def p06_job(c, sc):
    key0 = f"{sc}"
    cte = sc.measure == "cte"
    ref = sc.session(project(), opaque=True)
    if sc.make(ref)[0] is None:
        c.na(key0)
        return
    g = ref.method(ref.obj, "global_val")[0]
    if g is None:
        c.na(key0, "no value")
        return
    g = strip_copies(ref.frz(g), ref.facts)
    none_drawn = []
    for meth in ("permutation_test", "bootstrap"):
        s = sc.session(project(), opaque=True)
        sc.make(s)
        w = where_method(s, sc.qual, "_calculate", "statistical_test")
        n = s.num("n_tests", kind="int", lower=2)
        r, ex = s.method(s.obj, "statistical_test", n_tests=n, method=const(meth))
        vals = []
        if r is None:
            if all(exc_name(e.exc) in ("UnsupportedOperation", "NotImplementedError") for e in ex) and ex:
                c.na(f"{key0}:{meth}", "unsupported")
            else:
                c.und(f"{key0}:{meth}", "no test result")
        else:
            tv = s.frz(s.I.getattr(r, "test_values", s.st))
            vals.append(("test values", tv, True))
        s2 = sc.session(project(), opaque=True)
        sc.make(s2)
        if sc.measure in ("te", "cte"):
            v, _ = s2.method(s2.obj, "effective_val", method=const(meth))
            if v is None:
                c.und(f"{key0}:{meth}:effective", "no value")
            else:
                eff = strip_copies(s2.frz(v), s2.facts)
                if not resamples(eff):
                    none_drawn.append(f"{meth} (effective value)")
                else:
                    effective(c, f"{key0}:{meth}:effective value", where_method(s, sc.qual, "effective_val"), s, eff, g, vals[0][1] if vals else None, meth)
                # without a method the configured one is used
                s3 = sc.session(project(), opaque=True)
                s3.method(s3.pub("Config"), "set", const("statistical_test_method"), const(meth))
                sc.make(s3)
                v3, _ = s3.method(s3.obj, "effective_val")
                e3 = None if v3 is None else strip_copies(s3.frz(v3), s3.facts)
                k3 = f"{key0}:{meth} configured:effective value"
                w3 = where_method(s, sc.qual, "effective_val")
                if e3 is None:
                    c.bad(k3, w3, f"effective_val() is rejected with the configured method {meth!r}")
                elif same(e3, eff):
                    c.ok(k3)
                elif {x.args[0] for x in resamples(e3)} != {x.args[0] for x in resamples(eff)}:
                    c.bad(k3, w3, f"with the configured method {meth!r} effective_val() resamples with {[describe(x) for x in resamples(e3)][:1]}")
                else:
                    c.und(k3, show_diff(e3, eff), w3)
        for what, tv, looped in vals:
            k = f"{key0}:{meth}:{what}"
            if tv is None:
                continue
            if not resamples(tv):
                none_drawn.append(f"{meth} ({what})")
                continue
            bad = check_draw(s, sc, meth, tv, looped)
            if looped:
                ln = E.length(s.I, tv)
                if ln is None:
                    c.und(k + ":count", show(tv, 3))
                elif ln is not n:
                    bad.append(f"{show(ln, 3)} test values are computed instead of n_tests")
            # resampling undone, each test value is the measure itself
            u = strip_copies(undraw(tv), s.facts)
            if looped:
                e = _elem(u)
                if e is None:
                    c.und(k + ":statistic", show(u, 3)[:150], w)
                    u = None
                else:
                    u = e
            if u is not None:
                a, b = renorm(s, u), renorm(ref, strip_copies(g, ref.facts))
                r = same(a, b) or same_form(s, ref, a, b)
                if r is None:
                    c.und(k + ":statistic", show_diff(a, b), w)
                elif not r:
                    bad.append("without the resampling the computed value is not the measure: " + show_diff(a, b))
            if bad:
                for i, x in enumerate(bad[:3]):
                    c.bad(f"{k}:{i}", w, x)
            else:
                c.ok(k, describe(resamples(tv)[0])[:160])
        note_session(s)
        note_session(s2)
    note_session(ref)
    if none_drawn:
        c.bad(f"{sc.measure}/{sc.approach}:source is never resampled", where_method(ref, sc.qual, "_calculate", "calculate"),
              "no random resampling reaches the recomputed value in " + ", ".join(none_drawn))


def effective(c, k, w, s, eff, g, tv, meth):
    """effective value = value - one test value"""
    ds = resamples(eff)
    wrong = [d for d in ds if (d.args[0] in WITHOUT) != (meth == "permutation_test") and not (d.args[0] == "choice" and dict(d.args[5]).get("replace") is FALSE)]
    if wrong:
        c.bad(k, w, f"effective_val({meth!r}) resamples with {describe(wrong[0])}")
        return
    T_ = _elem(strip_copies(tv, s.facts)) if tv is not None else None
    if T_ is None:
        c.und(k, "no test value to compare with", w)
        return

    outer = min([b.args[0] for d in resamples(T_) for b in d.args[3]] or [None], key=lambda x: -1 if x is None else x)
    if outer is not None:       # T_ is taken out of the loop over the tests: inner loops move up one level
        T_ = _lift(T_, outer)

    def once(t):
        return renum(transform(t, lambda x: mk("draw", x.args[0], x.args[1], x.args[2], (), *x.args[4:]) if x.op == "draw" and x.args[0] not in NOISE else x))
    # draws of the value itself (noise) keep their place: the value is computed once, before or after the test
    T1, g1, e1 = once(T_), renum(g), once(eff)
    rel = lambda t: same(renorm(s, t), renorm(s, e1))
    if rel(sub(g1, T1)):
        c.ok(k, "value - test value")
        return
    for txt, t in (("test value - value", sub(T1, g1)), ("the test value alone", T1), ("value + test value", add(g1, T1))):
        if rel(t):
            c.bad(k, w, "the effective value is " + txt)
            return
    if any(x.op == "draw" and x.args[0] in NOISE for x in walk(eff)):
        c.na(k, "noise drawn for both values")
        return
    c.und(k, "not recognised as value - test value: " + show_diff(e1, sub(g1, T1)), w)


def _lift(t, outer):
    def f(x):
        if x.op == "bv" and isinstance(x.args[0], int) and x.args[0] > outer:
            return mk("bv", x.args[0] - 1)
        if x.op == "row" and isinstance(x.args[-1], int) and x.args[-1] > outer:
            return mk("row", *x.args[:-1], x.args[-1] - 1)
        if x.op == "draw" and any(b.op == "bv" and b.args[0] == outer for b in x.args[3]):
            return mk("draw", x.args[0], x.args[1], x.args[2], tuple(b for b in x.args[3] if not (b.op == "bv" and b.args[0] == outer)), *x.args[4:])
        return x
    return transform(t, f)


def same_form(s, ref, a, b):
    """equality of the linear forms over joint spaces (None: not recognised)"""
    try:
        fs = []
        for ss, t in ((s, a), (ref, b)):
            f = Form(ss.I, ss.sc.measure, ss.kwargs.get("base"))
            f.value(t)
            fs.append(f)
    except Wrong:
        return False
    except Unknown:
        return None
    return fs[0].coef == fs[1].coef


def _elem(t):
    """the generic element of a sequence of test values"""
    while True:
        if t.op == "call" and callee(t) in ("numpy.asarray", "numpy.array", "numpy.copy", "builtins.list"):
            t = t.args[1][0]
        elif t.op == "map":
            return t.args[1]
        else:
            return None


def quiet(q, v):
    return dict(v, noise_level=0) if any(is_(q, n) for n in NOISY) else v


@rule("P06", floor=150,
      rule="in the value graph of the test values: exactly one resampling draw per test, of the documented kind (without/with replacement, along the observations), every use of the source's values passes through it, no other variable does, and with the draw undone the graph is the measure itself",
      explain="value graphs of statistical_test() and effective_val() of every MI/CMI/TE/CTE class and both methods compared with the graph of global_val()")
def p06(tier):
    jobs = []
    for m, a, q in each_class(("mi", "cmi", "te", "cte")):
        for v in variants(m, a, q)[: (None if tier == "thorough" else 1)]:
            v0 = quiet(q, v)
            scs = [v0]
            if m != "cte":
                scs.append(dict(v0, ndim=2))
                if m in ("mi", "cmi") and any(is_(q, y) for y in ("kernel", "kraskov", "renyi", "tsallis")):
                    scs += [dict(v0, ndim={"x": 1, "y": 2}), dict(v0, ndim={"x": 2, "y": 1})]
                if v0 is not v:
                    scs.append(v)
                if m == "mi":
                    scs.append(dict(v0, offset=("sym", dict(lower=1))))
                if m == "te":
                    scs.append(dict(v0, prop_time=("sym", dict(lower=1))))
            for x in scs:
                sc = Sc(m, a, q, seed=True, **x)
                jobs.append((f"P06 {sc}", p06_job, (sc,)))
    return jobs
