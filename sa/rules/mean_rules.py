"""P16 the global value is the mean of the local values."""
import os
from .util import *
from .chain_rules import p04_scs
from ..spaces import Form, Unknown, Wrong, names
from .. import cells, val


@rule("P16", floor=60,
      rule="mean over the observations of the local value graph equals the global value graph: directly, after summation over the cells of a count table, or as equal linear forms over the same joint spaces",
      explain="value graphs of global_val() and local_vals() of every class that offers local values; dictionary look-ups per observation are rewritten to count-weighted sums over the distinct observations")
def p16(tier):
    out = []
    for m, a, q in each_class(("entropy",)):
        if is_(q, "shrink"):          # documented: its local values are -log p of the shrunk distribution
            continue
        for v in variants(m, a, q):
            if is_(q, "ordinal"):         # the shortcuts for dimension 2 and 3 do not use a count table
                v = dict(v, embedding_dim=("sym", dict(lower=4)))
            out.append(Sc(m, a, q, **v))
            if not is_(q, "ordinal") and not is_(q, "symbolic"):
                out.append(Sc(m, a, q, ndim=2, **v))
            out.append(Sc(m, a, q, cross=True, **v))
            out.append(Sc(m, a, q, joint=2, **v))
    for sc in p04_scs(tier):
        out.append(sc)
    return [(f"P16 {sc}", p16_job, (sc,)) for sc in out]


def tables(s, case, a, b, N):
    """a table of counts for which the two values differ"""
    ps = sorted({x for t in (a, b, *([N] if N is not None else []), *(c for c, _ in case)) for x in walk(t) if x.op == "param"})
    envs = []
    if N is None and any(mentions(t, cells.CNT) for t in (a, b)):
        return None
    for cnt in ([1, 2, 4], [3, 3, 1, 5], [7, 2], [2, 2, 3], [1, 1, 1, 1]):
        env = {p: dict(base=3.0, step_size=1, embedding_dim=4).get(p.args[0], 1.75) for p in ps}
        env.update({cells.CNT: list(cnt), cells.KN: len(cnt)})
        n = [p for p in ps if p.args[0] == "N"]
        data = [p for p in ps if p is not cells.CNT and (s.facts.kind(p) == "ndarray" or p.args[0].startswith("observations"))]
        if len(data) > 1:
            return None
        for p in data:
            env[p] = [v for v, k in enumerate(cnt) for _ in range(k)]
        try:
            if n:
                env[n[0]] = 0
                env[n[0]] = sum(cnt) - (val.Ev(env)(N) if N is not None else 0)
            if not all(bool(val.Ev(env)(c)) == v for c, v in case):
                continue
        except (val.NoAnswer, TypeError, IndexError, KeyError, ZeroDivisionError) as e:
            continue
        envs.append(env)
    try:
        return val.separate(a, b, envs)
    except val.NoAnswer as e:
        return None


def apart(sc):
    """None, or text: series for which the mean of the local values is not the global value"""
    from .oracle import envs_of
    from .prep_rules import value
    from .valid_rules import init_params_of
    o = dict(sc.o)
    if "noise_level" in init_params_of(sc.measure, sc.approach, sc.qual):
        o["noise_level"] = 0
    if is_(sc.qual, "ordinal"):
        o["stable"] = False
    sc = Sc(sc.measure, sc.approach, sc.qual, **o)
    try:
        s, _, out = value(sc)
        g, l = out["global_val"], out["local_vals"]
        if g is None or l is None:
            return None

        def mean(env):
            v = val.at(l, env)
            if not isinstance(v, list) or not v or not all(isinstance(x, (int, float)) for x in v):
                raise val.NoAnswer("local values")
            return sum(v) / len(v)
        d = val.separate(g, mean, envs_of(sc), more=True, ties=not is_(sc.qual, "ordinal"))
    except (val.NoAnswer, Undecided):
        return None
    return d and f"global value {d[1]:.6g}, mean of the local values {d[2]:.6g} at " + ", ".join(f"{p.args[0]}={v if not isinstance(v, list) else v[:12]}" for p, v in sorted(d[0].items(), key=str) if mentions(g, p))[:400]


def p16_job(c, sc):
    if os.environ.get("VERIF_SELFTEST"):
        t = apart(sc)
        if t:
            c.bad(str(sc) + " at valuations", "", t)
    s = sc.session(project(), opaque=sc.measure != "entropy")
    o, _ = sc.make(s)
    if o is None:
        c.na(str(sc))
        return
    w = where_method(s, sc.qual, "_calculate", "calculate")
    l, _ = s.method(o, "local_vals")
    if l is None:
        c.na(f"{sc}: no local values")
        return
    g, _ = s.method(o, "global_val")
    if g is None:
        c.na(f"{sc}: no global value")
        return
    note_session(s)
    l0, g0 = (strip_copies(s.frz(v), s.facts) for v in (l, g))
    l, g = renorm(s, l0), renorm(s, g0)
    m = E.np_reduce(s.I, "numpy.mean", l, ())
    key = str(sc)
    if same(m, g):
        c.ok(key, "the global value is the mean of the local array")
        return
    if sc.measure == "entropy":
        try:
            n = 0
            for case, N, a, b in cells.compare(s, l, g):
                n += 1
                when = " and ".join(("" if v else "not ") + show(x, 4)[:80] for x, v in case)
                if same(a, b):
                    continue
                a, b = cells.expand(s, a, N), cells.expand(s, b, N)
                if same(a, b):
                    continue
                d = tables(s, case, a, b, N)
                if d:
                    c.bad(key, w, "the mean of the local values differs from the global value" + (f" when {when}" if when else "") + ": " + show_diff(a, b) + f" ({d[1]} and {d[2]} for the counts {d[0][cells.CNT]})")
                elif apart(sc):
                    c.bad(key, w, apart(sc))
                else:
                    c.und(key, "not comparable: " + (when + ": " if when else "") + show_diff(a, b), w)
                return
            c.ok(key, f"equal sums over the distinct observations in {n} case(s)")
        except Unknown as e:
            t = apart(sc)
            c.und(key, str(e), w) if t is None else c.bad(key, w, t)
        return
    fg, fl = (Form(s.I, sc.measure, s.kwargs.get("base")) for _ in (0, 1))
    try:
        fg.value(g)
        fl.value(l)
    except (Unknown, Wrong) as e:
        t = apart(sc)
        c.und(key, str(e), w) if t is None else c.bad(key, w, t)
        return
    bad = []
    for f in (fg, fl):
        k = f.coef.pop(("K", ()), 0) + f.coef.pop(("N^-1", ()), 0)      # a correction by a constant
        if k:
            f.coef[("1/N", ())] = k
    for k in sorted(set(fg.coef) | set(fl.coef), key=str):
        if fg.coef.get(k) != fl.coef.get(k):
            bad.append(f"{k[0]} of {names(k[1]) if isinstance(k[1], frozenset) else k[1]}: coefficient {fg.coef.get(k, 0)} in the global value, {fl.coef.get(k, 0)} in the local values")
    for r in sorted(set(fg.blocks) | set(fl.blocks), key=str):
        if fg.blocks.get(r) != fl.blocks.get(r):
            bad.append(f"global and local values use different data for {r}")
    for r in sorted(set(fg.settings) | set(fl.settings), key=str):
        if r != "table" and fg.settings.get(r) != fl.settings.get(r):
            bad.append(f"global and local values use different {r}")
    if bad:
        c.bad(key, w, "; ".join(bad[:3]))
    else:
        c.ok(key, f"{len(fg.coef)} equal coefficients")
