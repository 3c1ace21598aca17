"""P03 every setting given to an estimator reaches the calculation."""
from .util import *
from .iface_rules import full, tag
from ..val import Ev, NoAnswer

BOOL = dict(stable=(True, False), normalize=(True, False))
FINITE = dict(kernel=("box", "gaussian"), ksg_id=(1, 2))
SERIES = ("x", "y", "z", "w", "v")


def cases(tier):
    for m, a, q in each_class():
        vs = [{}]
        if is_(q, "kernel"):
            vs = [dict(kernel="box"), dict(kernel="gaussian")]
        if is_(q, "kraskov") or is_(q, "kozachenko"):
            vs = [dict(ksg_id=1), dict(ksg_id=2)]
        if is_(q, ".bayes"):
            vs = [{}, dict(alpha=0.5)]
        for v in vs:
            yield m, a, q, v
            if m == "entropy":
                yield m, a, q, dict(v, cross=True)
                yield m, a, q, dict(v, joint=2)
            if m in ("mi", "cmi"):
                yield m, a, q, dict(v, nvars=3)


def graphs(sc, opaque):
    s = sc.session(project(), opaque=opaque)
    o, _ = sc.make(s)
    out = {}
    if o is not None:
        for meth in ("global_val", "local_vals"):
            v, _ = s.method(o, meth)
            if v is not None:
                out[meth] = strip_copies(s.frz(v), s.facts)
    note_session(s)
    return s, out


def p03_job(c, m, a, q, v):
    comp = m != "entropy"
    o = full(m, q, **v)
    o["step_size"] = "sym"
    if "offset" in o:
        o["offset"] = ("sym", dict(kind="int", lower=1))
    if "prop_time" in o:
        o["prop_time"] = ("sym", dict(kind="int", lower=1))
    sc = Sc(m, a, q, **o)
    s, gs = graphs(sc, comp)
    w = where_method(s, q, "__init__")
    t = f"{m}/{a}" + (f" {v}" if v else "")
    if not gs:
        c.na(t)
        return
    given = {k: x for k, x in s.kwargs.items() if k not in ("cond", "workers")}
    for meth, g in gs.items():
        for k, x in given.items():
            key = f"{t}:{meth}:{k}"
            if x.op == "param":
                if k == "base" and is_(q, "tsallis"):
                    continue
                if k == "seed" and not any(y.op == "draw" for y in walk(g)):
                    continue
                if k == "ksg_id" or k == "stable":
                    continue
                if exempt(m, q, k, v, meth):
                    continue
                c.put(key, mentions(g, x), w, f"the setting {k!r} is accepted but has no influence on the {'global value' if meth == 'global_val' else 'local values'}")
    # settings with a finite set of values: the values must differ in effect
    for k, vals in list(BOOL.items()) + list(FINITE.items()):
        names = init_params(s.I, s.cls(q), s.st)
        if k not in names or k in v and k in BOOL:
            continue
        pair = []
        for val in vals:
            s2, g2 = graphs(Sc(m, a, q, **dict(o, **{k: val})), comp)
            pair.append((s2, g2))
        for meth in ("global_val", "local_vals"):
            if all(meth in g for _, g in pair):
                if same(pair[0][1][meth], pair[1][1][meth]) and not exempt(m, q, k, v, meth):
                    c.bad(f"{t}:{meth}:{k}", w, f"the setting {k!r} is accepted but {vals[0]!r} and {vals[1]!r} are calculated alike")
                else:
                    c.ok(f"{t}:{meth}:{k}")
    if "minkowski_p" in given:
        norms(c, q, t, gs, given["minkowski_p"], w)
    if comp:
        handed(c, s, q, t, gs, given, w)


def other_norm(got, p):
    """for some admissible norm the search uses another one"""
    for v in (1.0, 1.5, 2.0, 3.0, 17.0, 150.0, 5e3, 1e7, float("inf")):
        try:
            if Ev({p: v})(got) != v:
                return True
        except (NoAnswer, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, KeyError):
            pass
    return False


def norms(c, q, t, gs, p, w):
    """every neighbour search and count is in the given norm"""
    pos = dict(query=3, query_ball_point=2, count_neighbors=2, query_ball_tree=2)
    for meth, g in gs.items():
        bad, n = None, 0
        for x in walk(g):
            if x.op == "mcall" and x.args[0] in pos:
                kw_ = dict(x.args[3])
                if "p" not in kw_ and len(x.args[2]) > pos[x.args[0]]:
                    kw_["p"] = x.args[2][pos[x.args[0]]]
                n += 1
                if kw_.get("p") is not p:
                    bad = bad or (x, kw_.get("p"))
        if bad:
            x, got = bad
            if got is None or got.op in ("const", "param", "ext") or other_norm(got, p):
                c.bad(f"{t}:{meth}:minkowski_p", w, f"a neighbour search uses the norm {show(got, 2) if got is not None else '2 (default)'} instead of the given one: {show(x, 4)[:150]}")
            else:
                c.und(f"{t}:{meth}:minkowski_p", show(got, 4)[:150], w)
        elif n:
            c.ok(f"{t}:{meth}:norm of {n} searches")


def handed(c, s, q, t, gs, given, w):
    """entropies of a composite measure get the settings they know, unchanged"""
    for meth, g in gs.items():
        seen = set()
        for h in walk(g):
            if h.op != "H":
                continue
            cl = h.args[1]
            kw_ = dict(h.args[3])
            names = init_params(s.I, s.cls(cl if isinstance(cl, str) else cl.args[0]), s.st)
            for k, x in given.items():
                if k in ("seed", "noise_level", "normalize") or k in HIST or k in ("prop_time", "offset", "step_size") or k not in names:
                    continue
                key = f"{t}:{meth}:{k} of the entropies"
                if k in kw_ and kw_[k] is x:
                    if key not in seen:
                        c.ok(key)
                        seen.add(key)
                elif k in kw_:
                    c.bad(key, w, f"an entropy is calculated with {k}={show(kw_[k], 3)} instead of the given value: {show(h, 3)[:150]}")
                    break
                elif k == "step_size" or k == "stable":
                    pass
                else:
                    c.bad(key, w, f"the setting {k!r} does not reach an entropy: {show(h, 3)[:150]}")
                    break


def exempt(m, q, k, v, meth):
    """documented: a warning threshold; the history of a condition that is not there"""
    return k == "undersampled" or k == "cond_hist_len" and m == "te"


@rule("P03", floor=300,
      rule="influence analysis: with every accepted setting symbolic, the value graphs of global_val() and local_vals() depend on it (settings with finitely many values: the graphs differ), and entropies inside composite measures receive the settings they know with the identical term",
      explain="value graphs of every registered class with all constructor settings symbolic")
def p03(tier):
    return [(f"P03 {m}/{a} {v}", p03_job, (m, a, q, v)) for m, a, q, v in cases(tier)]
