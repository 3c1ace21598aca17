"""P13 mismatched lengths are rejected at construction; P14 invalid settings and unsupported requests fail loudly."""
from __future__ import annotations
from .util import *
from ..drive import init_params


def outcome(sc, stage, change=None, lens=None):
    """(value, object, exits) of constructing and, for later stages, asking"""
    s = sc.session(project(), opaque=False)
    args, kws = sc.inputs(s)
    if change:
        args, kws = change(s, list(args), dict(kws))
    o, ex = s.new(s.cls(sc.qual), *args, **kws)
    ex = list(ex)
    v = o
    if o is not None and stage != "new":
        name, more = (stage, {}) if isinstance(stage, str) else stage
        v, ex2 = s.method(o, name, **more)
        ex += ex2
    note_session(s)
    return s, v, o, ex


def reject(c, key, sc, stage, change, want, base=None):
    """the request must end in one of the exceptions `want` on every path.

    A surviving path is a violation only if no exit was added with respect to the same request with admissible values
    (otherwise a guard exists whose condition the analysis could not decide)."""
    s, v, o, ex = outcome(sc, stage, change)
    names = sorted({str(exc_name(x.exc)) for x in ex})
    w = where_method(s, sc.qual, "__init__" if stage == "new" else "_calculate", "__init__")
    if v is None:
        if any(n in want for n in names):
            c.ok(key, str(names))
        elif not names:
            c.und(key, "no exit", w)
        else:
            c.bad(key, w, f"ends with {names} instead of {'/'.join(want)}")
        return
    if base is None:
        base = sc
    s0, v0, o0, ex0 = outcome(base, stage)
    known = {(x.where, str(exc_name(x.exc))) for x in ex0}
    added = [x for x in ex if (x.where, str(exc_name(x.exc))) not in known and str(exc_name(x.exc)) in want]
    if added:
        c.und(key, f"guard at {added[0].where} not decided", w)
    else:
        c.bad(key, w, f"accepted: {show(s.frz(v), 3)[:120]}" if stage != "new" else "accepted")


# ---------------------------------------------------------------- P13
def names_of(sc, s):
    args, kws = sc.inputs(s)
    if sc.o.get("joint"):
        args = list(args[0].args)
    ns = [a.args[0] for a in args]
    if "cond" in kws:
        ns.append("z")
    return ns


def p13_job(c, m, a, q, o):
    if outcome(Sc(m, a, q, **o), "new")[1] is None:
        c.na(str(Sc(m, a, q, **o)), "setting not offered")
        return
    ns = names_of(Sc(m, a, q, **o), Session(project()))
    n, d = P("N"), P("D")
    for i, odd in enumerate(ns):
        if len(ns) > 4 and i < 3:
            continue
        for kind in ("longer", "shorter"):
            lens = {x: (add(n, d) if (x == odd) == (kind == "longer") else n) for x in ns}
            sc = Sc(m, a, q, **dict(o, lens=lens))
            key = f"{Sc(m, a, q, **o)}: {odd} {kind}"

            def change(s, args, kws):
                s.facts.declare(n, kind="int", lower=50)
                s.facts.declare(d, kind="int", lower=1)
                return args, kws
            reject(c, key, sc, "new", change, ("ValueError",), Sc(m, a, q, **o))


@rule("P13", floor=150,
      rule="constructing a measure of several variables where any one of them is longer or shorter than the others ends in ValueError on every path",
      explain="exits of the constructors of every MI/CMI/TE/CTE class and of joint entropies by abstract interpretation, with symbolic lengths N and N + D, D >= 1, the odd one at every position")
def p13(tier):
    out = []
    for m, a, q in each_class():
        base = [dict(**v) for v in (variants(m, a, q) if tier == "thorough" else variants(m, a, q)[:1])]
        opts = []
        for v in base:
            if m == "entropy":
                opts += [dict(v, joint=k) for k in ((2, 3, 5) if tier == "quick" else (2, 3, 4, 5))]
            elif m in ("mi", "cmi"):
                opts += [dict(v, nvars=k) for k in ((2, 3, 5) if tier == "quick" else (2, 3, 4, 5))]
                ps = init_params_of(m, a, q)
                if "offset" in ps and m == "mi":
                    opts.append(dict(v, offset="sym"))
                if "normalize" in ps:
                    opts.append(dict(v, normalize=True))
                opts.append(dict(v, lists=True))
            else:
                opts += [dict(v), dict(v, lists=True)]
                if m == "te":
                    opts.append(dict(v, prop_time="sym"))
        for o in opts:
            out.append((f"P13 {Sc(m, a, q, **o)}", p13_job, (m, a, q, o)))
    return out


_params = {}


def init_params_of(m, a, q):
    if q not in _params:
        s = Session(project())
        _params[q] = init_params(s.I, s.cls(q), s.st)
    return _params[q]


def offers(m, a, q, **o):
    """does the class accept the setting (some classes fix it)"""
    k = (q,) + tuple(sorted(o.items()))
    if k not in _params:
        _params[k] = outcome(Sc(m, a, q, **dict(variants(m, a, q)[0], **o)), "new")[1] is not None
    return _params[k]


# ---------------------------------------------------------------- P14
def setting(**kv):
    def change(s, args, kws):
        kws.update({k: v if isinstance(v, T) else const(v) for k, v in kv.items()})
        return args, kws
    return change


VE = ("ValueError",)


def p14_cases(m, a, q, tier):
    """(label, scenario options, stage, change, exceptions) documented for this class"""
    ps = init_params_of(m, a, q)
    n = short(q)
    out = []

    def add_(label, stage, change, want=VE, **o):
        out.append((label, o, stage, change, want))
    ren = is_(n, "renyi") or is_(n, "tsallis")
    if ren or is_(n, "kozachenko"):
        for v in (0, -1, 2.5):
            add_(f"k={v}", "new", setting(k=v))
    if ren:
        for v in (0, -1, -0.5, "text"):
            add_(f"order={v}", "new", setting(**{"alpha" if "alpha" in ps else "q": v}))
    if is_(n, "kozachenko"):
        add_("noise_level=-1", "new", setting(noise_level=-1))
        add_("minkowski_p=0.5", "new", setting(minkowski_p=0.5))
    if "ksg_id" in ps:
        for v in (0, 3):
            add_(f"ksg_id={v}", "new", setting(ksg_id=v))
    if is_(n, "kernel"):
        add_("kernel=other", "global_val", setting(kernel="triangle"))
        for kern in ("box", "gaussian"):
            for v in (0, -1, "wide"):
                add_(f"{kern} bandwidth={v}", "global_val", setting(bandwidth=v), kernel=kern)
    if is_(n, "ordinal"):
        for v in (-1, 2.5):
            add_(f"embedding_dim={v}", "new", setting(embedding_dim=v))
        st = "new" if m in ("entropy", "mi", "cmi") else "global_val"
        for v in (0,) + ((-1, 1.5) if st == "new" else ()):
            add_(f"step_size={v}", st, setting(step_size=v))
        five = {x: const(6) for x in "xyz"}
        add_("series shorter than a pattern", "new", setting(embedding_dim=4, step_size=2), lens=five)
        if m == "entropy":
            add_("joint series shorter than a pattern", "new", setting(embedding_dim=4, step_size=2), lens=five, joint=2)
        for x in ("x",) if m == "entropy" else ("x", "y") if m in ("mi", "te") else ("x", "y", "z"):
            add_(f"two-dimensional {x}", "new", None, ("TypeError",), ndim={x: 2})
    if is_(n, "bayes"):
        for v in ("other", NONE):
            add_(f"alpha={v if isinstance(v, str) else None}", "global_val", setting(alpha=v))
    if m == "entropy":
        add_("no data", "new", lambda s, a, k: ([], k))
        add_("three data sets", "new", lambda s, a, k: ([s.arr("x"), s.arr("y"), s.arr("w")], k))
        add_("text as data", "new", lambda s, a, k: ([const("abc")], k))
        add_("a number as data", "new", lambda s, a, k: ([const(3)], k))
        add_("joint data in cross-entropy", "new", lambda s, a, k: ([mk("tuple", s.arr("x"), s.arr("y")), s.arr("w")], k))
        add_("text in joint data", "new", lambda s, a, k: ([mk("tuple", s.arr("x"), const("abc"))], k))
    if m == "mi":
        add_("one variable", "new", lambda s, a, k: (a[:1], k))
        if "offset" in ps:
            add_("offset with three variables", "new", setting(offset=1), nvars=3)
    if m == "cmi":
        add_("one variable", "new", lambda s, a, k: (a[:1], k))
        add_("no condition", "new", lambda s, a, k: (a, dict(k, cond=NONE)))
        add_("offset", "new", setting(offset=1))
    if m in ("mi", "cmi") and "normalize" in ps and offers(m, a, q, normalize=True):
        for x in ("x", "y") + (("z",) if m == "cmi" else ()):
            add_(f"normalising two-dimensional {x}", "new", setting(normalize=True), ndim={x: 2})
        add_("normalising a two-dimensional third variable", "new", setting(normalize=True), ndim={"w": 2}, nvars=3)
    if m == "te":
        add_("prop_time=1.5", "new", setting(prop_time=1.5))
        add_("prop_time and offset", "new", setting(prop_time=1, offset=1))
    if m == "cte":
        add_("prop_time=1", "new", setting(prop_time=1))
        add_("offset=1", "new", setting(offset=1))
        add_("no condition", "new", lambda s, a, k: (a, dict(k, cond=NONE)))
    if m in ("te", "cte"):
        for h in ("src_hist_len", "dest_hist_len", "step_size") + (("cond_hist_len",) if m == "cte" else ()):
            if h in ps and not (h == "step_size" and is_(n, "ordinal")):
                for v in (0, -1, 1.5):
                    add_(f"{h}={v}", "global_val", setting(**{h: v}))
        seven = {x: const(7) for x in "xyz"}
        for h in ("src_hist_len", "dest_hist_len") + (("cond_hist_len",) if m == "cte" else ()):
            fix = {k: const(1) for k in ("src_hist_len", "dest_hist_len", "cond_hist_len") if k in ps and (k != "cond_hist_len" or m == "cte")}
            fix[h] = const(4)
            fix["step_size"] = const(2)
            if not is_(n, "ordinal"):
                add_(f"{h} longer than the series", "global_val", setting(**fix), lens=seven)
                add_(f"{h} as long as the series", "global_val", setting(**fix), lens={x: const(8) for x in "xyz"})
    # requests without meaning for the estimator
    if m == "entropy" and not is_(n, "ordinal"):
        sup = is_(n, "discrete") or is_(n, "millermadow") or is_(n, "bayes") or is_(n, "kernel") or is_(n, "kozachenko") or ren
        if not sup:
            add_("cross-entropy", "global_val", None, ("TheoreticalInconsistencyError",), cross=True)
        else:
            add_("local values of the cross-entropy", "local_vals", None, ("UnsupportedOperation",), cross=True)
    if m == "entropy" and any(is_(n, x) for x in ("ansb", "bonachela", "chaoshen", "chaowangjost", "bayes", "renyi", "tsallis", "nsb")):
        add_("local values", "local_vals", None, ("UnsupportedOperation", "TheoreticalInconsistencyError"))
    if m in ("mi", "cmi", "te", "cte") and (m, a) in (("mi", "discrete"), ("cmi", "discrete"), ("te", "discrete"), ("cte", "discrete"), ("mi", "ksg"), ("te", "ksg"), ("mi", "kernel"), ("cte", "kernel")):
        for meth in ("permutation_test", "bootstrap"):
            for v in (0, -2, 2.5, "ten"):
                add_(f"{meth} with n_tests={v}", ("statistical_test", {"n_tests": const(v), "method": const(meth)}), None)
        add_("an unknown test method", ("statistical_test", {"n_tests": const(5), "method": const("jackknife")}), None)
    if m in ("mi", "cmi"):
        add_("statistical test of three variables", ("statistical_test", {}), None, ("UnsupportedOperation",), nvars=3)
    return out


def p14_job(c, m, a, q, label, o, stage, change, want):
    v = dict(variants(m, a, q)[0])
    v.update(o)
    sc = Sc(m, a, q, **v)
    base = Sc(m, a, q, **{k: x for k, x in v.items() if k not in ("cross", "ndim", "lens", "nvars")})
    reject(c, f"{m}/{a}: {label}", sc, stage, change, want, base)


@rule("P14", floor=300,
      rule="every documented inadmissible setting and every request an estimator does not support ends in the documented exception on every path",
      explain="exits of the constructors and of global_val/local_vals/statistical_test of every class by abstract interpretation with the inadmissible value")
def p14(tier):
    out = []
    for m, a, q in each_class():
        for label, o, stage, change, want in p14_cases(m, a, q, tier):
            out.append((f"P14 {m}/{a} {label}", p14_job, (m, a, q, label, o, stage, change, want)))
    return out
