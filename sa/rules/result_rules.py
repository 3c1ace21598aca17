"""P15 the statistical test result is computed from the observed value and the test values as documented."""
from .util import *
from .. import val


VALS = [dict(T=[0.5, 1.5, 2.0, 3.5], O=1.75, n=4, q=30.0, cl=80.0), dict(T=[2.0, 2.0, 1.0], O=2.0, n=3, q=75.0, cl=95.0),
        dict(T=[1.0, 1.0], O=1.0, n=2, q=50.0, cl=50.0), dict(T=[-1.0, 4.0, 0.25, -3.0, 0.5, 2.5], O=-0.75, n=6, q=2.5, cl=99.0), dict(T=[1.0, 1.0, 1.0], O=0.5, n=3, q=10.0, cl=20.0),
        dict(T=[0.25, 1.0], O=0.5, n=2, q=0.0, cl=99.9), dict(T=[2e-14, 1e-14, 4e-14], O=3e-14, n=3, q=100.0, cl=0.5), dict(T=[3e-17, 1e-17, 4e-17, 8e-17], O=2e-17, n=4, q=99.99, cl=99.99),
        dict(T=[1e7, 3e7, 2e7], O=2.5e7, n=3, q=0.01, cl=97.0), dict(T=[-0.25, -0.5, -0.75, -0.125], O=-0.375, n=4, q=60.0, cl=90.0),
        dict(T=[((i * i * 7 + 3 * i) % 997) / 64 for i in range(1500)], O=12.5, n=1500, q=33.0, cl=68.0), dict(T=[((i * 5) % 113) / 8 for i in range(120)], O=9.0, n=120, q=45.0, cl=10.0)]


def value_stub(I, f, args, kwargs, st):
    """one evaluation of the measure: an unknown number, a new one every time"""
    t = mk("draw", "measure", NONE, st.draws, tuple(I.bvs), (), ())
    st.draws += 1
    I.facts.declare(t, kind="float", ndim=0, notnone=True)
    return t


def observed_stub(I, f, args, kwargs, st):
    t = P("observed")
    I.facts.declare(t, kind="float", ndim=0, notnone=True)
    return t


FIELDS = ("p_value", "t_score", "null_mean", "null_std", "observed_value", "n_tests", "method", "test_values")


def p15_job(c, sc, method, how):
    s = sc.session(project(), opaque=True)
    o, _ = sc.make(s)
    if o is None:
        c.na(str(sc))
        return
    w = where_method(s, sc.qual, "statistical_test")
    key = f"{sc}:{method}:{how}"
    n = s.num("n_tests", kind="int", lower=2)
    s.facts.declare(n, notnone=True)
    other = s.num("n_configured", kind="int", lower=2)
    s.facts.declare(other, notnone=True)
    num, meth = how in ("given", "number given"), how in ("given", "method given")
    cfg = s.pub("Config")
    s.method(cfg, "set", const("statistical_test_n_tests"), other if num else n)
    s.method(cfg, "set", const("statistical_test_method"), const({"bootstrap": "permutation_test"}.get(method, "bootstrap") if meth else method))
    kws = {**(dict(n_tests=n) if num else {}), **(dict(method=const(method)) if meth else {})}
    s.I.stub = {"_calculate": value_stub, "global_val": observed_stub}
    v, ex = s.method(o, "statistical_test", **kws)
    s.I.stub = {}
    note_session(s)
    if v is None:
        c.na(key)
        return
    get = {f: strip_copies(s.frz(s.I.getattr(v, f, s.st)), s.facts) for f in FIELDS}
    tv = get["test_values"]
    m = const(method)
    obs = P("observed")
    for f, e in (("observed_value", obs), ("n_tests", n), ("method", m)):
        g = get[f]
        while callee(g) in ("builtins.float", "builtins.int") and len(g.args[1]) == 1:
            g = g.args[1][0]
        if g is e or is_num(g) and is_num(e) and cval(g) == cval(e):
            c.ok(f"{key}:{f}")
        elif g.op in ("const", "param", "draw", "map", "lin", "mono") or g is NONE:
            c.bad(f"{key}:{f}", w, f"{f} is {show(g, 3)[:100]} instead of {show(e, 2)}")
        else:
            c.und(f"{key}:{f}", show(g, 4)[:200], w)
    ln = E.length(s.I, tv)
    if ln is n or is_num(ln) and is_num(n) and cval(ln) == cval(n):
        c.ok(f"{key}:number of test values")
    elif ln.op in ("const", "param", "lin"):
        c.bad(f"{key}:number of test values", w, f"{show(ln, 3)} test values for n_tests={show(n, 2)}")
    else:
        c.und(f"{key}:number of test values", show(ln, 4)[:200], w)
    # the statistics, over the test values T and the observed value O
    core = tv
    while callee(core) in ("numpy.asarray", "numpy.array") and core.args[1]:
        core = core.args[1][0]
    T_, O_ = P("T"), P("O")
    s.facts.declare(T_, kind="ndarray", ndim=1, len=P("n"), shape=(P("n"),), notnone=True)
    s.facts.declare(P("n"), kind="int", lower=2)
    s.facts.declare(O_, kind="float")
    sub = {tv: T_, core: T_, obs: O_, n: P("n")}
    if core.op == "map":
        sub[mk("len", core)] = P("n")
    mean = E.np_reduce(s.I, "numpy.mean", T_, ())
    std = mk("call", "numpy.std", (T_,), (("ddof", const(1)),))
    expect = {"null_mean": mean, "null_std": std,
              "p_value": E.np_reduce(s.I, "numpy.mean", cmp("<", O_, T_), ()),
              "t_score": phi(cmp("<", const(0), std), div(sub_(O_, mean), std), const(float("nan")))}
    qq, cl = s.num("q_", kind="float", notnone=True), s.num("cl", kind="float", notnone=True)
    pv, _ = s.method(v, "percentile", qq)
    cv, cex = s.method(v, "confidence_interval", cl)
    if pv is not None:
        get["percentile"] = strip_copies(s.frz(pv), s.facts)
        expect["percentile"] = mk("call", "numpy.percentile", (T_, qq), (("method", const("linear")),))
    if cv is not None:
        get["confidence interval"] = strip_copies(s.frz(cv), s.facts)
        half = scale(cl, Fraction(1, 2))
        expect["confidence interval"] = mk("call", "numpy.percentile", (T_, mk("list", sub_(const(50), half), add(const(50), half))), (("method", const("linear")),))
    half = scale(cl, Fraction(1, 2))
    for alt in ("lower", "nearest", "higher"):
        for f, name, a, e in (("percentile", "percentile", qq, qq), ("confidence interval", "confidence_interval", cl, mk("list", sub_(const(50), half), add(const(50), half)))):
            pv, _ = s.method(v, name, a, method=const(alt))
            if pv is not None:
                get[f"{f} with method {alt}"] = strip_copies(s.frz(pv), s.facts)
                expect[f"{f} with method {alt}"] = mk("call", "numpy.percentile", (T_, e), (("method", const(alt)),))
    envs = [{T_: e["T"], O_: e["O"], P("n"): e["n"], qq: e["q"], cl: e["cl"]} for e in VALS]
    for f, e in expect.items():
        g = renorm(s, subst(get[f], sub))
        g = transform(g, lambda x: const(float("nan")) if x.op == "ext" and x.args[0].endswith(".nan") else x)
        if f.startswith(("percentile", "confidence interval")):
            g = transform(g, lambda x: mk("list", *x.args) if x.op == "tuple" else x)
        while callee(g) in ("builtins.float", "numpy.asarray") and len(g.args[1]) == 1:
            g = g.args[1][0]
        if same(g, e) or same_nan(g, e):
            c.ok(f"{key}:{f}", show(g, 5)[:120])
            continue
        try:
            d = val.separate(g, e, envs)
        except val.NoAnswer as err:
            c.und(f"{key}:{f}", f"{err}: " + show(g, 6)[:200], w)
            continue
        if d is None:
            c.und(f"{key}:{f}", "equal at the valuations tried: " + show(g, 6)[:200], w)
        else:
            c.bad(f"{key}:{f}", w, f"{f} is {show(g, 6)[:160]}, documented is {show(e, 6)[:120]} (T test values, O observed)")


def p15_reject(c, sc):
    for what, kws in (("n_tests=0", dict(n_tests=const(0), method=const("bootstrap"))), ("n_tests=-2", dict(n_tests=const(-2), method=const("permutation_test"))),
                      ("n_tests=2.5", dict(n_tests=const(2.5), method=const("permutation_test"))), ("method='unknown'", dict(n_tests=const(5), method=const("unknown")))):
        s = sc.session(project(), opaque=True)
        o, _ = sc.make(s)
        if o is None:
            c.na(str(sc))
            return
        s.I.stub = {"_calculate": value_stub, "global_val": observed_stub}
        v, ex = s.method(o, "statistical_test", **kws)
        if v is None and ex:
            c.ok(f"{sc}:{what} is rejected", exc_name(ex[0].exc))
        elif v is None:
            c.na(f"{sc}:{what}")
        else:
            c.bad(f"{sc}:{what} is rejected", where_method(s, sc.qual, "statistical_test"), f"statistical_test with {what} returns a result instead of failing")
        note_session(s)


def sub_(a, b):
    return add(a, neg(b))


def same_nan(a, b):
    f = lambda t: transform(t, lambda x: mk("param", "nan") if x.op == "const" and isinstance(cval(x), float) and cval(x) != cval(x) else x)
    return same(f(a), f(b))


@rule("P15", floor=200,
      rule="p = mean(T > O); t = (O - mean T) / std(T, ddof=1), nan for a zero deviation; null_mean, null_std, percentiles and the symmetric confidence interval are those of the test values; the other fields repeat the request",
      explain="value graphs of every field of the StatisticalTestResult of every class, with the measure itself an unknown number; both methods, requested and configured settings")
def p15(tier):
    out = []
    for m, a, q in each_class(("mi", "cmi", "te", "cte")):
        v = variants(m, a, q)[0]
        out.append((f"P15 {m}/{a} invalid", p15_reject, (Sc(m, a, q, **v),)))
        for how in ("given", "configured", "number given", "method given"):
            for method in ("permutation_test", "bootstrap"):
                sc = Sc(m, a, q, **v)
                out.append((f"P15 {sc} {method} {how}", p15_job, (sc, method, how)))
    return out
