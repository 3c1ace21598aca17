"""P29 every entropy estimator evaluates its documented formula."""
import os
from .util import *
from .. import val, canon

SPEC = "documented"
SPEC_FILE = os.path.join(HERE, "sa", "formulas.py")
XS = [[1, 1, 2, 3, 3, 3, 5, 8], [4, 4, 4, 7, 7, 9], [2, 1, 2, 2, 1, 2, 2], [1, 2, 3, 4, 4], [6, 6, 2, 2, 9, 9, 9, 1, 1, 1, 1],
      [1, 2, 3, 4], [1, 2, 3, 3, 3], [1, 2, 2, 2, 2], [1, 1, 2, 2, 3, 3], [1, 1, 1, 2, 2, 3, 3], [1, 2, 3, 4, 5, 6, 6, 6, 6], [5, 5, 5, 5, 5, 5, 5, 5, 5, 1, 2], [7, 7, 7]]
CX = [[0.5, 1.75, 4.25, 4.5, 7.0, 9.5, 3.125, 2.25], [-1.0, 0.25, 2.0, 2.5, 6.0, 11.0, 7.75]]
CX2 = [[[0.5, 1.0], [1.75, 3.5], [4.25, -1.0], [4.5, 2.25], [7.0, 0.125], [9.5, 6.0], [3.125, 8.5]], [[-1.0, 2.0], [0.25, 0.75], [2.0, 5.5], [2.5, 1.5], [6.0, 4.0], [7.0, -3.0]]]
CXD = [[[(7 * i * i + 3 * j * i + 5 * j + (i * j * j) % 4) % 11 + 0.25 * ((i + j * j) % 3) + 0.0625 * i for j in range(d)] for i in range(7)] for d in (3, 4, 5, 1)]


def spec_session(sc, **kw):
    p = project()
    if SPEC not in p.modules:
        p.add(SPEC, SPEC_FILE)
    return sc.session(p, **kw)


def formula(s, name, *args):
    f = s.I.getattr(s.I.load(SPEC, s.st), name, s.st)
    v, ex = s.call(f, *args)
    if v is None:
        raise Undecided("formula " + name)
    return s.frz(v)


ZERO = const(0)


def degenerate(c, v):
    """fewer directions of non-zero variance than dimensions"""
    return v and contains(c, lambda x: callee(x) in ("numpy.linalg.eig", "numpy.linalg.eigh"))


def approximate(g):
    """a neighbour search with a tolerance"""
    def some(t):
        return any(map(some, t.args[1:])) if t.op == "phi" else is_num(t) and cval(t) != 0
    for x in walk(g):
        if x.op == "mcall" and x.args[0] in ("query", "query_ball_point") and any(k == "eps" and some(v) for k, v in x.args[3]):
            return x
    return None


def agree(c, key, s, g, e, envs, where, note="", skip=degenerate, pos=()):
    """normal forms of the implemented and the documented expression"""
    a, b = strip_copies(g, s.facts), strip_copies(e, s.facts)
    diff = None
    n = 0
    for case, x, y in canon.cases(s, a, b, pos=pos, skip=skip):
        n += 1
        if x is y or same(x, y):
            continue
        diff = case, x, y
        break
    if diff is None:
        if os.environ.get("VERIF_SELFTEST"):
            d = val.explore(g, e, envs)
            if d:
                c.bad(key, where, f"SELFTEST {d}")
                return
        c.ok(key, note or f"{n} case(s): {show(b, 5)[:140]}")
        return
    case, x, y = diff
    when = "".join((" when " if i == 0 else " and ") + ("" if v else "not ") + show(t, 4)[:70] for i, (t, v) in enumerate(case))
    q = approximate(a)
    if q is not None:
        c.bad(key, where, f"the neighbour search need not return the nearest neighbours: {show(q, 4)[:150]}")
        return
    try:
        d = val.separate(g, e, envs, more=True)
    except val.NoAnswer as err:
        c.und(key, f"{err}: {show_diff(x, y)}{when}", where)
        return
    if d is None:
        c.und(key, f"equal at the valuations tried, normal forms differ{when}: " + show_diff(x, y), where)
    else:
        c.bad(key, where, f"the implemented expression is not the documented one: {show_diff(x, y)}{when}")


def sizes(t):
    """parameter terms for the length and width of x"""
    return P("N"), P("d_x")


def envs_for(s, xs, ndim, **ps):
    out = []
    for i, x in enumerate(xs):
        for b in (2.0, 3.0):
            e = {P("x"): x, P("N"): len(x), P("base"): b}
            if ndim == 2:
                e[P("d_x")] = len(x[0])
            for k, v in ps.items():
                e[P(k)] = v[i % len(v)]
            out.append(e)
    return out


def instances(a, q):
    """(options, formula, positional formula arguments, parameter valuations)"""
    n = short(q)
    d = {"Ansb": [({}, "ansb_observed", ()), (dict(K=("sym", dict(lower=1))), "ansb", ("K",))],
         "BayesE": [({"alpha": ("sym", dict(kind="float", lower=0, ne=(0,), notnone=True))}, "bayes_observed", ("alpha",)),
                    (dict(alpha=("sym", dict(kind="float", lower=0, ne=(0,), notnone=True)), K=("sym", dict(kind="int", lower=1, notnone=True))), "bayes", ("alpha", "K")),
                    ({"alpha": "jeffrey"}, "bayes_jeffrey", ()), ({"alpha": "laplace"}, "bayes_laplace", ()),
                    ({"alpha": "sch-grass"}, "bayes_sch_grass", ()), ({"alpha": "min-max"}, "bayes_min_max", ())],
         "Bonachela": [({}, "bonachela", ())], "ChaoShen": [({}, "chao_shen", ())], "ChaoWang": [({}, "chao_wang_jost", ())], "DiscreteE": [({}, "discrete", ())],
         "Grassberger": [({}, "grassberger", ())], "MillerMadow": [({}, "miller_madow", ())], "Shrink": [({}, "shrink", ())], "Zhang": [({}, "zhang", ())]}
    for k, v in d.items():
        if n.startswith(k):
            return "discrete", v
    sym = dict(kind="int", lower=1, notnone=True)
    if n.startswith("Renyi"):
        return "continuous", [({"k": ("sym", sym)}, "renyi", ("k", "alpha")), ({"k": ("sym", sym), "alpha": 1}, "order_one", ("k",))]
    if n.startswith("Tsallis"):
        return "continuous", [({"k": ("sym", sym)}, "tsallis", ("k", "q")), ({"k": ("sym", sym), "q": 1}, "order_one", ("k",))]
    if n.startswith("Kernel"):
        h = ("sym", dict(kind="float", lower=0, ne=(0,), notnone=True))
        return "continuous", [({"kernel": "box", "bandwidth": h}, "kernel_box", ("bandwidth",)), ({"kernel": "gaussian", "bandwidth": h}, "kernel_gaussian", ("bandwidth",))]
    if n.startswith("Kozachenko"):
        o = {"k": ("sym", sym), "noise_level": 0}
        return "continuous", [(o, "metric_max", ("k",)), (dict(o, ksg_id=2), "metric_max_2", ("k",)), (dict(o, minkowski_p=2), "metric_two", ("k",)),
                              (dict(o, minkowski_p=3), "metric_p", ("k", 3))]
    return None, []


PS = dict(bandwidth=(3.0, 1.5, 4.25), alpha=(0.5, 1.5, 2.25), q=(0.5, 2.5, 1.25), K=(9, 12, 10), k=(2, 1, 3))


def p29_job(c, a, q, opts, fname, fargs, ndim, base):
    sc = Sc("entropy", a, q, ndim=ndim, base=base, **opts)
    s = spec_session(sc)
    o, _ = sc.make(s)
    if o is None:
        c.na(str(sc))
        return
    g, ex = s.method(o, "global_val")
    w = where_method(s, q, "_simple_entropy", "_calculate")
    if g is None:
        c.bad(str(sc), w, "no value is returned")
        return
    x = s.args[0]
    kind, _ = instances(a, q)
    if kind == "continuous" and ndim == 1:
        x = mk("call", "numpy.expand_dims", (x, const(1)), ())
        s.facts.declare(x, kind="ndarray", ndim=2, len=P("N"), shape=(P("N"), const(1)), notnone=True)
    b = s.kwargs["base"]
    if base == "e":
        b = mk("ext", "math.e")
    e = formula(s, fname, x, b, *[s.kwargs[p] if isinstance(p, str) and p in s.kwargs else const(p) for p in fargs])
    e = transform(e, lambda y: const(1) if y.op == "call" and y.args[0] == "numpy.log" and y.args[1][0].op == "ext" and y.args[1][0].args[0].endswith(".e") else y)
    note_session(s)
    xs = XS if kind == "discrete" else CX if ndim == 1 else CX2 + CXD
    agree(c, f"{sc}", s, s.frz(g), e, envs_for(s, xs, ndim, **PS), w)


@rule("P29", floor=30,
      rule="the value graph of global_val() has the normal form of the documented formula (in the case without zero distances)",
      explain="documented formulas (sa/formulas.py) and implementation are turned into value graphs by the same abstract interpreter and compared as normal forms; a difference is reported only if a valuation separates the two expressions")
def p29(tier):
    out = []
    for m, a, q in each_class(("entropy",)):
        kind, inst = instances(a, q)
        for opts, fname, fargs in inst:
            for ndim in ((1,) if kind == "discrete" else (1, 2)):
                for base in ("b", "e") if tier == "quick" else ("b", "e", 2, 10):
                    out.append((f"P29 {a} {fname} {opts} {ndim} {base}", p29_job, (a, q, opts, fname, fargs, ndim, base)))
    return out


# ---------------------------------------------------------------- cross-entropies
def cross_instances(a, q):
    n = short(q)
    kind, inst = instances(a, q)
    if n.startswith("BayesE"):
        return kind, [(o, "cross_" + f, fa) for o, f, fa in inst]
    if n.startswith(("DiscreteE", "MillerMadow")):
        return kind, [({}, "cross_" + inst[0][1], ())]
    if kind == "continuous":
        return kind, [(o, "cross_" + f, fa) for o, f, fa in inst]
    if n.startswith("Ordinal"):
        return "symbols", [({}, "cross_discrete", ()), ({"step_size": "sym"}, "cross_discrete", ())]
    return None, []


def no_overlap(c, v):
    return v and c.op == "cmp" and c.args[0] == "==" and contains(c, lambda x: x.op == "common" or x.op == "mcall" and x.args[0] == "intersection") or degenerate(c, v)


def one_dimensional(c, key, s, g, where):
    """KDTree.query with the number k=1 returns one-dimensional arrays, which have no second axis"""
    def bad(g):
        for x in walk(g):
            if x.op == "index" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and x.args[0].op == "index" and x.args[0].args[0].op == "mcall" and x.args[0].args[0].args[0] == "query":
                m = x.args[0].args[0]
                k = dict(m.args[3]).get("k") or (m.args[2][1] if len(m.args[2]) > 1 else const(1))
                if k.op not in ("list", "tuple", "call", "map"):
                    yield x, k
    seen = set()
    for _, k in list(bad(g)):
        if k in seen:
            continue
        seen.add(k)
        lo = canon.Canon(s).lower(k)
        if lo is None or lo > 1:
            continue
        for h in at_one(g, k):
            for x, k1 in bad(h):
                if canon.eqnum(k1, 1):
                    c.bad(key + " k", where, f"for {show(k, 3)}=1 the neighbour query returns one-dimensional arrays, but two axes are indexed: {show(x, 4)[:140]}")
                    return
    c.ok(key + " k", "the k-th neighbour exists for every k from 1")


def at_one(g, k):
    """the graph in the case k = 1 (choices decided by it are made)"""
    v = next((x for x in walk(k) if x.op == "param"), None)
    if v is None or not canon.eqnum(subst(k, {v: const(1)}), 1):
        return [g]
    return [transform(subst(g, {v: const(1)}), lambda y: (y.args[1] if y.args[0] is TRUE else y.args[2]) if y.op == "phi" and y.args[0] in (TRUE, FALSE) else y)]


def p21_job(c, a, q, opts, fname, fargs, ndim, base):
    sc = Sc("entropy", a, q, ndim=ndim, base=base, cross=True, **opts)
    s = spec_session(sc)
    o, _ = sc.make(s)
    if o is None:
        c.na(str(sc))
        return
    g, ex = s.method(o, "global_val")
    w = where_method(s, q, "_cross_entropy", "_calculate")
    if g is None:
        c.bad(str(sc), w, "no value is returned")
        return
    g = s.frz(g)
    xy = list(s.args)
    kind, _ = cross_instances(a, q)
    if kind == "continuous" and ndim == 1:
        for i, n in enumerate(("N", "M")):
            x = mk("call", "numpy.expand_dims", (xy[i], const(1)), ())
            s.facts.declare(x, kind="ndarray", ndim=2, len=P(n), shape=(P(n), const(1)), notnone=True)
            xy[i] = x
    if kind == "symbols":
        seen = list(dict.fromkeys(x.args[1][0] for x in walk(g) if callee(x) == "numpy.unique" and not contains(x.args[1][0], lambda y: callee(y) == "numpy.unique")))
        px, py = s.args
        dx, dy = ([d for d in seen if mentions(d, u) and not mentions(d, v)] for u, v in ((px, py), (py, px)))
        if len(dx) != 1 or len(dy) != 1:
            raise Undecided("symbols of the two series")
        sb = {}
        for i, (d, n) in enumerate(((dx[0], "Nx"), (dy[0], "Ny"))):
            p = P("symbols_" + "xy"[i])
            ln = E.length(s.I, d)
            s.facts.declare(p, kind="ndarray", ndim=1, len=P(n), shape=(P(n),), notnone=True)
            s.facts.declare(P(n), kind="int", lower=1)
            sb[d] = p
            sb[ln] = P(n)
            xy[i] = p
        g = subst(subst(g, {d: p for d, p in sb.items() if p.args[0].startswith("sym")}), {d: p for d, p in sb.items() if not p.args[0].startswith("sym")})
    b = s.kwargs["base"]
    if base == "e":
        b = mk("ext", "math.e")
    e = formula(s, fname, *xy, b, *[s.kwargs[p] if isinstance(p, str) and p in s.kwargs else const(p) for p in fargs])
    e = transform(e, lambda y: const(1) if y.op == "call" and y.args[0] == "numpy.log" and y.args[1][0].op == "ext" and y.args[1][0].args[0].endswith(".e") else y)
    note_session(s)
    if kind == "continuous":
        one_dimensional(c, f"{sc}", s, g, w)
    data = CX if ndim == 1 else CX2 + CXD
    envs = []
    ps = {k: v for k, v in PS.items()}
    for i, x in enumerate(XS if kind != "continuous" else data):
        for y in (XS if kind != "continuous" else data):
            if kind == "continuous" and (len(y) < 6 or ndim == 2 and len(x[0]) != len(y[0])):
                continue
            if kind == "continuous":
                y = [[v + 0.375 * (1 + j) for j, v in enumerate(r)] for r in y] if ndim == 2 else [v + 0.3125 for v in y]
            for bb in (2.0, 3.0):
                env = {P("x"): x, P("N"): len(x), P("y"): y, P("M"): len(y), P("base"): bb, P("symbols_x"): x, P("symbols_y"): y, P("Nx"): len(x), P("Ny"): len(y)}
                if ndim == 2:
                    env[P("d_x")] = env[P("d_y")] = len(x[0])
                for k, v in ps.items():
                    env[P(k)] = v[i % len(v)]
                if kind == "continuous" or set(x) & set(y):
                    envs.append(env)
    agree(c, f"{sc}", s, g, e, envs, w, skip=no_overlap)


ROWS = [([[0, 1], [2, 2], [0, 1], [1, 0], [2, 2], [0, 1]], [[2, 2], [0, 1], [5, 5], [1, 0], [2, 2], [2, 2], [7, 1]], [[1, 0], [1, 0], [2, 2], [9, 9]]),
        ([[3, 1], [3, 1], [1, 1], [4, 2]], [[1, 1], [1, 1], [4, 2], [0, 9], [3, 1]], [[4, 2], [0, 9], [0, 9], [3, 1], [1, 1]]),
        ([[1, 1], [1, 1], [2, 1], [2, 1]], [[2, 1], [2, 1], [2, 1]], [[2, 1], [3, 1], [1, 1], [0, 5]])]


def rows_agree(c, key, w, s1, g1, s2, g2, names, envs):
    """g2, of two-dimensional data sets, is g1 of the series of their rows: equal rows are the same outcome in all data sets

    names: (parameter, its length parameter) of every data set; envs: settings"""
    code = {}
    tested = 0
    for r in ROWS:
        e1, e2 = {}, {}
        for (n, ln), x in zip(names, r):
            e2[P(n)] = x
            e1[P(n)] = [code.setdefault(tuple(v), 3 * len(code) % 17) for v in x]
            for e in (e1, e2):
                e[P(ln)] = len(x)
            e2[P("d_" + n)] = 2
        for more in envs:
            try:
                v1, v2 = val.Ev({**e1, **more})(g1), val.Ev({**e2, **more})(g2)
            except val.NoAnswer:
                continue
            if not isinstance(v1, (int, float)) or not isinstance(v2, (int, float)):
                continue
            tested += 1
            if abs(v1 - v2) > 1e-9 * max(1, abs(v1)):
                c.bad(key, w, f"the same joint observation is not the same outcome in all data sets (for {r[:len(names)]}: {v2:.6g} instead of {v1:.6g})")
                return
    # the labels of every data set are the part that belongs to it of one enumeration of the rows of all
    t2 = strip_copies(g2, s2.facts)
    sb = {}
    for t in walk(t2):
        if callee(t) == "numpy.unique" and kw(t, "axis") is None and len(t.args[1]) == 1:
            d = t.args[1][0]
            if d.op in ("index",) and contains(d, lambda y: callee(y) == "numpy.unique"):
                sb[d] = None
    for d in list(sb):
        for n, ln in names:
            if all(part(d, n, names, r) for r in ROWS):
                sb[d] = n
    if not sb or None in sb.values():
        c.und(key, f"{tested} valuations agree, labels not recognised: {show(t2, 5)[:160]}", w)
        return
    lens = {E.length(s2.I, d): P(ln) for d, n in sb.items() for m, ln in names if m == n}
    t2 = subst(subst(t2, {d: P(n) for d, n in sb.items()}), {k: v for k, v in lens.items() if k is not v})
    ln = dict(names)
    t2 = transform(t2, lambda y: P(ln[y.args[0].args[0]]) if y.op == "len" and y.args[0].op == "param" and y.args[0].args[0] in ln else y)
    # two or more observations
    one = {mk("cmp", "==", *u) for l in ln.values() for u in ((const(1), P(l)), (P(l), const(1)))}
    t2 = transform(t2, lambda y: y.args[2] if y.op == "phi" and y.args[0] in one else y)
    a, b = renorm(s1, t2), strip_copies(g1, s1.facts)
    if same(a, b):
        c.ok(key, "one enumeration of the rows of all data sets: " + show(next(iter(sb)), 5)[:120])
    else:
        c.und(key, show_diff(a, b), w)


def part(d, n, names, r):
    """d labels the rows of data set n, by one enumeration of the rows of all of them"""
    e = {}
    for (m, ln), x in zip(names, r):
        e[P(m)], e[P(ln)], e[P("d_" + m)] = x, len(x), 2
    allrows = [tuple(v) for x in r[:len(names)] for v in x]
    order = sorted(set(allrows))
    mine = r[[m for m, _ in names].index(n)]
    try:
        v = val.Ev(e)(d)
    except val.NoAnswer:
        return False
    return list(v) == [order.index(tuple(x)) for x in mine]


def rows_job(c, a, q, opts):
    """discrete cross-entropy of two-dimensional data"""
    r = []
    for nd in (1, 2):
        sc = Sc("entropy", a, q, ndim=nd, base="b", cross=True, **opts)
        s = spec_session(sc)
        o, _ = sc.make(s)
        g = None
        if o is not None:
            g, ex = s.method(o, "global_val")
        r.append((s, None if g is None else s.frz(g)))
        note_session(s)
    (s1, g1), (s2, g2) = r
    key = f"{Sc('entropy', a, q, cross=True, **opts)}: equal rows of two-dimensional data"
    if g1 is None or g2 is None:
        c.na(key, "not offered for two-dimensional data")
        return
    envs = [{P("base"): 3.0, **{P(k): v[i] for k, v in PS.items()}} for i in range(2)]
    rows_agree(c, key, where_method(s2, q, "_reduce_space", "_cross_entropy"), s1, g1, s2, g2, [("x", "N"), ("y", "M")], envs)


@rule("P21", floor=20,
      rule="the value graph of global_val() for two data sets has the normal form of the documented cross-entropy formula",
      explain="documented cross-entropy formulas (sa/formulas.py) and implementation are turned into value graphs by the same abstract interpreter and compared as normal forms; neighbour queries are checked to have a k-th column for every admissible k",
      assume=["non-zero distances and densities", "common support not empty"])
def p21(tier):
    out = []
    for m, a, q in each_class(("entropy",)):
        kind, inst = cross_instances(a, q)
        for opts, fname, fargs in inst:
            if kind not in ("continuous", "symbols"):
                out.append((f"P21 {a} {fname} {opts} rows", rows_job, (a, q, opts)))
            for ndim in ((1, 2) if kind == "continuous" else (1,)):
                for base in ("b", "e") if tier == "quick" else ("b", "e", 2, 10):
                    out.append((f"P21 {a} {fname} {opts} {ndim} {base}", p21_job, (a, q, opts, fname, fargs, ndim, base)))
    return out
