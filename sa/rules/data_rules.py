"""P22 discrete data sets: fields, validation, and estimators made from them."""
from __future__ import annotations
from .util import *
from .. import val
from ..val import Ev, NoAnswer

MOD = "infomeasure.utils.data"
FIELDS = ("uniq", "counts", "N", "K", "data", "probabilities", "distribution_dict")
FLOATS = [[0.5, 1.5, 0.5, 2.25, 0.5], [1 + i * 2.0 ** -40 for i in (0, 3, 0, 5, 5, 9)], [i * 2.0 ** -60 for i in (4, 4, 1, 7)], [-2.0 ** 70, 2.0 ** 70, 3.5, 3.5]]
SAMPLES = [[3, 1, 3, 7, 3], [2, 2], [5], [0, -4, 0, 9, 9, 9, -4], [1, 2, 3, 4]]
EVERR = (NoAnswer, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, KeyError)


def env_data(v):
    return {P("x"): v, P("N"): len(v)}


def env_counts(u, k, d=None):
    e = {P("u"): u, P("k"): k, P("n"): len(u), P("m"): len(k)}
    if d is not None:
        e.update({P("x"): d, P("N"): len(d)})
    return e


def table(v):
    u = sorted(set(v))
    return u, [v.count(x) for x in u]


VALID_COUNTS = [([4, 7], [2, 3]), ([1], [1]), ([5, 6, 9], [1, 0, 4]), ([3, 1], [7, 2])]
BAD_COUNTS = {"fewer counts than values": ([1, 2, 3], [4, 5]), "more counts than values": ([1, 2], [4, 5, 6]), "a negative count": ([1, 2, 3], [4, -1, 2]),
              "a negative first count": ([1, 2], [-2, 5]), "a negative last count": ([1, 2, 3], [3, 4, -1]), "only zero counts": ([1, 2], [0, 0])}
BAD_DATA = {"counts that do not sum to the number of data": ([1, 2], [2, 2], [1, 2, 2]), "fewer counts than data": ([1, 2], [1, 1], [1, 2, 2])}


def data_set(s, how, dt="int"):
    """(object, exits)"""
    D = s.pub("DiscreteData", MOD)
    if how == "from_data":
        return s.call(s.I.getattr(D, "from_data", s.st), s.arr("x", dtype=dt))
    u, k = s.arr("u", length=P("n")), s.arr("k", length=P("m"), dtype="int")
    s.facts.declare(P("n"), kind="int", lower=1)
    s.facts.declare(P("m"), kind="int", lower=1)
    if how == "from_counts":
        return s.call(s.I.getattr(D, "from_counts", s.st), u, k)
    x = s.arr("x", dtype=dt)
    return s.new(D, uniq=u, counts=k, data=x)


def expected(s, how, obj=None):
    x, u, k = P("x"), P("u"), P("k")
    if how == "from_data":
        uq = mk("call", "numpy.unique", (x,), (("return_counts", TRUE),))
        u, k, n = mk("index", uq, const(0)), mk("index", uq, const(1)), E.length(s.I, x)
        d = x
    elif how == "from_counts":
        n, d = E.np_reduce(s.I, "numpy.sum", k, ()), NONE
    else:
        n, d = P("N"), x
    p = div(k, n)
    return dict(uniq=u, counts=k, N=n, K=mk("len", u), data=d, probabilities=p,
                distribution_dict=mk("call", "builtins.dict", (mk("zip", u, p),), ()))


def drop_int(t):
    return transform(t, lambda x: x.args[1][0] if callee(x) == "builtins.int" and len(x.args[1]) == 1 else x)


def p22_fields(c, how, dt="int"):
    s = Session(project())
    o, ex = data_set(s, how, dt)
    S = SAMPLES if dt == "int" else FLOATS
    note_session(s)
    if o is None:
        raise Anchor(f"DiscreteData {how} never returns")
    w = f"{project().modules[MOD].path} DiscreteData.{how}" if hasattr(project().modules[MOD], "path") else f"{MOD} DiscreteData.{how}"
    if how == "from_data":
        envs = [env_data(v) for v in S]
    elif how == "from_counts":
        envs = [env_counts(*v) for v in VALID_COUNTS]
    else:
        envs = [env_counts(*table(v), v) for v in S]
    for f, e in expected(s, how).items():
        key = f"{how}: {f}" + (f" of {dt} values" if dt != "int" else "")
        v, ex = s.attempt(lambda: s.frz(s.I.getattr(o, f, s.st)))
        if v is None:
            c.bad(key, w, f"{f} cannot be read")
            continue
        g = strip_copies(v, s.facts)
        if g is e or same(renorm(s, drop_int(g)), renorm(s, drop_int(e))):
            c.ok(key, show(g, 4)[:100])
            continue
        try:
            d = val.separate(g, e, envs)
        except NoAnswer as err:
            c.und(key, f"{err}: {show(g, 5)[:150]}", w)
            continue
        if d is None:
            c.ok(key, f"equal at all valuations: {show(g, 4)[:100]}") if f in ("K", "N") else c.und(key, show(g, 5)[:150], w)
        else:
            c.bad(key, w, f"{f} is {show(g, 5)[:120]}: {d[1]} instead of {d[2]} for {val_env(d[0])}")


def val_env(env):
    return ", ".join(f"{show(k, 1)}={v}" for k, v in env.items() if isinstance(v, list))


def taken(exits, env, names=("ValueError",)):
    """is one of the exits taken at this valuation: True / False / None when a guard cannot be read"""
    unk = False
    for x in exits:
        if str(exc_name(x.exc)) not in names:
            continue
        r = True
        for g in x.guard:
            try:
                r = bool(Ev(env)(g))
            except EVERR:
                r = None
                break
            if not r:
                break
        if r:
            return True
        if r is None:
            unk = True
    return None if unk else False


def p22_guard(c, how):
    s = Session(project())
    o, ex = data_set(s, how)
    note_session(s)
    w = f"{MOD} DiscreteData.{how}"
    if how == "from_data":
        good, bad = {str(v): env_data(v) for v in SAMPLES}, {}
    elif how == "from_counts":
        good = {str(v): env_counts(*v) for v in VALID_COUNTS}
        bad = {k: env_counts(*v) for k, v in BAD_COUNTS.items()}
    else:
        good = {str(v): env_counts(*table(v), v) for v in SAMPLES}
        bad = {k: env_counts(*v, [v[0][0]] * max(sum(v[1]), 1)) for k, v in BAD_COUNTS.items() if k != "only zero counts"}
        bad.update({k: env_counts(*v) for k, v in BAD_DATA.items()})
    names = sorted({str(exc_name(x.exc)) for x in ex})
    for k, e in good.items():
        r = taken(ex, e, names)
        c.put(f"{how} accepts {k}", None if r is None else not r, w, "rejected" if r else "")
    for k, e in bad.items():
        r = taken(ex, e)
        c.put(f"{how} rejects {k}", r, w, "accepted" if r is False else "")


def p22_types(c):
    """settings that the type alone decides"""
    for how, kind in (("from_counts", "float"), ("constructor", "float")):
        s = Session(project())
        D = s.pub("DiscreteData", MOD)
        u, k = s.arr("u", length=P("n")), s.arr("k", length=P("n"), dtype=kind)
        v, ex = s.call(s.I.getattr(D, "from_counts", s.st), u, k) if how == "from_counts" else s.new(D, uniq=u, counts=k)
        note_session(s)
        key = f"{how} rejects {kind} counts"
        ns = sorted({str(exc_name(x.exc)) for x in ex})
        if v is None and "ValueError" in ns:
            c.ok(key)
        elif v is None:
            c.bad(key, f"{MOD} DiscreteData.{how}", f"ends with {ns}")
        else:
            c.bad(key, f"{MOD} DiscreteData.{how}", "accepted: " + show(s.frz(s.I.getattr(v, 'counts', s.st)), 3))
    for key, x in (("empty", "[]"),):
        s = Session(project())
        D = s.pub("DiscreteData", MOD)
        a = s.arr("x", length=const(0))
        v, ex = s.call(s.I.getattr(D, "from_data", s.st), a)
        note_session(s)
        ns = sorted({str(exc_name(x.exc)) for x in ex})
        c.put(f"from_data rejects {key} data", v is None and "ValueError" in ns, f"{MOD} DiscreteData.from_data", f"accepted or ends with {ns}")
    for f in ("uniq", "counts", "N", "K", "data"):
        for how in ("from_data", "from_counts"):
            s = Session(project())
            o, _ = data_set(s, how)
            if o is None:
                c.na(how)
                continue
            v, ex = s.attempt(lambda: (s.I.setattr(o, f, const(1), s.st, None), TRUE)[1])
            c.put(f"{how}: {f} cannot be assigned", v is None, f"{MOD} DiscreteData", f"{f} can be assigned after construction")


# ---------------------------------------------------------------- estimators from data sets
def discrete_classes():
    for m, a, q in each_class(("entropy",)):
        s = Session(project())
        c = s.cls(q)
        f = s.I.class_lookup(c, "from_counts", s.st)
        if f is not None:
            yield m, a, q


def value(sc, how):
    s = sc.session(project())
    args, kws = sc.inputs(s)
    D = s.pub("DiscreteData", MOD)
    if how == "data":
        d, _ = s.call(s.I.getattr(D, "from_data", s.st), args[0])
        o, ex = s.new(s.cls(sc.qual), d, **kws)
    elif how == "counts":
        k = P("K_")
        s.facts.declare(k, kind="int", lower=1)
        o, ex = s.method(s.cls(sc.qual), "from_counts", s.arr("u", length=k), s.arr("k", length=k, dtype="int"), **kws)
    else:
        o, ex = s.new(s.cls(sc.qual), *args, **kws)
    if o is None:
        return s, None, ex
    g, ex = s.method(o, "global_val")
    note_session(s)
    return s, (None if g is None else renorm(s, strip_copies(s.frz(g), s.facts))), ex


def as_counts(s, t):
    """rewrite a graph over the observations x to the table of counts"""
    x = P("x")
    tot = E.np_reduce(s.I, "numpy.sum", P("k"), ())

    def f(y):
        if y.op == "index" and callee(y.args[0]) == "numpy.unique" and y.args[0].args[1] == (x,) and kw(y.args[0], "return_counts") is TRUE and is_num(y.args[1]) and len(y.args[0].args[2]) == 1:
            return (P("u"), P("k"))[cval(y.args[1])]
        if y.op == "len" and y.args[0] is P("u"):
            return P("K_")
        if y is P("N"):
            return tot
        return y
    return renorm(s, transform(t, f))


def two_or_more(s, t):
    """the graph made from observations is that of two or more of them"""
    tot = E.np_reduce(s.I, "numpy.sum", P("k"), ())
    return transform(t, lambda y: FALSE if y.op == "cmp" and y.args[0] == "==" and tot in y.args[1:] and any(is_num(z) and cval(z) < 2 for z in y.args[1:]) else y)


def p22_est(c, m, a, q, v, dt="int"):
    S = SAMPLES if dt == "int" else FLOATS
    sc = Sc(m, a, q, dtype=dt, **v)
    s, raw, _ = value(sc, "raw")
    if raw is None:
        c.na(str(sc))
        return
    w = where_method(s, q, "__init__", "_simple_entropy")
    s1, d, ex = value(sc, "data")
    key = f"{sc}: from a data set"
    if d is None:
        c.bad(key, w, f"ends with {sorted({str(exc_name(x.exc)) for x in ex})}")
    elif same(d, raw):
        c.ok(key)
    else:
        sep(c, key, w, d, raw, [{**env_data(x), **NUMS} for x in S])
    s2, k, ex = value(sc, "counts")
    key = f"{sc}: from counts"
    if k is None and dt != "int":
        c.na(key)       # reported for whole numbers
        return
    if k is None:
        c.bad(key, w, f"the global value ends with {sorted({str(exc_name(x.exc)) for x in ex})}")
        return
    e = as_counts(s2, raw)
    a, b = two_or_more(s2, renorm(s2, drop_int(k))), two_or_more(s2, renorm(s2, drop_int(e)))
    if same(a, b):
        c.ok(key)
    else:
        envs = []
        for x in S:
            u, n = table(x)
            envs.append({P("x"): x, P("N"): len(x), P("u"): u, P("k"): n, P("K_"): len(u), **NUMS})
        sep(c, key, w, a, b, envs)


NUMS = {P("base"): 3.0, P("alpha"): 1.7, P("q"): 1.3, P("K"): 11}


def sep(c, key, w, a, b, envs):
    try:
        r = val.separate(a, b, envs, more=True)
    except NoAnswer as e:
        c.und(key, f"{e}: {show_diff(a, b)}", w)
        return
    if r is None:
        c.und(key, show_diff(a, b), w)
    else:
        c.bad(key, w, f"{r[1]} instead of {r[2]} for {val_env(r[0])}: {show_diff(a, b)}")


@rule("P22", floor=50,
      rule="a discrete data set has uniq/counts of its observations, N = number of observations = sum of counts, K = number of values, probabilities counts/N; inconsistent tables raise ValueError, consistent ones do not; an entropy estimator made from a data set or from counts has the value graph of the one made from the observations",
      explain="value graphs of the fields, guards of the exits evaluated at consistent and inconsistent tables, value graphs of every discrete entropy class made in three ways")
def p22(tier):
    out = []
    for how in ("from_data", "from_counts", "constructor"):
        out.append((f"P22 fields {how}", p22_fields, (how,)))
        if how != "from_counts":
            out.append((f"P22 fields {how} float", p22_fields, (how, "float")))
        out.append((f"P22 validation {how}", p22_guard, (how,)))
    out.append(("P22 types", p22_types, ()))
    for m, a, q in discrete_classes():
        for v in variants(m, a, q):
            out.append((f"P22 {m}/{a} {v}", p22_est, (m, a, q, v)))
            out.append((f"P22 {m}/{a} {v} float", p22_est, (m, a, q, v, "float")))
    return out
