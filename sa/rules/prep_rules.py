"""P24 normalize=True is normalising by hand; P25 lists and arrays are equivalent; P26 tuples of arrays are their joint array."""
from __future__ import annotations
from .util import *
from .. import val
from ..val import NoAnswer
from .valid_rules import init_params_of, offers
from .data_rules import sep
from .iface_rules import ask, PUBS, EST


def value(sc, change=None, how=("global_val", "local_vals"), opaque=False):
    """{method: value graph or None}, session"""
    s = sc.session(project(), opaque=opaque)
    args, kws = sc.inputs(s)
    if change:
        args, kws = change(s, list(args), dict(kws))
    o, ex = s.new(s.cls(sc.qual), *args, **kws)
    out = {}
    s.why = {}
    for h in how:
        v = None
        if o is not None:
            v, ex = s.method(o, h)
        if v is None:
            s.why[h] = "; ".join(sorted({f"{exc_name(e.exc)} at {e.where}" for e in ex})[:3])
        out[h] = None if v is None else renorm(s, strip_copies(s.frz(v), s.facts))
    note_session(s)
    return s, o, out


def unit(s, t):
    lo, hi = (E.np_reduce(s.I, f"numpy.{m}", t, ()) for m in ("min", "max"))
    return div(add(t, neg(lo)), add(hi, neg(lo)))


XS = {"x": [2.0, 5.0, 1.0, 4.5, 3.25, 0.5], "y": [1.0, 0.25, 7.0, 2.5, 4.0, 3.5], "w": [0.0, 3.0, 1.5, 6.0, 2.75, 5.5], "v": [2.0, 1.0, 9.0, 4.0, 3.0, 7.5], "z": [5.0, 1.0, 2.25, 8.0, 6.5, 3.0]}


def valuation(**more):
    e = {P(k): v for k, v in XS.items()}
    e.update({P("N"): 6, P("k"): 2, P("base"): 3.0, P("minkowski_p"): 3.0, P("bandwidth"): 0.4, P("alpha"): 1.7, P("q"): 1.3, P("offset"): 1, P("K"): 11})
    e.update({P(k): v for k, v in more.items()})
    return e


def p24_job(c, m, a, q, o):
    on = Sc(m, a, q, **dict(o, normalize=True))
    off = Sc(m, a, q, **dict(o, normalize=False))
    w = where_method(Session(project()), q, "__init__")
    s1, o1, v1 = value(on)

    def by_hand(s, args, kws):
        args = [unit(s, x) for x in args]
        if "cond" in kws:
            kws["cond"] = unit(s, kws["cond"])
        return args, kws
    s2, o2, v2 = value(off, by_hand)
    if o1 is None or o2 is None:
        c.na(str(on), "setting not offered")
        return
    for h in v1:
        a_, b = v1[h], v2[h]
        key = f"{on}: {h}"
        if a_ is None or b is None:
            if (a_ is None) != (b is None):
                c.bad(key, w, "available only " + ("without" if a_ is None else "with") + " normalize")
            else:
                c.na(key, "not available")
        elif same(a_, b):
            c.ok(key)
        else:
            sep(c, key, w, a_, b, [valuation()])


@rule("P24", floor=40,
      rule="the value graphs with normalize=True equal those with normalize=False of (v - min v) / (max v - min v) in place of every variable, the condition included",
      explain="global and local value graphs of every class that offers normalize, 2 and 3 variables (4 in the thorough run), no offset")
def p24(tier):
    out = []
    for m, a, q in each_class(("mi", "cmi")):
        if "normalize" not in init_params_of(m, a, q) or not offers(m, a, q, normalize=True):
            continue
        for v in variants(m, a, q):
            for n in (2, 3) if tier == "quick" else (2, 3, 4):
                o = dict(v, nvars=n)
                if init_params_of(m, a, q).get("noise_level") is not None:
                    o["noise_level"] = 0
                out.append((f"P24 {m}/{a} {o}", p24_job, (m, a, q, o)))
    return out


# ---------------------------------------------------------------- P25
def plain(s, t):
    """asarray of a list parameter is the array of its numbers"""
    def f(x):
        if callee(x) in ("numpy.asarray", "numpy.array", "builtins.list", "builtins.tuple") and len(x.args[1]) == 1 and x.args[1][0].op == "param" and not x.args[2]:
            return x.args[1][0]
        return x
    return renorm(s, transform(t, f))


def p25_job(c, m, a, q, o):
    ref = Sc(m, a, q, **dict(o, dtype="float"))
    w = where_method(Session(project()), q, "__init__")
    s0, o0, v0 = value(ref)
    if o0 is None:
        c.na(str(ref), "setting not offered")
        return
    for label, more in (("lists", dict(lists=True)), ("integer arrays", dict(dtype="int")), ("integers in the first variable only", dict(dtype={"x": "int", "y": "float", "w": "float", "v": "float", "z": "float"})),
                        ("integers in all but the first variable", dict(dtype={"x": "float", "y": "int", "w": "int", "v": "int", "z": "int"}))):
        if label == "lists" and (o.get("ndim", 1) != 1):
            continue
        if "first" in label and m == "entropy" and not o.get("joint") and not o.get("cross"):
            continue
        sc = Sc(m, a, q, **dict(o, **more))
        s1, o1, v1 = value(sc)
        for h in v0:
            key = f"{Sc(m, a, q, **o)} {label}: {h}"
            x, y = v1[h], v0[h]
            if x is None and y is None:
                c.na(key, "not available")
            elif x is None or y is None:
                c.bad(key, w, ("not available for " if x is None else "available only for ") + label + ": " + (s1 if x is None else s0).why.get(h, ""))
            elif same(plain(s0, x), plain(s0, y)):
                d = typed(x)
                if d is None:
                    c.ok(key)
                else:
                    c.und(key, f"depends on the element type {d!s:.80}", w)
            else:
                sep(c, key, w, plain(s0, x), plain(s0, y), [valuation()])


def typed(t):
    """a condition on an element type that the graph leaves open"""
    bare = lambda x: bare(x.args[1][0]) if callee(x) == "numpy.copy" or (callee(x) == "astype" and x.args[1][1] is mk("ext", "builtins.float")) else x
    of_type = lambda x: x.op == "attr" and x.args[1] in ("dtype", "kind", "itemsize")
    if not contains(t, of_type):
        return None
    t = transform(t, lambda x: bare(x.args[1]) if x.op == "phi" and bare(x.args[1]) is bare(x.args[2]) else x)
    for x in walk(t):
        if x.op == "phi" and contains(x.args[0], of_type):
            return next(y for y in walk(x.args[0]) if of_type(y))
    return None


def p25_iface(c, m, a, q, o):
    if m not in ("te", "cte"):      # a literal step, as estimator() treats the default specially
        o = dict(o, step_size=3)
    s0, ref, _ = ask(Sc(m, a, q, **dict(o, dtype="float")), ("class", None, None))
    if ref is None:
        c.na(f"{m}/{a}")
        return
    for how in (("pub", PUBS[m][0], a), ("estimator", EST[m][0], a)):
        key = f"{Sc(m, a, q, **o)} lists through {how[0]}({how[1]})"
        s, g, ex = ask(Sc(m, a, q, **dict(o, lists=True)), how)
        w = "infomeasure/estimators/functional.py " + how[1]
        if g is None:
            c.bad(key, w, f"rejected: {sorted({str(exc_name(e.exc)) for e in ex})}")
        elif same(plain(s, g), plain(s0, ref)):
            c.ok(key)
        else:
            sep(c, key, w, plain(s, g), plain(s0, ref), [valuation()])


@rule("P25", floor=100,
      rule="the value graphs for lists of numbers and for integer arrays equal those for float arrays of the same numbers",
      explain="global and local value graphs of every class; element types and containers are typing facts of the inputs, so a branch on them shows as a different graph")
def p25(tier):
    out = []
    for m, a, q in each_class():
        for v in variants(m, a, q):
            opts = [dict(v)]
            if m == "entropy":
                opts += [dict(v, joint=2)]
                opts.append(dict(v, cross=True))
            elif m in ("mi", "cmi"):
                opts += [dict(v, nvars=3)]
            extra = []
            if m in ("mi", "cmi") and offers(m, a, q, normalize=True):
                extra.append(dict(v, normalize=True))
            if m == "mi" and "offset" in init_params_of(m, a, q):
                extra += [dict(v, offset=n) for n in (2, -2)]
            if m == "te":
                extra += [dict(v, prop_time=2), dict(v, src_hist_len=2, dest_hist_len=3, step_size=2)]
            if m == "cte":
                extra.append(dict(v, src_hist_len=2, dest_hist_len=3, cond_hist_len=2, step_size=2))
            for o in extra:
                if "noise_level" in init_params_of(m, a, q):
                    o["noise_level"] = 0
                out.append((f"P25 {m}/{a} {o}", p25_job, (m, a, q, o)))
            if "noise_level" in init_params_of(m, a, q):
                opts += [dict(x, noise_level="sym" if on else 0) for x in opts for on in (True, False)]
            for o in opts:
                out.append((f"P25 {m}/{a} {o}", p25_job, (m, a, q, o)))
                if o.get("noise_level") == 0:
                    continue
                out.append((f"P25 {m}/{a} {o} interfaces", p25_iface, (m, a, q, o)))
    return out


# ---------------------------------------------------------------- P26
def joined(s, t, ns, J):
    """the columns of the joint array put side by side are the joint array"""
    cols = {P(n): i for i, n in enumerate(ns)}

    def f(x):
        if callee(x) == "numpy.concatenate" and kw(x, "axis") in (const(1), const(-1)) and x.args[1][0].op in ("tuple", "list"):
            its = [y.args[1][0] if callee(y) == "numpy.expand_dims" and y.args[1][1] in (const(1), const(-1)) else None for y in x.args[1][0].args]
        elif callee(x) in ("numpy.column_stack", "numpy.stack") and x.args[1][0].op in ("tuple", "list") and (callee(x) == "numpy.column_stack" or kw(x, "axis") in (const(1), const(-1))):
            its = list(x.args[1][0].args)
        else:
            return x
        return J if its == [P(n) for n in ns] else x
    return renorm(s, transform(t, f))


def p26_job(c, m, a, q, o, k, dts=None):
    sc = Sc(m, a, q, **dict(o, joint=k, **({"dtype": dts} if dts else {})))
    w = where_method(Session(project()), q, "_joint_entropy", "__init__")
    ns = joint_names(k)
    J = P("J")
    s1, o1, v1 = value(sc)

    def one(s, args, kws):
        return [s.arr("J", ndim=2, cols=const(k))], kws
    s2, o2, v2 = value(Sc(m, a, q, **o), one)
    s1.arr("J", ndim=2, cols=const(k))
    if o1 is None or o2 is None:
        c.na(str(sc), "not offered")
        return
    rows_ = [list(r) for r in zip(*[XS[n] if n in XS else [((7 + i) * j * j + 5 * i) % 19 / 2 for j in range(6)] for i, n in enumerate(ns)])]
    some = [list(r) for r in zip(*([[1, 2, 1, 2, 1, 1], [3, 3, 4, 3, 3, 4], [0, 0, 1, 0, 1, 1], [7, 7, 7, 7, 8, 7]] + [[i] * 6 for i in range(4, k - 1)])[:k - (k > 4)], *([[1, 1, 2, 2, 1, 2]] if k > 4 else []))]
    if dts:
        whole, frac = [1, 2, 1, 2, 1, 2], [3.25, 3.75, 4.5, 3.25, 3.25, 4.75]
        some = [list(r) for r in zip(*[whole if dts[n] == "int" else frac for n in ns])]
        rows_ = [list(r) for r in zip(*[[2, 5, 1, 4, 3, 0] if dts[n] == "int" else [1.0, 0.25, 7.5, 2.5, 4.75, 3.5] for n in ns])]
    envs = []
    for r in ([rows_] if any(is_(q, y) for y in ("kernel", "kozachenko", "renyi", "tsallis")) else [some]):
        envs.append(valuation(J=r, **{n: [x[i] for x in r] for i, n in enumerate(ns)}))
    for h in v1:
        key = f"{sc}: {h}"
        x, y = v1[h], v2[h]
        if x is None and y is None:
            c.na(key, "not available")
        elif x is None or y is None:
            c.bad(key, w, "available only " + ("for a joint array" if x is None else "for a tuple of arrays"))
        else:
            x = joined(s1, x, ns, J)
            x, y = twin(s1, x), twin(s1, y)
            if same(x, y):
                c.ok(key)
            else:
                sep(c, key, w, x, y, envs)


def twin(s, t):
    return t


@rule("P26", floor=40,
      rule="the value graphs of an entropy of a tuple of one-dimensional arrays equal those of the two-dimensional array with these columns",
      explain="global and local value graphs of every entropy class that accepts two-dimensional data, 2 and 3 columns; columns put side by side are replaced by the array")
def p26(tier):
    out = []
    for m, a, q in each_class(("entropy",)):
        if is_(q, "ordinal"):     # documented: one-dimensional series only
            continue
        for v in variants(m, a, q):
            v = dict(v)
            if "noise_level" in init_params_of(m, a, q):
                v["noise_level"] = 0
            for k in (2, 3, 12) if tier == "quick" else (2, 3, 4, 5, 12, 20):
                out.append((f"P26 {m}/{a} {v} {k}", p26_job, (m, a, q, v, k)))
            for t in ("int", "float"):
                out.append((f"P26 {m}/{a} {v} first {t}", p26_job, (m, a, q, v, 2, {"x": t, "y": "float" if t == "int" else "int"})))
    return out
