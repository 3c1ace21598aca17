"""P23 Kullback-Leibler and Jensen-Shannon divergence."""
from .util import *
from .formula_rules import spec_session, formula, agree, XS, PS, rows_agree
from .. import val, canon

KLD, JSD = "kullback_leiber_divergence", "jensen_shannon_divergence"
MIX = ("Ordinal", "BayesE", "DiscreteE", "Shrink")


def entropies(s, g):
    return [x for x in walk(g) if x.op == "H"]


def settings(s, q, o):
    """(keyword arguments of the call, scenario)"""
    sc = Sc("entropy", "-", q, **o)
    args, kw = sc.inputs(s)
    return args, kw


def where_fn(s, name):
    f = s.pub(name)
    fn = s.I.funcs[f.args[0]] if f is not None and f.op == "func" else None
    fn = fn[0] if isinstance(fn, tuple) else fn
    return fn.where() if hasattr(fn, "where") else name


def kld_job(c, a, q, o, args=()):
    """KLD(P, Q) = H_Q(P) - H(P), both from the requested estimator with the same settings"""
    s = Session(project(), opaque=True)
    (x, y), kw = settings(s, q, dict(o, cross=True))
    key = f"KLD {a} {o or ''}"
    v, ex = s.call(s.pub(KLD), x, y, approach=const(a), **kw)
    w = f"infomeasure/composite_measures/kld.py {KLD}"
    if v is None:
        n = [exc_name(e.exc) for e in ex]
        # an estimator without cross-entropy is rejected, at the latest by its cross-entropy
        c.ok(key, f"rejected: {sorted(set(n))}")
        return
    g = s.frz(v)
    note_session(s)
    want = []
    for data in ((x, y), (x,)):
        o1, _ = s.new(s.cls(q), *data, **kw)
        h, _ = s.method(o1, "global_val")
        if h is None:
            c.ok(key, "the estimator offers no cross-entropy")
            return
        want.append(s.frz(h))
    e = sub(*want)
    if same(g, e):
        c.ok(key, "H_Q(P) - H(P): " + show(g, 3)[:120])
        return
    got = {m: k for m, k in lin_parts(g)}
    if all(m is None or m.op == "H" for m in got):
        c.bad(key, w, f"the divergence is not H_Q(P) - H(P): {show_diff(g, e)}")
    else:
        hs = [x for t in want for x in walk(t) if x.op == "H"]
        try:
            d = val.separate(g, e, [{h: r for h, r in zip(hs, rs)} for rs in ((0.5, 1.25), (1.5, 0.75))])
        except val.NoAnswer:
            d = None
        if d:
            c.bad(key, w, f"the divergence is not H_Q(P) - H(P): {show_diff(g, e)}")
        else:
            c.und(key, show_diff(g, e), w)


def jsd_job(c, a, q, o, n):
    s = spec_session(Sc("entropy", a, q), opaque=False)
    args, kw = settings(s, q, o)
    data = [args[0]]
    for i in range(1, n):
        nm = P("yzwv"[i - 1])
        data.append(s.arr("yzwv"[i - 1], ndim=o.get("ndim", 1), length=P("M" * i)))
    key = f"JSD {a} of {n} {o or ''}"
    w = f"infomeasure/composite_measures/jsd.py {JSD}"
    known = short(q).startswith(MIX)
    kern = short(q).startswith("Kernel")
    if kern:
        s = Session(project(), opaque=True)
        args, kw = settings(s, q, o)
        data = [args[0]] + [s.arr("yzwv"[i - 1], ndim=o.get("ndim", 1), length=P("M" * i)) for i in range(1, n)]
    v, ex = s.call(s.pub(JSD), *data, approach=const(a), **kw)
    note_session(s)
    if not known and not kern:
        # no mixture distribution is defined
        if v is None and ex and all(exc_name(e.exc) == "ValueError" for e in ex if exc_name(e.exc)) and any(exc_name(e.exc) for e in ex):
            c.ok(key, "rejected with ValueError")
        elif v is not None:
            c.bad(key, w, f"a value is returned for an estimator without a mixture distribution: {show(s.frz(v), 3)[:120]}")
        else:
            c.und(key, f"rejected: {sorted({exc_name(e.exc) for e in ex})}", w)
        return
    if v is None:
        c.bad(key, w, f"no value is returned: {sorted({str(exc_name(e.exc)) for e in ex})}")
        return
    g = s.frz(v)
    cls = s.cls(q)

    def H(d):
        ob, _ = s.new(cls, d, **kw)
        h, _ = s.method(ob, "global_val")
        return ob, s.frz(h)
    if kern:
        hs = [H(d)[1] for d in data]
        mixed = [m for m, k in lin_parts(g) if m is not None and m.op == "H" and m not in hs]
        rest = add(g, *[neg(m) for m in mixed])
        e = scale(add(*hs), Fraction(-1, n))
        if len(mixed) == 1 and lin_coef(g, mixed[0]) == 1 and joined(mixed[0].args[2], data) and mixed[0].args[3] == hs[0].args[3]:
            if rest is e:
                c.ok(key, "H(all observations) - mean of H")
            else:
                c.bad(key, w, f"the divergence is not H(mixture) minus the mean entropy: {show_diff(rest, e)}")
        elif all(m is None or m.op == "H" for m, _ in lin_parts(g)):
            c.bad(key, w, f"the divergence is not H(mixture) minus the mean entropy: {show(g, 5)[:200]}")
        else:
            c.und(key, show(g, 5)[:200], w)
        return
    obs = [H(d) for d in data]
    dists = []
    for ob, _ in obs:
        d = s.I.getattr(ob, "dist_dict", s.st)
        dists.append(d)
    e = formula(s, "jsd", s.tup(dists) if hasattr(s, "tup") else mk("tuple", *dists), mk("tuple", *[h for _, h in obs]), kw["base"])
    agree(c, key, s, g, e, jsd_envs(q, n), w)


def jsd_rows(c, a, q, o, n):
    """Jensen-Shannon divergence of two-dimensional discrete data: joint observations are the outcomes"""
    r = []
    names = [("x", "N"), ("y", "M"), ("z", "MM")][:n]
    for nd in (1, 2):
        s = spec_session(Sc("entropy", a, q), opaque=False)
        args, kw = settings(s, q, dict(o, ndim=nd))
        data = [args[0]] + [s.arr(m, ndim=nd, length=P(l)) for m, l in names[1:]]
        v, ex = s.call(s.pub(JSD), *data, approach=const(a), **kw)
        note_session(s)
        r.append((s, None if v is None else s.frz(v)))
    (s1, g1), (s2, g2) = r
    key = f"JSD {a} of {n} {o or ''}: equal rows of two-dimensional data"
    if g1 is None or g2 is None:
        c.na(key, "not offered for two-dimensional data")
        return
    rows_agree(c, key, f"infomeasure/composite_measures/jsd.py {JSD}", s1, g1, s2, g2, names, [{P("base"): 3.0, P("alpha"): 0.5}])


SERIES = [[0.5, 1.75, 4.25, 4.5, 7.0, 9.5, 3.125, 2.25, 6.5, 8.0, 5.0], [-1.0, 0.25, 2.0, 2.5, 6.0, 11.0, 7.75, 1.0, 12.5, -3.0],
          [3.0, 1.0, 2.0, 9.0, 4.0, 8.0, 7.0, 0.0, 6.0, 5.0, 11.0, 10.0], [5.0, 4.0, 3.5, 3.0, 8.0, 7.0, 6.0, 1.0, 9.0, 2.0]]


def jsd_envs(q, n):
    src = SERIES if short(q).startswith("Ordinal") else XS[:4]
    out = []
    for r in range(len(src)):
        for b in (2.0, 3.0):
            env = {P("base"): b, P("step_size"): 2, P("embedding_dim"): 3, P("alpha"): 0.5}
            for i in range(n):
                d = src[(r + i) % len(src)]
                env[P("xyzwv"[i])] = d
                env[P("M" * i) if i else P("N")] = len(d)
            out.append(env)
    return out


def joined(args, data):
    """all observations one after the other, in any order"""
    if len(args) != 1 or callee(args[0]) not in ("numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.append"):
        return False
    xs = args[0].args[1]
    if len(xs) == 1 and xs[0].op in ("tuple", "list"):
        xs = xs[0].args
    return sorted(x.args[0] if x.op == "param" else "" for x in xs[:len(data)]) == sorted(d.args[0] for d in data) and len(xs) >= len(data)


def lin_coef(g, m):
    for k, c in lin_parts(g):
        if k is m:
            return c
    return 0


# ---------------------------------------------------------------- labels of ordinal patterns
def offset(s, t):
    """x[i + a] for the i-th window: a"""
    if t.op == "index" and t.args[1].op == "slice" and t.args[0] is P("x"):
        a = t.args[1].args[0]
        st = t.args[1].args[2]
        if st is NONE or st is ONE:
            return 0 if a is NONE else cval(a) if is_num(a) else None
    return None


def orders(s, t, rank):
    """truth of the comparison of two observations of every window, for windows ordered like rank"""
    if t.op == "not":
        r = orders(s, t.args[0], rank)
        return None if r is None else not r
    if t.op == "call" and t.args[0] in ("invert", "numpy.logical_not"):
        r = orders(s, t.args[1][0], rank)
        return None if r is None else not r
    if t.op != "cmp" or t.args[0] not in ("<", "<=") :
        return None
    a, b = offset(s, t.args[1]), offset(s, t.args[2])
    if a is None or b is None or max(a, b) >= len(rank) or min(a, b) < 0:
        return None
    return rank[a] < rank[b]


def label_job(c, a, q, dim):
    """the shortcuts name every strict order of a window by its argsort"""
    import itertools
    s = Session(project())
    x = s.arr("x")
    o, _ = s.new(s.cls(q), x, embedding_dim=const(dim), step_size=const(1), stable=const(False), base=const(2))
    s.method(o, "global_val")
    d = s.frz(s.I.getattr(o, "dist_dict", s.st))
    note_session(s)
    w = where_method(s, q, "_simple_entropy")
    key = f"pattern labels, embedding dimension {dim}"
    # leave out the single window
    d = subst(d, {x: FALSE for x in walk(d) if x.op == "cmp" and x.args[0] == "==" and not contains(x, lambda y: y.op in ("bv", "index", "call")) and mentions(x, P("N"))})
    for rank in itertools.permutations(range(dim)):
        want = tuple(sorted(range(dim), key=rank.__getitem__))
        k2 = f"{key}, values ordered like {rank}"
        got = label(s, d, rank)
        mixed = label(s, d, rank, mixed=True)
        if got is not None and mixed is not None and mixed != got:
            got = mixed if got == want else got
        if got is None:
            c.und(k2, show(d, 5)[:160], w)
        elif got == want:
            c.ok(k2, str(want))
        else:
            c.bad(k2, w, f"windows whose values are ordered like {rank} are recorded under {got}, not under their order {want}")


def label(s, d, rank, mixed=False):
    if d.op == "call" and d.args[0] == "builtins.dict" and d.args[1] and contains(d, lambda y: (callee(y) or "").endswith("argsort") or y.op == "ext" and y.args[0].endswith("argsort")):
        return tuple(sorted(range(len(rank)), key=rank.__getitem__)) if not contains(d, lambda y: callee(y) == "numpy.flip") else None
    # all windows ordered like rank: counts are all or nothing
    cmps = [t for t in walk(d) if t.op == "cmp" and t.args[0] in ("<", "<=") and offset(s, t.args[1]) is not None]
    sums = {}
    for t in walk(d):
        if callee(t) in ("numpy.sum", "numpy.mean", "numpy.count_nonzero", "builtins.sum") and len(t.args[1]) == 1 and not t.args[2]:
            v = orders(s, t.args[1][0], rank)
            if v is not None:
                sums[t] = const(int(v)) if t.args[0] == "numpy.mean" else scale(sub(P("N"), const(len(rank) - 1)), int(v))
    if d.op == "dict" or d.op == "phi":
        if mixed:
            # the expressions used when the series has more than one kind of window
            d = subst(d, {x: FALSE for x in walk(d) if x.op == "cmp" and x.args[0] == "==" and any(mentions(x, y) for y in sums)})
            d = transform(d, lambda y: simple(s, y))
        d = subst(d, sums)
        d = transform(d, lambda y: simple(s, y))
        if d.op == "dict":
            full = [k for k, v in d.args[0] if v is not ZERO and not (v.op == "absent")]
            if len(full) == 1 and full[0].op == "tuple" and all(is_num(y) for y in full[0].args):
                return tuple(int(cval(y)) for y in full[0].args)
        return None
    if d.op == "dmap" and d.args[0].op == "dict" and not d.args[0].args[0]:
        k = d.args[2]
        src = {y for y in walk(k) if y.op == "elem"}
        if len(src) != 1:
            return None
        e = src.pop()
        ct = e.args[0].args[0] if e.args[0].op == "keys" else e.args[0]
        if callee(ct) != "collections.Counter" or ct.args[1][0].op != "zip":
            return None
        vals = [orders(s, y, rank) for y in ct.args[1][0].args]
        if None in vals:
            return None
        k = subst(k, {e: mk("tuple", *[const(v) for v in vals])})
        k = transform(k, lambda y: simple(s, y))
        if k.op == "tuple" and all(is_num(y) for y in k.args):
            return tuple(int(cval(y)) for y in k.args)
    return None


ZERO = const(0)


def simple(s, y):
    if y.op == "cmp" and y.args[0] == "==" and all(z.op in ("tuple", "const") for z in y.args[1:]):
        return const(y.args[1] is y.args[2])
    if y.op == "phi":
        c = y.args[0]
        if c.op == "cmp" and is_num(c.args[1]) and is_num(c.args[2]):
            u, v = cval(c.args[1]), cval(c.args[2])
            c = const({"==": u == v, "!=": u != v, "<": u < v, "<=": u <= v}[c.args[0]])
        if c is TRUE:
            return y.args[1]
        if c is FALSE:
            return y.args[2]
    return y


def window_job(c, a, q):
    """a series that is exactly one window long"""
    s = Session(project())
    x = s.arr("x")
    st = s.num("step_size", kind="int", lower=1)
    sb = s.num("stable", kind="bool")
    o, _ = s.new(s.cls(q), x, embedding_dim=s.num("embedding_dim", kind="int", lower=2), step_size=st, stable=sb, base=const(2))
    s.method(o, "global_val")
    d = s.frz(s.I.getattr(o, "dist_dict", s.st))
    note_session(s)
    w = where_method(s, q, "_simple_entropy")
    key = "single window"
    hit = 0
    for t in walk(d):
        if t.op != "phi":
            continue
        cs = [t.args[1], t.args[2]]
        for y in cs:
            if y.op == "setitem" and y.args[0].op == "dict" and not y.args[0].args[0]:
                k = y.args[1]
            elif y.op == "dict" and len(y.args[0]) == 1:
                k = y.args[0][0][0]
            else:
                continue
            for z in walk(k):
                b = callee(z) or ""
                if b.endswith(".argsort") or z.op == "mcall" and z.args[0] == "argsort":
                    arr = z.args[1][0] if z.op == "call" else z.args[1]
                    kws = dict(z.args[2] if z.op == "call" else z.args[3])
                    hit += 1
                    if arr is P("x"):
                        c.bad(key + ": observations", w, f"the only window is labelled by the order of all observations instead of every {show(st, 2)}-th: {show(k, 5)[:120]}")
                    elif misread(arr):
                        c.bad(key + ": observations", w, f"the only window is labelled by the order of other observations than every {show(st, 2)}-th: {show(k, 5)[:100]}; {misread(arr)}")
                    elif arr.op == "index" and arr.args[1].op == "slice" and arr.args[1].args[2] is st:
                        c.ok(key + ": observations", show(k, 5)[:120])
                    else:
                        c.und(key + ": observations", show(k, 5)[:120], w)
                    if kws.get("stable") is sb or "kind" in kws:
                        c.ok(key + ": sorting", "as requested")
                    elif not kws or kws.get("stable") is FALSE:
                        c.bad(key + ": sorting", w, f"the requested stable sorting is ignored for the only window: {show(k, 5)[:120]}")
                    else:
                        c.und(key + ": sorting", show(k, 5)[:120], w)
    if not hit:
        c.ok(key, "no separate treatment")


def misread(arr):
    """a series of one window whose observations are others than these"""
    for d, st in ((3, 2), (4, 3), (2, 5), (3, 1), (4, 1), (5, 2)):
        x = [float((7 * i * i + 3 * i) % 31) + i / 32 for i in range((d - 1) * st + 1)]
        try:
            v = val.at(arr, {P("x"): x, P("N"): len(x), P("embedding_dim"): d, P("step_size"): st, P("stable"): True})
        except (val.NoAnswer, IndexError, TypeError, ValueError):
            continue
        if isinstance(v, list) and all(isinstance(y, (int, float)) for y in v) and [i for i in sorted(range(len(v)), key=v.__getitem__)] != sorted(range(d), key=x[::st].__getitem__):
            return f"for embedding_dim={d}, step_size={st} the values {v} of {x}"[:200]
    return None


def windows(o, kw):
    """the number of windows is positive (shorter series are rejected)"""
    if "embedding_dim" not in kw:
        return ()
    return sub(P("N"), mul(sub(kw["embedding_dim"], const(1)), kw.get("step_size", const(1)))),


def probs_job(c, a, q, o):
    """the stored distribution is the one whose entropy is reported"""
    s = spec_session(Sc("entropy", a, q), opaque=False)
    args, kw = settings(s, q, o)
    ob, _ = s.new(s.cls(q), args[0], **kw)
    h, _ = s.method(ob, "global_val")
    if h is None:
        c.na("distribution " + a)
        return
    d = s.I.getattr(ob, "dist_dict", s.st)
    note_session(s)
    e = formula(s, "entropy_of", d, kw["base"])
    agree(c, f"distribution of {a} {o or ''}", s, s.frz(h), e, jsd_envs(q, 1), where_method(s, q, "_simple_entropy"), pos=windows(o, kw))


def variants_of(q):
    n = short(q)
    if n.startswith("Kernel"):
        return [{"kernel": "box"}, {"kernel": "gaussian"}]
    if n.startswith("BayesE"):
        return [{"alpha": "jeffrey"}, {"alpha": "min-max"}]
    if n.startswith("Ordinal"):
        return [{}, {"embedding_dim": 2}, {"embedding_dim": 3}, {"embedding_dim": 4, "step_size": "sym"}]
    return [{}]


@rule("P23", floor=20,
      rule="the value graph of a divergence is H_Q(P) - H(P), respectively the entropy of the averaged distribution minus the mean entropy",
      explain="the entropies are unknowns identified by class, data and settings (Kullback-Leibler, kernel), or the distributions stored by the estimators are the ones averaged (discrete)")
def p23(tier):
    out = []
    for m, a, q in each_class(("entropy",)):
        for o in variants_of(q):
            out.append((f"P23 KLD {a} {o}", kld_job, (a, q, o)))
            for n in (2, 3, 5) if tier == "quick" else (2, 3, 4, 5):
                out.append((f"P23 JSD {a} {o} {n}", jsd_job, (a, q, o, n)))
                if short(q).startswith(MIX) and not short(q).startswith("Ordinal") and n < 4:
                    out.append((f"P23 JSD rows {a} {o} {n}", jsd_rows, (a, q, o, n)))
        if short(q).startswith(MIX):
            for o in variants_of(q):
                out.append((f"P23 distribution {a} {o}", probs_job, (a, q, o)))
        if short(q).startswith("Ordinal"):
            for dim in (2, 3):
                out.append((f"P23 labels {a} {dim}", label_job, (a, q, dim)))
            out.append((f"P23 window {a}", window_job, (a, q)))
    return out
