"""P31 ordinal estimators: every window of the series, its order, a faithful code, relative frequencies."""
import itertools
from .util import *
from .formula_rules import spec_session, formula, agree, CX
from .div_rules import offset, simple

ORD = [m for m in ("entropy", "mi", "cmi", "te", "cte")]
INTMAX = {"uint8": 2 ** 8 - 1, "uint16": 2 ** 16 - 1, "uint32": 2 ** 32 - 1, "uint64": 2 ** 64 - 1, "int8": 2 ** 7 - 1, "int16": 2 ** 15 - 1, "int32": 2 ** 31 - 1,
          "int64": 2 ** 63 - 1, "int": 2 ** 63 - 1, "int_": 2 ** 63 - 1, "uint": 2 ** 64 - 1, "intp": 2 ** 63 - 1}


def strided(g):
    return [x for x in walk(g) if (callee(x) or "").endswith("as_strided")]


def at(t, i):
    if t.op in ("tuple", "list") and len(t.args) > i:
        return t.args[i]
    return None


def windows_job(c, m, a, q, kw, opts):
    """as_strided views: consecutive windows of embedding_dim observations, step_size apart, exactly as many as fit"""
    sc = Sc(m, a, q, stable="sym", **opts)
    s = sc.session(project())
    o, _ = sc.make(s)
    g, _ = s.method(o, "global_val") if o is not None else (None, None)
    if g is None:
        c.na(str(sc))
        return
    g = s.frz(g)
    note_session(s)
    w = "infomeasure/estimators/utils/ordinal.py symbolize_series"
    d, st = s.kwargs.get("embedding_dim"), s.kwargs.get("step_size", const(1))
    seen = strided(g)
    if not seen:
        c.und(f"{sc} windows", "no strided view found", w)
        return
    for i, v in enumerate(seen):
        key = f"{sc} window {i}"
        arr = v.args[1][0]
        kws = dict(v.args[2])
        sh = kws.get("shape") or (v.args[1][1] if len(v.args[1]) > 1 else None)
        sr = kws.get("strides") or (v.args[1][2] if len(v.args[1]) > 2 else None)
        n, k = (at(sh, 0), at(sh, 1)) if sh is not None else (None, None)
        s0, s1 = (at(sr, 0), at(sr, 1)) if sr is not None else (None, None)
        if None in (n, k, s0, s1) or s.facts.ndim(arr) != 1:
            c.und(key, show(v, 5)[:160], w)
            continue
        unit = mk("index", mk("attr", arr, "strides"), const(0))
        units = {unit, mk("attr", arr, "itemsize")}
        r0, r1 = ratio(s0, units), ratio(s1, units)
        if r0 is None or r1 is None:
            c.und(key, show(v, 5)[:160], w)
            continue
        L = E.length(s.I, arr)
        bad = []
        if r0 is not ONE:
            bad.append(f"consecutive windows start {show(r0, 3)} observations apart instead of one")
        if r1 is not st:
            bad.append(f"the observations of a window are {show(r1, 3)} apart instead of {show(st, 3)}")
        if k is not d:
            bad.append(f"a window has {show(k, 3)} observations instead of {show(d, 3)}")
        # last element of the last window
        last = add(mul(sub(n, ONE), r0), mul(sub(k, ONE), r1))
        over = sub(last, sub(L, ONE))
        if not (is_num(over) and cval(over) == 0):
            if is_num(over) or not bad:
                what = "beyond the end of" if is_num(over) and cval(over) > 0 else "not at the end of"
                bad.append(f"the last window ends {show(over, 4)} observations {what} the series")
        if bad:
            c.bad(key, w, "; ".join(bad) + f" ({show(v, 4)[:120]})")
        else:
            c.ok(key, f"{show(n, 3)} windows of {show(k, 3)}, last element at index {show(last, 3)}")
    for i, x in enumerate(t for t in walk(g) if callee(t) == "numpy.apply_along_axis" and t.args[1][0].op == "ext" and t.args[1][0].args[0] == "numpy.argsort" or callee(t) == "numpy.argsort"):
        key = f"{sc} order {i}"
        al = callee(x) == "numpy.apply_along_axis"
        arr, ax = (x.args[1][2], x.args[1][1]) if al else (x.args[1][0], kw_of(x, "axis", const(-1)))
        if not strided(arr) or s.facts.ndim(arr) not in (2, None):
            continue
        if not is_num(ax):
            c.und(key, show(x, 4), w)
        elif cval(ax) in (1, -1):
            c.ok(key, "within each window")
        else:
            c.bad(key, w, f"the windows are sorted along axis {show(ax, 2)}, across windows instead of within them")
    sb = s.kwargs.get("stable")
    if sb is not None:
        check_stable(c, f"{sc} stable", g, sb, w)


def kw_of(x, name, default):
    return dict(x.args[2]).get(name, default)


def ratio(t, units):
    """t / unit"""
    for u in units:
        if t is u:
            return ONE
        ps = lin_parts(t)
        out = []
        for m, k in ps:
            f = dict(mono_parts(m)) if m is not None else {}
            if f.get(u) != 1:
                out = None
                break
            r = scale(ONE, k)
            for b, e in f.items():
                if b is not u:
                    r = mul(r, powr(b, const(int(e)) if e.denominator == 1 else const(e)))
            out.append(r)
        if out:
            return add(*out)
    return None


ONE = const(1)


def check_stable(c, key, g, sb, w):
    """with stable=True every sorting of windows is a stable one"""
    t = subst(g, {sb: TRUE, mk("truth", sb): TRUE})
    t = transform(t, lambda y: (y.args[1] if y.args[0] is TRUE else y.args[2] if y.args[0] is FALSE else y) if y.op == "phi" else y)
    hits = [x for x in walk(t) if strided(x) and (callee(x) == "numpy.argsort" or callee(x) == "numpy.apply_along_axis" and x.args[1][0].op == "ext" and x.args[1][0].args[0] == "numpy.argsort")]
    for x in walk(t):
        if x.op == "cmp" and x.args[0] == "<":
            lo, hi = offset(None, x.args[1]), offset(None, x.args[2])
            if lo is not None and hi is not None and lo < hi:
                c.bad(key, w, f"with stable=True equal observations keep their order, but {show(x, 4)} counts them as falling")
                return
    for x in hits:
        kind, stb = kw_of(x, "kind", None), kw_of(x, "stable", None)
        if kind is not None and is_str(kind, ("stable", "mergesort")) or stb is TRUE:
            continue
        if kind is None and stb in (None, FALSE, NONE) or kind is not None and is_str(kind, ("quicksort", "heapsort")):
            c.bad(key, w, f"windows are not sorted stably although stable=True was requested: {show(x, 3)[:120]}")
        else:
            c.und(key, show(x, 4)[:120], w)
        return
    if hits:
        c.ok(key, f"{len(hits)} sorting(s)")
    else:
        c.und(key, "no sorting found", w)


def is_str(t, vals):
    return t.op == "const" and cval(t) in vals


# ---------------------------------------------------------------- integer codes
def resolve(t, dim):
    """the branch of a choice between data types taken for a number of elements"""
    import math

    def num(x):
        if is_num(x):
            return cval(x)
        if callee(x) in ("math.factorial", "scipy.special.factorial") and is_num(x.args[1][0]):
            return math.factorial(int(cval(x.args[1][0])))
        if x.op == "attr" and x.args[1] in ("max", "min") and (callee(x.args[0]) or "").endswith("iinfo"):
            n = dt_name(x.args[0].args[1][0])
            return INTMAX.get(n) if x.args[1] == "max" else None
        if x.op in ("lin", "mono"):
            r = 0 if x.op == "lin" else 1
            for b, k in x.args[0]:
                v = 1 if b is None else num(b)
                if v is None:
                    return None
                r = r + v * k if x.op == "lin" else r * Fraction(v) ** int(k)
            return r
        return None
    while t.op == "phi":
        cc = t.args[0]
        if cc.op != "cmp":
            return None
        a, b = num(cc.args[1]), num(cc.args[2])
        if a is None or b is None:
            return None
        v = {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[cc.args[0]]
        t = t.args[1] if v else t.args[2]
    return t


def dt_name(t):
    n = cval(t) if t.op == "const" else t.args[0].split(".")[-1] if t.op == "ext" else None
    return n if isinstance(n, str) else None


def code_job(c, dim):
    """the integer codes of two different orders differ, and the data type holds every code"""
    import math
    s = Session(project())
    x = s.arr("x")
    f = s.I.getattr(s.I.load("infomeasure.estimators.utils.ordinal", s.st), "symbolize_series", s.st)
    v, ex = s.call(f, x, const(dim), s.num("step_size", kind="int", lower=1), to_int=TRUE, stable=FALSE)
    w = "infomeasure/estimators/utils/ordinal.py permutation_to_integer"
    key = f"codes of {dim} elements"
    if v is None:
        c.und(key, "no value", w)
        return
    g = s.frz(v)
    note_session(s)
    lam = g.args[1][0] if callee(g) == "numpy.apply_along_axis" else None
    if lam is None or lam.op != "lam" or len(lam.args) != 2 or callee(g.args[1][2]) not in ("numpy.apply_along_axis", "numpy.argsort"):
        c.und(key, show(g, 4)[:160], w)
        return
    rows = {y for y in walk(lam) if y.op == "row"}
    if len(rows) != 1:
        c.und(key, show(lam, 4)[:160], w)
        return
    r = rows.pop()
    body = subst(lam.args[1], {mk("len", r): const(dim)})
    ds = decode(body, r, dim)
    if ds is None:
        c.und(key, show(body, 6)[:200], w)
        return
    digits, weights = ds
    codes = {}
    top = 0
    for p in itertools.permutations(range(dim)):
        n = sum(dg(p, i) * weights[i] for i, dg in enumerate(digits))
        top = max(top, n)
        if n in codes:
            c.bad(key, w, f"the orders {codes[n]} and {p} get the same code {n}")
            return
        codes[n] = p
    c.ok(key, f"{len(codes)} different codes up to {top}")
    # storage
    dts = [dt for n, a, dt in s.I.sum_dtypes if mentions(a, r) or contains(a, lambda y: y.op == "row")]
    dts += [dict(y.args[2]).get("dtype") or (y.args[1][1] if len(y.args[1]) > 1 else None) for y in walk(body) if callee(y) in ("numpy.zeros", "numpy.empty", "numpy.full")]
    worst = None
    for dt in dts:
        if dt is None:
            continue
        n = dt_name(resolve(dt, dim) or dt)
        if n not in INTMAX:
            c.und(key + " storage", show(dt, 4), w)
            return
        worst = min(worst or INTMAX[n], INTMAX[n])
    if worst is not None and worst < top:
        c.bad(key + " storage", w, f"codes up to {top} are stored in a type that holds at most {worst}")
    else:
        c.ok(key + " storage", f"codes up to {top}, type up to {worst}")


def storage_job(c, dim):
    import math
    s = Session(project())
    x = s.arr("x")
    f = s.I.getattr(s.I.load("infomeasure.estimators.utils.ordinal", s.st), "symbolize_series", s.st)
    v, ex = s.call(f, x, const(dim), s.num("step_size", kind="int", lower=1), to_int=TRUE, stable=FALSE)
    w = "infomeasure/estimators/utils/ordinal.py symbolize_series"
    key = f"storage of the codes of {dim} elements"
    if v is None:
        c.ok(key, "rejected")
        return
    g = s.frz(v)
    note_session(s)
    for dt in {dt for n, a, dt in s.I.sum_dtypes}:
        n = dt_name(resolve(dt, dim) or dt)
        if n not in INTMAX:
            c.und(key, show(dt, 4), w)
        elif INTMAX[n] < math.factorial(dim) - 1:
            # rejected inside?
            if any(e for e in ex if exc_name(e.exc) == "ValueError") and dim > 20:
                c.ok(key, "rejected")
            else:
                c.bad(key, w, f"{math.factorial(dim)} orders cannot be told apart by {n}, which has {INTMAX[n] + 1} values")
        else:
            c.ok(key, f"{n} has {INTMAX[n] + 1} values")


def decode(body, r, dim):
    """body = sum_i digit_i * weight_i"""
    import math
    if callee(body) not in ("numpy.sum", "builtins.sum") or len(body.args[1]) != 1:
        return None
    fs = [b for b, e in mono_parts(body.args[1][0]) if e == 1]
    if len(fs) != len(mono_parts(body.args[1][0])) or len(lin_parts(body.args[1][0])) != 1 or lin_parts(body.args[1][0])[0][1] != 1:
        return None
    dg, wt = None, [1] * dim
    for f in fs:
        while callee(f) == "numpy.asarray":
            f = f.args[1][0]
        rev = False
        if f.op == "fill":
            n, el = f.args[1], f.args[2]
        elif f.op == "map":
            n, el = f.args[0], f.args[1]
        else:
            return None
        if not (is_num(n) and cval(n) == dim):
            return None
        bv = [y for y in walk(el) if y.op == "bv"]
        if len(bv) != 1:
            return None
        if mentions(el, r):
            if dg is not None:
                return None
            dg = [digit(el, r, bv[0], i) for i in range(dim)]
            if None in dg:
                return None
        else:
            for i in range(dim):
                e = subst(el, {bv[0]: const(i)})
                e = transform(e, lambda y: simple(None, y))
                e = transform(e, lambda y: const(math.factorial(int(cval(y.args[1][0])))) if callee(y) in ("math.factorial", "scipy.special.factorial") and is_num(y.args[1][0]) and cval(y.args[1][0]) >= 0 else y)
                e = transform(e, lambda y: simple(None, y))
                if not is_num(e):
                    return None
                wt[i] *= cval(e)
    return (dg, wt) if dg is not None else None


def digit(el, r, bv, i):
    """number of later (earlier) elements smaller (greater) than the i-th"""
    if callee(el) not in ("numpy.sum", "numpy.count_nonzero", "builtins.sum") or len(el.args[1]) != 1:
        return None
    t = el.args[1][0]
    if t.op != "cmp" or t.args[0] not in ("<", "<="):
        return None
    t = subst(t, {bv: const(i)})
    at_i = mk("index", r, const(i))
    a, b = t.args[1:]
    if (a is at_i) == (b is at_i):
        return None
    sl = b if a is at_i else a
    if sl.op != "index" or sl.args[0] is not r or sl.args[1].op != "slice" or any(not (y is NONE or is_num(y)) for y in sl.args[1].args):
        return None
    lo, hi, st = (None if y is NONE else cval(y) for y in sl.args[1].args)
    strict = t.args[0] == "<"

    def f(p, i, lo=lo, hi=hi, st=st, less=b is at_i):
        return sum(1 for y in p[lo:hi:st] if (y < p[i] if less else y > p[i]) or not strict and y == p[i])
    return f


# ---------------------------------------------------------------- relative frequencies
def freq_job(c, a, q, opts):
    sc = Sc("entropy", a, q, **opts)
    s = spec_session(sc)
    o, _ = sc.make(s)
    g, _ = s.method(o, "global_val") if o is not None else (None, None)
    if g is None:
        c.na(str(sc))
        return
    g = s.frz(g)
    note_session(s)
    w = where_method(s, q, "_simple_entropy" if not opts.get("joint") else "_joint_entropy")
    d, st = s.kwargs["embedding_dim"], s.kwargs.get("step_size", ONE)
    n = P("windows")
    s.facts.declare(n, kind="int", ndim=0, lower=1)
    g = subst(g, {P("N"): add(n, mul(sub(d, ONE), st))})
    S = P("symbols")
    s.facts.declare(S, kind="ndarray", ndim=1, len=n, shape=(n,), notnone=True)
    U = mk("call", "numpy.unique", (S,), (("return_counts", TRUE),))
    keys, counts = mk("index", U, const(0)), mk("index", U, ONE)
    sb = {}
    for x in walk(g):
        if callee(x) == "collections.Counter" and len(x.args[1]) == 1:
            sb[x] = None
    tabs = list(sb)
    ok = True
    src = []
    for x in tabs:
        y = x.args[1][0]
        L = y.args[0] if y.op == "map" else E.length(s.I, y.args[0]) if y.op == "zip" else E.length(s.I, y)
        src.append((x, L))
    uq = {x for x in walk(g) if callee(x) == "numpy.unique" and not contains(x, lambda z: z is not x and callee(z) == "numpy.unique")}
    g = lift(s, g, [x for x, _ in src], U)
    rise = [x for x in walk(g) if callee(x) in ("numpy.sum", "numpy.mean", "numpy.count_nonzero") and x.args[1][0].op == "cmp" and mentions(x, P("x")) and not strided(x)]
    e = formula(s, "discrete", S, s.kwargs["base"])
    if opts.get("joint"):
        ts = [x for x in walk(g) if callee(x) == "numpy.unique" and strided(x)]
        big = [x for x in ts if not any(z is not x and contains(z, lambda y, x=x: y is x) for z in ts)]
        if len(big) != 1:
            c.und(str(sc), "symbols of the joint series", w)
            return
        g = subst(g, {big[0]: U})
    for k, x in enumerate(rise):
        s.facts.declare(x, kind="int", ndim=0)
    if rise:
        # embedding dimension two: the rising and the falling windows
        if len(rise) != 1 or callee(rise[0]) == "numpy.mean":
            c.und(str(sc), show(rise[0], 4), w)
            return
        R = P("rises")
        s.facts.declare(R, kind="int", ndim=0, lower=0)
        g = subst(g, {rise[0]: R})
        e = phi(mk("and", cmp("==", d, const(2)), cmp("==", st, ONE)) if not (is_num(d) and is_num(st)) else const(cval(d) == 2 and cval(st) == 1), formula(s, "rises", R, n, s.kwargs["base"]), e)
    one = cmp("==", n, ONE)

    def skip(cc, v):
        """a single window and one pattern only: the entropy is zero either way"""
        return v and (mentions(cc, P("rises")) or cc.op == "cmp" and cc.args[0] == "==" and mentions(cc, n) and all(y.op in ("lin", "mono", "const", "param") for y in walk(cc) if y is not cc))
    envs = []
    for sy, r in (([1, 2, 2, 3, 1, 2, 4], 3), ([5, 1, 1, 1, 2, 2, 1, 3, 4], 2), ([1, 2, 1, 1, 2, 1], 4)):
        for dv in ([int(cval(d))] if is_num(d) else [2, 3, 4]):
            for sv in ([int(cval(st))] if is_num(st) else [1, 2, 3]):
                if dv == 2 and sv == 1:
                    sy = [2] * r + [1] * (len(sy) - r)
                envs.append({S: sy, P("rises"): r, n: len(sy), P("embedding_dim"): dv, P("step_size"): sv, P("base"): 3.0})
    agree(c, str(sc), s, g, e, envs, w, skip=skip, pos=(n, P("rises"), sub(n, P("rises"))))


def definition_job(c, m, a, q, opts):
    """the value graph against the discrete measure of the order patterns, at chosen series; refutes only"""
    from .oracle import refute
    sc = Sc(m, a, q, stable=False, **opts)
    w = where_method(Session(project()), q, "_calculate", "_simple_entropy")
    for h in ("global_val", "local_vals"):
        d = refute(sc, h)
        if d:
            c.bad(f"{sc}: {h} of the order patterns", w, d)


def lift(s, g, tabs, U):
    """sums over the values of a Counter as sums over the count table"""
    keys, counts = mk("index", U, const(0)), mk("index", U, ONE)
    for x in tabs:
        vals = mk("values", x)

        def f(y):
            if y.op == "map" and y.args[0] is mk("len", x):
                bv = [z for z in walk(y.args[1]) if z.op == "bv"]
                if len(bv) == 1:
                    b = subst(y.args[1], {mk("index", vals, bv[0]): counts, mk("elem", vals, bv[0]): counts})
                    if not mentions(b, bv[0]):
                        return b
            if callee(y) in ("numpy.asarray", "builtins.list") and len(y.args[1]) == 1 and mentions(y, counts) and y.args[1][0].op in ("lin", "mono", "index"):
                return y.args[1][0]
            return y
        g = transform(g, f)
        g = subst(g, {vals: counts, mk("len", x): mk("len", keys)})
    return g


@rule("P31", floor=30,
      rule="strided windows start one observation apart, hold embedding_dim observations step_size apart and end at the last observation; each window is sorted for itself; integer codes are injective and fit their type; entropies are the documented formula of the relative pattern frequencies",
      explain="windows, orders and frequencies are read off the value graphs of the estimators; codes are decided by decoding the digit and weight expressions and comparing all orders of up to six elements; data types by folding the type-selection table",
      assume=["series not shorter than one window (rejected by the constructors)"])
def p31(tier):
    out = []
    for m, a, q in each_class():
        if not is_(short(q), "ordinal"):
            continue
        ds = [("sym", dict(kind="int", lower=2)), 2, 4] if tier == "quick" else [("sym", dict(kind="int", lower=2)), 2, 3, 4, 5, 7]
        for d in ds:
            for joint in ((False, True) if m == "entropy" else (False,)):
                opts = dict(embedding_dim=d, step_size=("sym", dict(kind="int", lower=1)))
                if joint:
                    opts["joint"] = True
                out.append((f"P31 {m} {d} {joint}", windows_job, (m, a, q, {}, opts)))
            for v in [{}] + ([{"joint": 2}, {"joint": 3}, {"cross": True}] if m == "entropy" else [{"nvars": 3}] if m in ("mi", "cmi") else []):
                v = dict(v, embedding_dim=d, **({"offset": 0} if m in ("mi", "cmi") else {"prop_time": 0} if m in ("te", "cte") else {}))
                out.append((f"P31 {m} {d} definition {v}", definition_job, (m, a, q, v)))
            if m == "entropy":
                out.append((f"P31 {m} {d} cross", windows_job, (m, a, q, {}, dict(embedding_dim=d, step_size=("sym", dict(kind="int", lower=1)), cross=True))))
        if m == "entropy":
            for d in ds:
                for joint in (False, True):
                    for st in (("sym", dict(kind="int", lower=1)), 1, 2):
                        opts = dict(embedding_dim=d, step_size=st)
                        if joint:
                            opts["joint"] = True
                        out.append((f"P31 frequencies {d} {st} {joint}", freq_job, (a, q, opts)))
    for dim in range(2, 7):
        out.append((f"P31 codes {dim}", code_job, (dim,)))
    for dim in range(2, 22):
        out.append((f"P31 storage {dim}", storage_job, (dim,)))
    return out
