"""P18 the number of workers has no influence on results."""
from .util import *
from .. import val

W = P("workers")
SPLIT = ("numpy.array_split", "numpy.split")


def pieces(t):
    """concatenate(map(n, f(array_split(A, n, axis)[i]))) with f working point by point -> f(A)"""
    if callee(t) != "numpy.concatenate" or len(t.args[1]) < 1:
        return None
    m = t.args[1][0]
    if m.op != "map":
        return None
    n, body = m.args
    ax = kw(t, "axis", const(0))
    sp = [x for x in walk(body) if x.op == "index" and callee(x.args[0]) in SPLIT and x.args[1].op == "bv"]
    if len(set(sp)) != 1 or not (is_num(ax) and cval(ax) == 0):
        return None
    x = sp[0]
    call = x.args[0]
    A, parts = call.args[1][0], (call.args[1][1] if len(call.args[1]) > 1 else dict(call.args[2]).get("indices_or_sections"))
    along = dict(call.args[2]).get("axis", call.args[1][2] if len(call.args[1]) > 2 else const(0))
    if parts is not n:
        return None
    whole = transform(body, lambda y: A if y is x else y)
    if contains(whole, lambda y: y is x.args[1]):
        return None
    if not pointwise(body, x, along):
        return None
    return whole


def pointwise(t, A, along):
    """t is a density / count evaluated at the points A, the points lying along the given axis"""
    if t.op == "mcall" and t.args[0] in ("evaluate", "pdf", "__call__") and t.args[2] and t.args[2][0] is A and not mentions(t.args[1], A):
        return is_num(along) and cval(along) in (1, -1)
    if t.op == "mcall" and t.args[0] in ("query_ball_point",) and (t.args[2] and t.args[2][0] is A or kw_m(t, "x") is A):
        return is_num(along) and cval(along) == 0
    if t.op == "mcall" and t.args[0] in ("squeeze", "ravel") and not t.args[2]:
        return pointwise(t.args[1], A, along)
    if callee(t) in ("numpy.squeeze", "numpy.ravel", "numpy.asarray"):
        return pointwise(t.args[1][0], A, along)
    if t.op in ("lin", "mono"):
        ms = [m for m, _ in t.args[0] if m is not None]
        return len(ms) == 1 and pointwise(ms[0], A, along)
    return False


def sequential(s, t):
    """the graph with the work done in one piece"""
    def f(x):
        if x.op == "mcall" and x.args[0] in ("query", "query_ball_point", "query_pairs") and any(k == "workers" for k, _ in x.args[3]):
            return mk("mcall", x.args[0], x.args[1], x.args[2], tuple((k, v) for k, v in x.args[3] if k != "workers"))
        p = pieces(x)
        if p is not None:
            return p
        if x.op == "phi" and x.args[1] is x.args[2]:
            return x.args[1]
        if x.op == "len":
            return E.length(s.I, x.args[0])
        return None
    for _ in range(3):
        t2 = transform(t, lambda x: f(x) or x)
        if t2 is t:
            break
        t = t2
    return t


def branches(t):
    """conditions deciding whether the work is divided"""
    return {x.args[0] for x in walk(t) if x.op == "phi" and mentions(x.args[0], W)}


def decided(t, choice):
    """with every dividing condition decided one way"""
    return transform(t, lambda x: (x.args[1] if choice else x.args[2]) if x.op == "phi" and mentions(x.args[0], W) else x)


def p18_job(c, m, a, q, o):
    t = f"{m}/{a} {o}"
    o = dict(o)
    w_ = o.pop("workers", None)
    sc = Sc(m, a, q, **dict(o, workers=w_ or ("sym", dict(lower=1))))
    s = sc.session(project())
    ob, _ = sc.make(s)
    if ob is None:
        c.na(t)
        return
    w = where_method(s, q, "_simple_entropy", "_calculate")
    s1 = Sc(m, a, q, **dict(o, workers=1)).session(project())
    ob1, _ = s1.sc.make(s1)
    for meth in ("global_val", "local_vals"):
        key = f"{t}:{meth}"
        g, _ = s.method(ob, meth)
        r, _ = s1.method(ob1, meth)
        if g is None or r is None:
            if (g is None) != (r is None):
                c.bad(key, w, "a value is returned for one number of workers only")
            else:
                c.na(key)
            continue
        g, r = (strip_copies(x.frz(v), x.facts) for x, v in ((s, g), (s1, r)))
        if w_:
            g = transform(g, lambda x: W if str(callee(x)).split(".")[-1] in ("cpu_count", "process_cpu_count") else x)
        a1, b1 = sequential(s, g), sequential(s1, r)
        a1, b1 = renorm(s, a1), renorm(s, b1)
        none = parts(s, g)
        if none:
            c.bad(key + ":parts", w, none)
        elif none is None:
            c.und(key + ":parts", "number of parts not known", w)
        if same(a1, b1):
            c.ok(key, "independent of the workers" if not mentions(g, W) else "divided work is the same work")
            continue
        k = [x for x in walk(a1) if x.op == "mcall" and x.args[0] in ("query", "query_ball_point") and any(n in ("eps", "p", "distance_upper_bound") and mentions(v, W) for n, v in x.args[3])]
        if k:
            c.bad(key, w, f"a neighbour search depends on the number of workers: {show(k[0], 4)}")
            continue
        if not mentions(a1, W) and not any(x.op == "phi" for x in walk(a1)):
            c.bad(key, w, f"the value for several workers differs from the one for a single worker: {show_diff(a1, b1)}")
            continue
        d = unordered(g) or divide(s, g, r)
        if d:
            c.bad(key, w, d)
        else:
            c.und(key, "divided work: " + show_diff(a1, b1), w)
    note_session(s)
    rnd = [e for e in s.I.events if e["kind"] == "nondet"]
    c.put(f"{t}:order", not rnd, rnd[0]["where"] if rnd else "", "the order in which results of workers arrive is used" if rnd else "")


def parts(s, t):
    """a number of parts that is not positive for some number of workers and amount of data; False: none, None: not known"""
    splits, seen = {}, set()

    def go(x, conds):
        if (x, conds) in seen:
            return
        seen.add((x, conds))
        if x.op == "phi":
            go(x.args[0], conds)
            go(x.args[1], conds | {(x.args[0], True)})
            go(x.args[2], conds | {(x.args[0], False)})
            return
        if callee(x) in SPLIT:
            n = x.args[1][1] if len(x.args[1]) > 1 else dict(x.args[2]).get("indices_or_sections")
            splits.setdefault((n, conds))
        for y in children(x):
            go(y, conds)
    def sizes_of(x):
        if x.op == "index" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and is_num(x.args[1]):
            return E.shape_at(s.I, x.args[0].args[0], int(cval(x.args[1]))) or x
        if x.op == "len":
            return E.length(s.I, x.args[0]) or x
        return x
    rank = lambda x: contains(x, lambda y: str(callee(y)).startswith("numpy.linalg."))     # either may be the case
    go(t, frozenset())
    splits = {(renorm(s, transform(n, sizes_of)), frozenset((renorm(s, transform(c, sizes_of)), b) for c, b in conds if not rank(c))) for n, conds in splits}
    unknown = False
    for n, conds in splits:
        atoms = {x for y in (n, *(c for c, _ in conds)) for x in walk(y) if x.op == "len" or x.op == "index" and x.args[0].op == "attr" and x.args[0].args[1] == "shape"}
        name = {x: mk("param", f"size{i}") for i, x in enumerate(sorted(atoms))}      # a number of points, whatever it is
        n, conds = subst(n, name), [(subst(c, name), b) for c, b in conds]
        sizes = [p for p in sorted({x for y in (n, *(c for c, _ in conds)) for x in walk(y) if x.op == "param"}) if p is not W]
        if any(p in name.values() for p in sizes) and len(sizes) > 1:
            unknown = True
            continue
        ks = sorted({int(cval(x)) + d for y in (n, *(c for c, _ in conds)) for z in walk(y) if z.op in ("cmp", "lin", "call", "mono", "floordiv") for x in walk(z) if is_num(x) and cval(x) == int(cval(x)) for d in (-1, 0, 1)} | {2, 300, 10 ** 6})
        ks = [k for k in ks if k > 1]
        if any(s.facts.kind(p) not in ("int", None) and p not in name.values() for p in sizes) or len(sizes) > 3 or not mentions(n, W):
            unknown = True
            continue
        import itertools
        for w in (1, 2, 3, 8, 64):
            for vs in itertools.product(ks, repeat=len(sizes)):
                env = {W: w, **dict(zip(sizes, vs))}
                try:
                    if all(bool(val.Ev(env)(c)) == b for c, b in conds) and val.Ev(env)(n) < 1:
                        return f"with {w} workers and " + ", ".join(f"{p.args[0]}={v}" for p, v in zip(sizes, vs)) + f" the work is divided into {val.Ev(env)(n)} parts"
                except (val.NoAnswer, TypeError, ZeroDivisionError):
                    unknown = True
                    break
    return None if unknown else False


def unordered(t):
    for x in walk(t):
        if callee(x) == "numpy.concatenate" and x.args[1] and callee(x.args[1][0]) == "unordered":
            return "parts are put together in the order in which the workers finish"
    return None


SETTINGS = dict(bandwidth=3.0, base=2.0, prop_time=0)


def point(i, j, k):
    """data in general position"""
    return 10 * ((i * 0.6180339887 + j * 0.4142135624 + k * 0.7320508076 + i * i * (j + 2 * k + 1) * 0.2360679775) % 1)


def divide(s, g, r):
    """valuations with small data: divided into two or three parts against one piece"""
    try:
        envs = []
        big = {x for x in walk(g) if x.op == "cmp" and any(is_num(y) and abs(cval(y)) >= 1000 for y in x.args[1:]) and not mentions(x, W)}
        ps = {x for t in (g, r) for x in walk(t) if x.op == "param"}
        lim = sorted({int(cval(y)) for x in walk(g) if x.op == "cmp" and W in x.args[1:] for y in x.args[1:] if is_num(y) and 3 < cval(y) < 200} | {15})
        for N in (11, 9):
                for n, w in [(2, 2), (3, 3)] + ([(2, v + 1) for v in lim] if N == 11 else []):
                    if w > 3 and not any(z.op == "call" and z.args[0] == "builtins.min" and mentions(z, W) for z in walk(g)):
                        continue
                    e = {W: w}
                    for k, p in enumerate(sorted(ps, key=lambda p: p.args[0])):
                        name = p.args[0]
                        if p is W:
                            continue
                        if s.facts.kind(p) == "ndarray":
                            nd = s.facts.ndim(p)
                            L = N - 2 if E.length(s.I, p) is P("M") else N
                            if nd not in (1, 2):
                                return None
                            c = [[point(i, j, k) for j in range(2)] for i in range(L)]
                            e[p] = c if nd == 2 else [v[0] for v in c]
                        else:
                            e[p] = SETTINGS.get(name, 2 if name.startswith("d_") else N if name == "N" else N - 2 if name == "M" else 1)
                    for b in big:      # "the data is large", whatever its size
                        l = is_num(b.args[1])
                        e[b] = bool(l)
                    for z in walk(g):      # observations in general position: the covariance has full rank
                        if z.op == "cmp" and contains(z, lambda y: str(callee(y)).startswith("numpy.linalg.eig")):
                            if z.args[0] == "<" and is_num(z.args[1]) and cval(z.args[1]) == 0:
                                e[z] = False
                    for z in walk(g):      # a number of parts limited by the amount of data
                        if z.op == "call" and z.args[0] == "builtins.min" and mentions(z, W):
                            e[z] = n
                    envs.append(e)
        d = val.separate(g, r, envs)
    except val.NoAnswer:
        return None
    return f"divided into {d[0][W]} parts the value is not the one of a single worker" if d else None


@rule("P18", floor=40,
      rule="the value graph with a symbolic number of workers, after undoing the division of query points into consecutive parts whose results are concatenated in order, equals the graph for one worker; worker arguments of neighbour searches carry no value",
      explain="value graphs of every class that accepts workers, box and Gaussian kernel, one and several dimensions, including cross-entropy")
def p18(tier):
    out = []
    for m, a, q in each_class():
        s = Session(project())
        if "workers" not in init_params(s.I, s.cls(q), s.st) and not any("WorkersMixin" in str(x.args[0]) for x in s.I.mro(s.cls(q), s.st) if x.op == "class"):
            continue
        for k in ("box", "gaussian"):
            os_ = [{}, dict(ndim=2)]
            if m == "entropy":
                os_ += [dict(joint=2), dict(cross=True), dict(cross=True, ndim=2)]
            if m in ("mi", "cmi"):
                os_ += [dict(nvars=3)]
            os_ += [dict(workers=-1), dict(workers=-1, ndim=2)]
            for o in os_:
                out.append((f"P18 {m}/{a} {k} {o}", p18_job, (m, a, q, dict(o, kernel=k))))
    return out
