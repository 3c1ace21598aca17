"""Sums over the distinct observations of a count table.

A look-up per observation, {value: f(count)}[x[i]] for every i, takes the value f(count) count times.  So the sum of a
local quantity over the observations is the sum of count * f(count) over the table.  Both sides are brought to that
form by rewriting the value graphs; nothing is evaluated.
"""
from __future__ import annotations
from .terms import *
from .models import callee, kw
from .spaces import Unknown
from . import ext as E

CNT, KN = mk("param", "count"), mk("param", "ncells")
ELEM = ("numpy.log", "numpy.log2", "numpy.log10", "scipy.special.digamma", "numpy.sqrt", "numpy.exp", "numpy.abs")


class Table:
    """distinct observations of obs[0..n) with their counts"""

    def __init__(self, keys, counts, n, obs):
        self.keys, self.counts, self.n, self.obs = keys, counts, n, obs


def tables(s, t):
    """every count table mentioned in t"""
    out = {}
    for x in walk(t):
        if callee(x) == "numpy.unique" and kw(x, "return_counts") is TRUE and len(x.args[1]) == 1 and kw(x, "axis") in (None, NONE):
            d = x.args[1][0]
            k = 1 + sum(1 for o in ("return_index", "return_inverse") if kw(x, o) is TRUE)
            out[x] = Table(mk("index", x, const(0)), mk("index", x, const(k)), E.length(s.I, d), lambda i, d=d: E.index(s.I, d, i))
            if kw(x, "return_inverse") is TRUE:
                out[x].inverse = mk("index", x, const(k - 1))
        elif callee(x) == "collections.Counter" and len(x.args[1]) == 1:
            m = x.args[1][0]
            out[x] = Table(mk("keys", x), mk("values", x), E.length(s.I, m), lambda i, m=m: E.beta(m, i) if m.op == "map" else E.index(s.I, m, i))
    return out


def assume(t, c, v):
    """t under the assumption that condition c is v"""
    n = b_not(c)
    r = TRUE if v else FALSE
    return transform(t, lambda x: r if x is c else (b_not(r) if x is n else x))


def conds(t):
    """conditions of choices that do not depend on a bound variable, outermost first"""
    return [x.args[0] for x in walk(t) if x.op == "phi" and not contains(x.args[0], lambda y: y.op in ("bv", "mu"))]


def positive(t):
    """one of the two ways to write a choice: conditions ==, <= only; a length is 0 or positive"""
    def f(x):
        if x.op == "phi" and x.args[0].op == "not":
            x = mk("phi", x.args[0].args[0], x.args[2], x.args[1])
        if x.op == "phi" and x.args[0].op == "cmp" and x.args[0].args[0] in ("<", "!="):
            x = mk("phi", b_not(x.args[0]), x.args[2], x.args[1])
        if x.op == "phi" and x.args[0].op == "cmp" and x.args[0].args[0] == "<=" and x.args[0].args[1].op == "len" and x.args[0].args[2] is const(0):
            x = mk("phi", cmp("==", const(0), x.args[0].args[1]), x.args[1], x.args[2])
        return x
    return transform(t, f)


def const_dict(d):
    """the value v when every value of the mapping d is the constant v"""
    if d.op == "setitem":
        b = const_dict(d.args[0])
        return d.args[2] if is_num(d.args[2]) and (b is None or b is d.args[2]) and b is not False else False
    if d.op == "dict":
        vs = {v for _, v in d.args[0]}
        return None if not vs else (vs.pop() if len(vs) == 1 and is_num(list(vs)[0]) else False)
    if d.op == "loopout":
        b = const_dict(d.args[2])
        if b is False:
            return False
        vs = set() if b is None else {b}

        def up(x):
            if x.op == "phi":
                up(x.args[1])
                up(x.args[2])
            elif x.op == "setitem":
                vs.add(x.args[2])
                up(x.args[0])
            elif x.op != "mu":
                vs.add(x)
        up(d.args[1])
        return None if not vs else (vs.pop() if len(vs) == 1 and is_num(list(vs)[0]) else False)
    if d.op == "dmap":
        b = const_dict(d.args[0])
        v = d.args[3]
        return v if is_num(v) and b in (None, v) else False
    return False


def lookup(s, d, tabs):
    """(table, mask, array over the (masked) cells) of the mapping d keyed by the distinct observations; None"""
    if callee(d) == "builtins.dict" and len(d.args[1]) == 1 and d.args[1][0].op == "zip" and len(d.args[1][0].args) == 2:
        k, v = d.args[1][0].args
        for t in tabs.values():
            if k is t.keys:
                return t, None, v
    if d.op == "dmap":
        base, n, k, v = d.args[:4]
        if k.op == "index" and k.args[1].op == "bv":
            bv = k.args[1]
            src, mask = k.args[0], None
            if src.op == "index" and src.args[0] in [t.keys for t in tabs.values()]:
                src, mask = src.args
            for t in tabs.values():
                if src is t.keys:
                    b = const_dict(base)
                    if base.op == "dict" and not base.args[0] or b is None:
                        pass
                    elif mask is None or not (is_num(b) and cval(b) == 0):
                        return None
                    return t, mask, unmap(s, mk("map", n, v), bv)
    if d.op == "map" or d.op == "call":
        return None
    return None


def unmap(s, m, bv=None):
    """map<n, body> with the bound variable only in A[i]: the elementwise expression body[A]"""
    n, body = m.args[0], m.args[1]
    if bv is None:
        bvs = {x for x in walk(body) if x.op == "bv"}
        if len(bvs) != 1:
            raise Unknown("nested element-wise map")
        bv = bvs.pop()
    r = transform(body, lambda x: x.args[0] if x.op == "index" and x.args[1] is bv and not mentions(x.args[0], bv) else x)
    if mentions(r, bv):
        raise Unknown("element-wise map over positions: " + show(r, 4)[:120])
    return r


def lift(s, t, tabs):
    """(table, mask, cell expression) of an observation array t; table None: a scalar"""
    if t.op == "map":
        body = t.args[1]
        found = []

        def f(x):
            if x.op == "index":
                d, i = x.args
                v = const_dict(d) if d.op in ("setitem", "dict", "loopout", "dmap") else False
                if v is not False and v is not None:
                    return v
                for tb in tabs.values():
                    for j in [y for y in walk(i) if y.op == "bv"]:
                        if same_obs(i, tb.obs(j)):
                            r = lookup(s, d, tabs)
                            if r is None or r[0] is not tb:
                                return x
                            found.append(r[:2])
                            return canon(s, r[2], tabs)
            return x
        r = transform(body, f)
        if contains(r, lambda x: x.op == "bv"):
            raise Unknown("local value is not a function of the observation's cell: " + show(r, 5)[:160])
        if not found:
            return None, None, r
        if len(set(found)) > 1:
            raise Unknown("several tables in one local value")
        return found[0][0], found[0][1], r
    if t.op == "index":
        for tb in tabs.values():
            inv = getattr(tb, "inverse", None)
            if inv is not None and t.args[1] is inv:
                return tb, None, t.args[0]
    if t.op == "call" and callee(t) in ("numpy.asarray", "numpy.array", "builtins.list", "astype", "numpy.copy") and t.args[1]:
        return lift(s, t.args[1][0], tabs)
    if s.facts.ndim(t) == 0 or not contains(t, lambda x: x.op in ("map", "index")):
        return None, None, t
    if t.op in ("lin", "mono", "pow") or t.op == "call" and callee(t) in ELEM:
        got = []

        def g(x):
            r = lift(s, x, tabs)
            got.append(r)
            return r[2]
        if t.op == "call":
            r = mk("call", t.args[0], tuple(g(a) for a in t.args[1]), t.args[2])
        elif t.op == "lin":
            r = add(*[scale(g(m), k) if m is not None else const(k) for m, k in t.args[0]])
        elif t.op == "mono":
            r = const(1)
            for b, e in t.args[0]:
                r = mul(r, powr(g(b), const(e)))
        else:
            r = powr(g(t.args[0]), g(t.args[1]))
        tb = {(x[0], x[1]) for x in got if x[0] is not None}
        if len(tb) > 1:
            raise Unknown("several tables in one local value")
        return (*(tb.pop() if tb else (None, None)), r)
    raise Unknown("local value: " + show(t, 4)[:160])


def same_obs(a, b):
    return a is b or callee(a) == "builtins.tuple" and len(a.args[1]) == 1 and a.args[1][0] is b or callee(b) == "builtins.tuple" and len(b.args[1]) == 1 and b.args[1][0] is a


def canon(s, t, tabs):
    """cell arrays as parameters"""
    sub = {}
    for tb in tabs.values():
        sub[tb.counts] = CNT
        sub[mk("len", tb.counts)] = sub[mk("len", tb.keys)] = KN
    t = subst(t, sub)
    t = transform(t, lambda x: KN if x.op == "len" and callee(x.args[0]) == "collections.Counter" else x)

    def f(x):
        if x.op == "map" and x.args[0] in (KN,):
            return unmap(s, x)
        if x.op == "call" and callee(x) == "collections.Counter":
            return x
        if x.op == "len" and callee(x.args[0]) == "collections.Counter":
            return KN
        if callee(x) in ("numpy.asarray", "numpy.array") and len(x.args[1]) == 1 and s.facts.ndim(x.args[1][0]) == 1:
            return x.args[1][0]
        return x
    return transform(t, f)


def mean(s, l, tabs):
    """mean over the observations of the local values l, as a sum over cells"""
    tb, mask, r = lift(s, l, tabs)
    if tb is None:
        return r
    w = canon(s, tb.counts, tabs)
    n = tb.n
    r = canon(s, r, tabs)
    if mask is not None:
        w = mk("index", w, canon(s, mask, tabs))
        s.facts.declare(w, kind="ndarray", ndim=1)
    return div(total(s, mul(w, r)), n)


def total(s, t):
    return E.np_reduce(s.I, "numpy.sum", t, ())


def prepare(s, *ts):
    s.facts.declare(KN, kind="int", lower=1)
    s.facts.declare(CNT, kind="ndarray", ndim=1, len=KN, shape=(KN,))
    tabs = {}
    for t in ts:
        tabs.update(tables(s, t))
    return tabs


def fold(s, t):
    """facts that became decidable"""
    def f(x):
        if x.op == "attr" and x.args[1] == "ndim":
            d = s.facts.ndim(x.args[0])
            if d is not None:
                return const(d)
        return x
    return transform(t, f)


def compare(s, l, g):
    """yields (case, N, mean of l, g) in canonical form for every case of the outer conditions"""
    sub = {}
    for t in (l, g):
        for x in walk(t):
            if callee(x) == "numpy.unique" and len(x.args[1]) == 1 and kw(x, "axis") in (None, NONE):
                d = x.args[1][0]
                if d.op != "param" and s.facts.ndim(d) in (1, None):
                    p = sub.setdefault(d, mk("param", f"observations{len(sub)}"))
                    n = E.length(s.I, d)
                    s.facts.declare(p, kind="ndarray", ndim=1, len=n, shape=(n,))
    yield from _cases(s, subst(l, sub), subst(g, sub), 6)


def distinct(s, t):
    """the values of {key_i: v_i} over distinct keys are the v_i"""
    tabs = [tb.keys for tb in tables(s, t).values()]

    def f(x):
        if x.op == "values" and callee(x.args[0]) == "builtins.dict" and x.args[0].args[1] and x.args[0].args[1][0].op == "zip" and x.args[0].args[1][0].args[0] in tabs:
            return x.args[0].args[1][0].args[1]
        return x
    return transform(t, f)


def _cases(s, l, g, depth):
    l, g = (distinct(s, fold(s, positive(t))) for t in (l, g))
    cs = conds(l) + conds(g)
    cs = [c for c in dict.fromkeys(cs)]
    if cs and depth:
        c = cs[-1]
        if c.op == "not":
            c = c.args[0]
        for v in (True, False):
            for case, n, a, b in _cases(s, assume(l, c, v), assume(g, c, v), depth - 1):
                yield [(c, v)] + case, n, a, b
        return
    tabs = prepare(s, l, g)
    ns = {tb.n for tb in tabs.values()}
    n = ns.pop() if len(ns) == 1 else None
    yield [], n, mean(s, l, tabs), total_of(s, canon(s, g, tabs))


def total_of(s, t):
    def f(x):
        if x.op == "call" and x.args[0] in ("numpy.sum", "numpy.mean") and len(x.args[1]) == 1:
            return E.np_reduce(s.I, x.args[0], x.args[1][0], x.args[2])
        return x
    return transform(t, f)


# ------------------------------------------------------------------ differences of closed sums
def expand(s, t, n):
    """log of a product as a sum of logs; digamma(n+1) = digamma(n) + 1/n; sum of the counts is N"""
    def f(x):
        if x.op == "call" and callee(x) == "numpy.log" and len(x.args[1]) == 1:
            ps = lin_parts(x.args[1][0])
            if len(ps) == 1 and ps[0][1] > 0:
                m, c = ps[0]
                return add(*([mk("call", "numpy.log", (const_frac(c),), ())] if c != 1 else []), *[scale(mk("call", "numpy.log", (b,), ()), e) for b, e in mono_parts(m)] if m is not None else [])
        if x.op == "call" and x.args[0] == "numpy.sum":
            return E.np_reduce(s.I, x.args[0], x.args[1][0], x.args[2])
        return x
    for _ in range(2):
        t = transform(t, f)
    return num(subst(t, {mk("call", "numpy.sum", (CNT,), ()): n}))


def num(t):
    """0.0 and 0"""
    return transform(t, lambda x: const(int(cval(x))) if x.op == "const" and isinstance(cval(x), float) and cval(x) == int(cval(x) if abs(cval(x)) < 1e15 else 0) else x)


def const_frac(c):
    return scale(const(1), c)


def closed(t):
    """t consists only of sums over cells of products of elementary functions of the count, N, K and parameters"""
    for x in walk(t):
        if x.op in ("param", "const", "lin", "mono", "pow", "ext"):
            continue
        if x.op == "call" and callee(x) in ("numpy.log", "numpy.sum", "scipy.special.digamma"):
            continue
        return False
    return True
