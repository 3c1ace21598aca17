"""Do two extracted expressions differ?

Two value graphs whose normal forms differ may still denote the same function (an algebraic identity the normal forms
do not know).  Before a difference is reported, both graphs are compared at a few valuations of their parameters;
a graph with an operation not listed here gives no answer.  Nothing of the analysed package is involved, and an
agreement at the valuations proves nothing and is never used to discharge an obligation.
"""
from __future__ import annotations
import math
import time
from .terms import *
from .models import callee, kw
from . import ext as E

NAN = float("nan")


class NoAnswer(Exception):
    pass


def is_arr(x):
    return isinstance(x, list)


class Coo:
    """a contingency table: {coordinates: count}"""

    def __init__(self, cells, shape):
        self.cells, self.shape = {k: v for k, v in cells.items() if v}, list(shape)

    def sum(self, axis):
        if axis is None:
            return sum(self.cells.values())
        ax = [a % len(self.shape) for a in (axis if is_arr(axis) else [axis])]
        keep = [i for i in range(len(self.shape)) if i not in ax]
        if not keep:
            return sum(self.cells.values())
        out = {}
        for k, v in self.cells.items():
            k = tuple(k[i] for i in keep)
            out[k] = out.get(k, 0) + v
        return Coo(out, [self.shape[i] for i in keep])

    def dense(self):
        def go(pre):
            if len(pre) == len(self.shape):
                return self.cells.get(pre, 0)
            return [go((*pre, i)) for i in range(self.shape[len(pre)])]
        return go(())

    def data(self):
        return [self.cells[k] for k in sorted(self.cells)]

    def nonzero(self):
        return [[k[i] for k in sorted(self.cells)] for i in range(len(self.shape))]


def bcast(f, *xs):
    """element-wise with numpy broadcasting (nested lists)"""
    if not any(is_arr(x) for x in xs):
        return f(*xs)
    d = max(depth(x) for x in xs)
    ys = []
    for x in xs:
        k = depth(x)
        if is_arr(x):
            for _ in range(d - k):
                x = [x]
        ys.append((x, k > 0))
    n = max(len(x) for x, a in ys if a)
    for x, a in ys:
        if a and len(x) not in (1, n):
            raise NoAnswer("shapes")
    return [bcast(f, *[(x[i] if len(x) == n else x[0]) if a else x for x, a in ys]) for i in range(n)]


def depth(x):
    d = 0
    while is_arr(x):
        d += 1
        x = x[0] if x else 0
    return d


def flat(x):
    if not is_arr(x):
        return [x]
    return [z for y in x for z in flat(y)]


def log(x):
    if x != x:
        return NAN
    return math.log(x) if x > 0 else (-math.inf if x == 0 else NAN)


def digamma(x):
    if x <= 0 and x == int(x):
        return -math.inf
    r = 0.0
    while x < 10:
        r -= 1 / x
        x += 1
    f = 1 / (x * x)
    return r + math.log(x) - 0.5 / x - f * (1 / 12 - f * (1 / 120 - f * (1 / 252 - f * (1 / 240 - f * (1 / 132)))))


def pw(a, b):
    try:
        if a == 0 and b < 0:
            return math.inf
        r = a ** b
        return NAN if isinstance(r, complex) else r
    except (OverflowError, ZeroDivisionError):
        return NAN


def reduce_(f, x, axis):
    if axis is None:
        return f(flat(x))
    d = depth(x)
    if axis < 0:
        axis += d
    if axis == d - 1 == 0:
        return f(x)
    if axis == 0:
        return [reduce_(f, [row[j] for row in x], 0 if depth(x) == 2 else 0) if depth(x) == 2 else NAN for j in range(len(x[0]))]
    return [reduce_(f, row, axis - 1) for row in x]


def var(v, ddof):
    m = sum(v) / len(v)
    return sum((x - m) ** 2 for x in v) / (len(v) - ddof) if len(v) > ddof else NAN


def percentile(v, q, method="linear"):
    if method not in ("linear", "lower", "higher", "nearest", "midpoint"):
        raise NoAnswer("percentile method")
    if is_arr(q):
        return [percentile(v, x, method) for x in q]
    v = sorted(v)
    p = (len(v) - 1) * q / 100
    i = min(max(int(math.floor(p)), 0), len(v) - 1)
    j = min(i + 1, len(v) - 1)
    f = p - i
    if method == "lower" or f == 0:
        return v[i]
    if method == "higher":
        return v[j]
    if method == "midpoint":
        return (v[i] + v[j]) / 2
    if method == "nearest":
        if abs(f - 0.5) < 1e-9:
            raise NoAnswer("percentile half way")
        return v[i] if f < 0.5 else v[j]
    return v[i] + (v[j] - v[i]) * f


RED = {"sum": sum, "mean": lambda v: sum(v) / len(v) if v else NAN, "min": min, "max": max, "amin": min, "amax": max, "prod": lambda v: math.prod(v),
       "any": lambda v: any(v), "all": lambda v: all(v), "count_nonzero": lambda v: sum(1 for x in v if x),
       "median": lambda v: percentile(v, 50), "nansum": lambda v: sum(x for x in v if x == x), "nanmean": lambda v: (lambda w: sum(w) / len(w) if w else NAN)([x for x in v if x == x])}
EW = {"log": log, "exp": lambda x: math.exp(x) if x < 700 else math.inf, "abs": abs, "absolute": abs, "sqrt": lambda x: math.sqrt(x) if x >= 0 else NAN,
      "isnan": lambda x: x != x, "isinf": lambda x: x in (math.inf, -math.inf), "isfinite": lambda x: x == x and x not in (math.inf, -math.inf),
      "digamma": digamma, "gamma": math.gamma, "gammaln": math.lgamma, "floor": math.floor, "ceil": math.ceil, "sign": lambda x: (x > 0) - (x < 0)}


class Ev:
    def __init__(self, env):
        self.env, self.memo = dict(env), {}
        self.closed = None      # terms that occur outside every map body

    def __call__(self, t):
        if self.closed is None:
            self.closed = set()
            self.outside(t)
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        if t in self.closed:
            old = {b: self.env.pop(b) for b in list(self.env) if b.op == "bv"}
            v = self.memo[t] = self.ev(t)
            self.env.update(old)
            return v
        v = self.ev(t)
        if not contains(t, lambda x: x.op in ("bv", "mu")):
            self.memo[t] = v
        return v

    def outside(self, t):
        todo = [t]
        while todo:
            x = todo.pop()
            if x in self.closed:
                continue
            self.closed.add(x)
            if x.op in ("map", "filtermap"):
                todo.append(x.args[0])
            elif x.op == "dmap":
                todo += x.args[:2]
            elif x.op == "loopout":
                todo += [x.args[0], x.args[2]]
            elif x.op == "last":
                todo += [x.args[0], x.args[2]]
            elif x.op == "fill":
                todo += x.args[:2]
            else:
                todo.extend(children(x))

    def ev(self, t):
        o = t.op
        if o == "const":
            v = cval(t)
            return v
        if o == "ext":
            k = {"numpy.nan": NAN, "math.nan": NAN, "numpy.inf": math.inf, "math.inf": math.inf, "numpy.pi": math.pi, "math.pi": math.pi,
                 "numpy.e": math.e, "math.e": math.e, "numpy.euler_gamma": 0.5772156649015329}.get(t.args[0])
            if k is None:
                raise NoAnswer(t.args[0])
            return k
        if o == "lin":
            r = 0
            for m, k in t.args[0]:
                x = 1 if m is None else self(m)
                k = float(k) if k.denominator != 1 else int(k)
                r = bcast(lambda a, b: a + b, r, bcast(lambda a: a * k, self.num(x)))
            return r
        if o == "mono":
            r = 1
            for b, e in t.args[0]:
                e = float(e) if e.denominator != 1 else int(e)
                r = bcast(lambda a, b: a * b, r, bcast(lambda a: pw(a, e), self.num(self(b))))
            return r
        if o == "pow":
            return bcast(pw, self.num(self(t.args[0])), self.num(self(t.args[1])))
        if o == "cmp":
            op, a, b = t.args[0], self(t.args[1]), self(t.args[2])
            f = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y}.get(op)
            if f is None:
                if op in ("is", "isnot"):
                    return (a is b) == (op == "is")
                if op == "in" and isinstance(b, dict) and not isinstance(a, dict):
                    return key(a) in b
                if op == "in" and is_arr(b) and not is_arr(a):
                    return a in b
                raise NoAnswer(op)
            return bcast(f, a, b)
        if o == "not":
            return bcast(lambda x: not x, self(t.args[0]))
        if o in ("and", "or"):
            for x in t.args:
                v = self(x)
                if is_arr(v):
                    break
                if bool(v) == (o == "or"):
                    return v
            vs = [self(x) for x in t.args]
            return bcast((lambda *x: all(x)) if o == "and" else (lambda *x: any(x)), *vs)
        if o == "truth":
            return bool(self(t.args[0]))
        if o == "phi":
            c = self(t.args[0])
            if is_arr(c):
                raise NoAnswer("array condition")
            return self(t.args[1] if c else t.args[2])
        if o in ("list", "tuple"):
            return [self(x) for x in t.args]
        if o == "len":
            x = self(t.args[0])
            if isinstance(x, Coo):
                return x.shape[0]
            if not is_arr(x) and not isinstance(x, dict):
                raise NoAnswer("len")
            return len(x)
        if o == "extbound":
            c = t.args[0]
            if (callee(c) or "").endswith("contingency.crosstab") and t.args[1] in ("count", const("count")) and len(c.args[1]) >= 2:
                vs = [self(x) for x in c.args[1]]
                us = [sorted(set(v)) for v in vs]
                cells = {}
                for k in zip(*[[u.index(y) for y in v] for u, v in zip(us, vs)]):
                    cells[k] = cells.get(k, 0) + 1
                return Coo(cells, [len(u) for u in us])
            raise NoAnswer("extbound")
        if o in ("keys", "values", "items"):
            x = self(t.args[0])
            if not isinstance(x, dict):
                raise NoAnswer(o)
            return [list(y) if o == "items" else y for y in getattr(x, o)()]
        if o == "zip":
            return [list(r) for r in zip(*[self(x) for x in t.args])]
        if o == "set":
            return uniq([self(x) for x in t.args])
        if o == "dict":
            return {key(self(k)): self(v) for k, v in t.args[0]}
        if o == "dmap":
            d = dict(self(t.args[0]))
            lv = own_level(t, self.env)
            n, old = int(self(t.args[1])), self.env.get(lv)
            for i in range(n):
                self.env[lv] = i
                d[key(self(t.args[2]))] = self(t.args[3])
            self.env.pop(lv, None)
            if old is not None:
                self.env[lv] = old
            return d
        if o == "attr" and t.args[1] == "kind" and t.args[0].op == "attr" and t.args[0].args[1] == "dtype":
            v = flat(self(t.args[0].args[0]))
            if all(isinstance(y, bool) for y in v) or not all(isinstance(y, (int, float)) for y in v):
                raise NoAnswer("kind")
            return "i" if all(isinstance(y, int) for y in v) else "f"
        if o == "attr":
            x = self(t.args[0])
            if isinstance(x, Coo):
                v = {"data": x.data, "nnz": lambda: len(x.cells), "size": lambda: math.prod(x.shape), "ndim": lambda: len(x.shape), "shape": lambda: x.shape}.get(t.args[1])
                if v is None:
                    raise NoAnswer("." + t.args[1])
                return v()
            if t.args[1] == "size":
                return len(flat(x))
            if t.args[1] == "ndim":
                return depth(x)
            if t.args[1] == "strides" and depth(x) == 1:
                return [8]
            if t.args[1] == "T":
                return x if depth(x) < 2 else [list(r) for r in zip(*x)]
            if t.args[1] == "shape":
                return [len(x)] + ([len(x[0])] if depth(x) == 2 else [])
            raise NoAnswer("." + t.args[1])
        if o == "index":
            return self.index(t)
        if o == "elem":
            x = self(t.args[0])
            return (list(x) if isinstance(x, dict) else x)[self(t.args[1])]
        if o in ("map", "filtermap"):
            n = self(t.args[0])
            lv = own_level(t, self.env)
            out, old = [], self.env.get(lv)
            for i in range(int(n)):
                self.env[lv] = i
                if o == "map" or truth(self(t.args[1])):
                    out.append(self(t.args[-1]))
            self.env.pop(lv, None)
            if old is not None:
                self.env[lv] = old
            return out
        if o in ("loopout", "last", "fill"):
            n, init = self(t.args[0] if o != "fill" else t.args[1]), t.args[2] if o != "fill" else t.args[0]
            if init.op == "undef" and n < 1:
                raise NoAnswer("unset")
            init = None if init.op == "undef" else self(init)
            lv = own_level(t, self.env)
            mu = carried(t) if o == "loopout" else None
            old = {x: self.env[x] for x in (lv, mu) if x in self.env}
            v = init if o != "fill" else list(init)
            for i in range(int(n)):
                self.env[lv] = i
                if o == "fill":
                    v[i] = self(t.args[2])
                    continue
                if o == "last" and i < n - 1:
                    continue
                self.env[mu] = v
                v = self(t.args[1])
            for x in (lv, mu):
                self.env.pop(x, None)
            self.env.update(old)
            return v
        if o == "call":
            return self.call(t)
        if o == "draw":
            return self.quiet(t)
        if o == "mcall":
            return self.mcall(t)
        if o == "setitem":
            a, ix, v = (self(x) for x in t.args)
            if isinstance(a, dict):
                return {**a, key(ix): v}
            if is_arr(a) and is_arr(ix) and len(a) == len(ix) and all(isinstance(x, bool) for x in ix) and not is_arr(v):
                return [v if i else x for x, i in zip(a, ix)]
            raise NoAnswer("setitem")
        raise NoAnswer(o)

    def quiet(self, t):
        raise NoAnswer("random draw")

    def mcall(self, t):
        name, recv, a, kws = t.args[0], t.args[1], t.args[2], dict(t.args[3])
        if callee(recv) in ("scipy.spatial.KDTree", "scipy.spatial.cKDTree") and name in ("query", "query_ball_point"):
            pts = rows(self(recv.args[1][0]))
            q = rows(self(a[0]))
            p = self(kws["p"]) if "p" in kws else 2
            if set(kws) - {"k", "p", "workers", "r", "return_length"}:
                raise NoAnswer(str(sorted(kws)))
            if name == "query":
                k = self(kws["k"] if "k" in kws else a[1])
                if is_arr(k) and k and all(isinstance(v, int) and 1 <= v <= len(pts) for v in k):
                    near = [[sorted((dist(x, y, p), j) for j, y in enumerate(pts))[v - 1] for v in k] for x in q]
                    return [[[d for d, _ in r] for r in near], [[j for _, j in r] for r in near]]
                if not isinstance(k, int) or k < 2 or k > len(pts):
                    raise NoAnswer("k")
                near = [sorted((dist(x, y, p), j) for j, y in enumerate(pts))[:k] for x in q]
                return [[[d for d, _ in r] for r in near], [[j for _, j in r] for r in near]]
            if kws.get("return_length") is not TRUE:
                raise NoAnswer("query_ball_point")
            r = self(kws["r"] if "r" in kws else a[1])
            rs = r if is_arr(r) else [r] * len(q)
            return [sum(1 for y in pts if dist(x, y, p) <= rr) for x, rr in zip(q, rs)]

        if name in ("intersection", "union") and len(a) == 1:
            x, y = ([key(v) for v in self(z)] for z in (recv, a[0]))
            return sorted(set(x) & set(y) if name == "intersection" else set(x) | set(y))
        if name == "get" and 1 <= len(a) <= 2:
            x = self(recv)
            if not isinstance(x, dict):
                raise NoAnswer("get")
            return x.get(key(self(a[0])), self(a[1]) if len(a) > 1 else None)
        if callee(recv) == "scipy.stats.gaussian_kde" and name == "evaluate":
            return gauss(self(recv.args[1][0]), self(dict(recv.args[2])["bw_method"] if recv.args[2] else recv.args[1][1]), self(a[0]))
        if name in ("sum", "nonzero") and not a:
            x = self(recv)
            if isinstance(x, Coo):
                if name == "nonzero":
                    return x.nonzero()
                if set(kws) - {"axis"}:
                    raise NoAnswer("sum")
                return x.sum(self(kws["axis"]) if "axis" in kws else None)
        if name in RED and not a and not set(kws) - {"axis"}:
            return reduce_(RED[name], self(recv), self(kws["axis"]) if "axis" in kws else None)
        if name == "round" and not kws:
            return self(mk("call", "numpy.round", (recv,) + tuple(a), ()))
        if name == "astype":
            return self.cast(self(recv), a[0] if a else kws.get("dtype"))
        if name == "cumprod" or name == "copy" or name == "flatten":
            x = self(recv)
            ax = self(kws["axis"]) if "axis" in kws else None
            if name == "cumprod" and (depth(x) == 1 or ax in (1, -1)):
                return [cum(r) for r in x] if depth(x) == 2 else cum(x)
            if name != "cumprod":
                return flat(x) if name == "flatten" else x
        raise NoAnswer("." + name)

    def cast(self, x, to):
        """the values of x as numbers of the type `to`"""
        name = None
        if to is not None and to.op in ("ext", "class"):
            name = str(to.args[0]).rsplit(".", 1)[-1]
        elif to is not None and to.op == "const" and to.args[0] == "str":
            name = to.args[1]
        elif to is not None and to.op == "attr" and to.args[1] == "dtype":
            name = "int" if all(isinstance(y, int) and not isinstance(y, bool) for y in flat(self(to.args[0]))) else "float"
        if name is None:
            raise NoAnswer("astype")
        if name.startswith(("int", "uint")):
            def f(y):
                if isinstance(y, float) and (math.isnan(y) or math.isinf(y)):
                    raise NoAnswer("int of nan")
                return int(y)
        elif name.startswith("float"):
            f = float
        elif name.startswith("bool"):
            f = bool
        else:
            raise NoAnswer(f"astype {name}")
        return bcast(f, x)

    def num(self, x):
        if isinstance(x, str) or x is None:
            raise NoAnswer("not a number")
        return x

    def index(self, t):
        b, ix = t.args
        if callee(b) == "numpy.unique" and b.args[2] and is_num(ix):
            x = self(b.args[1][0])
            ax = kw(b, "axis")
            if ax is not None and (not is_num(ax) or cval(ax) != 0) and ax is not NONE:
                raise NoAnswer("axis of unique")
            if depth(x) == 2 and ax not in (None, NONE):
                x = [key(r) for r in x]
            elif depth(x) != 1:
                raise NoAnswer("unique of rows")
            u = sorted(set(x))
            parts = [u]
            if kw(b, "return_index") is TRUE:
                parts.append([x.index(v) for v in u])
            if kw(b, "return_inverse") is TRUE:
                parts.append([u.index(v) for v in x])
            if kw(b, "return_counts") is TRUE:
                parts.append([x.count(v) for v in u])
            return [list(y) if isinstance(y, tuple) else y for y in parts[cval(ix)]]
        if callee(b) == "builtins.dict" and len(b.args[1]) == 1 and b.args[1][0].op == "zip" and len(b.args[1][0].args) == 2:
            k, v = (self(y) for y in b.args[1][0].args)
            return dict(zip(map(key, k), v))[key(self(ix))]
        if callee(b) == "scipy.sparse.find" and is_num(ix):
            x = self(b.args[1][0])
            if not isinstance(x, Coo) or len(x.shape) != 2:
                raise NoAnswer("find")
            ks = sorted(x.cells, key=lambda k: k[::-1])
            return [[k[0] for k in ks], [k[1] for k in ks], [x.cells[k] for k in ks]][cval(ix)]
        x = self(b)
        if isinstance(x, dict):
            return x[key(self(ix))]
        if isinstance(x, Coo) or ix.op == "tuple" and depth(x) == len(ix.args) > 1 and not any(y.op == "slice" or y is NONE for y in ix.args):
            k = self(ix)
            if is_arr(k) and k and all(depth(y) == 1 for y in k) and len(k) == (len(x.shape) if isinstance(x, Coo) else depth(x)):
                if isinstance(x, Coo):
                    v = [x.cells.get(c, 0) for c in zip(*k)]
                    return Coo({(i,): y for i, y in enumerate(v)}, [len(v)])
                out = []
                for c in zip(*k):
                    y = x
                    for i in c:
                        y = y[i]
                    out.append(y)
                return out
            if isinstance(x, Coo):
                raise NoAnswer("cells")
        if ix.op == "tuple" and all(y.op == "slice" and all(z is NONE for z in y.args) or y is NONE for y in ix.args):
            if [y is NONE for y in ix.args] == [True, False] and depth(x) == 1:
                return [x]
            if [y is NONE for y in ix.args] == [False, True] and depth(x) == 1:
                return [[y] for y in x]
        if ix.op == "tuple" and depth(x) >= len(ix.args) and any(y.op == "slice" for y in ix.args):
            return self.grid(x, ix.args)
        if ix.op == "slice":
            return x[slice(*[self(a) for a in ix.args])]
        i = self(ix)
        if isinstance(i, bool):
            raise NoAnswer("bool index")
        if isinstance(i, int) and is_arr(x):
            if not -len(x) <= i < len(x):
                raise NoAnswer("out of range")
            return x[i]
        if is_arr(i) and is_arr(x) and depth(i) == 1 and i:
            if all(isinstance(k, bool) for k in i) and len(i) == len(x):
                return [v for v, k in zip(x, i) if k]
            if all(isinstance(k, int) and not isinstance(k, bool) for k in i):
                return [x[k] for k in i]
        if is_arr(i) and is_arr(x) and depth(i) == 2 and all(isinstance(k, int) and not isinstance(k, bool) for k in flat(i)):
            return [[x[k] for k in r] for r in i]
        raise NoAnswer("index")

    def grid(self, x, ix):
        if not ix:
            return x
        if ix[0].op == "slice":
            return [self.grid(y, ix[1:]) for y in x[slice(*[self(a) for a in ix[0].args])]]
        i = self(ix[0])
        if not isinstance(i, int) or isinstance(i, bool):
            raise NoAnswer("index")
        return self.grid(x[i], ix[1:])

    def call(self, t):
        n = callee(t)
        if n is None:
            raise NoAnswer("call")
        b = n.split(".")[-1]
        a = t.args[1]
        kws = dict(t.args[2])
        if n == "sparse.COO":
            kws = dict(zip(("coords", "data", "shape"), a)) | kws
            if set(kws) - {"coords", "data", "shape", "fill_value"} or "shape" not in kws or "fill_value" in kws and self(kws["fill_value"]) != 0:
                raise NoAnswer("sparse.COO")
            cells, d = {}, self(kws["data"])
            for i, k in enumerate(zip(*self(kws["coords"]))):
                k = tuple(k)
                v = d[i] if is_arr(d) else d
                cells[k] = cells.get(k, 0) + (int(v) if v == int(v) else v)
            sh = self(kws["shape"])
            if any(not 0 <= c < m for k in cells for c, m in zip(k, sh)):
                raise NoAnswer("coordinates")
            return Coo(cells, sh)
        if n == "sparse.asnumpy" and len(a) == 1:
            x = self(a[0])
            return x.dense() if isinstance(x, Coo) else x
        if n == "collections.Counter" and len(a) == 1:
            out = {}
            for x in self(a[0]):
                out[key(x)] = out.get(key(x), 0) + 1
            return out
        if b == "as_strided" and set(kws) <= {"shape", "strides", "writeable"} and len(a) + len(kws) >= 3:
            x, sh, st = (self(y) for y in (list(a) + [kws[k] for k in ("shape", "strides") if k in kws])[:3])
            if depth(x) != 1 or len(sh) != 2:
                raise NoAnswer("as_strided")
            return [[x[(i * st[0] + j * st[1]) // 8] for j in range(sh[1])] for i in range(sh[0])]
        if n == "apply_along_axis" or b == "apply_along_axis":
            x = self(a[2])
            if a[0].op == "ext" and a[0].args[0] in ("numpy.array", "numpy.asarray") and not kws:
                return x
            if a[0].op == "ext" and a[0].args[0] == "numpy.argsort" and self(a[1]) in (1, -1) and depth(x) == 2 and not set(kws) - {"stable"}:
                return [argsort(r) for r in x]
            if a[0].op == "lam" and len(a[0].args) == 2 and depth(x) == 2 and self(a[1]) in (1, -1):
                rs = [y for y in walk(a[0]) if y.op == "row" and y.args[0] is a[2]]
                if len(rs) == 1:
                    return [Ev({**self.env, rs[0]: r})(a[0].args[1]) for r in x]
            raise NoAnswer(n)
        if b == "argsort" and len(a) == 1 and not set(kws) - {"stable", "kind", "axis"}:
            x = self(a[0])
            if depth(x) == 1:
                return argsort(x)
            if depth(x) == 2 and ("axis" not in kws or self(kws["axis"]) in (1, -1)):
                return [argsort(r) for r in x]
            raise NoAnswer(n)
        if n.startswith(("numpy.", "builtins.", "math.", "scipy.special.")) or n in ("truediv", "astype", "bitand", "bitor", "invert", "floordiv", "mod"):
            if b in ("ravel", "sum", "count_nonzero", "nonzero") and len(a) == 1:
                x = self(a[0])
                if isinstance(x, Coo):
                    if b == "count_nonzero" and not kws:
                        return len(x.cells)
                    if b == "nonzero":
                        return x.nonzero()
                    if b == "sum" and not set(kws) - {"axis"}:
                        return x.sum(self(kws["axis"]) if "axis" in kws else None)
                    if b == "ravel" and not kws:
                        return flat(x.dense())
                    raise NoAnswer(b)
                if b == "ravel":
                    return flat(x)
            if b == "take" and len(a) == 2 and not kws:
                x, i = self(a[0]), self(a[1])
                x = flat(x.dense() if isinstance(x, Coo) else x)
                return bcast(lambda k: x[k], i)
            if b == "clip" and len(a) == 3 and not kws:
                lo, hi = self(a[1]), self(a[2])
                return bcast(lambda v: v if v != v else max(v, lo) if hi is None else min(max(v, lo), hi) if lo is not None else min(v, hi), self(a[0]))
            if b in RED and a and b != "min" and b != "max" or b in ("min", "max") and len(a) == 1:
                if set(kws) - {"axis"}:
                    raise NoAnswer(str(kws))
                ax = self(kws["axis"]) if "axis" in kws else (self(a[1]) if len(a) > 1 else None)
                x = self(a[0])
                if not flat(x) and b in ("min", "max", "amin", "amax"):
                    raise NoAnswer("empty")
                return reduce_(RED[b], x, ax)
            if b in ("min", "max"):
                return (min if b == "min" else max)(*[self(x) for x in a])
            if b in ("maximum", "minimum"):
                return bcast(max if b == "maximum" else min, self(a[0]), self(a[1]))
            if b in ("std", "var", "nanstd"):
                dd = self(kws["ddof"]) if "ddof" in kws else 0
                v = var(flat(self(a[0])), dd)
                return math.sqrt(v) if b != "var" else v
            if b in EW and len(a) == 1 and not kws:
                return bcast(EW[b], self.num(self(a[0])))
            if b in ("asarray", "array", "copy", "list", "tuple", "ascontiguousarray", "ravel", "float", "float64", "squeeze"):
                return self(a[0])
            if n in ("numpy.round", "numpy.around", "numpy.round_") and not set(kws) - {"decimals"}:
                d = self(a[1]) if len(a) > 1 else self(kws["decimals"]) if "decimals" in kws else 0
                m = 10.0 ** abs(d)
                f = lambda y: y if isinstance(y, int) and d >= 0 or math.isinf(y) or math.isnan(y) else round(y * m) / m if d >= 0 else round(y / m) * m
                return bcast(f, self.num(self(a[0])))
            if n == "astype":
                return self.cast(self(a[0]), a[1] if len(a) > 1 else kws.get("dtype"))
            if b == "array_split" and not set(kws) - {"axis", "indices_or_sections"}:
                n_ = self(a[1] if len(a) > 1 else kws["indices_or_sections"])
                if not isinstance(n_, int):
                    raise NoAnswer(n)
                return parts(self(a[0]), n_, self(kws["axis"]) if "axis" in kws else self(a[2]) if len(a) > 2 else 0)
            if b in ("concatenate", "hstack", "vstack") and len(a) == 1 and not set(kws) - {"axis"}:
                xs = [x for x in self(a[0])]
                if not xs or not all(is_arr(x) for x in xs):
                    raise NoAnswer(n)
                ds = {depth(x) for x in xs if x}
                if len(ds) != 1:
                    raise NoAnswer(n)
                ax = 0 if b == "vstack" else self(kws["axis"]) if "axis" in kws else 0
                if b == "hstack":
                    ax = 0 if ds == {1} else 1
                if ax in (0, -1) and ds == {1}:
                    return [y for x in xs for y in x] if b != "vstack" else xs
                if ax == 0 and ds == {2}:
                    return [y for x in xs for y in x]
                if ax in (1, -1) and ds == {2}:
                    if len({len(x) for x in xs}) != 1:
                        raise NoAnswer("shapes")
                    return [[y for r in rs for y in r] for rs in zip(*xs)]
                raise NoAnswer(n)
            if b == "column_stack" and len(a) == 1 and not kws:
                return [[y for c in cs for y in (c if is_arr(c) else [c])] for cs in zip(*self(a[0]))]
            if b == "unique" and not kws and len(a) == 1:
                return uniq(self(a[0]))
            if b == "set":
                return uniq(self(a[0])) if a else []
            if n == "builtins.dict" and len(a) == 1 and not kws:
                x = self(a[0])
                return x if isinstance(x, dict) else {key(k): v for k, v in x}
            if b == "int":
                return int(self(a[0]))
            if b == "bool":
                return bool(self(a[0]))
            if b == "len":
                return len(self(a[0]))
            if b in ("percentile", "quantile"):
                q = self(a[1]) if len(a) > 1 else self(kws["q"])
                if b == "quantile":
                    q = bcast(lambda x: 100 * x, q)
                m = self(kws["method"]) if "method" in kws else "linear"
                return percentile(flat(self(a[0])), q, m if isinstance(m, str) else "linear")
            if b == "truediv":
                return bcast(lambda x, y: x / y if y else (NAN if x == 0 or x != x else math.copysign(math.inf, x)), self(a[0]), self(a[1]))
            if n == "mod":
                return bcast(lambda x, y: x % y if y else NAN, self.num(self(a[0])), self.num(self(a[1])))
            if n == "floordiv":
                return bcast(lambda x, y: x // y, self(a[0]), self(a[1]))
            if b in ("bitand", "logical_and"):
                return bcast(lambda x, y: bool(x and y), self(a[0]), self(a[1]))
            if b in ("bitor", "logical_or"):
                return bcast(lambda x, y: bool(x or y), self(a[0]), self(a[1]))
            if b in ("invert", "logical_not"):
                return bcast(lambda x: not x, self(a[0]))
            if b == "nextafter" and len(a) == 2:
                return bcast(lambda x, y: math.nextafter(x, y), self(a[0]), self(a[1]))
            if b == "spacing" and len(a) == 1:
                return bcast(math.ulp, self(a[0]))
            if b == "arange":
                v = [self(x) for x in a]
                return list(range(*v))
            if b == "expand_dims":
                ax = self(a[1])
                x = self(a[0])
                return [x] if ax == 0 else [[y] for y in x] if depth(x) == 1 else self.no("expand_dims")
            if b == "where" and len(a) == 3:
                return bcast(lambda c, x, y: x if c else y, *[self(x) for x in a])
            if b == "cumprod":
                x = self(a[0])
                ax = self(kws["axis"]) if "axis" in kws else None
                if depth(x) == 1 or ax in (1, -1):
                    return [cum(r) for r in x] if depth(x) == 2 else cum(x)
                raise NoAnswer("cumprod")
            if b in ("zeros", "ones") and not is_arr(self(a[0])):
                return [0.0 if b == "zeros" else 1.0] * self(a[0])
            if b in ("zeros_like", "ones_like"):
                return bcast(lambda x: 0.0 if b == "zeros_like" else 1.0, self(a[0]))
            if b in ("comb",) and not kws:
                return math.comb(self(a[0]), self(a[1]))
            if b == "factorial":
                return math.factorial(self(a[0]))
        raise NoAnswer(n)

    def no(self, w):
        raise NoAnswer(w)


def gauss(data, h, at):
    """kernel density with the covariance of the data scaled by h^2; rows are dimensions"""
    if depth(data) == 2:
        if len(data) != 1:
            if depth(at) != 2 or len(at) != len(data) or len(data[0]) < 2:
                raise NoAnswer("density in several dimensions")
            return gauss_n(data, h, at)
        data, at = data[0], at[0]
    if len(data) < 2:
        raise NoAnswer("too few points")
    v = var(data, 1) * h * h
    return [sum(math.exp(-(x - y) ** 2 / (2 * v)) for y in data) / len(data) / math.sqrt(2 * math.pi * v) for x in at]


def gauss_n(data, h, at):
    d, n = len(data), len(data[0])
    mu = [sum(r) / n for r in data]
    A = [[h * h * sum((data[i][t] - mu[i]) * (data[j][t] - mu[j]) for t in range(n)) / (n - 1) for j in range(d)] for i in range(d)]
    L = [[0.0] * d for _ in range(d)]
    for i in range(d):
        for j in range(i + 1):
            z = A[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            if i == j:
                if z <= 1e-9:
                    raise NoAnswer("singular covariance")
                L[i][i] = math.sqrt(z)
            else:
                L[i][j] = z / L[j][j]
    norm = math.prod(L[i][i] for i in range(d)) * (2 * math.pi) ** (d / 2) * n
    out = []
    for p in zip(*at):
        s = 0.0
        for q in zip(*data):
            y = []
            for i in range(d):
                y.append((p[i] - q[i] - sum(L[i][k] * y[k] for k in range(i))) / L[i][i])
            s += math.exp(-sum(v * v for v in y) / 2)
        out.append(s / norm)
    return out


def parts(x, n, axis):
    """numpy.array_split"""
    if axis not in (0, 1, -1, -2) or not 1 <= n:
        raise NoAnswer("array_split")
    if depth(x) == 2 and axis in (1, -1):
        rs = [parts(r, n, 0) for r in x]
        return [[r[i] for r in rs] for i in range(n)]
    q, r = divmod(len(x), n)
    out, a = [], 0
    for i in range(n):
        b = a + q + (i < r)
        out.append(x[a:b])
        a = b
    return out


def key(x):
    return tuple(key(y) for y in x) if is_arr(x) else x


def uniq(x):
    return sorted({key(y) for y in x})


def argsort(r):
    if len(set(r)) < len(r):
        raise NoAnswer("ties")
    return sorted(range(len(r)), key=r.__getitem__)


def truth(x):
    if is_arr(x):
        raise NoAnswer("array condition")
    return bool(x)


def own_level(t, env):
    """the index variable a map binds"""
    lv = E.LEVEL.get(t)
    if lv is not None:
        return lv
    lv = E.own(t)
    if lv is None:
        return mk("bv", "unused")
    if lv in env and t.op != "dmap":
        raise NoAnswer("map level")
    return lv


def carried(t):
    """the variable a loop carries (its value before the pass)"""
    f = set()

    def go(x):
        if x.op == "mu":
            f.add(x)
        elif x.op == "loopout":
            for y in (x.args[0], x.args[2]):
                go(y)
            m = carried(x)
            for y in walk(x.args[1]):
                if y.op == "mu" and y.args[0] < m.args[0]:
                    f.add(y)
        else:
            for y in children(x):
                go(y)
    if len(t.args) > 3:
        raise NoAnswer("break")
    go(t.args[1])
    deep = [m for m in f if m.args[0] == max(m.args[0] for m in f)]
    if len(deep) != 1:
        raise NoAnswer("variables of a loop")
    return deep[0]


def rows(x):
    if depth(x) != 2:
        raise NoAnswer("points")
    return x


def dist(x, y, p):
    d = [abs(a - b) for a, b in zip(x, y)]
    return max(d) if p == math.inf else sum(v ** p for v in d) ** (1 / p)


def cum(r):
    out, p = [], 1
    for x in r:
        p *= x
        out.append(p)
    return out


def close(a, b, tol=1e-9):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    if is_arr(a) or is_arr(b):
        return is_arr(a) and is_arr(b) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def at(t, env):
    """the value of an expression, or of a documented definition given as a function of the valuation"""
    return Ev(env)(t) if isinstance(t, T) else t(env)


def separate(a, b, envs, more=False, ties=True):
    """the first valuation at which a and b differ, None when they agree at all, NoAnswer when one cannot be read

    more: try valuations around the given ones as well"""
    n, err = 0, "no valuation"
    for env in envs:
        try:
            x, y = at(a, env), at(b, env)
        except (NoAnswer, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, KeyError) as e:
            err = e
            continue
        n += 1
        if not close(x, y):
            return env, x, y
    if not n:
        raise NoAnswer(str(err))
    return explore(a, b, envs, ties) if more else None


def reads(t, envs):
    for env in envs:
        try:
            return Ev(env)(t)
        except (NoAnswer, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, KeyError):
            pass
    return None


# --- valuations around a given one ------------------------------------------------------------------------------------

ALT = {"k": (1, 3, 4), "base": (10.0, 1.5), "minkowski_p": (1.0, 2.0, math.inf), "alpha": (0.5, 2.5), "q": (0.5, 2.5), "bandwidth": (0.125, 2.5, 2.0 ** -15, 96.0), "K": (3, 40, 200), "embedding_dim": (3,),
       "src_hist_len": (1, 3), "dest_hist_len": (1, 3), "cond_hist_len": (1, 3), "step_size": (2,), "prop_time": (1, 2), "offset": (2,)}


def noise(i, j, s):
    x = (i * 2654435761 + j * 40503 + s * 97) & 0xFFFFFFFF
    x ^= x >> 15
    x = x * 2246822519 & 0xFFFFFFFF
    return (x ^ x >> 13) % 1024


def is_series(v):
    return is_arr(v) and len(v) > 1 and all(isinstance(y, (int, float)) and not isinstance(y, bool) for y in (flat(v[:2])))


def lengths_of(env):
    """parameters that denote the length of a series"""
    ls = {len(v) for v in env.values() if is_series(v)}
    return [p for p, v in env.items() if p.op == "param" and str(p.args[0])[:1] in "NM" and isinstance(v, int) and not isinstance(v, bool) and v in ls]


def reshape(env, n, f):
    """series of length n(len), value i of series s from f(old, i, j, s)"""
    out = dict(env)
    for p in lengths_of(env):
        out[p] = n(env[p])
    for p, v in env.items():
        if not is_series(v):
            continue
        s = sum(map(ord, str(p.args[0]))) if p.op == "param" else 7
        new = []
        for i in range(n(len(v))):
            if is_arr(v[0]):
                new.append([f([r[j] for r in v], i, j, s) for j in range(len(v[0]))])
            else:
                new.append(f(v, i, 0, s))
        out[p] = new
    return out


def longer(old, i, j, s):
    if i < len(old):
        return old[i]
    r = noise(i, j, s)
    x = old[r % len(old)]
    return x if isinstance(x, int) else x + ((r * 7) % 256 - 128) / 64


def shaken(old, i, j, s):
    if isinstance(old[i], int):
        return old[i]
    return old[i] + (noise(i, j, s + 5) - 512) * 2.0 ** (math.frexp(max(old) - min(old) or 1.0)[1] - 18)


def thresholds(*gs):
    """numbers that parameters are compared with"""
    out = {}
    seen = set()
    for g in gs:
        for t in walk(g):
            if t.op == "cmp" and t not in seen:
                seen.add(t)
                for a, b in (t.args[1:3], t.args[2:0:-1]):
                    if is_num(a) and not is_num(b):
                        ps = {x for x in walk(b) if x.op == "param"}
                        for p in ps:
                            if isinstance(cval(a), (int, float)) and not isinstance(cval(a), bool) and len(ps) == 1:
                                out.setdefault(p, set()).add(cval(a))
    return out


def around(env, *gs, ties=True):
    """(valuation, exact) in the neighbourhood of one: longer series, other signs, scales, multiplicities and settings"""
    ser = [v for v in env.values() if is_series(v)]
    if not ser:
        return
    ints = all(isinstance(x, int) for v in ser for x in flat(v))
    mx = max(len(v) for v in ser)
    grow = lambda m: reshape(env, lambda n: n * m if ints or mx < 20 else n, longer)
    yield grow(4), False
    if ints:
        yield grow(25), True
        yield reshape(env, lambda n: n * 25, lambda o, i, j, s: longer(o, i, j, s) if noise(i, j, s) % 3 else o[0]), True
        yield reshape(env, lambda n: n * 4, lambda o, i, j, s: 1 + (noise(i, j, s) * (i % 5)) % (2 + i)), True
        yield reshape(env, lambda n: n, lambda o, i, j, s: 3 * o[i] - 2), True
        yield reshape(env, lambda n: n, lambda o, i, j, s: -o[i]), True
        yield reshape(env, lambda n: n, lambda o, i, j, s: o[i] * 70001), True
        if mx < 60:
            yield reshape(env, lambda n: n * 12, lambda o, i, j, s: (i * 7 + s) % 83), True
    else:
        yield reshape(env, lambda n: n, lambda o, i, j, s: -o[i] - 1), False
        yield reshape(env, lambda n: n, lambda o, i, j, s: o[i] * 0.015625), False
        yield reshape(env, lambda n: n, lambda o, i, j, s: o[i] * 64 + 128), False
        yield reshape(env, lambda n: n, lambda o, i, j, s: o[i] * 2 ** -14), False
        yield reshape(env, lambda n: n, lambda o, i, j, s: o[i] * 2 ** 14), False
        yield reshape(env, lambda n: n, lambda o, i, j, s: o[i] * 2.0 ** -44), False
        if ties:
            yield reshape(env, lambda n: n + 5, lambda o, i, j, s: o[i] if i < len(o) else o[0] if i - len(o) < 4 else o[1]), True
            yield reshape(env, lambda n: 2 * n, lambda o, i, j, s: float(round(longer(o, i, j, s)))), True
    wide = {p: v for p, v in env.items() if is_series(v) and is_arr(v[0])}
    if wide:
        for d in (1, 3, 7):
            e = dict(env)
            for p, v in wide.items():
                e[p] = [[x if j == 0 else (x + noise(i, j, 3) % 3 if isinstance(x, int) else x / 2 + (noise(i, j, 3) - 512) / 128) for j in range(d) for x in (r[0],)] for i, r in enumerate(v)]
                n = P_("d_" + str(p.args[0]))
                if n in env:
                    e[n] = d
            yield e, ints
    big = grow(4)
    th = thresholds(*gs)
    for p in env:
        if p.op != "param" or is_arr(env[p]):
            continue
        for v in ALT.get(p.args[0], ()):
            if v != env[p]:
                yield {**big, p: v}, False
                if p.args[0] == "k" and v + 2 <= min(len(x) for x in ser):
                    yield {**env, p: v}, False
        for v in sorted(th.get(p, ())):
            if p in lengths_of(env):
                for d in (v - 1, v, v + 1):
                    if 4 <= d <= (400 if ints else 120):
                        yield reshape(env, lambda n, d=d: int(d) if n == env[p] else n, longer), False
            elif isinstance(env[p], int) and not isinstance(env[p], bool):
                for d in (v - 1, v, v + 1):
                    if 1 <= d < 40 and d == int(d) and d != env[p]:
                        yield {**grow(8), p: int(d)}, False
            elif isinstance(env[p], float):
                for d in (v * 0.875, v * 1.125):
                    if d > 0 and v not in (0, 1):
                        yield {**big, p: d}, False


def P_(n):
    return mk("param", n)


SPENT = [0.0]


def explore(a, b, envs, ties=True, limit=6.0, total=90.0):
    """a valuation near the given ones at which a and b differ, seen also when the data are slightly moved"""
    t0 = time.process_time()
    def diff(e):
        try:
            x, y = at(a, e), at(b, e)
        except (NoAnswer, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, KeyError, RecursionError):
            return None
        if x is None or y is None:
            return None
        fx, fy = flat(x) if is_arr(x) else [x], flat(y) if is_arr(y) else [y]
        if any(isinstance(z, (dict, str)) or z is None or not math.isfinite(z) for z in fx + fy):
            return None
        return None if close(x, y, 1e-7) else (e, x, y)
    try:
        for env in envs[:4]:
            for e, exact in around(env, *[t for t in (a, b) if isinstance(t, T)], ties=ties):
                if time.process_time() - t0 > limit or SPENT[0] + time.process_time() - t0 > total:
                    return None
                d = diff(e)
                if d and (exact or diff(reshape(e, lambda n: n, shaken))):
                    return d
    finally:
        SPENT[0] += time.process_time() - t0
    return None
