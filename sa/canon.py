"""Normal form of real-valued expressions in the regular case: distances, densities and observed counts are positive.

Rewriting only (no evaluation): logarithms and powers of products of positive factors are expanded, common factors of sums
are pulled out under log and power, gamma values at half-integers are folded, elementwise functions commute with
expand_dims, the counts of a count table sum to the number of observations, choices are decided case by case.
"""
from __future__ import annotations
import math
from .terms import *
from .models import callee, kw
from . import ext as E
from . import cells

ZERO, ONE = const(0), const(1)
EMPTY = mk("empty")
EW1 = ("numpy.log", "numpy.exp", "numpy.sqrt", "numpy.abs", "scipy.special.digamma", "scipy.special.gamma", "numpy.isnan")


def is_query(b):
    return b.op == "index" and is_query(b.args[0]) or b.op == "mcall" and b.args[0] == "query"


def eqnum(t, v):
    return is_num(t) and cval(t) == v


def is_counts(x):
    """the occurrence counts of a count table"""
    if x.op != "index" or callee(x.args[0]) != "numpy.unique" or not is_num(x.args[1]) or kw(x.args[0], "return_counts") is not TRUE:
        return False
    k = 1 + sum(1 for o in ("return_index", "return_inverse") if kw(x.args[0], o) is TRUE)
    return cval(x.args[1]) in (k, -1)


class Canon:
    def __init__(self, s, positive=(), known=()):
        self.s, self.pos = s, set(positive)
        self.known = dict(known)

    # ---------------------------------------------------------------- signs
    def lower(self, x):
        """a number the expression is not below (in the regular case), None unknown"""
        if is_num(x):
            return cval(x)
        if is_counts(x):
            return 1
        if x.op == "len":
            return 1
        if x.op == "param":
            b = self.s.facts.meta.get(x, {}).get("lower")
            return b
        if x.op == "lin":
            for m, c in x.args[0]:
                a = m.args[1][0] if m is not None and callee(m) in ("numpy.min", "builtins.min", "numpy.amin", "numpy.max", "numpy.amax") and not m.args[2] else m
                if a is not None and is_counts(a) and c == -1 and self.known.get(self.single(a)) is False and add(x, m) is self.total(a):
                    return 1
            t = 0
            for m, c in x.args[0]:
                if m is None:
                    t += c
                    continue
                b = self.lower(m)
                if b is None or c < 0:
                    return None
                t += c * b
            return t
        if x.op == "mono" and all(e > 0 for _, e in x.args[0]):
            t = 1
            for b, e in x.args[0]:
                y = self.lower(b)
                if y is None or y < 0:
                    return None
                t *= y ** e
            return t
        if self.positive(x):
            return 0
        return None

    def positive(self, x):
        if x in self.pos:
            return True
        if is_num(x):
            return cval(x) > 0
        if x.op in ("mono",):
            return all(self.positive(b) or e.denominator == 1 and e.numerator % 2 == 0 for b, e in x.args[0])
        if x.op == "pow":
            return self.positive(x.args[0])
        if x.op == "ext":
            return x.args[0].split(".")[-1] in ("pi", "e", "euler_gamma", "inf")
        if x.op == "param":
            m = self.s.facts.meta.get(x, {})
            lo = m.get("lower")
            return lo is not None and (lo > 0 or lo == 0 and 0 in (m.get("ne") or ()))
        if is_counts(x):
            return True
        if x.op == "index":
            return is_query(x.args[0]) or self.positive(x.args[0])
        if x.op == "values":
            return callee(x.args[0]) == "collections.Counter"
        if x.op == "map":
            return self.positive(x.args[1])
        if x.op == "setitem":
            return self.positive(x.args[0])
        if x.op == "mcall" and x.args[0] == "query_ball_point":
            return True
        if x.op == "mcall" and x.args[0] in ("__call__", "evaluate", "pdf"):
            return True
        if x.op == "attr" and x.args[1] == "T":
            return self.positive(x.args[0])
        if x.op == "len":
            return True
        n = callee(x)
        if n in ("numpy.exp", "scipy.special.gamma", "math.gamma"):
            return True
        if n in ("numpy.sqrt", "numpy.abs", "numpy.asarray", "astype", "numpy.copy", "numpy.expand_dims", "numpy.sum", "numpy.mean", "numpy.squeeze", "numpy.ravel", "numpy.prod"):
            return self.positive(x.args[1][0])
        if x.op == "phi":
            return self.positive(x.args[1]) and self.positive(x.args[2])
        if x.op == "lin" and len(x.args[0]) == 1 and x.args[0][0][0] is not None:
            m, c = x.args[0][0]
            sg = 1 if c > 0 else -1
            for b, e in mono_parts(m):
                if self.positive(b) or e.denominator == 1 and e.numerator % 2 == 0:
                    continue
                if e.denominator == 1 and b.op == "lin" and (neg(b) in self.pos or neg(self.content(b)[1]) in self.pos):
                    sg = -sg
                else:
                    return False
            return sg > 0
        if x.op == "lin":
            if all(c > 0 and (m is None or self.positive(m)) for m, c in x.args[0]):
                return True
            g, r = self.content(x)
            if g is not None and self.positive(g):
                return self.positive(r)
            lo = [(m, c) for m, c in x.args[0] if m is not None]
            k = sum(c for m, c in x.args[0] if m is None)
            if all(c > 0 for _, c in lo):
                ls = [self.lower(m) for m, _ in lo]
                if None not in ls:
                    return sum(c * b for (_, c), b in zip(lo, ls)) + k > 0
            lw = self.lower(x)
            return lw is not None and lw > 0
        return False

    # ---------------------------------------------------------------- rewriting
    def content(self, x):
        """common monomial and sign of a sum: x = content * rest"""
        parts = [(dict(mono_parts(m)), c) for m, c in lin_parts(x)]
        common = {}
        for b, e in parts[0][0].items():
            es = [p.get(b, 0) for p, _ in parts]
            if all(v > 0 for v in es):
                common[b] = min(es)
            elif all(v < 0 for v in es):
                common[b] = max(es)
        k = Fraction(0)
        for _, c in parts:
            k = Fraction(math.gcd(k.numerator * c.denominator, c.numerator * k.denominator), k.denominator * c.denominator)
        if not common and k in (0, 1):
            return None, x
        k = k or Fraction(1)
        g = scale(ONE, k)
        for b, e in common.items():
            g = mul(g, powr(b, const(e) if e.denominator != 1 else const(int(e))))
        r = add(*[scale(self.mono({b: e - common.get(b, 0) for b, e in p.items()}), c / k) for p, c in parts])
        if len(parts) == 1 or g.op == "lin" and len(g.args[0]) > 1 or g is x or r is x:
            return None, x
        return g, r

    def mono(self, d):
        r = ONE
        for b, e in d.items():
            if e != 0:
                r = mul(r, powr(b, const(int(e)) if e.denominator == 1 else const(e)))
        return r

    def log(self, a):
        if eqnum(a, 1):
            return ZERO
        if a.op == "ext" and a.args[0].split(".")[-1] == "e":
            return ONE
        ps = lin_parts(a)
        if len(ps) == 1 and not is_num(a):
            m, c = ps[0]
            fs = mono_parts(m)
            if self.pos:
                for i, (b, e) in enumerate(fs):
                    if b.op == "lin" and e.denominator == 1 and neg(b) in self.pos:
                        fs = fs[:i] + type(fs)([(neg(b), e)]) + fs[i + 1:]
                        c = -c if e.numerator % 2 else c
            if c > 0 and (c != 1 or len(fs) > 1 or fs[0][1] != 1) and sum(1 for b, e in fs if not self.positive(b)) <= 1:
                return add(self.log(scale(ONE, c)) if c != 1 else ZERO, *[scale(self.log(b), e) for b, e in fs])
        if a.op == "pow" and self.positive(a.args[0]):
            return mul(a.args[1], self.log(a.args[0]))
        if callee(a) == "numpy.exp":
            return a.args[1][0]
        if a.op == "lin":
            g, r = self.content(a)
            if g is not None:
                return add(self.log(g), self.log(r))
        if a.op == "phi":
            return phi(a.args[0], self.log(a.args[1]), self.log(a.args[2]))
        if is_num(a):
            try:
                f = Fraction(cval(a))
            except (ValueError, OverflowError):
                f = None
            if f is not None and f > 0 and f.denominator != 1:
                return sub(self.log(const(f.numerator)), self.log(const(f.denominator)))
            if f is not None and f > 1:
                n, out = f.numerator, ZERO
                for p in (2, 3, 5, 7):
                    while n % p == 0:
                        n //= p
                        out = add(out, mk("call", "numpy.log", (const(p),), ()))
                return out if n == 1 else add(out, mk("call", "numpy.log", (const(n),), ()))
        return mk("call", "numpy.log", (a,), ())

    def power(self, a, b):
        if eqnum(a, 1):
            return ONE
        if a.op == "pow" and self.positive(a.args[0]):
            return self.power(a.args[0], mul(a.args[1], b))
        if callee(a) == "numpy.exp":
            return mk("call", "numpy.exp", (mul(a.args[1][0], b),), ())
        ps = lin_parts(a)
        if len(ps) == 1:
            m, c = ps[0]
            fs = mono_parts(m)
            if c > 0 and (c != 1 or len(fs) > 1 or fs and fs[0][1] != 1) and all(self.positive(x) for x, _ in fs):
                out = ONE
                if c != 1:
                    out = mk("pow", scale(ONE, c), b) if not is_num(b) else powr(scale(ONE, c), b)
                for x, e in fs:
                    out = mul(out, self.power(x, scale(b, e)))
                return out
        if a.op == "lin":
            g, r = self.content(a)
            if g is not None and self.positive(g):
                return mul(self.power(g, b), self.power(r, b))
        # a ** (n + b): split the integer part only of a fully numeric exponent
        return powr(a, b)

    def node(self, x):
        s = self.s
        n = callee(x)
        if x.op == "const" and isinstance(cval(x), float) and not isinstance(cval(x), bool) and cval(x) == cval(x) and abs(cval(x)) < 1e15:
            v = cval(x)
            if v == int(v):
                return const(int(v))
        if n in ("numpy.copy", "numpy.ascontiguousarray") and len(x.args[1]) == 1:
            return x.args[1][0]
        if n == "numpy.asarray" and len(x.args[1]) == 1 and not x.args[2] and s.facts.kind(x.args[1][0]) == "ndarray":
            return x.args[1][0]
        if n == "astype" and len(x.args[1]) == 2 and x.args[1][1].op == "ext" and x.args[1][1].args[0] in ("builtins.float", "numpy.float64"):
            return x.args[1][0]
        if n == "numpy.log" and len(x.args[1]) == 1 and not x.args[2]:
            return self.log(x.args[1][0])
        if n in ("numpy.log2", "numpy.log10") and len(x.args[1]) == 1:
            return div(self.log(x.args[1][0]), self.log(const(2 if n.endswith("2") else 10)))
        if n == "numpy.sqrt":
            return powr(x.args[1][0], const(Fraction(1, 2)))
        if n in ("scipy.special.gamma", "math.gamma") and is_num(x.args[1][0]):
            return self.gamma(x)
        if x.op == "pow":
            return self.power(*x.args)
        if x.op == "mono":
            # powers with a common exponent of one base
            out, pw, ex = ONE, {}, ZERO
            for b, e in x.args[0]:
                if b.op == "pow":
                    pw[b.args[0]] = add(pw.get(b.args[0], ZERO), scale(b.args[1], e))
                elif callee(b) == "numpy.exp":
                    ex = add(ex, scale(b.args[1][0], e))
                elif b.op == "lin" and len(b.args[0]) > 1:
                    g, r = self.content(b)
                    k = const(int(e)) if e.denominator == 1 else const(e)
                    if e.denominator == 1 and neg(r) in self.pos:
                        out = mul(out, scale(powr(neg(r), k), -1 if e.numerator % 2 else 1))
                        if g is not None:
                            out = mul(out, powr(g, k))
                    elif g is not None and (e.denominator == 1 or self.positive(g)):
                        out = mul(out, mul(powr(g, k), powr(r, k)))
                    else:
                        out = mul(out, powr(b, k))
                else:
                    out = mul(out, powr(b, const(int(e)) if e.denominator == 1 else const(e)))
            for b, e in pw.items():
                out = mul(out, self.power(b, e))
            if ex is not ZERO:
                out = mul(out, mk("call", "numpy.exp", (ex,), ()))
            return out
        if x.op == "setitem":
            a, c, v = x.args
            if c.op == "cmp" and c.args[0] == "==" and (eqnum(c.args[1], 0) and self.positive(c.args[2]) or eqnum(c.args[2], 0) and self.positive(c.args[1])):
                return a
            if c is FALSE or callee(c) == "numpy.isnan":
                return a
        if x.op == "index" and is_query(x.args[0]) and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and x.args[1].args[0].op == "slice" and is_num(x.args[1].args[1]) and cval(x.args[1].args[1]) in (0, -1):
            q = x.args[0].args[0]
            k = dict(q.args[3]).get("k") if q.op == "mcall" else None
            if k is not None and k.op in ("list", "tuple") and len(k.args) == 1:
                k = k.args[0]
                q2 = mk("mcall", q.args[0], q.args[1], q.args[2], tuple(sorted([(a, v) for a, v in q.args[3] if a != "k"] + [("k", k)])))
                return mk("index", mk("index", q2, x.args[0].args[1]), mk("tuple", x.args[1].args[0], sub(k, ONE)))
            if k is not None and eqnum(k, 1) and not eqnum(x.args[1].args[1], -1):
                return x.args[0]          # the only neighbour
        if x.op == "elem" and x.args[0].op == "common":
            return mk("index", *x.args[:2])
        if x.op == "index":
            a, c = x.args
            if c is TRUE or c.op == "cmp" and self.always(c):
                return a
            if callee(c) in ("numpy.ones_like", "builtins.bool") and c.args[1][0] is TRUE:
                return a
            if callee(c) in ("bitand", "numpy.logical_and"):
                rest = [m for m in c.args[1] if not (m.op == "cmp" and self.always(m))]
                if len(rest) < len(c.args[1]):
                    return self.node(mk("index", a, rest[0])) if rest else a
            if c.op == "cmp" and is_counts(a) and c.args[0] in ("<", "!=") and a in c.args[1:] and (c.args[2] if c.args[1] is a else c.args[1]) is self.total(a) and (c.args[0] == "!=" or c.args[1] is a):
                # a count is below the number of observations unless there is one cell
                one = self.single(a)
                return a if self.known.get(one) is False else EMPTY if self.known.get(one) is True else phi(one, EMPTY, a)
            if c.op == "tuple" and len(c.args) == 2 and is_query(a) and c.args[0].op == "slice":
                q = a
                while q.op == "index":
                    q = q.args[0]
                k = dict(q.args[3]).get("k") if len(q.args) > 3 else None
                if k is None and len(q.args[2]) > 1:
                    k = q.args[2][1]
                if k is not None and eqnum(c.args[1], -1):
                    return mk("index", a, mk("tuple", c.args[0], sub(k, ONE)))
        if x.op == "cmp" and x.args[0] in ("==", "!=", "<", "<=") and len(x.args) == 3 and all(self.scalar(y) for y in x.args[1:]):
            v = self.decide(x)
            if v is not None:
                return const(v)
            return self.condition(x)
        if n == "numpy.expand_dims" and len(x.args[1]) == 2:
            a, ax = x.args[1]
            if s.facts.ndim(a) in (1, None) or True:
                r = self.push(a, ax)
                if r is not None:
                    return r
        if x.op == "call" and n in ("numpy.sum", "numpy.mean") and len(x.args[1]) == 1:
            y = x.args[1][0]
            if is_counts(y) and not x.args[2] and n == "numpy.sum":
                return self.total(y)
            if not x.args[2] and contains(y, lambda z: z.op == "map"):
                r = self.by_cells(n, y)
                if r is not None:
                    return r
            els = self.unroll(y) if n == "numpy.sum" and not x.args[2] else None
            if els is not None:
                return add(*els)
            if n == "numpy.sum" and not x.args[2] and y.op == "map" and len(y.args) == 2:
                r = self.sum_map(y)
                if r is not None:
                    return r
            return E.np_reduce(s.I, n, y, x.args[2])
        if x.op == "mcall" and x.args[0] in ("query", "query_ball_point") and x.args[3]:
            kws = [(k, v) for k, v in x.args[3] if k != "workers"]
            pos = list(x.args[2])
            if x.args[0] == "query" and len(pos) > 1:
                kws.append(("k", pos.pop(1)))
            if x.args[0] == "query" and dict(kws).get("p") is const(2):
                kws = [(k, v) for k, v in kws if k != "p"]
            return mk("mcall", x.args[0], x.args[1], tuple(pos), tuple(sorted(kws)))
        if x.op == "len" and x.args[0].op == "attr" and x.args[0].args[1] == "T":
            y = x.args[0].args[0]
            sh = s.facts.shape(y) if hasattr(s.facts, "shape") else s.facts.meta.get(y, {}).get("shape")
            if sh is not None and len(sh) == 2:
                return sh[1]
        if x.op == "mcall" and x.args[0] in ("pdf", "__call__") and callee(x.args[1]) == "scipy.stats.gaussian_kde":
            return mk("mcall", "evaluate", *x.args[1:])
        if x.op == "call" and n == "builtins.list" and len(x.args[1]) == 1 and x.args[1][0].op == "common":
            return x.args[1][0]
        if n == "numpy.unique" and len(x.args[1]) == 1 and not x.args[2] or n == "builtins.set" and len(x.args[1]) == 1 and x.args[1][0].op != "common":
            d = x.args[1][0]
            return d if n == "builtins.set" and self.keys(d) else mk("index", mk("call", "numpy.unique", (d,), (("return_counts", TRUE),)), ZERO) if n == "numpy.unique" else x
        if x.op == "mcall" and x.args[0] == "union":
            parts = self.united(x)
            if len(parts) > 1:
                parts = sorted(set(parts), key=lambda y: show(y, 20))
                y = mk("mcall", "union", parts[0], tuple(parts[1:]), ())
                if y is not x:
                    return y
        if x.op == "filtermap" and len(x.args) == 3 and x.args[1].op == "cmp" and x.args[1].args[0] == "in" and x.args[1].args[1] is x.args[2] and x.args[0].op == "len":
            b, other = x.args[2], x.args[1].args[2]
            if callee(other) == "builtins.dict" and len(other.args[1]) == 1 and other.args[1][0].op == "zip":
                other = other.args[1][0].args[0]
            if b.op == "index" and b.args[0] is x.args[0].args[0] and b.args[1].op == "bv" and self.keys(b.args[0]) and self.keys(other):
                return mk("common", *sorted((b.args[0], other), key=lambda y: show(y, 20)))
        ab = None
        if x.op == "mcall" and x.args[0] == "intersection" and len(x.args[2]) == 1:
            ab = x.args[1], x.args[2][0]
        elif n in ("bitand", "numpy.intersect1d") and len(x.args[1]) == 2:
            ab = x.args[1]
        if ab is not None and all(self.keys(y) for y in ab):
            return mk("common", *sorted(ab, key=lambda y: show(y, 20)))
        if x.op == "dmap":
            r = self.table(x)
            if r is not None:
                return r
        if x.op == "values":
            r = self.values(x.args[0])
            if r is not None:
                return r
        if n in ("builtins.list", "numpy.asarray", "numpy.fromiter") and len(x.args[1]) == 1 and not x.args[2]:
            y = x.args[1][0]
            if y.op in ("map", "list") and all(self.scalar_item(z) for z in (y.args if y.op == "list" else y.args[1:2])) or y.op == "phi" and all(z.op in ("map", "list") or s.facts.ndim(z) == 1 for z in y.args[1:]) or s.facts.ndim(y) == 1:
                return y
        if x.op == "len" and x.args[0] is EMPTY:
            return ZERO
        if x.op == "len" and x.args[0].op == "phi":
            return phi(x.args[0].args[0], *[self.node(mk("len", y)) for y in x.args[0].args[1:]])
        if x.op == "len" and x.args[0].op == "index" and callee(x.args[0].args[0]) == "numpy.unique":
            return mk("len", mk("index", x.args[0].args[0], ZERO))
        return x

    def scalar_item(self, z):
        return z.op in ("lin", "mono", "const", "phi") or self.s.facts.ndim(z) == 0

    def values(self, d):
        """the values of a dictionary in the order of its keys"""
        if callee(d) == "builtins.dict" and len(d.args[1]) == 1 and d.args[1][0].op == "zip" and len(d.args[1][0].args) == 2:
            k, v = d.args[1][0].args
            if self.keys(k) or k.op == "keys":
                return v
        if d.op == "dict" and all(k.op == "tuple" and all(is_num(z) for z in k.args) or k.op == "const" for k, _ in d.args[0]):
            vs = [v for _, v in d.args[0] if v.op != "absent"]
            if vs and not any(contains(v, lambda y: y.op == "absent") for v in vs) and len({k for k, _ in d.args[0]}) == len(d.args[0]):
                return mk("list", *vs)
        if d.op == "setitem" and d.args[0].op == "dict" and not d.args[0].args[0]:
            return mk("list", d.args[2])
        if d.op == "phi":
            return phi(d.args[0], mk("values", d.args[1]), mk("values", d.args[2]))
        if d.op == "dmap" and d.args[0].op == "dict" and not d.args[0].args[0] and d.args[1].op == "len":
            n, k, v = d.args[1:4]
            if k.op == "elem" and k.args[0] is n.args[0] and k.args[1].op == "bv" and (k.args[0].op == "common" or k.args[0].op == "mcall" and k.args[0].args[0] == "union"):
                return mk("map", n, v)          # the keys are the distinct elements of a set
        if d.op == "dmap" and d.args[0].op == "dict" and not d.args[0].args[0] and not contains(d.args[2], lambda y: y.op == "mcall"):
            n, k, v = d.args[1:4]
            if n.op == "len" and self.renaming(k, n.args[0]):
                return mk("map", n, v)
        return None

    def united(self, x):
        """the operands of a union of sets"""
        if x.op == "mcall" and x.args[0] == "union" and not x.args[3]:
            return [p for y in (x.args[1],) + x.args[2] for p in self.united(y)]
        if x.op == "set" and not x.args or callee(x) == "builtins.set" and not x.args[1]:
            return []
        return [x]

    def renaming(self, k, c):
        """a table giving distinct constants to the keys of c"""
        e = [y for y in walk(k) if y.op == "elem"]
        if len(e) != 1 or callee(c) != "collections.Counter" or e[0].args[0] not in (c, mk("keys", c)):
            return False
        if k is e[0]:
            return True
        seen = set()
        while k.op == "phi":
            cc = k.args[0]
            if cc.op != "cmp" or cc.args[0] != "==" or e[0] not in cc.args[1:] or k.args[1] in seen or contains(k.args[1], lambda y: y.op == "elem"):
                return False
            seen.add(k.args[1])
            k = k.args[2]
        return k not in seen and not contains(k, lambda y: y.op == "elem")

    def unroll(self, y):
        """the elements of an elementwise expression over list displays"""
        ls = {z for z in walk(y) if z.op == "list"}
        if not ls or len({len(z.args) for z in ls}) != 1:
            return None
        if not self.pointwise(y):
            return None
        m = len(next(iter(ls)).args)
        return [subst(y, {z: z.args[i] for z in ls}) for i in range(m)]

    def pointwise(self, y):
        if y.op == "list":
            return True
        if y.op in ("lin", "mono", "pow", "phi") or callee(y) in EW1:
            return all(self.pointwise(z) for z in children(y))
        return not contains(y, lambda z: z.op in ("list", "map", "values")) and (self.scalar(y) or self.s.facts.ndim(y) == 0)

    def sum_map(self, m):
        """sum over i of body(i), constant factors pulled out, one sum per term"""
        n, body = m.args
        bvs = {z for z in walk(body) if z.op == "bv"}
        if len(bvs) != 1:
            return None
        bv = bvs.pop()
        out = ZERO
        for k, c in lin_parts(body):
            free, rest = ONE, ONE
            for b, e in (mono_parts(k) if k is not None else []):
                p = powr(b, const(int(e)) if e.denominator == 1 else const(e))
                if mentions(b, bv):
                    rest = mul(rest, p)
                else:
                    free = mul(free, p)
            out = add(out, scale(mul(free, n if rest is ONE else mk("call", "numpy.sum", (mk("map", n, rest),), ())), c))
        return out

    def by_cells(self, n, y):
        """a sum over the observations of f(count of the observation) as a sum over the distinct observations"""
        tabs = cells.prepare(self.s, y)
        if len(tabs) != 1:
            return None
        try:
            tb, mask, r = cells.lift(self.s, y, tabs)
        except cells.Unknown:
            return None
        if tb is None or mask is not None:
            return None
        r = mul(tb.counts, subst(r, {cells.CNT: tb.counts, cells.KN: mk("len", tb.keys)}))
        r = mk("call", "numpy.sum", (r,), ())
        return r if n == "numpy.sum" else div(r, tb.n)

    def single(self, counts):
        """the condition that the table has one cell"""
        return self.condition(cmp("==", ONE, mk("len", mk("index", counts.args[0], ZERO))))

    def keys(self, t):
        """the distinct values of an array"""
        return t.op == "index" and callee(t.args[0]) == "numpy.unique" and is_num(t.args[1]) and cval(t.args[1]) == 0

    def table(self, d):
        """{keys[i]: v[i] for i} as dict(zip(keys, v))"""
        base, n, k, v = d.args[:4]
        if base.op == "dict" and not base.args[0] and k.op == "index" and k.args[1].op == "bv" and self.keys(k.args[0]):
            try:
                return mk("call", "builtins.dict", (mk("zip", k.args[0], cells.unmap(self.s, mk("map", n, v), k.args[1])),), ())
            except cells.Unknown:
                pass
        return None

    def condition(self, x):
        """0 < d, 0 <= d, 0 == d with the positive factors of d removed"""
        op, a, b = x.args
        if not (self.algebraic(a) and self.algebraic(b)):
            return x
        d = sub(b, a)
        if d.op in ("lin", "mono"):
            ps = lin_parts(d)
            if len(ps) == 1:
                m, c = ps[0]
                d = scale(self.mono({y: e for y, e in mono_parts(m) if not self.positive(y)}), c / abs(c))
            else:
                g, r = self.content(d)
                if g is not None and self.positive(g):
                    d = r
        if op in ("==", "!=") and lin_parts(d)[0][1] < 0:
            d = neg(d)
        return cmp(op, ZERO, d)

    def algebraic(self, t):
        return is_num(t) and not isinstance(cval(t), bool) or t.op in ("lin", "mono", "len", "pow") or self.s.facts.kind(t) in ("int", "float")

    def scalar(self, t):
        return is_num(t) or self.s.facts.ndim(t) == 0 or t.op in ("len", "const") or t.op in ("lin", "mono") and all(self.scalar(y) for y in children(t)) or \
            t.op == "param" and self.s.facts.meta.get(t, {}).get("kind") in ("int", "float") or callee(t) in ("numpy.sum", "numpy.min", "numpy.max", "builtins.min", "builtins.max", "builtins.sum") and not t.args[2]

    def total(self, counts):
        return E.length(self.s.I, counts.args[0].args[1][0])

    def push(self, a, ax):
        """expand_dims of an elementwise expression"""
        F = self.s.facts
        if a.op == "lin":
            return add(*[const(c) if m is None else scale(self.ed(m, ax), c) for m, c in a.args[0]])
        if a.op == "mono":
            r = ONE
            for b, e in a.args[0]:
                r = mul(r, powr(self.ed(b, ax), const(int(e)) if e.denominator == 1 else const(e)))
            return r
        if a.op == "pow":
            return powr(self.ed(a.args[0], ax), self.ed(a.args[1], ax))
        if a.op == "cmp":
            return cmp(a.args[0], self.ed(a.args[1], ax), self.ed(a.args[2], ax))
        if callee(a) in EW1:
            return mk("call", a.args[0], (self.ed(a.args[1][0], ax),), ())
        if F.ndim(a) == 0:
            return a
        return None

    def ed(self, a, ax):
        if self.s.facts.ndim(a) == 0 or is_num(a):
            return a
        return self.push(a, ax) or mk("call", "numpy.expand_dims", (a, ax), ())

    def gamma(self, x):
        v = cval(x.args[1][0])
        f = Fraction(v).limit_denominator(4)
        if f != Fraction(v) or f.denominator not in (1, 2) or not 0 < f <= 30:
            return x
        if f.denominator == 1:
            return const(math.factorial(int(f) - 1))
        r = Fraction(1)
        while f > Fraction(1, 2):
            f -= 1
            r *= f
        return mul(scale(ONE, r), powr(mk("ext", "numpy.pi"), const(Fraction(1, 2))))

    def always(self, c):
        return self.decide(c) is True

    def decide(self, c):
        """truth of a comparison in the regular case"""
        op, a, b = c.args
        d = sub(b, a)
        if op in ("<", "<="):
            if self.positive(d):
                return True
            if op == "<=" and self.lower(d) is not None and self.lower(d) >= 0:
                return True
            m = neg(d)
            if self.positive(m) or op == "<" and self.lower(m) is not None and self.lower(m) >= 0:
                return False
            return None
        if eqnum(d, 0):
            return op == "=="
        if self.positive(d) or self.positive(neg(d)):
            return op == "!="
        # a product of positive factors against zero
        for u, v in ((a, b), (b, a)):
            if eqnum(u, 0) and self.positive(v):
                return op == "!="
        return None

    def __call__(self, t):
        for _ in range(6):
            n = transform(t, self.node, dict())
            if n is t:
                break
            t = n
        return t


def outer(t):
    """conditions of choices, not depending on a bound variable"""
    out = []
    for x in walk(t):
        if x.op == "phi" and not contains(x.args[0], lambda y: y.op in ("bv", "mu", "phi")):
            out += atoms(x.args[0])
    return list(dict.fromkeys(out))


def atoms(c):
    if c.op in ("and", "or", "not"):
        r = []
        for x in c.args:
            r += atoms(x)
        return r
    if c.op == "cmp" and c.args[0] == "!=":
        return [b_not(c)]
    return [c]


def assume(t, c, v):
    n = b_not(c)
    r = const(bool(v))
    t = transform(t, lambda x: r if x is c else (b_not(r) if x is n else x), dict())
    if v and c.op == "cmp" and c.args[0] == "==":
        sb = None
        for a, b in (c.args[1:], c.args[:0:-1]):
            if is_num(a) and b.op in ("param", "len"):
                sb = {b: a}
        if sb is None:
            # k*p + c == 0 with one parameter
            d = sub(c.args[1], c.args[2])
            ps = [(m, k) for m, k in lin_parts(d) if m is not None and m.op == "param"]
            if ps and ps[0][1] in (1, -1) and not any(mentions(m, ps[0][0]) for m, k in lin_parts(d) if m is not None and m is not ps[0][0]):
                m, k = ps[0]
                sb = {m: scale(sub(d, scale(m, k)), -k)}
        if sb:
            t = subst(t, sb)
    return t


def cases(s, a, b, pos=(), depth=8, known=(), skip=None):
    """yields (case, normal form of a, normal form of b)"""
    cn = Canon(s, pos, known)
    a, b = cn(a), cn(b)
    if a is b:
        yield (), a, b
        return
    cs = outer(a) + outer(b)
    if not cs or not depth:
        yield (), a, b
        return
    c = cs[0]
    for v in (True, False):
        if skip is not None and skip(c, v):
            continue
        for case, x, y in cases(s, assume(a, c, v), assume(b, c, v), tuple(assume(x, c, v) for x in pos), depth - 1, known + ((c, v),), skip):
            yield ((c, v),) + case, x, y
