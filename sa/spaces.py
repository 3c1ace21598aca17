"""Decoding of value graphs into statements about joint spaces.

A *block* is an array of observations (one or several columns) that stands for one random variable:
the i-th variable, the condition, the source past, the target past, the target future.  Joint spaces are
sets of blocks.  The decoders below recognise the primitives from which every estimator of a composite
measure is built (entropy objects, contingency counts, neighbour counts, densities) and give the coefficient
with which each joint space enters the result.  A form that is not recognised raises Unknown (undecided);
a form that is recognised and inconsistent raises Wrong (a violation).
"""
from __future__ import annotations
from fractions import Fraction
from .terms import *
from .models import callee, kw, kw_m


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


F0, F1 = Fraction(0), Fraction(1)
CONVERT = ("astype", "numpy.asarray", "numpy.array", "numpy.copy", "numpy.ascontiguousarray", "numpy.squeeze", "sparse.asnumpy", "numpy.ravel", "numpy.float64", "builtins.list")
CONVM = ("astype", "copy", "ravel", "todense", "toarray", "flatten", "tocsr", "tocoo", "view")


def is_full(t):
    return t.op == "slice" and all(x is NONE for x in t.args)


def unconv(t):
    """strip value-preserving conversions"""
    while True:
        if t.op == "call" and callee(t) in CONVERT and t.args[1]:
            t = t.args[1][0]
        elif t.op == "mcall" and t.args[0] in CONVM:
            t = t.args[1]
        elif t.op == "phi" and unconv(t.args[1]) is unconv(t.args[2]):
            t = unconv(t.args[1])
        else:
            return t


# ------------------------------------------------------------------ blocks
def cols(t):
    """the blocks an observation array consists of"""
    t = unconv(t)
    n = callee(t)
    if t.op in ("tuple", "list"):
        return [c for x in t.args for c in cols(x)]
    if n in ("numpy.concatenate", "numpy.hstack", "numpy.column_stack", "numpy.stack", "numpy.dstack", "numpy.vstack"):
        ax = kw(t, "axis")
        if n in ("numpy.concatenate", "numpy.stack"):
            if ax is None and len(t.args[1]) > 1:
                ax = t.args[1][1]
            if ax not in (const(1), const(-1)):
                raise Unknown("joined along another axis: " + show(t, 3))
        if n == "numpy.vstack":
            raise Unknown("vstack")
        return [c for x in t.args[1][0].args for c in cols(x)] if t.args[1][0].op in ("tuple", "list") else _unk(t)
    if n in ("numpy.expand_dims", "numpy.colvec", "numpy.atleast_2d"):
        return cols(t.args[1][0])
    if n == "numpy.reshape" or (t.op == "mcall" and t.args[0] == "reshape"):
        return cols(t.args[1][0] if t.op == "call" else t.args[1])
    if t.op == "index" and t.args[1] is const(1) and callee(t.args[0]) == "numpy.unique" and _true(kw(t.args[0], "return_inverse")) and not _true(kw(t.args[0], "return_index")):
        return cols(t.args[0].args[1][0])          # labels identify the rows
    if t.op == "index" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and is_full(t.args[1].args[0]) and t.args[1].args[1] is NONE:
        return cols(t.args[0])
    if t.op == "attr" and t.args[1] == "T" and t.args[0].op == "attr" and t.args[0].args[1] == "T":
        return cols(t.args[0].args[0])
    return [t]


def _true(t):
    return t is TRUE


def _unk(t):
    raise Unknown(show(t, 4)[:120])


# ------------------------------------------------------------------ time indices (transfer entropy)
def progression(t):
    """-> (smallest, increment, count, descending) of an arithmetic progression"""
    f, i, n, d = _progression(t)
    if is_num(i) and cval(i) < 0 or i.op == "lin" and all(c < 0 for _, c in i.args[0]):     # sizes and steps are positive
        return add(f, mul(i, sub(n, const(1)))), neg(i), n, not d
    return f, i, n, d


def _progression(t):
    t = unconv(t)
    n = callee(t)
    if n in ("numpy.arange", "range"):
        a = list(t.args[1])
        if t.args[2]:
            raise Unknown("arange keywords")
        if len(a) == 1:
            return const(0), const(1), a[0], False
        step = a[2] if len(a) > 2 else const(1)
        return a[0], step, div(sub(a[1], a[0]), step), False
    if t.op == "index" and t.args[1].op == "slice":
        s = t.args[1].args
        if s[0] is NONE and s[1] is NONE and s[2] is const(-1):
            f, i, c, d = progression(t.args[0])
            return f, i, c, not d
    if n in ("numpy.flip",) or (n == "numpy.flipud"):
        f, i, c, d = progression(t.args[1][0])
        return f, i, c, not d
    if t.op == "lin":
        fix, var = const(0), None
        for m, c in t.args[0]:
            if m is not None and _has_prog(m):
                if var is not None:
                    raise Unknown("two index sequences in one")
                var = scale(m, c)
            else:
                fix = add(fix, scale(m, c) if m is not None else _num(c))
        if var is None or var.op == "lin" and len(var.args[0]) > 1:
            raise Unknown(show(t, 4))
        f, i, c, d = progression(var) if var.op != "lin" else _scaled(var)
        return add(f, fix), i, c, d
    if t.op == "mono":
        return _scaled(t)
    raise Unknown("index sequence " + show(t, 4)[:100])


def _num(c):
    return const(int(c)) if c.denominator == 1 else const(float(c))


def _has_prog(t):
    return any(callee(x) in ("numpy.arange", "range", "numpy.linspace") for x in walk(t))


def _scaled(t):
    ps = lin_parts(t)
    m, c = ps[0]
    k, seq = _num(c), None
    for b, e in mono_parts(m):
        if _has_prog(b):
            if seq is not None or e != 1:
                raise Unknown(show(t, 4))
            seq = b
        else:
            k = mul(k, powr(b, _num(e)))
    if seq is None:
        raise Unknown(show(t, 4))
    f, i, n, d = progression(seq)
    return mul(f, k), mul(i, k), n, d


def colvec_of(t):
    """x if t is x viewed as a column"""
    n = callee(t)
    if n == "numpy.expand_dims" and (len(t.args[1]) > 1 and t.args[1][1] in (const(1), const(-1)) or kw(t, "axis") in (const(1), const(-1))):
        return t.args[1][0]
    if n == "numpy.colvec":
        return t.args[1][0]
    if t.op == "index" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and is_full(t.args[1].args[0]) and t.args[1].args[1] is NONE:
        return t.args[0]
    if (n == "numpy.reshape" and t.args[1][1:] and t.args[1][1].op == "tuple" and t.args[1][1].args == (const(-1), const(1))):
        return t.args[1][0]
    return None


def time_index(ix):
    """-> (base progression, lag progression or None): observation at base - lag"""
    ix0 = unconv(ix)
    c = colvec_of(ix0)
    if c is not None:
        b, l = time_index(c)
        if l is None:
            return b, None
    try:
        return progression(ix0), None
    except Unknown:
        pass
    if callee(ix0) == "numpy.subtract.outer":
        return progression(ix0.args[1][0]), progression(ix0.args[1][1])
    if ix0.op == "lin":
        base, lag, fix = None, None, const(0)
        for m, k in ix0.args[0]:
            if m is None:
                fix = add(fix, _num(k))
                continue
            v = colvec_of(unconv(m))
            if v is not None:
                if base is not None or k != 1:
                    raise Unknown(show(ix, 5)[:150])
                base = progression(v)
            elif _has_prog(m):
                x = scale(m, -k)
                if lag is not None:
                    raise Unknown(show(ix, 5)[:150])
                lag = progression(x)
            else:
                fix = add(fix, scale(m, k))
        if base is None or lag is None:
            raise Unknown(show(ix, 5)[:150])
        f, i, n, d = lag
        return base, (sub(f, fix), i, n, d)
    raise Unknown("time index " + show(ix, 4)[:120])


# ------------------------------------------------------------------ logs of products
def list_elems(t):
    """elements of a list-like of factors (scaled list distributes)"""
    if t.op in ("list", "tuple"):
        return list(t.args)
    if t.op == "mono":
        ls = [(b, e) for b, e in t.args[0] if b.op in ("list", "tuple") or _stack(b) is not None]
        if len(ls) == 1 and ls[0][1] == 1:
            rest = const(1)
            for b, e in t.args[0]:
                if b is not ls[0][0]:
                    rest = mul(rest, powr(b, _num(e)))
            es = list_elems(ls[0][0])
            return [mul(rest, x) for x in es]
    if t.op == "lin" and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        return [scale(x, c) for x in list_elems(m)]
    s = _stack(t)
    if s is not None:
        return s
    raise Unknown("factors " + show(t, 4)[:100])


def _stack(t):
    """columns/rows of stacked 1-D arrays, possibly sliced"""
    n = callee(t)
    if n in ("numpy.concatenate", "numpy.column_stack", "numpy.stack", "numpy.vstack", "numpy.asarray", "numpy.array", "numpy.hstack") and t.args[1] and t.args[1][0].op in ("tuple", "list"):
        return [x.args[1][0] if callee(x) in ("numpy.expand_dims", "numpy.colvec") else x for x in t.args[1][0].args]
    if t.op == "index":
        ix = t.args[1]
        if ix.op == "tuple" and len(ix.args) == 2 and is_full(ix.args[0]) and ix.args[1].op == "slice":
            ix = ix.args[1]
        if ix.op == "slice" and all(a is NONE or (is_num(a) and isinstance(cval(a), int)) for a in ix.args):
            b = _stack(t.args[0])
            if b is not None:
                return b[slice(*[None if a is NONE else cval(a) for a in ix.args])]
    return None


def factors(t, e=F1, out=None):
    """t**e as product of primitive factors {factor: exponent}"""
    out = {} if out is None else out
    t = unconv(t)
    n = callee(t)
    if is_num(t):
        out[t] = out.get(t, F0) + e
    elif t.op == "mono":
        for b, x in t.args[0]:
            factors(b, e * x, out)
    elif t.op == "lin" and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        factors(m, e, out)
        out[_num(c)] = out.get(_num(c), F0) + e
    elif n in ("numpy.prod", "numpy.multiply.reduce", "math.prod"):
        for x in list_elems(t.args[1][0]):
            factors(x, e, out)
    elif n in ("numpy.multiply",):
        for x in t.args[1][:2]:
            factors(x, e, out)
    elif n in ("numpy.divide", "numpy.true_divide", "truediv"):
        factors(t.args[1][0], e, out)
        factors(t.args[1][1], -e, out)
    else:
        out[t] = out.get(t, F0) + e
    return {k: v for k, v in out.items() if v} if e == F1 else out


# ------------------------------------------------------------------ contingency counts
class Table:
    """a contingency table: the blocks of its axes"""

    def __init__(self, t, axes, labels):
        self.t, self.axes, self.labels = t, axes, labels


def table(t):
    t = unconv(t)
    n = callee(t)
    if n == "sparse.COO":
        c = kw(t, "coords") or (t.args[1][0] if t.args[1] else None)
        if c is None or c.op not in ("tuple", "list"):
            raise Unknown("table " + show(t, 3))
        return Table(t, list(c.args), list(c.args))
    if t.op == "extbound" or (t.op == "attr" and t.args[1] == "count") or (t.op == "index" and t.args[1] is const(1)):
        c = t.args[0]
        if callee(c) is not None and callee(c).endswith("crosstab"):
            return Table(t, list(c.args[1]), [None] * len(c.args[1]))
    return None


def count(t, facts=None):
    """-> (table, axes kept, mode) for a count n_S evaluated per cell or per observation; None if t is no count"""
    t = unconv(t)
    if t.op == "attr" and t.args[1] == "data":
        b = t.args[0]
        if b.op == "index":
            tb = table(b.args[0])
            if tb is not None:
                ix = b.args[1].args if b.args[1].op == "tuple" else None
                if ix is None:
                    return None
                return _lookup(tb, list(range(len(tb.axes))), list(ix), t)
        tb = table(b)
        if tb is not None:
            return tb, tuple(range(len(tb.axes))), "cell"
    if t.op == "index":
        b, ix = t.args
        if callee(b) == "scipy.sparse.find" and ix is const(2):
            tb = table(b.args[1][0])
            if tb is not None:
                return tb, tuple(range(len(tb.axes))), "cell"
        m = margin(b)
        if m is not None and m[1]:
            return _lookup(m[0], list(m[1]), list(ix.args) if ix.op == "tuple" else [ix], t)
    if callee(t) == "numpy.take":
        m = margin(t.args[1][0])
        if m is not None and len(m[1]) == 1:
            return _lookup(m[0], list(m[1]), [t.args[1][1]], t)
    m = margin(t)
    if m is not None and not m[1]:
        return m[0], (), "N"
    if callee(t) in ("numpy.sum", "builtins.sum") and len(t.args[1]) == 1:
        m = margin(t.args[1][0])
        if m is not None:
            return m[0], (), "N"
        c = count(t.args[1][0])
        if c is not None and c[2] == "cell" and len(c[1]) == len(c[0].axes):
            return c[0], (), "N"
    return None


def margin(t):
    """-> (table, axes kept) of a marginal table (array over the kept axes)"""
    t = unconv(t)
    if t.op == "mcall" and t.args[0] == "sum":
        tb = table(t.args[1])
        if tb is None:
            return None
        ax = kw_m(t, "axis")
        if ax is None and t.args[2]:
            ax = t.args[2][0]
        n = len(tb.axes)
        if ax is None or ax is NONE:
            return tb, ()
        xs = ax.args if ax.op in ("tuple", "list") else (ax,)
        if not all(is_num(x) for x in xs):
            raise Unknown("axis " + show(ax, 3))
        drop = {cval(x) % n for x in xs}
        return tb, tuple(i for i in range(n) if i not in drop)
    if callee(t) == "numpy.sum" and len(t.args[1]) == 1 and kw(t, "axis") is not None:
        tb = table(t.args[1][0])
        if tb is not None:
            return margin(mk("mcall", "sum", tb.t, (), t.args[2]))
    tb = table(t)
    if tb is not None:
        return tb, tuple(range(len(tb.axes)))
    return None


def _axis_of(tb, x):
    """(axis, mode) an index vector belongs to"""
    x = unconv(x)
    if x.op == "index" and is_num(x.args[1]):
        b = x.args[0]
        if b.op == "mcall" and b.args[0] == "nonzero" and table(b.args[1]) is not None and table(b.args[1]).t is tb.t:
            return {cval(x.args[1])}, "cell"
        if callee(b) == "scipy.sparse.find" and table(b.args[1][0]) is not None and table(b.args[1][0]).t is tb.t:
            return {cval(x.args[1])}, "cell"
        if b.op == "attr" and b.args[1] == "coords" and unconv(b.args[0]) is tb.t:
            return {cval(x.args[1])}, "cell"
    hit = {i for i, l in enumerate(tb.labels) if l is not None and unconv(l) is x}
    if hit:
        return hit, "sample"
    raise Unknown("table lookup by " + show(x, 4)[:100])


def _lookup(tb, keep, ix, t):
    if len(keep) != len(ix):
        raise Unknown("lookup rank")
    modes = set()
    for a, x in zip(keep, ix):
        hit, m = _axis_of(tb, x)
        if a not in hit:
            raise Wrong(f"a marginal table over axis {a} is looked up with the positions of axis {sorted(hit)}: {show(t, 5)[:160]}")
        modes.add(m)
    if len(modes) != 1:
        raise Unknown("mixed lookup")
    return tb, tuple(keep), modes.pop()


# ------------------------------------------------------------------ linear form over joint spaces
class Form:
    """coefficient of every joint space in a result, with the side conditions found on the way"""

    def __init__(self, interp, measure, base=None):
        self.I, self.measure, self.base = interp, measure, base
        self.coef = {}          # (kind, S) -> Fraction
        self.blocks = {}        # role -> set of block terms
        self.settings = {}      # (kind, setting) -> set of values: must be uniform
        self.early = []         # (condition, constant) alternatives
        self.obs = set()        # lengths of the observation arrays
        self.naverage = 0
        self.bwexp = []         # bandwidth exponents
        self.npow = F0          # power of the number of observations inside logs
        self.dens = {}          # S -> coefficient of a density
        self.radius = {}        # S -> (radius, tree term)

    # -- roles
    def role(self, b):
        if self.measure in ("te", "cte") and b.op == "index":
            try:
                base, lag = time_index(b.args[1])
            except Unknown:
                lag = "?"
            ps = owners(b.args[0], self.I.facts)
            if len(ps) != 1:
                raise Unknown("block of " + str(sorted(p.args[0] for p in ps)))
            r = (next(iter(ps)).args[0], "now" if lag is None else "past")
        else:
            ps = owners(b, self.I.facts)
            if len(ps) != 1:
                raise Unknown("block of " + str(sorted(p.args[0] for p in ps)) + ": " + show(b, 4)[:120])
            r = (next(iter(ps)).args[0], "")
        self.blocks.setdefault(r, set()).add(b)
        return r

    def space(self, t):
        bs = cols(t)
        rs = [self.role(b) for b in bs]
        if len(set(rs)) != len(rs):
            raise Wrong(f"the variable {name(rs[0]) if len(rs) == 1 else [name(r) for r in rs if rs.count(r) > 1][0]} enters one joint space twice: {show(t, 4)[:200]}")
        return frozenset(rs)

    def add(self, kind, S, c):
        k = (kind, S)
        self.coef[k] = self.coef.get(k, F0) + c
        if not self.coef[k]:
            del self.coef[k]

    def setting(self, kind, val):
        self.settings.setdefault(kind, set()).add(val)

    # -- number of observations
    def is_n(self, t):
        t = unconv(t)
        if t.op == "phi":
            return self.is_n(t.args[1]) and self.is_n(t.args[2])
        c = count(t)
        if c is not None and c[2] == "N":
            return True
        if t.op == "len" and (self.cellwise(unconv(t.args[0])) or table(unconv(t.args[0])) is not None):
            return False
        if t.op == "len" or (t.op == "param" and t.args[0] == "N") or (t.op == "attr" and t.args[1] == "size") or (t.op == "lin"):
            return t.op != "lin"
        return False

    def cellwise(self, x):
        """x has one element per distinct observation (or per axis)"""
        if x.op in ("dmap", "dict", "keys", "values", "items", "set") or callee(x) in ("collections.Counter", "builtins.set", "builtins.dict"):
            return True
        if x.op == "attr" and x.args[1] == "shape":
            return True
        if x.op == "index" and callee(x.args[0]) == "numpy.unique":
            return not (kw(x.args[0], "return_inverse") is not None and x.args[1] is const(1 + (kw(x.args[0], "return_index") is not None)))
        return callee(x) == "numpy.unique"

    # -- main
    def value(self, t, c=F1, w=(0, F0, F0)):
        """add c * t; w = (inside a sum over observations/cells, power of cell counts, power of N)"""
        t0 = t
        if is_num(t):
            if cval(t) == 0:
                return
            self.constant(c * Fraction(cval(t)), w)
            return
        if t.op == "setitem" and is_num(t.args[2]) and cval(t.args[2]) == 0 and callee_any(t.args[1], ("numpy.isinf", "numpy.isnan", "numpy.isfinite")):
            return self.value(t.args[0], c, w)
        if t.op == "phi":
            a, b = t.args[1], t.args[2]
            for x, y, cond in ((a, b, t.args[0]), (b, a, b_not(t.args[0]))):
                z = unconv(x)
                if (is_num(z) and cval(z) == 0) or callee(z) in ("numpy.zeros", "numpy.zeros_like"):
                    self.early.append((cond, x))
                    return self.value(y, c, w)
            raise Unknown("two alternative results: " + show(t, 4)[:160])
        if callee(t) in ("numpy.clip", "numpy.maximum", "builtins.max") and any(is_num(x) and cval(x) == 0 for x in t.args[1][1:]):
            return self.value(t.args[1][0], c, w)
        if t.op == "lin":
            for m, k in t.args[0]:
                if m is None:
                    self.constant(c * k, w)
                else:
                    self.value(m, c * k, w)
            return
        n = callee(t)
        if n in ("numpy.asarray", "numpy.array", "builtins.list") and t.args[1][0].op == "map":
            return self.value(t.args[1][0].args[1], c, w)
        if t.op == "map":
            return self.value(t.args[1], c, w)
        if n in ("astype", "numpy.asarray", "numpy.array", "numpy.copy"):
            return self.value(t.args[1][0], c, w)
        # product
        ps = dict(t.args[0]) if t.op == "mono" else {t: F1}
        s, W, N = w
        core = []
        for b, e in ps.items():
            if callee(b) == "numpy.log" and len(b.args[1]) == 1 and (b.args[1][0] is self.base) and e < 0:
                continue
            cc = count(b)
            if cc is not None and cc[2] == "cell" and len(cc[1]) == len(cc[0].axes):
                W += e
                continue
            if cc is not None and cc[2] == "cell" or cc is not None and cc[2] == "sample":
                raise Unknown("weight " + show(b, 3))
            if self.kdecode(b) is not None:
                core.append((b, e))
                continue
            pr = self.prob(b)
            if pr is not None and pr[2] == "cell" and len(pr[1]) == pr[3]:
                W, N = W + e, N - e
                continue
            if self.is_n(b):
                self.note_n(b)
                N += e
                continue
            if b.op == "param" and e == -1 and len(ps) <= 2:
                self.scalar_w((s, W, N), "1/" + b.args[0])
                self.add("1/k", b.args[0], c)
                return
            core.append((b, e))
        if not core:
            self.constant(c, (s, W, N))
            return
        if len(core) > 1:
            # scalar * sum(weights): log(N) * sum(data)
            sums = [x for x, e in core if e == 1 and callee(x) in ("numpy.sum", "builtins.sum")]
            raise Unknown("product " + " * ".join(show(b, 3) for b, _ in core)[:200])
        b, e = core[0]
        if e != 1:
            raise Unknown("power " + show(t, 3))
        self.core(b, c, (s, W, N))

    def note_n(self, b):
        b = unconv(b)
        if b.op == "phi":
            self.note_n(b.args[1])
            self.note_n(b.args[2])
        elif count(b) is None:
            self.obs.add(b)

    def constant(self, c, w):
        s, W, N = w
        if s or W:
            raise Unknown("constant inside a sum")
        self.add("1" if N == 0 else f"N^{N}", (), c)

    def scalar_w(self, w, what):
        s, W, N = w
        if (s, W, N) in ((0, 0, 0), (1, 1, -1), (1, 0, -1)):
            return
        raise Wrong(f"{what} is not averaged over the observations (weight: {'sum of ' if s else ''}counts^{W} * N^{N})")

    def avg(self, w, mode, what):
        s, W, N = w
        if mode == "cell":
            if (s, W, N) != (1, 1, -1):
                raise Wrong(f"{what} must be averaged with weight count/N, found {'sum of ' if s else ''}counts^{W} * N^{N}")
        elif (s, W, N) not in ((0, 0, 0), (1, 0, -1)):
            raise Wrong(f"{what} must be averaged with weight 1/N, found {'sum of ' if s else ''}counts^{W} * N^{N}")
        self.naverage += 1

    def core(self, b, c, w):
        n = callee(b)
        if self.kterm(b, c, w):
            return
        if n in ("numpy.sum", "builtins.sum") and (kw(b, "axis") is None or kw(b, "axis") is NONE) and len(b.args[1]) == 1:
            if w[0]:
                raise Unknown("nested sum")
            return self.value(b.args[1][0], c, (1, w[1], w[2]))
        if b.op == "map":
            return self.value(b.args[1], c, w)
        if n in ("numpy.asarray", "numpy.array") or b.op in ("lin", "mono", "phi", "setitem"):
            return self.value(b, c, w)
        if b.op == "index" and b.args[1].op == "bv":
            return self.core(b.args[0], c, w) if b.args[0].op not in ("lin", "mono") else self.value(b.args[0], c, w)
        if b.op == "H":
            mode, cls, args, kws = b.args
            if len(args) != 1:
                raise Unknown("entropy of several arguments")
            S = self.space(args[0])
            self.setting("entropy estimator class", cls)
            self.setting("entropy parameters", tuple(kws))
            self.setting("local/global", const(mode))
            if mode == "global":
                if w != (0, 0, 0):
                    raise Wrong("a global entropy is multiplied by a sample-size factor")
            else:
                self.avg(w, "sample", "a local entropy")
            self.add("H", S, c)
            return
        if n in ("numpy.log", "math.log") and len(b.args[1]) == 1:
            for f, e in factors(b.args[1][0]).items():
                self.logfactor(f, c * e, w)
            return
        if n in ("numpy.log2", "numpy.log10"):
            raise Unknown("log2/log10")
        if n is not None and n.endswith((".digamma", ".psi")):
            return self.digamma(b.args[1][0], c, w)
        raise Unknown("term " + show(b, 5)[:200])

    def logfactor(self, f, c, w):
        if is_num(f):
            if cval(f) != 1:
                self.add("log const", f, c)
            return
        cc = count(f)
        if cc is not None:
            tb, keep, mode = cc
            if mode == "N":
                self.scalar_w(w, "log N")
                self.add("logn", frozenset(), c)
                return
            S = frozenset(r for i in keep for r in self.space(tb.axes[i]))
            self.avg(w, mode, "log of the counts of " + names(S))
            self.setting("table", tb.t)
            self.add("logn", S, c)
            return
        pr = self.prob(f)
        if pr is not None:
            S = frozenset(r for b in pr[0] for r in self.space(b))
            self.avg(w, pr[2], "log of the frequency of " + names(S))
            self.add("logn", S, c)
            self.add("logn", frozenset(), -c)
            return
        if self.is_n(f):
            self.note_n(f)
            self.npow += c
            return
        if f.op == "param" or f.op == "pow" and f.args[0].op == "param":
            self.bwexp.append((f, c))
            return
        if f.op == "phi":
            A = self.dataset(f)
        else:
            A = self.dataset(f)
        if A is not None:
            self.avg(w, "sample", "log of a density")
            self.add("logp", self.space(A), c)
            return
        raise Unknown("factor of a logarithm: " + show(f, 4)[:160])

    def dataset(self, f):
        """observations a density / neighbour count at the observations is computed from"""
        f = unconv(f)
        if f.op == "mcall" and f.args[0] == "query_ball_point":
            tree, q = f.args[1], (f.args[2][0] if f.args[2] else kw_m(f, "x"))
            if not (tree.op == "call" and callee(tree).split(".")[-1] in ("KDTree", "cKDTree")):
                raise Unknown("tree " + show(tree, 3))
            A = tree.args[1][0]
            if unconv(A) is not unconv(q):
                try:
                    same = self.space(A) == self.space(q)
                except (Unknown, Wrong):
                    same = None
                if same is False:
                    raise Wrong(f"neighbours of the points of {names(self.space(q))} are counted in the space {names(self.space(A))}")
                if same is None:
                    raise Unknown("query points")
            r = kw_m(f, "r", pos=1)
            self.setting("radius", r)
            self.setting("metric p", kw_m(f, "p", const(2), pos=2))
            return A
        if f.op == "mcall" and f.args[0] in ("evaluate", "__call__", "pdf"):
            return self.kde(f.args[1], f.args[2][0])
        if f.op == "call" and isinstance(f.args[0], T):
            return self.kde(f.args[0], f.args[1][0])
        if f.op == "phi":
            for x in (f.args[2], f.args[1]):
                try:
                    A = self.dataset(x)
                    cols(A)
                    self.space(A)
                except Unknown:
                    continue
                if A is not None:
                    other = f.args[1] if x is f.args[2] else f.args[2]
                    if owners(other, self.I.facts) != owners(A, self.I.facts):
                        raise Wrong("alternative densities are of different variables")
                    return A
        if f.op == "index" and f.args[1].op == "bv":
            return self.dataset(f.args[0])
        return None

    def kde(self, k, pts):
        if not (k.op == "call" and callee(k) and callee(k).endswith("gaussian_kde")):
            raise Unknown("density " + show(k, 3))
        A = k.args[1][0]
        self.setting("bandwidth", kw(k, "bw_method", pos=1))
        strip = lambda x: x.args[0] if x.op == "attr" and x.args[1] == "T" else x
        if A is not pts:
            raise Wrong(f"a density estimated from {show(A, 3)[:80]} is evaluated at other points {show(pts, 3)[:80]}")
        return strip(A)

    def digamma(self, x, c, w):
        """psi(n_S [+1]) with n_S a neighbour count"""
        ball, rest = None, const(0)
        x = unconv(x)
        if x.op == "param" and not self.is_n(x):
            self.scalar_w(w, "psi(k)")
            self.add("psi", ("param", x.args[0]), c)
            return
        if self.is_n(x):
            self.note_n(x)
            self.scalar_w(w, "psi(N)")
            self.add("psi", "N", c)
            return
        for m, k in lin_parts(x):
            if m is None:
                rest = add(rest, _num(k))
                continue
            y = m.args[0] if m.op == "index" and m.args[1].op == "bv" else m
            if y.op == "lin":
                for m2, k2 in y.args[0]:
                    if m2 is None:
                        rest = add(rest, _num(k * k2))
                    elif self.is_ball(m2):
                        ball, kb = (m2, k * k2) if ball is None else (None, None)
                    else:
                        rest = add(rest, scale(m2, k * k2))
            elif self.is_ball(y):
                if ball is not None:
                    raise Unknown("two neighbour counts")
                ball, kb = y, k
            else:
                rest = add(rest, scale(y, k))
        if ball is None or kb != 1:
            raise Unknown("argument of digamma " + show(x, 5)[:160])
        A = self.dataset(ball)
        self.setting("count correction", rest)
        self.avg(w, "sample", "digamma of neighbour counts")
        self.add("psi", self.space(A), c)

    def is_ball(self, y):
        y = unconv(y)
        return y.op == "mcall" and y.args[0] == "query_ball_point"

    def kterm(self, b, c, w):
        """number of occupied cells (bias corrections): weight 1/N"""
        S = self.kdecode(b)
        if S is None:
            return False
        self.kweight(w)
        if isinstance(S, int):
            self.add("K", (), c * S)
            return True
        for tb, keep in S:
            self.add("K", frozenset(r for i in keep for r in self.space(tb.axes[i])), c)
        return True

    def kdecode(self, b):
        """tables whose number of occupied cells b is; an int for a plain number of axes"""
        n = callee(b)
        if n in ("numpy.count_nonzero",):
            m = margin(b.args[1][0])
            return [m] if m is not None else None
        if b.op == "attr" and b.args[1] == "nnz":
            tb = table(unconv(b.args[0]))
            return [(tb, tuple(range(len(tb.axes))))] if tb else None
        if b.op == "attr" and b.args[1] == "ndim":
            tb = table(unconv(b.args[0]))
            return len(tb.axes) if tb else None
        if b.op == "len" or (b.op == "attr" and b.args[1] == "size"):
            x = unconv(b.args[0])
            if b.op == "len" and table(x) is not None:
                return [(table(x), (0,))]
            while x.op in ("keys", "values", "items"):
                x = x.args[0]
            C = x if callee(x) == "collections.Counter" else self.freqs(x)
            if C is not None:
                cb = self.counter(C)
                if cb is None:
                    return None
                return [(Axes(cb[0]), tuple(range(len(cb[0]))))]
            if x.op == "attr" and x.args[1] == "shape":
                tb = table(x.args[0])
                return len(tb.axes) if tb else None
            try:
                cc = count(x)
            except Unknown:
                cc = None
            if cc is not None and cc[2] == "cell" and len(cc[1]) == len(cc[0].axes):
                return [(cc[0], cc[1])]
            m = margin(x)
            if m is not None and len(m[1]) == 1:
                return [m]
        if n in ("builtins.sum", "numpy.sum") and len(b.args[1]) == 1 and b.args[1][0].op == "attr" and b.args[1][0].args[1] == "shape":
            tb = table(b.args[1][0].args[0])
            if tb is not None:
                return [(tb, (i,)) for i in range(len(tb.axes))]
        if b.op == "index" and b.args[0].op == "attr" and b.args[0].args[1] == "shape" and is_num(b.args[1]):
            tb = table(b.args[0].args[0])
            if tb is not None:
                return [(tb, (cval(b.args[1]),))]
        return None

    # -- dictionaries of relative frequencies
    def counter(self, t):
        """axes (blocks) of collections.Counter over observations"""
        if callee(t) != "collections.Counter" or t.args[1][0].op != "map":
            return None
        body = t.args[1][0].args[1]
        def blk(x):
            if callee(x) in ("builtins.tuple", "builtins.list", "numpy.ravel") and len(x.args[1]) == 1:
                x = x.args[1][0]
            if x.op == "mcall" and x.args[0] in ("tobytes", "item", "tolist"):
                x = x.args[1]
            if x.op == "index" and x.args[1].op == "bv":
                return x.args[0]
            return None
        if body.op == "tuple":
            bs = [blk(x) for x in body.args]
            return (bs, True) if all(x is not None for x in bs) else None
        b = blk(body)
        return ([b], False) if b is not None else None

    def freqs(self, d):
        """the Counter behind a dictionary key -> count / total"""
        if d.op != "dmap":
            return None
        d0, n, k, v = d.args
        if k.op != "index" or k.args[0].op != "keys":
            return None
        C = k.args[0].args[0]
        if self.counter(C) is None:
            return None
        vals = [b for b, e in mono_parts(v) if e == 1 and b.op == "index" and b.args[0].op == "values" and b.args[0].args[0] is C]
        tot = [b for b, e in mono_parts(v) if e == -1]
        if v.op != "mono" or len(vals) != 1 or len(tot) != 1 or len(v.args[0]) != 2:
            return None
        x = tot[0]
        while x.op == "call" and len(x.args[1]) == 1 and callee(x) in ("numpy.sum", "builtins.sum", "numpy.asarray", "builtins.list"):
            x = x.args[1][0]
        ok = (x.op == "values" and x.args[0] is C) or self.is_n(x)
        return C if ok else None

    def prob(self, t):
        """(blocks, axes kept, mode, number of axes) of a relative frequency looked up for a joint outcome"""
        if t.op != "index":
            return None
        C = self.freqs(t.args[0])
        if C is None:
            return None
        bs, tup = self.counter(C)
        path = []
        k = t.args[1]
        while k.op == "index" and is_num(k.args[1]):
            path.append(cval(k.args[1]))
            k = k.args[0]
        if k.op != "index" or k.args[0].op != "keys":
            return None
        K = self.freqs(k.args[0].args[0]) if k.args[0].args[0].op == "dmap" else (k.args[0].args[0] if self.counter(k.args[0].args[0]) else None)
        if K is None:
            return None
        kb, ktup = self.counter(K)
        if not path:
            if K is not C:
                raise Wrong("relative frequencies are looked up with the outcomes of other variables")
            return bs, tuple(range(len(bs))), "cell", len(bs)
        if len(path) != 1 or not ktup or path[0] >= len(kb) or len(bs) != 1:
            return None
        if unconv(kb[path[0]]) is not unconv(bs[0]):
            raise Wrong(f"the frequencies of {show(bs[0], 3)} are looked up with the outcomes of {show(kb[path[0]], 3)}")
        return bs, (0,), "cell", len(kb)

    def kweight(self, w):
        if w != (0, 0, -1):
            raise Wrong(f"a bias correction must be divided by the number of observations once, found weight {w}")


class Axes:
    """the blocks counted together by a Counter"""

    def __init__(self, axes):
        self.axes = axes


def _has_log(t):
    return any(callee(x) in ("numpy.log",) for x in walk(t))


def callee_any(t, ns):
    return any(callee(x) in ns for x in walk(t))


def owners(t, facts):
    return {x for x in walk(t) if x.op == "param" and facts.meta.get(x, {}).get("owner")}


def name(r):
    return r[0] + ("" if not r[1] else "." + r[1])


def names(S):
    return "{" + ",".join(sorted(name(r) for r in S)) + "}"
