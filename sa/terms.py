"""Hash-consed value-graph terms with an algebraic normal form.

A term is an immutable node ``T(op, args)``; equal terms are the same object, so
value-number equality is identity.  Numeric expressions are kept in a normal form
(sum of monomials with rational coefficients), so re-ordered / re-associated
arithmetic yields the same node.
"""
from __future__ import annotations
from fractions import Fraction
import math

_table: dict = {}
_count = 0


class T:
    __slots__ = ("op", "args", "id", "_subst", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id

    def __reduce__(self):
        raise TypeError("terms are process-local")


def _key(x):
    if isinstance(x, T):
        return x
    if isinstance(x, tuple):
        return tuple(_key(e) for e in x)
    return (type(x).__name__, x)


def mk(op: str, *args) -> T:
    global _count
    key = (op, _key(args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _count += 1
        t.id = _count
        _table[key] = t
    return t


def const(v) -> T:
    if isinstance(v, float) and v != v:
        return mk("const", "nan", "nan")
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t) -> bool:
    return t.op == "const"


def cval(t):
    return t.args[1] if t.args[0] != "nan" else float("nan")


def is_num(t) -> bool:
    return t.op == "const" and isinstance(t.args[1], (int, float, Fraction)) and not isinstance(t.args[1], bool)


def top(reason: str) -> T:
    return mk("top", reason)


# ------------------------------------------------------------------ algebra
def _frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return None
        return Fraction(v)
    return None


def _unfrac(f: Fraction, isint=False):
    if f.denominator == 1:
        return const(int(f))
    return const(float(f)) if Fraction(float(f)) == f else mk("const", "Fraction", f)


def lin_parts(t: T):
    """-> list of (monomial T or None, coef)"""
    if t.op == "lin":
        return list(t.args[0])
    if is_num(t):
        f = _frac(cval(t))
        if f is not None:
            return [(None, f)]
    return [(t, Fraction(1))]


def mono_parts(t):
    """monomial T -> list of (base, exp)"""
    if t is None:
        return []
    if t.op == "mono":
        return list(t.args[0])
    return [(t, Fraction(1))]


def _mk_mono(parts: dict):
    items = [(b, e) for b, e in parts.items() if e != 0]
    if not items:
        return None
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk("mono", tuple(items))


def _mk_lin(parts: dict):
    items = [(m, c) for m, c in parts.items() if c != 0]
    if not items:
        return const(0)
    if len(items) == 1:
        m, c = items[0]
        if m is None:
            return _unfrac(c)
        if c == 1:
            return m
    items.sort(key=lambda p: -1 if p[0] is None else p[0].id)
    return mk("lin", tuple(items))


def add(*ts) -> T:
    parts: dict = {}
    for t in ts:
        for m, c in lin_parts(t):
            parts[m] = parts.get(m, 0) + c
    return _mk_lin(parts)


def scale(t: T, c) -> T:
    return _mk_lin({m: k * c for m, k in lin_parts(t)})


def neg(t):
    return scale(t, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _mul_mono(a, b):
    parts: dict = {}
    for x, e in mono_parts(a):
        parts[x] = parts.get(x, 0) + e
    for x, e in mono_parts(b):
        parts[x] = parts.get(x, 0) + e
    return _mk_mono(parts)


def mul(a: T, b: T) -> T:
    pa, pb = lin_parts(a), lin_parts(b)
    for y in (b, a):
        # (..)/B * B with a sum B: multiply as one factor
        if y is b:
            other, po = b, pa
        else:
            other, po = a, pb
        if len(lin_parts(other)) > 1:
            m, c = _as_factor(other)
            if all(k is not None and any(bs is m and e < 0 for bs, e in mono_parts(k)) for k, _ in po):
                return _resplit(_mk_lin({_mul_mono(k, m): kc * c for k, kc in po}))
    if len(pa) * len(pb) > 48:
        # too many products: keep factored
        return _mk_lin({_mul_mono(_as_factor(a)[0], _as_factor(b)[0]): _as_factor(a)[1] * _as_factor(b)[1]})
    parts: dict = {}
    for m1, c1 in pa:
        for m2, c2 in pb:
            m = _mul_mono(m1, m2)
            # a product may re-create a power of a sum with exponent one
            parts[m] = parts.get(m, 0) + c1 * c2
    r = _mk_lin(parts)
    return _resplit(r)


def _resplit(r):
    """expand monomials that became a bare sum (x/(a+b)*(a+b)^2 -> x*(a+b))"""
    if r.op != "lin" and r.op != "mono":
        return r
    changed = False
    out = const(0)
    for m, c in lin_parts(r):
        ps = mono_parts(m)
        big = [(b, e) for b, e in ps if b.op == "lin" and e == 1]
        if big:
            changed = True
            b0 = big[0][0]
            rest = dict(ps)
            del rest[b0]
            mm = _mk_mono(rest)
            piece = scale(mul(mm if mm is not None else const(1), b0), c)
            out = add(out, piece)
        else:
            out = add(out, _mk_lin({m: c}))
    return out if changed else r


def _as_factor(t):
    """t -> (monomial base T, coef) usable as one factor (sums stay atomic)."""
    ps = lin_parts(t)
    if len(ps) == 1:
        return ps[0]
    lead = ps[0][1]
    return (_mk_lin({m: c / lead for m, c in ps}), lead)


def div(a: T, b: T) -> T:
    if is_num(b) and cval(b) == 0:
        return mk("call", "truediv", (a, b), ())
    fb = _frac(cval(b)) if is_num(b) else None
    if is_num(b) and fb is None:
        return mk("call", "truediv", (a, b), ())
    m, c = _as_factor(b)
    inv = _mk_mono({x: -e for x, e in mono_parts(m)}) if m is not None else None
    return mul(a, _mk_lin({inv: 1 / c}))


def powr(a: T, b: T) -> T:
    if is_num(b) and _frac(cval(b)) is not None:
        e = _frac(cval(b))
        if is_num(a) and _frac(cval(a)) is not None and e.denominator == 1 and abs(e) < 64:
            base = _frac(cval(a))
            if base != 0 or e > 0:
                return _unfrac(base ** int(e))
        ps = lin_parts(a)
        if len(ps) == 1:
            m, c = ps[0]
            if c == 1 or e.denominator == 1:
                mm = _mk_mono({x: k * e for x, k in mono_parts(m)}) if m is not None else None
                if e.denominator == 1 and c != 0:
                    return _mk_lin({mm: c ** int(e)})
                return _mk_lin({mm: Fraction(1)})
            return mk("pow", a, b)
        if e.denominator == 1 and 0 < e <= 3:
            r = a
            for _ in range(int(e) - 1):
                r = mul(r, a)
            return r
        if e.denominator == 1:
            m, c = _as_factor(a)
            return _mk_lin({_mk_mono({x: k * e for x, k in mono_parts(m)}): c ** int(e)})
        return mk("mono", ((a, e),))
    return mk("pow", a, b)


# ------------------------------------------------------------------ booleans
def b_not(c: T) -> T:
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "cmp":
        o, a, b = c.args
        flip = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">",
                "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}
        # element-wise arrays: not(a<b) is only used in boolean context
        return cmp(flip[o], a, b)
    if c.op == "and":
        return b_or(*[b_not(x) for x in c.args])
    if c.op == "or":
        return b_and(*[b_not(x) for x in c.args])
    return mk("not", c)


def b_and(*cs) -> T:
    out = []
    for c in cs:
        for x in (c.args if c.op == "and" else (c,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x in out:
                continue
            if b_not(x) in out:
                return FALSE
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out))


def b_or(*cs) -> T:
    out = []
    for c in cs:
        for x in (c.args if c.op == "or" else (c,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x in out:
                continue
            out.append(x)
    for x in out:
        n = b_not(x)
        if n in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out))


CMPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b}


def cmp(op: str, a: T, b: T) -> T:
    """canonical comparison term: only ==, !=, <, <= survive, with a normal form"""
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if op in ("==", "!=", "is", "isnot"):
        if b.id < a.id:
            a, b = b, a
    if op in ("==", "!=") and (a.op == "lin" and is_num(b) or b.op == "lin" and is_num(a)):
        l, k = (a, b) if a.op == "lin" else (b, a)
        f = _frac(cval(k)) if k.args[0] != "nan" else None
        if f is not None:
            f -= sum((c for m, c in l.args[0] if m is None), Fraction(0))
            rest = [(m, c) for m, c in l.args[0] if m is not None]
            lead = min(rest, key=lambda p: p[0].id)[1]
            a, b = _mk_lin({m: c / lead for m, c in rest}), _unfrac(f / lead)
            if b.id < a.id:
                a, b = b, a
    if op in CMPS and is_num(a) and is_num(b) and a.args[0] != "nan" and b.args[0] != "nan":
        return const(CMPS[op](cval(a), cval(b)))
    return mk("cmp", op, a, b)


def phi(c: T, a: T, b: T) -> T:
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return b_not(c)
    if c.op == "not":
        return phi(c.args[0], b, a)
    if c.op == "cmp" and c.args[0] in ("!=", "isnot", "notin"):
        return phi(b_not(c), b, a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("phi", c, a, b)


# ------------------------------------------------------------------ utilities
def children(t: T):
    def rec(x):
        for e in x:
            if isinstance(e, T):
                yield e
            elif isinstance(e, tuple):
                yield from rec(e)
    yield from rec(t.args)


def walk(t: T, seen=None):
    """all distinct sub-terms"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(children(x))


def contains(t: T, pred) -> bool:
    return any(pred(x) for x in walk(t))


def mentions(t: T, target: T) -> bool:
    return any(x is target for x in walk(t))


def rebuild(t: T, new_args) -> T:
    """re-create a node through the smart constructors"""
    op = t.op
    if op == "lin":
        out = const(0)
        for m, c in new_args[0]:
            out = add(out, _mk_lin({None: c}) if m is None else scale(m, c))
        return out
    if op == "mono":
        out, sums = const(1), {}
        for b, e in new_args[0]:
            if b.op == "lin" and len(lin_parts(b)) > 1 and e.denominator == 1:
                m, c = _as_factor(b)      # powers of one sum are put together before anything is multiplied out
                sums[m] = sums.get(m, 0) + e
                out = scale(out, c ** int(e))
            else:
                out = mul(out, powr(b, _unfrac(e)))
        for m, e in sums.items():
            if e != 0:
                out = mul(out, powr(m, _unfrac(e)))
        return out
    if op == "pow":
        return powr(*new_args)
    if op == "phi":
        return phi(*new_args)
    if op == "not":
        return b_not(*new_args)
    if op == "and":
        return b_and(*new_args)
    if op == "or":
        return b_or(*new_args)
    if op == "cmp":
        return cmp(*new_args)
    if op == "call" and new_args[0] in COMMUTATIVE and not new_args[2]:
        return mk(op, new_args[0], tuple(sorted(new_args[1])), ())
    return mk(op, *new_args)


COMMUTATIVE = ("builtins.max", "builtins.min", "bitand", "bitor", "bitxor", "numpy.maximum", "numpy.minimum")


LEVEL = {}      # binder (map, fill, loopout, ...) -> its bound variable (None: made at several depths)


def binder_level(t, bv):
    if LEVEL.setdefault(t, bv) is not bv:
        LEVEL[t] = None


def transform(t: T, fn, memo=None) -> T:
    """bottom-up rewriting; fn(node) -> node"""
    memo = {} if memo is None else memo

    def rec_arg(x):
        if isinstance(x, T):
            return rec(x)
        if isinstance(x, tuple):
            return tuple(rec_arg(e) for e in x)
        return x

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        na = tuple(rec_arg(a) for a in x.args)
        y = x
        if na != x.args:
            y = rebuild(x, na)
            b = LEVEL.get(x)
            if b is not None and y.op == x.op:
                b = memo.get(b) or fn(b)
                if b is not None and b.op == "bv":
                    binder_level(y, b)
        y = fn(y)
        memo[x] = y
        return y

    return rec(t)


def subst(t: T, mapping: dict) -> T:
    if not mapping:
        return t
    memo = dict(mapping)
    return transform(t, lambda x: mapping.get(x, x), memo)


def show(t, depth=7) -> str:
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o = t.op
    if o == "const":
        return repr(t.args[1]) if t.args[0] != "Fraction" else str(t.args[1])
    if o in ("param", "ext", "class", "undef", "bv"):
        return f"{t.args[0]}" if o != "bv" else f"i{t.args[0]}"
    if o == "lin":
        s = []
        for m, c in t.args[0]:
            cs = str(c)
            s.append(cs if m is None else (show(m, d) if c == 1 else ("-" + show(m, d) if c == -1 else cs + "*" + show(m, d))))
        return "(" + " + ".join(s) + ")"
    if o == "mono":
        return "*".join(show(b, d) if e == 1 else f"{show(b, d)}^{e}" for b, e in t.args[0])
    if o == "cmp":
        return f"({show(t.args[1], d)} {t.args[0]} {show(t.args[2], d)})"
    if o == "phi":
        return f"[{show(t.args[0], d)} ? {show(t.args[1], d)} : {show(t.args[2], d)}]"
    if o == "call":
        n = t.args[0].split(".")[-1] if isinstance(t.args[0], str) else show(t.args[0], d)
        a = [show(x, d) for x in t.args[1]] + [f"{k}={show(v, d)}" for k, v in t.args[2]]
        return f"{n}({', '.join(a)})"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in t.args) + ",)"
    return f"{o}<" + ", ".join(show(x, d) for x in t.args) + ">"
