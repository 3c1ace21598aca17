"""Shared helpers of the rules: normalising comparators and scenario enumeration."""
from __future__ import annotations
from ..core import *
from .. import ext as E
from ..models import callee, kw, kw_m

COPY = ("numpy.copy", "numpy.ascontiguousarray", "numpy.asarray")


def strip_copies(t, facts=None):
    """value-level identity: copies of an array, float conversion of an array"""
    def f(x):
        n = callee(x)
        if n in ("numpy.copy", "numpy.ascontiguousarray") and len(x.args[1]) == 1:
            return x.args[1][0]
        if n == "numpy.asarray" and len(x.args[1]) == 1 and not x.args[2] and facts is not None and facts.kind(x.args[1][0]) == "ndarray":
            return x.args[1][0]
        return None
    return transform(t, lambda x: f(x) or x)


def renorm(s, t):
    """re-apply the reductions' normal form after a substitution"""
    def f(x):
        if x.op == "call" and x.args[0] in ("numpy.sum", "numpy.mean") and len(x.args[1]) == 1:
            return E.np_reduce(s.I, x.args[0], x.args[1][0], x.args[2])
        return x
    return transform(t, f)


def draws_of(t):
    return [x for x in walk(t) if x.op == "draw"]


def renum(t):
    """draw sequence numbers -> rank, so that two runs with different histories compare"""
    ds = sorted({x.args[2] for x in draws_of(t) if isinstance(x.args[2], int)})
    if not ds:
        return t
    rk = {d: i for i, d in enumerate(ds)}

    def f(x):
        if x.op == "draw":
            return mk("draw", x.args[0], x.args[1], rk.get(x.args[2], x.args[2]), *x.args[3:])
        return x
    return transform(t, f)


def canon_ids(t, memo=None):
    """function identities are allocation numbers: rename them by order of appearance"""
    ids = {}

    def f(x):
        if x.op in ("func", "ref"):
            return mk(x.op, -1 - ids.setdefault((x.op, x.args[0]), len(ids)))
        return x
    return transform(t, f)


def same(a, b):
    if a is b:
        return True
    a, b = canon_ids(renum(strip_copies(a))), canon_ids(renum(strip_copies(b)))
    return a is b


def first_diff(a, b, depth=0):
    """smallest differing pair of subterms, for the report"""
    if a is b:
        return None
    if a.op == b.op and len(a.args) == len(b.args) and depth < 40:
        ds = []
        for x, y in zip(a.args, b.args):
            d = _diff_any(x, y, depth + 1)
            if d == "struct":
                return (a, b)
            if d:
                ds.append(d)
        if len(ds) == 1:
            return ds[0]
    return (a, b)


def _diff_any(x, y, depth):
    if isinstance(x, T) and isinstance(y, T):
        return first_diff(x, y, depth)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return "struct"
        ds = [d for d in (_diff_any(p, q, depth) for p, q in zip(x, y)) if d]
        if "struct" in ds or len(ds) > 1:
            return "struct"
        return ds[0] if ds else None
    return None if x == y else "struct"


def show_diff(a, b):
    a, b = canon_ids(renum(strip_copies(a))), canon_ids(renum(strip_copies(b)))
    d = first_diff(a, b)
    if not d:
        return "equal"
    return f"{show(d[0], 6)[:220]}  vs  {show(d[1], 6)[:220]}"


def exc_name(t):
    if t.op == "exc":
        c = t.args[0]
        return c.args[0].split(".")[-1]
    return show(t, 2)


def where_method(s, qual, *names):
    c = s.cls(qual)
    for n in names:
        f = s.I.class_lookup(c, n, s.st)
        if f is not None and f.op == "func":
            fn = s.I.funcs[f.args[0]]
            return f"{fn.module.path}:{fn.node.lineno} {fn.qual}"
    return qual


def short(q):
    return q.rsplit(".", 1)[-1]


def need(v, what):
    if v is None:
        raise Undecided("no normal result: " + what)
    return v


def each_class(measures=("entropy", "mi", "cmi", "te", "cte")):
    r = regs()
    for m in measures:
        for q, al in r[m].items():
            yield m, al[0], q


def is_(q, word):
    return word.lower() in q.lower()


def variants(m, a, q):
    """approach-specific alternatives (documented finite option sets)"""
    if is_(q, "kernel"):
        return [dict(kernel="box"), dict(kernel="gaussian")]
    if is_(q, ".kraskov") and m == "mi":
        return [dict(ksg_id=1), dict(ksg_id=2)]
    if is_(q, ".kraskov") or is_(q, "kozachenko"):
        return [dict(ksg_id=1), dict(ksg_id=2)]
    if is_(q, ".ordinal"):
        return [dict()]
    return [dict()]


NOISY = ("kraskov", "kozachenko", "renyi", "tsallis")


def probe(fn):
    """True when fn() finishes normally; used to see whether a scenario is supported"""
    try:
        fn()
        return True
    except (Undecided, Dead):
        return False
