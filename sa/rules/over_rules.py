"""P30 counts are not combined in integers that can overflow."""
from .util import *
from .chain_rules import p04_scs
from ..spaces import count, margin, Unknown, Wrong

INTS = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intp", "int_", "uint")
NARROW = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int", "half", "float16")
VIEW = ("numpy.take", "numpy.ravel", "sparse.asnumpy", "numpy.copy", "numpy.expand_dims", "numpy.squeeze", "numpy.reshape", "numpy.sum", "numpy.max", "numpy.min")


def dtype_name(d):
    if d.op == "ext":
        return d.args[0].split(".")[-1]
    if d.op == "const" and isinstance(cval(d), str):
        return cval(d)
    return None


def cast(t):
    """(array, dtype name) of a conversion"""
    if callee(t) == "astype" and len(t.args[1]) > 1:
        return t.args[1][0], dtype_name(t.args[1][1])
    if t.op == "mcall" and t.args[0] == "astype" and (t.args[2] or kw_m(t, "dtype") is not None):
        return t.args[1], dtype_name(t.args[2][0] if t.args[2] else kw_m(t, "dtype"))
    if callee(t) in ("numpy.asarray", "numpy.array") and kw(t, "dtype") is not None:
        return t.args[1][0], dtype_name(kw(t, "dtype"))
    return None


def is_count(t):
    try:
        return count(t) is not None
    except (Unknown, Wrong):
        return False


def counts(t):
    """occurrence counts, or a table or margin of them"""
    while callee(t) in VIEW and t.args[1]:
        t = t.args[1][0]
    try:
        return integer(t) == "np" or margin(t) is not None
    except (Unknown, Wrong):
        return False


def integer(t, n=None):
    """'np' numpy integer (an occurrence count or made of them), 'py' Python integer, None otherwise"""
    if t.op == "const":
        return "py" if isinstance(cval(t), int) else None
    if t.op == "param":
        return "py" if t.args[0] in ("N", "M") else None
    if t.op == "len":
        return "py"
    c = callee(t)
    k = cast(t)
    if k is not None:
        return "np" if (k[1] in INTS or k[1] == "int") and integer(k[0]) else None
    if is_count(t):
        return "np"
    if t.op == "index":
        if callee(t.args[0]) == "numpy.unique" and kw(t.args[0], "return_counts") is TRUE and is_num(t.args[1]):
            k = 1 + sum(1 for o in ("return_index", "return_inverse") if kw(t.args[0], o) is TRUE)
            return "np" if cval(t.args[1]) == k else None
        return integer(t.args[0])
    if c in VIEW and t.args[1]:
        return integer(t.args[1][0])
    if t.op == "lin":
        ks = [(integer(m) if m is not None else "py", k) for m, k in t.args[0]]
        if all(i and k.denominator == 1 for i, k in ks):
            return "np" if any(i == "np" for i, _ in ks) else "py"
        return None
    if t.op == "mono":
        ks = [(integer(b), e) for b, e in t.args[0]]
        if all(i and e > 0 and e.denominator == 1 for i, e in ks):
            return "np" if any(i == "np" for i, _ in ks) else "py"
        return None
    if c == "numpy.prod" and t.args[1] and t.args[1][0].op in ("list", "tuple"):
        ks = [integer(x) for x in t.args[1][0].args]
        return "np" if ks and all(ks) else None
    return None


def degree(t):
    """number of counts (each up to the number of observations) multiplied in integers"""
    if t.op == "mono":
        return sum(int(e) * degree(b) for b, e in t.args[0])
    if t.op == "lin":
        return max([degree(m) for m, _ in t.args[0] if m is not None] or [0])
    c = callee(t)
    if c == "numpy.prod" and t.args[1] and t.args[1][0].op in ("list", "tuple"):
        return sum(degree(x) for x in t.args[1][0].args)
    if cast(t) is not None:
        return degree(cast(t)[0])
    if c in VIEW and t.args[1]:
        return degree(t.args[1][0])
    if t.op == "index":
        return degree(t.args[0]) if not is_count(t) else 1
    return 0 if t.op == "const" else 1


def p30_job(c, sc):
    s = sc.session(project(), opaque=sc.measure != "entropy")
    o, _ = sc.make(s)
    if o is None:
        c.na(str(sc))
        return
    w = where_method(s, sc.qual, "_calculate", "calculate")
    for meth in ("global_val", "local_vals"):
        v, _ = s.method(o, meth)
        if v is None:
            c.na(f"{sc}:{meth}")
            continue
        g = strip_copies(s.frz(v), s.facts)
        key, bad, n = f"{sc}:{meth}", [], 0
        for t in walk(g):
            cl = callee(t)
            k = cast(t)
            if k is not None and counts(k[0]):
                n += 1
                d = k[1]
                if d in NARROW and d != "int":
                    bad.append(f"occurrence counts are converted to {d}: {show(t, 3)[:120]}")
            if cl == "sparse.COO" and kw(t, "data") is not None:
                n += 1
                dd = kw(t, "data")
                d = dtype_name(kw(dd, "dtype")) if callee(dd) in ("numpy.ones", "numpy.full") and kw(dd, "dtype") is not None else None
                if d in ("int8", "uint8", "int16", "uint16", "bool"):
                    bad.append(f"occurrences are counted in {d}")
            if (t.op == "mono" or cl == "numpy.prod") and integer(t) == "np":
                n += 1
                if degree(t) >= 3:
                    bad.append(f"{degree(t)} counts are multiplied as 64-bit integers: {show(t, 4)[:160]}")
        if bad:
            for i, b in enumerate(sorted(set(bad))[:3]):
                c.bad(f"{key}:{i}", w, b)
        else:
            c.ok(key, f"{n} integer operation(s) on counts", n=max(n, 1))
    note_session(s)


@rule("P30", floor=150,
      rule="no product of three or more occurrence counts is formed in numpy integers (two are bounded by N^2), and counts are never converted to or accumulated in an integer type too narrow for them",
      explain="dtype propagation over every product and conversion in the value graphs of all classes, up to 4 variables")
def p30(tier):
    out = [Sc(m, a, q, **v) for m, a, q in each_class(("entropy",)) for v in variants(m, a, q)]
    return [(f"P30 {sc}", p30_job, (sc,)) for sc in out + p04_scs("thorough")]
