"""P27 the noise option adds one independent Gaussian draw to every series, and nothing else."""
from __future__ import annotations
from .util import *
from .. import val
from ..val import NoAnswer
from .prep_rules import value, valuation
from .valid_rules import init_params_of
from .data_rules import sep

LEVEL = P("noise_level")


def simple(t):
    """writes that change nothing: a[i] = v twice; a[i] = a[i]; a loop that leaves its array as it was"""
    def f(x):
        if x.op == "setitem":
            a, i, v = x.args
            while a.op == "setitem" and a.args[1] is i and not contains(v, lambda y: y is a):
                a = a.args[0]
            if v.op == "index" and v.args[0] is a and v.args[1] is i:
                return a
            return mk("setitem", a, i, v)
        if x.op == "loopout" and len(x.args) == 3 and x.args[1].op == "mu":
            return x.args[2]
        return x
    return transform(t, f)


def floats(s, t):
    """the inputs are float arrays: conversion to float is the identity, lengths are those of the inputs"""
    F = s.facts

    def is_data(x):
        return any(y.op == "param" and y.args[0] in ("x", "y", "w", "v", "z") for y in walk(x))

    def f(x):
        if x.op == "call" and x.args[0] == "astype" and len(x.args[1]) == 2 and show(x.args[1][1], 2) in ("builtins.float", "numpy.float64"):
            return x.args[1][0]
        if x.op == "attr" and x.args[1] == "dtype" and is_data(x.args[0]):
            return mk("ext", "builtins.float")
        if x.op == "attr" and x.args[1] == "shape" and is_data(x.args[0]) and F.ndim(x.args[0]) in (1, 2):
            return mk("tuple", *[E.shape_at(s.I, x.args[0], i) for i in range(F.ndim(x.args[0]))])
        if x.op == "index" and x.args[0].op == "tuple" and is_num(x.args[1]):
            return x.args[0].args[int(cval(x.args[1]))]
        if x.op == "len" and is_data(x.args[0]):
            return E.length(s.I, x.args[0])
        return x
    return transform(t, f)


class Noise:
    def __init__(self, s):
        self.s, self.found, self.odd = s, [], []     # (draw, what it is added to, number of rows or None)

    def strip(self, t, keep):
        """remove additive draws; keep=True: a new symbol in place of the noisy series"""
        memo = {}

        def rec(x):
            if x in memo:
                return memo[x]
            memo[x] = r = go(x)
            return r

        def go(x):
            if x.op == "loopout" and len(x.args) == 3:
                n, body, init = x.args
                b = simple(body)
                if b.op == "setitem" and b.args[0].op == "mu" and b.args[2].op == "lin":
                    mu, i, v = b.args
                    d, rest, k = self.split(v)
                    if d is not None and rest.op == "index" and rest.args[0] is mu and rest.args[1] is i and i.op == "bv":
                        base = rec(init)
                        self.note(d, base, n, k, row=rest)
                        return mk("param", f"noisy {show(d.args[2], 3)}") if keep else base
            if x.op == "fill" and x.args[2].op == "lin":
                d, rest, k = self.split(x.args[2])
                if d is not None and rest.op == "index" and rest.args[0] is x.args[0] and rest.args[1].op == "bv":
                    base = rec(x.args[0])
                    self.note(d, base, x.args[1], k, row=rest)
                    return mk("param", f"noisy {show(d.args[2], 3)}") if keep else base
            if x.op == "lin":
                d, rest, k = self.split(x)
                if d is not None:
                    base = rec(rest)
                    self.note(d, base, None, k)
                    return mk("param", f"noisy {show(d.args[2], 3)}") if keep else base
            if x.op == "draw":
                self.odd.append(x)
                return x
            return rebuild(x, tuple(args(a) for a in x.args))

        def args(a):
            if isinstance(a, T):
                return rec(a)
            if isinstance(a, tuple):
                return tuple(args(y) for y in a)
            return a
        return rec(t)

    def split(self, x):
        """(draw, rest, coefficient) of a sum that contains a draw"""
        ds = [(m, k) for m, k in x.args[0] if m is not None and m.op == "draw"]
        if not ds:
            return None, None, None
        rest = add(x, *[scale(m, -k) for m, k in ds])
        if len(ds) > 1:
            self.odd.append(x)
        return ds[0][0], rest, ds[0][1]

    def note(self, d, base, n, k, row=None):
        e = (d, base, n, k, row)
        if e not in self.found:
            self.found.append(e)


def arg(d, name, pos):
    """argument of a normal draw"""
    kws = dict(d.args[5])
    if name in kws:
        return kws[name]
    return d.args[4][pos] if pos < len(d.args[4]) else None


def p27_job(c, m, a, q, o):
    on, off = Sc(m, a, q, **dict(o, noise_level="sym", dtype="float")), Sc(m, a, q, **dict(o, noise_level=0, dtype="float"))
    w = where_method(Session(project()), q, "_calculate", "_simple_entropy", "__init__")
    s1, o1, v1 = value(on)
    s2, o2, v2 = value(off)
    if o1 is None:
        c.na(str(on), "not offered")
        return
    data = [P(n) for n in ("x", "y", "w", "v", "z")]
    F = s1.facts
    for h in v1:
        g, g0 = v1[h], v2[h]
        key = f"{Sc(m, a, q, **o)}: {h}"
        if g is None or g0 is None:
            c.put(key + ": with and without noise", None if g is None and g0 is None else False, w, "available only " + ("without" if g is None else "with") + " noise") if (g is None) != (g0 is None) else c.na(key)
            continue
        c.put(key + ": nothing is drawn for noise_level=0", not draws_of(g0), w, f"draws {show(draws_of(g0)[0], 4)[:100] if draws_of(g0) else ''}")
        g, g0 = floats(s1, g), floats(s2, g0)
        lost = [x for x in data if contains(g0, lambda y: y is x) and not contains(g, lambda y: y is x)]
        if lost:
            c.bad(key + ": noise is only added", w, f"with noise the value does not depend on {', '.join(show(x, 1) for x in lost)}")
            continue
        N = Noise(s1)
        clean = floats(s1, simple(renorm(s1, N.strip(g, False))))
        fresh = Noise(s1).strip(g, True)
        if not N.found:
            if draws_of(g):
                rep = repeated(s1, g, data)
                if rep:
                    c.bad(key + ": independent noise", w, f"one draw per observation is added to every column of {show(rep, 3)[:60]}")
                    continue
                c.und(key + ": noise is added", f"draws not recognised: {show(draws_of(g)[0], 5)[:150]}", w)
            else:
                c.bad(key + ": noise is added", w, "the value does not depend on any draw although noise_level > 0")
            continue
        twice = [x for x in N.odd if x.op == "lin"]
        if twice:
            c.bad(key + ": noise is added once", w, f"two draws are added to one series: {show(twice[0], 4)[:150]}")
        else:
            c.ok(key + ": noise is added once")
        left = draws_of(clean)
        if left or N.odd:
            c.und(key + ": noise is only added", f"another use of a draw: {show((left or N.odd)[0], 5)[:150]}", w)
        elif same(clean, g0):
            c.ok(key + ": noise is only added", "without the draws the graph is that for noise_level=0")
        else:
            sep(c, key + ": noise is only added", w, clean, g0, [valuation()])
        raw = [x for x in data if contains(fresh, lambda y: y is x)]
        c.put(key + ": every series is noisy everywhere", not raw, w, f"{', '.join(show(x, 1) for x in raw)} enters a term without noise")
        # one draw per series, one series per draw
        by_d, by_b = {}, {}
        for d, b, n, k, row in N.found:
            by_d.setdefault(d, set()).add(b)
            by_b.setdefault(b, set()).add(d)
        many = [b for b, ds in by_b.items() if len({d.args[2] for d in ds}) > 1]
        c.put(key + ": the same noise in all terms", not many, w, f"different draws are added to {show(many[0], 3)[:80] if many else ''}")
        many = [d for d, bs in by_d.items() if len(bs) > 1]
        if many and any(len({y for y in walk(b) if y in data}) for b in by_d[many[0]]) and len({frozenset(y for y in walk(b) if y in data) for b in by_d[many[0]]}) > 1:
            c.bad(key + ": independent noise", w, f"the same draw is added to {' and '.join(show(b, 3)[:60] for b in by_d[many[0]])}")
        else:
            c.ok(key + ": independent noise")
        for d, b, n, k, row in N.found:
            dk = f"{key}: draw for {show(b, 3)[:60]}"
            if d.args[0] != "normal":
                c.und(dk, f"drawn with {d.args[0]}", w)
                continue
            loc, sc_, size = arg(d, "loc", 0), arg(d, "scale", 1), arg(d, "size", 2)
            c.put(dk + ": mean 0", True if loc is None else cval(loc) == 0 if is_num(loc) else False if any(y in data or y is LEVEL for y in walk(loc)) else None, w, f"mean {show(loc, 3)}")
            dev = scale(sc_, k) if sc_ is not None else const(1)
            c.put(dk + ": deviation noise_level", True if dev is LEVEL or neg(dev) is LEVEL else False if all(y.op in ("lin", "mono", "param", "const", "pow") for y in walk(dev)) or deviates(dev) else None, w,
                  f"deviation {show(dev, 4)} instead of noise_level")
            t = row if row is not None else b
            ok = shape_ok(s1, size, t, b, n)
            c.put(dk + ": every element", ok, w, f"size {show(size, 4) if size is not None else None} for {show(t, 3)[:60]}")


def repeated(s, g, data):
    """two-dimensional data to which a column of draws is added"""
    for x in walk(g):
        if x.op == "lin":
            ms = [m for m, _ in x.args[0] if m is not None]
            col = [m for m in ms if m.op == "index" and m.args[0].op == "draw" and m.args[1].op == "tuple" and len(m.args[1].args) == 2 and m.args[1].args[1] is NONE
                   or callee(m) == "numpy.expand_dims" and m.args[1][0].op == "draw"]
            rest = [strip_copies(m, s.facts) for m in ms if m not in col]
            if col and len(rest) == 1 and rest[0] in data and s.facts.ndim(rest[0]) == 2 and s.facts.ndim(arg_draw(col[0])) == 1:
                return rest[0]
    return None


def arg_draw(m):
    return m.args[0] if m.op == "index" else m.args[1][0]


def deviates(dev):
    """at some level the deviation is a number other than the level"""
    for level in (1e-10, 0.5, 2.5, 40.0):
        env = valuation(noise_level=level)
        for e in (env, *(e for e, _ in val.around(env, dev))):
            try:
                d = val.at(dev, e)
            except (NoAnswer, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, KeyError):
                continue
            if isinstance(d, (int, float)) and abs(abs(d) - e[LEVEL]) > 1e-6 * e[LEVEL]:
                return True
    return False


def shape_ok(s, size, t, base, n):
    F = s.facts
    nd = F.ndim(t)
    if size is None or size is NONE:
        return False if nd and nd > 0 else True if nd == 0 else None
    dims = list(size.args) if size.op in ("tuple", "list") else [size]
    if size.op == "attr" and size.args[1] == "shape" and size.args[0] is t:
        r = True
    else:
        want = [E.length(s.I, t)] if nd == 1 else None
        if nd is None and len(dims) == 1:
            want = [E.length(s.I, t)]
        if nd == 2:
            want = [E.shape_at(s.I, t, i) for i in (0, 1)]
            want = None if None in want else want
        if want is None:
            return None
        if len(want) != len(dims):
            return False if len(dims) < len(want) and nd == len(want) else None
        r = True if all(a is b for a, b in zip(want, dims)) else False if all(a.op in ("param", "const") and b.op in ("param", "const") for a, b in zip(want, dims)) else None
    if r and n is not None:
        L = E.length(s.I, base)
        r = True if L is n else False if L.op in ("param", "const") and n.op in ("param", "const", "lin") else None
    return r


@rule("P27", floor=60,
      rule="in the value graph every series v is replaced by v + one draw normal(0, noise_level, shape of v), the same in all terms and different for different series; without these draws the graph is that for noise_level=0, which draws nothing",
      explain="global and local value graphs of every class with a noise_level, one- and two-dimensional data, 2 and 3 variables")
def p27(tier):
    out = []
    for m, a, q in each_class():
        if "noise_level" not in init_params_of(m, a, q):
            continue
        for v in variants(m, a, q):
            opts = [dict(v), dict(v, ndim=2)]
            if m == "entropy":
                opts += [dict(v, joint=2), dict(v, cross=True)]
            elif m in ("mi", "cmi"):
                opts += [dict(v, nvars=3)]
            for o in opts:
                out.append((f"P27 {m}/{a} {o}", p27_job, (m, a, q, o)))
    return out
