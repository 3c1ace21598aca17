"""P02: changing the logarithm base only rescales results (unit inference on the value graph)."""
from .util import *

LINEAR = set("""numpy.sum numpy.mean numpy.nansum numpy.nanmean builtins.sum numpy.average numpy.median numpy.cumsum numpy.max numpy.min numpy.amax numpy.amin
numpy.abs numpy.absolute builtins.abs numpy.asarray numpy.array numpy.copy numpy.squeeze numpy.ravel numpy.reshape numpy.transpose numpy.take
numpy.concatenate numpy.column_stack numpy.stack numpy.vstack numpy.hstack numpy.expand_dims numpy.maximum numpy.minimum numpy.clip numpy.where
builtins.float builtins.max builtins.min astype numpy.float64 math.fsum numpy.std numpy.negative numpy.nan_to_num numpy.repeat numpy.tile numpy.flip numpy.sort
builtins.list builtins.tuple numpy.add.reduce scipy.integrate.quad scipy.integrate.trapezoid numpy.trapz numpy.trapezoid numpy.array_split""".split())
SHAPE = {"len", "range", "rangelen"}


class Mismatch(Exception):
    def __init__(self, t, d):
        self.t, self.d = t, d


class Unit:
    """degree of every sub-value in log(base); 'any' is the degree of 0, nan, inf"""

    def __init__(self, base):
        self.base = base
        self.memo = {}

    def join(self, ds, t):
        out = "any"
        for d in ds:
            if d is None:
                return None
            if d == "any":
                continue
            if out == "any":
                out = d
            elif out != d:
                raise Mismatch(t, (out, d))
        return out

    def deg(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._deg(t)
        return self.memo[t]

    def flat(self, x):
        """degrees inside an argument that may be a tuple/list of values"""
        if x.op in ("tuple", "list"):
            return self.join([self.flat(y) for y in x.args], x)
        return self.deg(x)

    def _deg(self, t):
        o = t.op
        if not mentions(t, self.base):
            if o == "const":
                v = cval(t)
                if isinstance(v, (int, float)) and not isinstance(v, bool) and (v == 0 or v != v or v in (float("inf"), float("-inf"))):
                    return "any"
            if o in ("call",) and callee(t) in ("numpy.zeros", "numpy.zeros_like", "numpy.empty", "numpy.empty_like"):
                return "any"
            if o in ("tuple", "list"):
                return self.join([self.flat(x) for x in t.args if isinstance(x, T)], t)
            if o == "phi":
                return self.join([self.deg(t.args[1]), self.deg(t.args[2])], t)
            if o == "call" and callee(t) in ("astype", "numpy.asarray", "numpy.array", "numpy.copy"):
                return self.flat(t.args[1][0])
            return 0
        if t is self.base:
            raise Mismatch(t, ("the base itself", "log of the base"))
        n = callee(t)
        if n in ("numpy.log", "math.log") and len(t.args[1]) == 1:
            a = t.args[1][0]
            if a is self.base:
                return 1
            d = self.deg(a)
            if d in (0, "any"):
                return 0
            if d is None:
                return None
            raise Mismatch(t, (d, 0))
        if o == "lin":
            return self.join([0 if m is None else self.deg(m) for m, _ in t.args[0]], t)
        if o == "mono":
            s = 0
            for b, e in t.args[0]:
                d = self.deg(b)
                if d is None:
                    return None
                if d == "any":
                    return "any"
                s += d * e
            return s
        if o == "pow":
            a, b = t.args
            if a is self.base:
                d = self.deg(b)
                if d == -1 or d == "any":
                    return 0
                if d is None:
                    return None
                raise Mismatch(t, (d, -1))
            da, db = self.deg(a), self.deg(b)
            if db in (0, "any") and da in (0, "any"):
                return 0
            if da is None or db is None:
                return None
            raise Mismatch(t, (da, db))
        if o == "phi":
            c = t.args[0]
            if mentions(c, self.base):
                self.cond(c)
            return self.join([self.deg(t.args[1]), self.deg(t.args[2])], t)
        if o in ("map", "dmap", "filtermap", "fill", "repeat"):
            return self.deg(t.args[1]) if isinstance(t.args[1], T) else None
        if o in ("list", "tuple", "concat", "append"):
            return self.join([self.flat(x) for x in t.args if isinstance(x, T)], t)
        if o == "setitem":
            return self.join([self.deg(t.args[0]), self.deg(t.args[2])], t)
        if o == "index":
            if mentions(t.args[1], self.base):
                return None
            return self.flat(t.args[0])
        if o in ("last", "row"):
            return self.deg(t.args[0]) if isinstance(t.args[0], T) else None
        if o == "lam":
            return self.deg(t.args[-1])
        if o == "len":
            return 0
        if o == "attr" and t.args[1] in ("shape", "ndim", "size", "dtype"):
            return 0
        if o == "attr" and t.args[1] in ("T", "real", "flat"):
            return self.deg(t.args[0])
        if n in ("numpy.exp", "numpy.expm1", "math.exp", "numpy.log1p", "numpy.exp2"):
            d = self.deg(t.args[1][0])
            if d in (0, "any"):
                return 0
            if d is None:
                return None
            raise Mismatch(t, (d, 0))
        if n in ("numpy.sqrt",):
            d = self.deg(t.args[1][0])
            return d if d in (None, "any") else d / 2
        if n in ("numpy.square",):
            d = self.deg(t.args[1][0])
            return d if d in (None, "any") else d * 2
        if n in ("numpy.dot", "numpy.multiply", "numpy.matmul", "numpy.inner", "numpy.vdot"):
            ds = [self.deg(x) for x in t.args[1][:2]]
            return None if None in ds else ("any" if "any" in ds else sum(ds))
        if n in ("numpy.where",) and len(t.args[1]) == 3:
            if mentions(t.args[1][0], self.base):
                self.cond(t.args[1][0])
            return self.join([self.deg(x) for x in t.args[1][1:]], t)
        if n in ("numpy.clip", "numpy.maximum", "numpy.minimum", "builtins.max", "builtins.min"):
            return self.join([self.flat(x) for x in t.args[1] if x is not NONE], t)
        if n in LINEAR:
            return self.join([self.flat(t.args[1][0])] + [self.flat(v) for k, v in t.args[2] if k in ("initial",)], t)
        if n == "map" or o == "mcall" and t.args[0] in ("sum", "mean", "copy", "ravel", "reshape", "item", "tolist", "flatten", "max", "min", "astype"):
            return self.deg(t.args[1])
        return None

    def cond(self, c):
        """a test must not mix units; a homogeneous comparison is unit-free"""
        if c.op in ("and", "or", "not"):
            for x in c.args:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, T) and mentions(y, self.base):
                        self.cond(y)
            return
        if c.op == "cmp":
            self.join([self.flat(x) for x in c.args if isinstance(x, T)], c)


def base_scs(tier):
    out = []
    for m, a, q in each_class():
        for v in variants(m, a, q):
            out.append((m, a, q, v))
            out.append((m, a, q, dict(v, ndim=2)))
            if m == "entropy":
                out.append((m, a, q, dict(v, joint=2)))
                out.append((m, a, q, dict(v, cross=True)))
            if m in ("mi", "cmi"):
                out.append((m, a, q, dict(v, nvars=3)))
            if is_(q, "renyi"):
                out.append((m, a, q, dict(v, alpha=1)))
            if is_(q, "tsallis"):
                out.append((m, a, q, dict(v, q=1)))
            if is_(q, "ordinal"):
                out.append((m, a, q, dict(v, embedding_dim=1)))
                if m == "entropy":
                    out.append((m, a, q, dict(v, embedding_dim=1, joint=2)))
    return out


def graphs(sc):
    s = sc.session(project())
    o, _ = sc.make(s)
    if o is None:
        return s, None, None
    g, ex = s.method(o, "global_val")
    lv, _ = (s.method(o, "local_vals") if g is not None else (None, None))
    note_session(s)
    return s, s.frz(g), s.frz(lv)


def p02_job(c, m, a, q, v):
    tag = str(Sc(m, a, q, **v))
    sb, gb, lb = graphs(Sc(m, a, q, **v))
    base = P("base")
    w = where_method(sb, q, "_calculate", "_simple_entropy", "calculate")
    if gb is None:
        c.na(tag)
        return
    other = {k: graphs(Sc(m, a, q, base=k, **v)) for k in ("e", 2, 10)}
    free = is_(q, "tsallis") and v.get("q") != 1
    for what, g, i in (("global", gb, 1), ("local", lb, 2)):
        if g is None:
            continue
        key = f"{tag}:{what}"
        if free:
            bad = mentions(g, base)
            c.put(key + ":unit", not bad, w, f"a Tsallis {what} value with q != 1 depends on the logarithm base", "free of the base")
        else:
            try:
                u = Unit(base)
                d = u.deg(g)
                if d is None:
                    c.und(key + ":unit", "unit of " + show(first_none(u, g), 4)[:200], w)
                elif d in (-1, "any"):
                    c.ok(key + ":unit", "proportional to 1/log(base)")
                else:
                    c.bad(key + ":unit", w, f"the {what} value scales like log(base)^{d}, not like 1/log(base): {show(g, 6)[:300]}")
            except Mismatch as e:
                c.bad(key + ":unit", w, f"part of the {what} value mixes units log(base)^{e.d[0]} and log(base)^{e.d[1]}: {show(e.t, 6)[:300]}")
        for k, r in other.items():
            gk = r[i]
            if gk is None:
                c.bad(f"{key}:base {k}", w, f"no {what} value for base {k!r} although another base has one")
                continue
            ref = renorm(sb, inst(g, base, k))
            gk = renorm(r[0], gk)
            if same(ref, gk):
                c.ok(f"{key}:base {k}")
                continue
            c.bad(f"{key}:base {k}", w, f"the {what} value for base {k!r} is not the general-base value divided differently: {show_diff(gk, ref)}")


def inst(g, base, k):
    if k == "e":
        lb = mk("call", "numpy.log", (base,), ())
        g = transform(g, lambda x: const(1) if x is lb else x)
        return subst(g, {base: const("e")})
    return subst(g, {base: const(k)})


def first_none(u, t):
    for x in walk(t):
        if u.memo.get(x, 0) is None and all(u.memo.get(y, 0) is not None for y in children(x)):
            return x
    return t


@rule("P02", floor=300,
      rule="unit inference: assign log(base) the unit 1 and propagate through +,*,log,exp,sum,mean,indexing; every result must have unit -1 and no sum may mix units; the graphs for bases 'e', 2, 10 must be the instance of the general one",
      explain="value graphs of global_val()/local_vals() of every registered estimator class built by abstract interpretation with the base left symbolic and with each special-cased base; compared as hash-consed normal forms")
def p02(tier):
    return [(f"P02 {Sc(m, a, q, **v)}", p02_job, (m, a, q, v)) for m, a, q, v in base_scs(tier)]
