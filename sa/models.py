"""Models of external values: python kind, ndim, length, storage (aliasing) of a term."""
from __future__ import annotations
from .terms import *

# ufunc-like: result has the shape of its (first array) argument
ELEMENTWISE = {
    "numpy." + n for n in
    "log log2 log10 log1p exp expm1 sqrt abs absolute negative nextafter clip where isnan isinf isfinite "
    "maximum minimum power square sign floor ceil round rint divide multiply add subtract nan_to_num "
    "true_divide logical_and logical_or logical_not equal greater less greater_equal less_equal not_equal fabs cbrt".split()
} | {"scipy.special." + n for n in "digamma psi gamma gammaln loggamma polygamma xlogy xlog1py entr rel_entr factorial".split()} | {"sparse.asnumpy"}
REDUCE = {"numpy." + n for n in "sum mean prod min max amin amax std var median any all count_nonzero argmax argmin ptp nansum nanmean nanmin nanmax nanprod average percentile quantile".split()}
SAME = {"numpy." + n for n in "copy sort flip roll cumsum cumprod nan_to_num argsort zeros_like ones_like empty_like full_like ascontiguousarray asfortranarray asarray_chkfinite asanyarray diff gradient fliplr flipud".split()}
SCALAR_EXT = {"math." + n for n in "log log2 log10 exp sqrt lgamma gamma comb factorial ceil floor pow isnan isinf fsum prod".split()} | {
    "builtins.float", "builtins.abs", "builtins.round", "scipy.integrate.quad_val", "builtins.len", "builtins.int"}
ALLOC1 = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"}


def callee(t):
    return t.args[0] if t.op == "call" and isinstance(t.args[0], str) else None


def kw(t, name, default=None, pos=None):
    for k, v in t.args[2]:
        if k == name:
            return v
    if pos is not None and len(t.args[1]) > pos:
        return t.args[1][pos]
    return default


class Facts:
    """typing facts about parameters: kind, ndim, numeric bounds; plus inference over terms"""

    def __init__(self):
        self.meta: dict = {}
        self._kind: dict = {}
        self._ndim: dict = {}

    def declare(self, t, **m):
        self.meta[t] = m
        self._kind.clear()
        self._ndim.clear()
        return t

    # ---------------------------------------------------------------- kind
    def kind(self, t):
        r = self._kind.get(t)
        if r is None:
            self._kind[t] = "unknown"      # cycle guard
            r = self._kind[t] = self._infer_kind(t)
        return r

    def _infer_kind(self, t):
        m = self.meta.get(t)
        if m and "kind" in m:
            return m["kind"]
        o = t.op
        if o == "const":
            v = t.args[1]
            if t.args[0] == "nan":
                return "float"
            if v is None:
                return "none"
            if t.args[0] == "Fraction":
                return "float"
            return {"bool": "bool", "int": "int", "float": "float", "str": "str"}.get(type(v).__name__, type(v).__name__)
        if o == "tuple":
            return "tuple"
        if o in ("func", "bound", "lam", "extbound"):
            return "func"
        if o == "class":
            return "class"
        if o in ("list", "append", "filtermap", "flatmap"):
            return "list"
        if o == "map":
            return "list"
        if o in ("dict", "dmap"):
            return "dict"
        if o in ("cmp", "and", "or", "not", "exists"):
            if o == "cmp" and t.args[0] in ("is", "isnot", "in", "notin"):
                return "bool"
            ks = {self.kind(x) for x in t.args if isinstance(x, T)}
            if "ndarray" in ks:
                return "ndarray"
            if "unknown" in ks and o == "cmp":
                return "unknown"
            return "bool"
        if o == "phi":
            a, b = self.kind(t.args[1]), self.kind(t.args[2])
            if a == b:
                return a
            if {a, b} <= {"int", "float", "number"}:
                return "number" if "int" in (a, b) else "float"
            return "unknown"
        if o in ("lin", "mono", "pow"):
            ks = set()
            isint = True
            if o == "lin":
                for mm, c in t.args[0]:
                    if c.denominator != 1:
                        isint = False
                    if mm is not None:
                        ks.add(self.kind(mm))
            elif o == "mono":
                for b, e in t.args[0]:
                    if e.denominator != 1 or e < 0:
                        isint = False
                    ks.add(self.kind(b))
            else:
                ks = {self.kind(t.args[0]), self.kind(t.args[1])}
                isint = False
            if "ndarray" in ks or "list" in ks:
                return "ndarray"
            if "unknown" in ks:
                return "unknown"
            if ks <= {"int", "bool"} and isint:
                return "int"
            return "float"
        if o == "index":
            k = self.kind(t.args[0])
            if k == "shape":
                return "int"
            nd = self.ndim(t)
            if k == "ndarray":
                if nd is None:
                    return "unknown"
                return "ndarray" if nd > 0 else "float"
            if k == "str":
                return "str"
            tl = self.tuple_elem_kind(t.args[0], t.args[1])
            if tl:
                return tl
            return "unknown"
        if o in ("setitem", "fill"):
            return self.kind(t.args[0])
        if o == "len":
            return "int"
        if o == "attr":
            a = t.args[1]
            if a == "shape":
                return "shape"
            if a in ("ndim", "size", "itemsize", "nnz"):
                return "int"
            if a in ("T", "real", "imag", "flat", "data", "coords"):
                return "ndarray"
            if a in ("strides",):
                return "shape"
            if a in ("dtype",):
                return "dtype"
            return "unknown"
        if o == "draw":
            return "ndarray" if self.draw_is_array(t) else "unknown"
        if o == "H":
            return "ndarray" if t.args[0] == "local" else "float"
        if o == "call":
            return self._call_kind(t)
        if o == "mcall":
            return self._mcall_kind(t)
        if o in ("last", "loopout"):
            return self.kind(t.args[-1]) if o == "last" else self.kind(t.args[1])
        if o == "bv":
            return "int"
        if o == "mu":
            return "unknown"
        if o == "fstr":
            return "str"
        if o == "ext":
            n = t.args[0]
            if n in ("numpy.pi", "numpy.e", "numpy.euler_gamma", "math.pi", "math.e", "math.tau", "numpy.inf", "numpy.nan"):
                return "float"
            return "class" if n.startswith("builtins.") and n.split(".")[1][:1].islower() and n.split(".")[1] in (
                "int", "float", "str", "bool", "list", "tuple", "dict", "set", "object", "complex", "bytes") else "unknown"
        return "unknown"

    def draw_is_array(self, t):
        return True

    def tuple_elem_kind(self, base, idx):
        n = callee(base)
        if n in ("numpy.unique", "numpy.linalg.eig", "scipy.sparse.find", "numpy.linalg.eigh"):
            return "ndarray"
        if base.op == "mcall" and base.args[0] in ("query", "nonzero"):
            return "ndarray"
        if n in ("scipy.integrate.quad",):
            return "float"
        if n == "numpy.array_split":
            return "ndarray"
        return None

    def _call_kind(self, t):
        n = callee(t)
        a = t.args[1]
        if n is None:
            return "unknown"
        if n in ELEMENTWISE:
            ks = [self.kind(x) for x in a]
            if any(k in ("ndarray", "list", "tuple") for k in ks):
                return "ndarray"
            if any(k == "unknown" for k in ks):
                return "unknown"
            return "float"
        if n in REDUCE:
            ax = kw(t, "axis")
            if ax is None or ax is NONE:
                return "float"
            nd = self.ndim(t)
            if nd is None:
                return "unknown"
            return "ndarray" if nd > 0 else "float"
        if n.split(".")[-1] in ("cpu_count", "process_cpu_count") and not a:
            return "int"
        if n in SAME or n in ALLOC1:
            return "ndarray"
        if n in ("numpy.asarray", "numpy.array"):
            return "ndarray"
        if n in ("astype",):
            return self.kind(a[0])
        if n in ("numpy.unique",):
            if self.tuple_len(t) is not None:
                return "xtuple"
            return "ndarray"
        if n.startswith("numpy.") and n.split(".")[1] in (
                "column_stack concatenate stack vstack hstack dstack arange linspace expand_dims squeeze reshape ravel transpose "
                "take repeat tile dot outer matmul cov histogram2d bincount searchsorted array_split apply_along_axis "
                "broadcast_to delete insert append atleast_1d atleast_2d rot90 moveaxis swapaxes flatnonzero argwhere "
                "intersect1d union1d setdiff1d isin in1d eye identity diag tril triu meshgrid choose compress full "
                "digitize partition argpartition lexsort fromiter vectorize").split():
            return "ndarray"
        if n == "numpy.lib.stride_tricks.as_strided":
            return "ndarray"
        if n == "numpy.random.default_rng":
            return "rng"
        if n in SCALAR_EXT:
            if n in ("builtins.len", "builtins.int", "math.comb", "math.factorial"):
                return "int"
            return "float"
        if n in ("builtins.sum", "builtins.max", "builtins.min", "math.prod") and len(a) == 1 and self.kind(a[0]) == "shape":
            return "int"
        if n in ("builtins.sum",):
            return "unknown"
        if n in ("builtins.min", "builtins.max"):
            ks = {self.kind(x) for x in a}
            if len(ks) == 1:
                return ks.pop() if len(a) > 1 else "unknown"
            return "number" if ks <= {"int", "float", "number"} else "unknown"
        if n in ("builtins.type",):
            return "class"
        if n in ("builtins.str",):
            return "str"
        if n in ("builtins.list", "builtins.sorted"):
            return "list"
        if n in ("builtins.tuple",):
            return "tuple"
        if n in ("builtins.dict", "collections.Counter", "collections.defaultdict"):
            return "dict"
        if n in ("builtins.set", "builtins.frozenset"):
            return "set"
        if n in ("builtins.bool", "builtins.all", "builtins.any", "numpy.issubdtype"):
            return "bool"
        if n in ("truediv", "floordiv", "mod"):
            ks = {self.kind(x) for x in a}
            if "ndarray" in ks:
                return "ndarray"
            if "unknown" in ks:
                return "unknown"
            if n != "truediv" and ks <= {"int"}:
                return "int"
            return "float"
        if n in ("bitor", "bitand", "bitxor", "invert"):
            return self.kind(a[0])
        return "unknown"

    def _mcall_kind(self, t):
        n, recv = t.args[0], t.args[1]
        if n in ("query_ball_point", "evaluate", "tocsr", "todense", "toarray"):
            return "ndarray"
        if n in ("query", "nonzero"):
            return "xtuple"
        if n in ("sum",):
            return "ndarray" if kw_m(t, "axis") not in (None, NONE) else "float"
        if n in ("lower", "upper", "replace", "join", "format", "strip"):
            return "str"
        if n in ("keys", "values", "items"):
            return "view"
        if n in ("difference", "intersection", "union", "symmetric_difference"):
            return "set"
        if n in ("count", "index"):
            return "int"
        if n == "item":
            return "float"
        return "unknown"

    # ---------------------------------------------------------------- ndim
    def ndim(self, t):
        if t in self._ndim:
            return self._ndim[t]
        self._ndim[t] = None
        r = self._ndim[t] = self._infer_ndim(t)
        return r

    def _infer_ndim(self, t):
        m = self.meta.get(t)
        if m and "ndim" in m:
            return m["ndim"]
        o = t.op
        if o == "const":
            return 0
        if o == "phi":
            a, b = self.ndim(t.args[1]), self.ndim(t.args[2])
            return a if a == b else None
        if o in ("lin", "mono", "pow", "cmp", "and", "or", "not"):
            nds = []
            for x in children(t):
                d = self.ndim(x)
                if d is None:
                    k = self.kind(x)
                    if k in ("int", "float", "number", "bool"):
                        d = 0
                    else:
                        return None
                nds.append(d)
            return max(nds) if nds else 0
        if o in ("map", "list", "filtermap"):
            inner = self.ndim(t.args[1] if o == "map" else (t.args[0] if t.args and o == "list" else t)) if (
                o == "map" or (o == "list" and t.args and isinstance(t.args[0], T))) else None
            return None if inner is None else inner + 1
        if o in ("setitem", "fill"):
            return self.ndim(t.args[0])
        if o == "loopout" and len(t.args) == 3 and isinstance(t.args[1], T) and isinstance(t.args[2], T):
            b = t.args[1]
            while b.op == "setitem":
                b = b.args[0]
            return self.ndim(t.args[2]) if b.op == "mu" else None
        if o == "len":
            return 0
        if o == "attr":
            if t.args[1] == "T":
                return self.ndim(t.args[0])
            if t.args[1] == "data" :
                return 1
            return 0 if t.args[1] in ("size", "ndim") else None
        if o == "draw":
            return self.draw_ndim(t)
        if o == "H":
            return 1 if t.args[0] == "local" else 0
        if o == "index":
            return self._index_ndim(t)
        if o == "mcall":
            n = t.args[0]
            if n == "query_ball_point":
                return 1
            if n == "evaluate":
                return 1
            return None
        if o == "call":
            n = callee(t)
            a = t.args[1]
            if n is None:
                return None
            if n in ELEMENTWISE:
                ds = [self.ndim(x) for x in a]
                return None if any(d is None for d in ds) else (max(ds) if ds else 0)
            if n in SAME or n in ("numpy.asarray", "numpy.array", "astype", "numpy.apply_along_axis_same"):
                return self.ndim(a[0]) if a else None
            if n in REDUCE:
                ax = kw(t, "axis")
                d = self.ndim(a[0]) if a else None
                if ax is None or ax is NONE:
                    return 0
                if d is None:
                    return None
                if ax.op == "tuple":
                    return d - len(ax.args)
                return d - 1
            if n in ("numpy.column_stack", "numpy.vstack"):
                return 2
            if n in ("numpy.concatenate", "numpy.hstack"):
                if a and a[0].op in ("tuple", "list") and a[0].args:
                    return self.ndim(a[0].args[0])
                if a and a[0].op == "map":
                    return self.ndim(a[0].args[1])
                return None
            if n in ("numpy.arange", "numpy.ravel", "numpy.linspace", "numpy.bincount", "numpy.flatnonzero"):
                return 1
            if n in ("numpy.squeeze",):
                d = self.ndim(a[0])
                return d if d == 1 else None
            if n == "numpy.expand_dims":
                d = self.ndim(a[0])
                return None if d is None else d + 1
            if n == "numpy.reshape":
                sh = a[1] if len(a) > 1 else kw(t, "shape")
                if sh is not None and sh.op == "tuple":
                    return len(sh.args)
                if sh is not None and self.kind(sh) == "int":
                    return 1
                return None
            if n in ("numpy.transpose",):
                return self.ndim(a[0])
            if n in ALLOC1:
                sh = a[0] if a else kw(t, "shape")
                if sh is None:
                    return None
                if sh.op in ("tuple", "list"):
                    return len(sh.args)
                return 1 if self.kind(sh) == "int" else None
            if n == "numpy.unique":
                return self.ndim(a[0]) if kw(t, "axis") not in (None, NONE) else 1
            if n == "numpy.take":
                return self.ndim(a[1]) if len(a) > 1 else None
            if n == "numpy.lib.stride_tricks.as_strided":
                sh = kw(t, "shape", pos=1)
                return len(sh.args) if sh is not None and sh.op == "tuple" else None
            if n == "numpy.apply_along_axis":
                f = a[0] if a else None
                if f is not None and f.op == "ext" and f.args[0] in ("numpy.argsort", "numpy.sort"):
                    return self.ndim(a[2])
                d = self.ndim(a[2]) if len(a) > 2 else None
                return None if d is None else d - 1
            if n in ("truediv", "floordiv", "mod", "bitor", "bitand"):
                ds = [self.ndim(x) for x in a]
                return None if any(d is None for d in ds) else max(ds)
            if n in SCALAR_EXT:
                return 0
        k = self.kind(t)
        if k in ("int", "float", "bool", "number"):
            return 0
        return None

    def draw_ndim(self, t):
        meth, args, kws = t.args[0], t.args[4], dict(t.args[5])
        if meth in ("permutation", "permuted", "shuffled"):
            return self.ndim(args[0]) if args else None
        if meth == "choice":
            return self.ndim(args[0]) if args else None
        if meth in ("normal", "uniform", "standard_normal", "random"):
            sz = kws.get("size") or (args[2] if len(args) > 2 else None)
            if sz is None:
                return 0
            if sz.op == "attr" and sz.args[1] == "shape":
                return self.ndim(sz.args[0])
            if sz.op == "tuple":
                return len(sz.args)
            if self.kind(sz) == "int":
                return 1
        return None

    def _index_ndim(self, t):
        base, ix = t.args
        k = self.kind(base)
        if k == "shape":
            return 0
        if base.op == "call" and callee(base) == "numpy.unique" and k == "xtuple":
            return 1 if not (ix.op == "const" and cval(ix) == 0 and kw(base, "axis") not in (None, NONE)) else None
        if base.op == "mcall" and base.args[0] == "query" and ix.op == "const":
            kk = kw_m(base, "k", pos=1)
            return 2 if kk is not None and kk is not const(1) else 1
        if base.op == "mcall" and base.args[0] == "nonzero":
            return 1
        if callee(base) == "scipy.sparse.find":
            return 1
        d = self.ndim(base)
        if d is None:
            return None
        parts = ix.args if ix.op == "tuple" else (ix,)
        adv = None
        out = 0
        used = 0
        for p in parts:
            if p.op == "slice":
                out += 1
                used += 1
            elif p is NONE:
                out += 1
            elif p.op == "const" and p.args[1] is Ellipsis:
                pass
            else:
                kk = self.kind(p)
                if kk in ("int",) or (p.op == "const"):
                    used += 1
                elif kk in ("ndarray", "list"):
                    isb = p.op in ("cmp", "and", "or", "not") or callee(p) in ("numpy.isnan", "numpy.isinf", "bitor", "bitand", "invert")
                    nd = self.ndim(p) if kk == "ndarray" else 1
                    if nd is None:
                        nd = 1 if isb else None
                    if nd is None:
                        return None
                    if isb:
                        used += nd
                        adv = max(adv or 0, 1)
                    else:
                        used += 1
                        adv = max(adv or 0, nd)
                else:
                    return None
        return out + (adv or 0) + max(0, d - used)

    # ---------------------------------------------------------------- tuple length
    def tuple_len(self, t):
        if t.op == "tuple":
            return len(t.args)
        if t.op == "attr" and t.args[1] in ("shape", "strides"):
            return self.ndim(t.args[0]) or self.sparse_ndim(t.args[0])
        n = callee(t)
        if n == "numpy.unique":
            c = 0
            for i, nm in enumerate(("return_index", "return_inverse", "return_counts")):
                v = kw(t, nm, pos=i + 1)
                if v is TRUE:
                    c += 1
            return c + 1 if c else None
        if n in ("numpy.linalg.eig", "numpy.linalg.eigh", "scipy.integrate.quad"):
            return 2
        if n == "scipy.sparse.find":
            return 3
        if t.op == "mcall" and t.args[0] == "query":
            return 2
        if t.op == "mcall" and t.args[0] == "nonzero":
            return self.sparse_ndim(t.args[1])
        if t.op == "phi":
            a, b = self.tuple_len(t.args[1]), self.tuple_len(t.args[2])
            return a if a == b else None
        return None

    def sparse_ndim(self, t):
        if callee(t) == "sparse.COO":
            c = kw(t, "coords", pos=0)
            if c is not None and c.op in ("tuple", "list"):
                return len(c.args)
        if t.op == "extbound" or (t.op == "attr" and t.args[1] == "count") or (t.op == "index" and t.args[1] is const(1)):
            c = t.args[0]
            if (callee(c) or "").endswith("contingency.crosstab"):
                return len(c.args[1])
        return None

    # ---------------------------------------------------------------- storage
    def storage(self, t, seen=None) -> frozenset:
        """parameters whose memory the (array/list) value may share"""
        seen = seen or {}
        if t in seen:
            return seen[t]
        seen[t] = frozenset()
        r = self._storage(t, seen)
        seen[t] = r
        return r

    def _storage(self, t, seen):
        E = frozenset()
        o = t.op
        m = self.meta.get(t)
        if m is not None and m.get("owner"):
            return frozenset([t])
        if o == "tuple" or o == "list":
            r = E
            for x in t.args:
                r |= self.storage(x, seen)
            return r
        if o == "phi":
            return self.storage(t.args[1], seen) | self.storage(t.args[2], seen)
        if o == "index":
            base, ix = t.args
            if self.kind(base) in ("list", "tuple", "xtuple", "dict", "unknown") and base.op != "param":
                if base.op in ("tuple", "list", "phi"):
                    return self.storage(base, seen)
            if self.is_view_index(ix):
                return self.storage(base, seen)
            return E
        if o in ("setitem", "fill"):
            return self.storage(t.args[0], seen)
        if o == "attr" and t.args[1] in ("T", "flat", "real", "data", "mT"):
            return self.storage(t.args[0], seen)
        if o == "call":
            n = callee(t)
            a = t.args[1]
            if n in ("numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.expand_dims", "numpy.transpose",
                     "numpy.atleast_1d", "numpy.atleast_2d", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.swapaxes",
                     "numpy.moveaxis", "numpy.broadcast_to", "numpy.lib.stride_tricks.as_strided", "numpy.flip", "numpy.fliplr",
                     "numpy.flipud", "numpy.diagonal", "numpy.lib.stride_tricks.sliding_window_view", "numpy.require",
                     "numpy.split", "numpy.array_split", "numpy.view"):
                k = self.kind(a[0]) if a else "unknown"
                if n == "numpy.asarray":
                    if k in ("list", "tuple"):
                        return E
                    dt = kw(t, "dtype", pos=1)
                    cp = kw(t, "copy")
                    if cp is TRUE:
                        return E
                    return self.storage(a[0], seen)
                return self.storage(a[0], seen) if a else E
            if n == "numpy.array":
                if kw(t, "copy") is FALSE:
                    return self.storage(a[0], seen)
                return E
            if n == "astype":
                if kw(t, "copy") is FALSE:
                    return self.storage(a[0], seen)
                return E
            if n in ("numpy.nan_to_num",) and kw(t, "copy") is FALSE:
                return self.storage(a[0], seen)
            if n in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed"):
                # a new container of the same elements: sharing matters only for element arrays
                return E
            return E
        if o == "map":
            return self.storage(t.args[1], seen)
        return E

    def is_view_index(self, ix):
        parts = ix.args if ix.op == "tuple" else (ix,)
        for p in parts:
            if p.op == "slice" or p is NONE:
                continue
            if p.op == "const":
                continue
            if self.kind(p) == "int":
                continue
            return False
        return True

    # ---------------------------------------------------------------- bounds
    def lower(self, t):
        """a numeric lower bound or None"""
        m = self.meta.get(t)
        if m and "lower" in m:
            return m["lower"]
        if is_num(t):
            return cval(t)
        if t.op == "len":
            return 0
        if t.op == "bv":
            return 0
        if t.op == "lin":
            s = 0
            for mm, c in t.args[0]:
                if mm is None:
                    s += c
                    continue
                b = self.lower(mm) if c > 0 else self.upper(mm)
                if b is None:
                    return None
                s += c * b
            return s
        if t.op == "mono":
            return self.product(t)[0]
        if t.op == "phi":
            a, b = self.lower(t.args[1]), self.lower(t.args[2])
            return None if a is None or b is None else min(a, b)
        n = callee(t)
        if n and n.split(".")[-1] in ("cpu_count", "process_cpu_count"):
            return 1
        if n == "builtins.max":
            ls = [self.lower(x) for x in t.args[1] if self.lower(x) is not None]
            return max(ls) if ls else None
        if n == "builtins.min":
            ls = [self.lower(x) for x in t.args[1]]
            return min(ls) if ls and all(x is not None for x in ls) else None
        return None

    def upper(self, t):
        m = self.meta.get(t)
        if m and "upper" in m:
            return m["upper"]
        if is_num(t):
            return cval(t)
        if t.op == "lin":
            s = 0
            for mm, c in t.args[0]:
                if mm is None:
                    s += c
                    continue
                b = self.upper(mm) if c > 0 else self.lower(mm)
                if b is None:
                    return None
                s += c * b
            return s
        if t.op == "mono":
            return self.product(t)[1]
        if t.op == "phi":
            a, b = self.upper(t.args[1]), self.upper(t.args[2])
            return None if a is None or b is None else max(a, b)
        return None

    def product(self, t):
        """interval of a product of powers"""
        inf = float("inf")
        lo, hi = 1, 1
        for b, e in t.args[0]:
            if e.denominator != 1 or e < 0:
                l, h = self.lower(b), self.upper(b)
                if l is None or l < 0:
                    return None, None
                x, y = (0, inf)
            else:
                l, h = self.lower(b), self.upper(b)
                x = -inf if l is None else l
                y = inf if h is None else h
                e = int(e)
                if e % 2 == 0 and x < 0 < y:
                    x, y = 0, max(abs(x), abs(y)) ** e
                else:
                    x, y = sorted((x ** e, y ** e))
            ps = [0 if 0 in (p, q) else p * q for p in (lo, hi) for q in (x, y)]
            lo, hi = min(ps), max(ps)
        return (None if lo == -inf else lo), (None if hi == inf else hi)


def kw_m(t, name, default=None, pos=None):
    """keyword of an mcall(name, recv, args, kwargs)"""
    for k, v in t.args[3]:
        if k == name:
            return v
    if pos is not None and len(t.args[2]) > pos:
        return t.args[2][pos]
    return default
