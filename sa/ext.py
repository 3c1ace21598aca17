"""Models of built-ins, numpy and other external code: canonical terms for their results."""
from __future__ import annotations
import ast
from fractions import Fraction
from .terms import *
from .terms import _frac, _mk_mono, _mk_lin, LEVEL, binder_level
from .state import *
from .models import callee, kw, kw_m, ELEMENTWISE, REDUCE

B = {}          # handlers on raw (possibly heap) arguments
NUMK = ("int", "float", "number", "bool")
NUMPY_ALIAS = {"absolute": "abs", "fabs": "abs", "amax": "max", "amin": "min", "true_divide": "divide", "product": "prod",
               "asanyarray": "asarray", "ascontiguousarray": "asarray", "asfortranarray": "asarray", "row_stack": "vstack",
               "float_power": "power", "bool8": "bool_", "asarray_chkfinite": "asarray"}
DATA_ATTRS = {"shape", "ndim", "size", "T", "dtype", "real", "imag", "flat", "data", "coords", "nnz", "x", "root", "converged",
              "success", "fun", "strides", "itemsize", "nbytes", "pvalue", "statistic", "max_", "eps", "tiny", "kind", "__class__",
              "__name__", "__dict__", "covariance", "dataset", "d", "n", "factor", "mT", "base", "__module__", "__doc__", "name"}
ND_METHODS = {"sum", "mean", "prod", "min", "max", "std", "var", "any", "all", "argmax", "argmin", "argsort", "cumsum", "cumprod",
              "ravel", "flatten", "reshape", "squeeze", "transpose", "astype", "copy", "take", "repeat", "round", "clip", "dot",
              "nonzero", "searchsorted", "tolist", "item", "swapaxes", "diagonal", "trace", "conj", "view", "compress", "ptp",
              "byteswap", "choose", "tobytes"}
ND_MUTATE = {"sort", "fill", "put", "resize", "partition", "itemset", "setfield", "setflags"}
NONDET = ("time.", "random.", "secrets.", "uuid.", "os.urandom", "os.getpid", "datetime.", "os.environ", "os.getenv")
ARITH_UF = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "power": "Pow", "floor_divide": "FloorDiv",
            "mod": "Mod", "remainder": "Mod", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
            "logical_and": "BitAnd", "logical_or": "BitOr"}
CMP_UF = {"equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}
SIGM = {"query": ["x", "k", "eps", "p", "distance_upper_bound", "workers"],
        "query_ball_point": ["x", "r", "p", "eps", "workers", "return_sorted", "return_length"]}
SIG = {"scipy.spatial.KDTree": ["data", "leafsize", "compact_nodes", "copy_data", "balanced_tree", "boxsize"],
       "scipy.stats.gaussian_kde": ["dataset", "bw_method", "weights"],
       "numpy.unique": ["ar", "return_index", "return_inverse", "return_counts", "axis", "equal_nan"],
       "numpy.cov": ["m", "y", "rowvar", "bias", "ddof", "fweights", "aweights"],
       "sparse.COO": ["coords", "data", "shape"],
       "numpy.full": ["shape", "fill_value", "dtype"], "numpy.zeros": ["shape", "dtype"], "numpy.ones": ["shape", "dtype"],
       "numpy.empty": ["shape", "dtype"], "scipy.special.polygamma": ["n", "x"],
       "numpy.percentile": ["a", "q", "axis"], "numpy.quantile": ["a", "q", "axis"],
       "numpy.apply_along_axis": ["func1d", "axis", "arr"], "numpy.array_split": ["ary", "indices_or_sections", "axis"],
       "numpy.lib.stride_tricks.as_strided": ["x", "shape", "strides"],
       "numpy.clip": ["a", "a_min", "a_max"], "numpy.nextafter": ["x1", "x2"], "numpy.random.default_rng": ["seed"],
       "numpy.linspace": ["start", "stop", "num"], "numpy.argsort": ["a", "axis", "kind"], "numpy.searchsorted": ["a", "v", "side"]}
KWMIN = {"scipy.spatial.KDTree": 1, "scipy.stats.gaussian_kde": 1, "numpy.unique": 1, "numpy.cov": 1, "sparse.COO": 0, "numpy.full": 2,
         "numpy.zeros": 1, "numpy.ones": 1, "numpy.empty": 1, "scipy.special.polygamma": 2, "numpy.percentile": 2, "numpy.quantile": 2,
         "numpy.apply_along_axis": 3, "numpy.array_split": 2, "numpy.lib.stride_tricks.as_strided": 1, "numpy.clip": 3,
         "numpy.nextafter": 2, "numpy.random.default_rng": 1, "numpy.linspace": 2, "numpy.argsort": 1, "numpy.searchsorted": 2}
DROPDEF = {("numpy.unique", "return_index"): FALSE, ("numpy.unique", "return_inverse"): FALSE, ("numpy.unique", "return_counts"): FALSE,
           ("numpy.unique", "axis"): NONE, ("query", "eps"): const(0), ("query_ball_point", "eps"): const(0),
           ("query_ball_point", "return_length"): FALSE, ("query_ball_point", "p"): const(2), ("query", "p"): const(2),
           ("numpy.array_split", "axis"): const(0), ("numpy.argsort", "axis"): const(-1), ("numpy.argsort", "kind"): NONE, ("numpy.argsort", "stable"): NONE, ("numpy.cov", "rowvar"): TRUE}


def fnum(f) -> T:
    f = Fraction(f)
    if f.denominator == 1:
        return const(int(f))
    return const(float(f)) if Fraction(float(f)) == f else mk("const", "Fraction", f)


def reg(*names):
    def d(fn):
        for n in names:
            B[n] = fn
        return fn
    return d


# ------------------------------------------------------------------ names
def ext_value(dotted):
    if dotted.startswith("logging.") and dotted[8:] in LEVELS:
        return const(LEVELS[dotted[8:]])
    if dotted in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty"):
        return const(float("inf"))
    if dotted in ("numpy.nan", "math.nan", "numpy.NaN"):
        return const(float("nan"))
    if dotted == "numpy.newaxis":
        return NONE
    if dotted in ("numpy.True_",):
        return TRUE
    if dotted in ("numpy.False_",):
        return FALSE
    if dotted in ("builtins.Ellipsis",):
        return const(...)
    if dotted == "builtins.NotImplemented":
        return mk("ext", dotted)
    if dotted in ("math.pi", "scipy.pi", "scipy.constants.pi", "numpy.pi"):
        return mk("ext", "numpy.pi")
    if dotted in ("math.e", "numpy.e"):
        return mk("call", "numpy.exp", (const(1),), ())
    if dotted == "typing.TYPE_CHECKING":
        return FALSE
    return mk("ext", dotted)


def canon_name(n):
    if n.startswith("numpy.") and n.count(".") == 1:
        b = n[6:]
        return "numpy." + NUMPY_ALIAS.get(b, b)
    if n in ("scipy.special.psi",):
        return "scipy.special.digamma"
    if n in ("scipy.special.loggamma",):
        return "scipy.special.gammaln"
    if n in ("math.lgamma",):
        return "scipy.special.gammaln"
    if n in ("math.gamma",):
        return "scipy.special.gamma"
    if n in ("math.log", "math.log2", "math.log10", "math.exp", "math.sqrt", "math.log1p", "math.expm1", "math.ceil", "math.floor",
             "math.isnan", "math.isinf", "math.isfinite", "math.fabs"):
        b = n[5:]
        return "numpy." + NUMPY_ALIAS.get(b, b)
    if n == "builtins.abs":
        return "numpy.abs"
    if n == "math.prod":
        return "numpy.prod"
    if n == "math.fsum":
        return "builtins.sum"
    if n == "math.pow":
        return "numpy.power"
    if n in ("scipy.spatial.cKDTree", "scipy.spatial.ckdtree.cKDTree", "scipy.spatial.kdtree.KDTree"):
        return "scipy.spatial.KDTree"
    if n.startswith("scipy.special._ufuncs."):
        return "scipy.special." + n.split(".")[-1]
    return n


LOGGER_SETTERS = {"setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"}
SCOPES = {"warnings.catch_warnings": ("warnings.",), "numpy.errstate": ("numpy.seterr",), "numpy.printoptions": ("numpy.set_printoptions",)}


def scope_of(cm):
    """the settings a context manager restores"""
    return SCOPES.get(cm.args[0]) if cm.op == "call" else None


def effect(interp, st, node, name):
    if not any(name.startswith(p) for sc in interp.scopes for p in sc):
        interp.event("ext-effect", st, node, name=name)


LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARN": 30, "WARNING": 30, "INFO": 20, "DEBUG": 10, "NOTSET": 0}


def logger_query(meth):
    return NONE


def logger_setting(interp, logger, meth, args, st, node):
    """a logger's own settings are process-wide; setLevel rejects what is no level"""
    v = args[0] if args else None
    if meth == "setLevel" and v is not None and v.op == "const":
        x = cval(v)
        if isinstance(x, str) and x not in LEVELS:
            interp.raise_name(st, "ValueError", node, "Unknown level")
        if not isinstance(x, (str, int)):
            interp.raise_name(st, "TypeError", node, "Level not an integer or a valid string")
        v = const(LEVELS[x]) if isinstance(x, str) else v
    interp.event("ext-effect", st, node, name="logger." + meth, args=tuple(args[:0]) + ((v,) if v is not None else ()))


def is_logger(n):
    if n in PUREMUT:
        return False
    return n.startswith("logging.") or n.startswith("warnings.warn") or n in ("builtins.print",)


def is_logger_term(t):
    return t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("logging.")


def local_names(n):
    c = _locals.get(id(n))
    if c is not None and c[0] is n:
        return c[1]
    s = set()
    a = n.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        s.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            s.add(x.arg)
    if not isinstance(n, ast.Lambda):
        stack = list(n.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                s.add(x.name)
                stack.extend(x.decorator_list)
                continue
            if isinstance(x, ast.Lambda):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(x):
                    if isinstance(w, ast.NamedExpr):
                        s.add(w.target.id)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                s.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    s.add((al.asname or al.name).split(".")[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                s.add(x.name)
            elif isinstance(x, ast.MatchAs) and x.name:
                s.add(x.name)
            stack.extend(ast.iter_child_nodes(x))
    _locals[id(n)] = (n, s)
    return s


_locals: dict = {}


# ------------------------------------------------------------------ arithmetic
def _isnum(t):
    return is_num(t) and _frac(cval(t)) is not None


def arith(interp, op, a, b, st, node):
    if a.op == "const" and b.op == "const":
        x, y = cval(a), cval(b)
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None or isinstance(x, bytes):
            try:
                r = {"Add": lambda: x + y, "Mult": lambda: x * y, "Mod": lambda: x % y}[op]()
                return const(r)
            except (TypeError, KeyError, ValueError):
                interp.raise_name(st, "TypeError", node, "operand types")
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and (_frac(x) is None or _frac(y) is None or op not in ("Add", "Sub", "Mult", "Div", "Pow")):
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y, "Pow": lambda: x ** y,
                     "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "LShift": lambda: x << y, "RShift": lambda: x >> y}[op]()
                return const(r)
            except ZeroDivisionError:
                interp.raise_name(st, "ZeroDivisionError", node)
            except (TypeError, KeyError, OverflowError):
                pass
    ka, kb = interp.facts.kind(a), interp.facts.kind(b)
    if op in ("Add", "Sub", "Mult", "Div", "Pow", "FloorDiv", "Mod"):
        if a is NONE or b is NONE:
            interp.raise_name(st, "TypeError", node, "unsupported operand None")
        if op == "Mod" and ka == "str":
            return mk("fstr", (a, b))
        if "str" in (ka, kb):
            if ka == kb == "str" and op == "Add":
                pa = a.args[0] if a.op == "fstr" else (a,)
                pb = b.args[0] if b.op == "fstr" else (b,)
                return mk("fstr", pa + pb)
            if op != "Mult" and {ka, kb} & set(NUMK + ("none", "ndarray", "list", "tuple")):
                interp.raise_name(st, "TypeError", node, "unsupported operand str")
    if op in ("Add", "Sub", "Mult", "Div", "Pow"):
        a = _tosym(a)
        b = _tosym(b)
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        if is_num(b) and cval(b) == 0 and ka in NUMK:
            pass
        return div(a, b)
    if op == "Pow":
        return powr(a, b)
    if op == "MatMult":
        return np_call(interp, "numpy.matmul", [a, b], {}, st, node)
    if op == "FloorDiv":
        if _isnum(b) and cval(b) == 1 and ka == "int":
            return a
        return mk("call", "floordiv", (a, b), ())
    if op == "Mod":
        return mk("call", "mod", (a, b), ())
    if op in ("BitAnd", "BitOr", "BitXor"):
        n = {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor"}[op]
        if a.op in ("cmp", "and", "or", "not") and b.op in ("cmp", "and", "or", "not") and n != "bitxor" and interp.facts.kind(a) != "ndarray" and interp.facts.kind(b) != "ndarray" and interp.facts.kind(a) == "bool":
            return b_and(a, b) if n == "bitand" else b_or(a, b)
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            x, y = (a, b) if a in (TRUE, FALSE) else (b, a)
            if interp.facts.kind(y) in ("bool",):
                if n == "bitand":
                    return y if x is TRUE else FALSE
                if n == "bitor":
                    return TRUE if x is TRUE else y
        if a.op == "set" and b.op == "set":
            pass
        return mk("call", n, tuple(sorted((a, b))), ())
    return mk("call", op.lower(), (a, b), ())


def _tosym(a):
    """numeric view of list literals in arithmetic with arrays"""
    if a.op == "const" and isinstance(a.args[1], bool):
        return const(int(cval(a)))
    if a.op == "phi" and a.args[1].op == "const" and a.args[2].op == "const" and any(isinstance(x.args[1], bool) for x in a.args[1:]):
        return phi(a.args[0], _tosym(a.args[1]), _tosym(a.args[2]))
    return a


def invert(interp, v):
    if v.op in ("cmp", "and", "or", "not") and interp.facts.kind(v) != "ndarray":
        return b_not(v)
    if v.op == "cmp" and v.args[0] in ("==", "!=", "<", "<="):
        return b_not(v)
    if callee(v) == "invert":
        return v.args[1][0]
    if callee(v) == "numpy.isfinite":
        return mk("call", "bitor", tuple(sorted((mk("call", "numpy.isinf", v.args[1], ()), mk("call", "numpy.isnan", v.args[1], ())))), ())
    return mk("call", "invert", (v,), ())


# ------------------------------------------------------------------ indexing
FULL = mk("slice", NONE, NONE, NONE)


def norm_slice(s):
    a, b, c = s.args
    if c is const(1):
        c = NONE
    if a is const(0) and c in (NONE,):
        a = NONE
    if c is not NONE and is_num(c) and cval(c) > 0 and a is const(0):
        a = NONE
    return mk("slice", a, b, c)


def norm_ix(interp, base, ix):
    if ix.op == "slice":
        return norm_slice(ix)
    if ix.op == "tuple":
        parts = [norm_slice(p) if p.op == "slice" else p for p in ix.args]
        # a single ellipsis
        el = [i for i, p in enumerate(parts) if p.op == "const" and p.args[1] is Ellipsis]
        if el:
            nd = interp.facts.ndim(base)
            if nd is not None:
                used = sum(1 for p in parts if p is not NONE and not (p.op == "const" and p.args[1] is Ellipsis))
                i = el[0]
                parts = parts[:i] + [FULL] * (nd - used) + parts[i + 1:]
            elif el == [0] and len(parts) >= 2:
                return mk("tuple", *parts)
        while len(parts) > 1 and parts[-1] is FULL:
            parts.pop()
        if len(parts) == 1:
            return parts[0]
        return mk("tuple", *parts)
    return ix


def index(interp, base, ix):
    F = interp.facts
    if base.op == "phi" and (base.args[1].op in ("tuple", "list", "map", "dict") or base.args[2].op in ("tuple", "list", "map", "dict")):
        return phi(base.args[0], index(interp, base.args[1], ix), index(interp, base.args[2], ix))
    if ix.op == "phi" and base.op in ("tuple", "list", "dict") and all(x.op == "const" for x in ix.args[1:]):
        return phi(ix.args[0], index(interp, base, ix.args[1]), index(interp, base, ix.args[2]))
    ix = norm_ix(interp, base, ix)
    if base.op in ("tuple", "list"):
        if ix.op == "const" and isinstance(cval(ix), (int, bool)):
            i = int(cval(ix))
            if -len(base.args) <= i < len(base.args):
                return base.args[i]
        if ix.op == "slice" and all(x.op == "const" for x in ix.args):
            return mk(base.op, *base.args[slice(*[cval(x) for x in ix.args])])
    if ix.op in ("slice", "const") and base.op in ("call", "mcall", "attr"):
        tl = F.tuple_len(base)
        if tl is not None:
            if ix.op == "slice" and all(x.op == "const" for x in ix.args):
                return mk("tuple", *[index(interp, base, const(i)) for i in range(tl)[slice(*[cval(x) for x in ix.args])]])
            if ix.op == "const" and isinstance(cval(ix), int) and -tl <= cval(ix) < 0:
                ix = const(cval(ix) + tl)
    if base.op == "dict":
        for k, v in base.args[0]:
            if k is ix:
                return v
    if base.op == "map":
        if F.kind(ix) == "int" or (ix.op == "const" and isinstance(cval(ix), int)):
            if ix.op == "const" and cval(ix) < 0:
                return beta(base, add(base.args[0], ix), interp)
            return beta(base, ix, interp)
    if base.op == "concat" and ix.op == "const" and isinstance(cval(ix), int):
        i = cval(ix)
        if i >= 0 and base.args[0].op == "list" and i < len(base.args[0].args):
            return base.args[0].args[i]
        if i < 0 and base.args[-1].op == "list" and -i <= len(base.args[-1].args):
            return base.args[-1].args[i]
    if callee(base) == "builtins.tuple" or callee(base) == "builtins.list":
        if F.kind(ix) == "int":
            return index(interp, base.args[1][0], ix)
    if base.op == "attr" and base.args[1] == "shape":
        x = base.args[0]
        nd = F.ndim(x)
        if ix.op == "const" and isinstance(cval(ix), int):
            i = cval(ix)
            if i < 0 and nd is not None:
                i += nd
            if i == 0:
                return length(interp, x)
            return shape_at(interp, x, i)
        return mk("index", base, ix)
    if base.op == "zip" and F.kind(ix) == "int":
        return mk("tuple", *[index(interp, x, ix) for x in base.args])
    if base.op == "setitem":
        b, i, v = base.args
        if i is ix and F.kind(v) != "unknown":
            return v
        if i.op == "const" and ix.op == "const" and i is not ix and all(isinstance(cval(z), int) and cval(z) >= 0 for z in (i, ix)):
            return index(interp, b, ix)
    if base.op == "call":
        n = callee(base)
        if n == "numpy.asarray" and base.args[1] and base.args[1][0].op in ("list", "tuple") and ix.op == "const" and isinstance(cval(ix), int) and not base.args[2]:
            return index(interp, base.args[1][0], ix)
        if n == "numpy.asarray" and base.args[1] and base.args[1][0].op == "map" and not base.args[2] and F.kind(ix) == "int":
            return index(interp, base.args[1][0], ix)
        if n == "numpy.arange" and F.kind(ix) == "int" and not base.args[2] and not (ix.op == "const" and cval(ix) < 0):
            a = base.args[1]
            if len(a) == 1:
                return ix
            return add(a[0], mul(ix, a[2] if len(a) > 2 else const(1)))
        # a column of stacked one-dimensional columns
        if n == "numpy.concatenate" and kw(base, "axis") is const(1) and ix.op == "tuple" and len(ix.args) == 2 and ix.args[0] is FULL \
                and ix.args[1].op == "const" and isinstance(cval(ix.args[1]), int) and base.args[1][0].op == "tuple":
            cols = base.args[1][0].args
            if all(callee(c) == "numpy.expand_dims" and F.ndim(c.args[1][0]) == 1 for c in cols):
                k = cval(ix.args[1])
                if -len(cols) <= k < len(cols):
                    return cols[k].args[1][0]
    if ix is FULL and F.kind(base) in ("ndarray", "list", "tuple", "str"):
        return base
    # new axes
    if ix.op == "tuple" or ix is NONE:
        parts = ix.args if ix.op == "tuple" else (ix,)
        if NONE in parts and all(p is NONE or p is FULL for p in parts) and sum(p is NONE for p in parts) == 1:
            return mk("call", "numpy.expand_dims", (base, const(parts.index(NONE))), ())
        if NONE in parts and sum(p is NONE for p in parts) == 1 and all(p is NONE or p.op == "slice" for p in parts):
            k = parts.index(NONE)
            rest = [p for p in parts if p is not NONE]
            inner = index(interp, base, mk("tuple", *rest) if len(rest) > 1 else rest[0])
            return mk("call", "numpy.expand_dims", (inner, const(k)), ())
    # transposed
    if base.op == "attr" and base.args[1] == "T" and F.ndim(base.args[0]) == 2 and F.kind(ix) == "int":
        return index(interp, base.args[0], mk("tuple", FULL, ix))
    if callee(base) == "numpy.expand_dims" and base.args[1][1] is const(1) and ix.op == "tuple" and ix.args[0] is FULL and len(ix.args) == 2 and ix.args[1] is const(0):
        return base.args[1][0]
    return mk("index", base, ix)


def two_dim(F, x):
    if callee(x) in ("numpy.dot", "numpy.matmul"):
        return two_dim(F, x.args[1][0])
    if x.op == "attr" and x.args[1] == "T":
        return two_dim(F, x.args[0])
    return F.ndim(x) == 2 or callee(x) == "numpy.expand_dims" and F.ndim(x.args[1][0]) == 1


def shape_at(interp, x, i):
    F = interp.facts
    n = callee(x)
    if n == "numpy.expand_dims" and x.args[1][1] is const(i):
        return const(1)
    if n == "numpy.expand_dims" and i == 0 and x.args[1][1] is const(1) and F.ndim(x.args[1][0]) == 1:
        return length(interp, x.args[1][0])
    if n == "numpy.concatenate" and kw(x, "axis") is const(1) and i == 0 and x.args[1][0].op == "tuple" and x.args[1][0].args:
        return shape_at(interp, x.args[1][0].args[0], 0)
    if i == 0 and F.ndim(x) == 1:
        return length(interp, x)
    if n == "numpy.concatenate" and kw(x, "axis") is const(1) and i == 1 and x.args[1][0].op == "tuple":
        return add(*[shape_at(interp, y, 1) for y in x.args[1][0].args])
    if n in ("numpy.copy", "astype", "numpy.asarray", "numpy.nan_to_num") and F.ndim(x.args[1][0]) is not None:
        return shape_at(interp, x.args[1][0], i)
    if x.op == "attr" and x.args[1] == "T" and i in (0, 1) and two_dim(F, x.args[0]):
        return shape_at(interp, x.args[0], 1 - i)
    if n in ("numpy.dot", "numpy.matmul") and i == 0 and two_dim(F, x.args[1][0]):
        return shape_at(interp, x.args[1][0], 0)
    if x.op in ("lin", "mono", "pow"):
        best = [c for c in children(x) if F.ndim(c) == F.ndim(x) and F.ndim(x)]
        if best:
            return shape_at(interp, sorted(best)[0], i)
    if x.op == "draw":
        z = dict(x.args[5]).get("size") or (x.args[4][2] if x.args[0] in ("normal", "uniform") and len(x.args[4]) > 2 else None)
        if z is not None and z.op == "tuple" and i < len(z.args):
            return z.args[i]
    m = F.meta.get(x, {})
    if "shape" in m and i < len(m["shape"]):
        return m["shape"][i]
    return mk("index", mk("attr", x, "shape"), const(i))


def setitem(interp, base, ix, val):
    ix = norm_ix(interp, base, ix)
    return mk("setitem", base, ix, val)


BODY = {"map": (1,), "fill": (2,), "loopout": (1,), "last": (1,), "dmap": (2, 3), "filtermap": (1, 2)}    # arguments under the bound variable
_FREE = {}


def binder(t, bv):
    """note the bound variable of a newly made binder term"""
    if t.op in BODY:
        binder_level(t, bv)
    return t


def free(t):
    """levels of the variables (of loops and of rows) that occur free in t"""
    r = _FREE.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t.args[0],)) if isinstance(t.args[0], int) else frozenset()
    elif t.op == "row":
        r = free(t.args[0]) | frozenset((t.args[-1],))
    elif t.op == "lam":
        r = free(t.args[1]) if isinstance(t.args[1], T) else frozenset()
        rows = {x.args[-1] for x in walk(t) if x.op == "row" and x.args[-1] in r}
        if rows:
            r = r - {max(rows)}
    elif t.op in BODY:
        o = own(t)
        r = frozenset().union(*[free(c) for i, x in enumerate(t.args) if i not in BODY[t.op] for c in _terms(x)],
                              *[free(c) - ({o.args[0]} if o is not None else frozenset()) for i in BODY[t.op] for c in _terms(t.args[i])])
    else:
        r = frozenset().union(*[free(c) for c in children(t)])
    if len(_FREE) > 2000000:
        _FREE.clear()
    _FREE[t] = r
    return r


def _terms(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _terms(y)


def own(m):
    """the variable bound by a map (None: its body does not depend on it)"""
    bv = LEVEL.get(m)
    if bv is not None:
        return bv
    inside = frozenset().union(*[free(c) for i in BODY[m.op] for c in _terms(m.args[i])])
    outside = frozenset().union(*[free(c) for i, x in enumerate(m.args) if i not in BODY[m.op] for c in _terms(x)])
    cand = inside - outside
    return mk("bv", max(cand)) if cand else None


def shift(t, above, by, interp=None):
    """t with the variables bound deeper than a level moved by some levels"""
    if not by:
        return t

    def f(x):
        y = None
        if x.op == "bv" and isinstance(x.args[0], int) and x.args[0] > above:
            return mk("bv", x.args[0] + by)
        if x.op == "row" and isinstance(x.args[-1], int) and x.args[-1] > above:
            y = mk("row", *x.args[:-1], x.args[-1] + by)
        if x.op == "mu" and isinstance(x.args[0], int) and x.args[0] > above:
            y = mk("mu", x.args[0] + by, *x.args[1:])
        if y is not None:
            if interp is not None and x in interp.facts.meta:
                interp.facts.meta.setdefault(y, interp.facts.meta[x])
            return y
        return x
    return transform(t, f)


def beta(m, arg, interp=None):
    """element of map(n, body): substitute its bound variable"""
    body = m.args[1]
    bv = own(m)
    if bv is None or bv is arg:
        return body
    if arg.op == "bv" and isinstance(arg.args[0], int):
        body = shift(body, bv.args[0], arg.args[0] - bv.args[0], interp)
    return subst(body, {bv: arg})


# ------------------------------------------------------------------ lengths
def length(interp, t):
    F = interp.facts
    m = F.meta.get(t)
    if m and m.get("len") is not None:
        return m["len"]
    if m and m.get("nitems") is not None:
        return const(m["nitems"])
    o = t.op
    if o in ("tuple", "list", "set"):
        return const(len(t.args))
    if o == "dict":
        return const(len(t.args[0]))
    if o == "const" and isinstance(cval(t), str):
        return const(len(cval(t)))
    if o == "map":
        return t.args[0]
    if o == "concat":
        return add(*[length(interp, x) for x in t.args])
    if o == "append":
        return add(length(interp, t.args[0]), const(1))
    if o == "repeat":
        return mul(length(interp, t.args[0]), t.args[1])
    if o in ("keys", "values", "items", "enumerate", "reversed"):
        return length(interp, t.args[0])
    if o == "H" and t.args[0] == "local" and len(t.args[2]) == 1:
        x = t.args[2][0]        # one local value per observation
        while x.op in ("tuple", "list") and x.args:
            x = x.args[0]
        if F.kind(x) in ("ndarray", "list"):
            return length(interp, x)
    if o == "zip":
        return length(interp, t.args[0])
    if o == "phi":
        return phi(t.args[0], length(interp, t.args[1]), length(interp, t.args[2]))
    if o in ("setitem", "fill"):
        return length(interp, t.args[0])
    if o == "attr":
        if t.args[1] == "shape":
            nd = F.ndim(t.args[0]) or F.sparse_ndim(t.args[0])
            if nd is not None:
                return const(nd)
        if t.args[1] in ("real", "imag"):
            return length(interp, t.args[0])
    if o == "index":
        b, ix = t.args
        p = ix.args[0] if ix.op == "tuple" else ix
        if p is FULL:
            return length(interp, b)
        if p.op == "slice" and F.kind(b) == "ndarray":
            if p.args[:2] == (NONE, NONE) and p.args[2] is const(-1):
                return length(interp, b)
        elif F.kind(p) in ("ndarray", "list") and p.op not in ("cmp", "and", "or", "not") and callee(p) not in ("bitand", "bitor", "invert", "numpy.isnan", "numpy.isfinite", "numpy.isinf"):
            if F.kind(b) == "ndarray" and not _boolish(p):
                return length(interp, p)
        elif F.kind(p) in ("int", "const") and ix.op == "tuple" and len(ix.args) > 1:
            pass
        if callee(b) == "numpy.unique" and ix.op == "const" and kw(b, "return_inverse") is TRUE and cval(ix) == 1 + (kw(b, "return_index") is TRUE):
            return length(interp, b.args[1][0])        # one cell number per observation
        if callee(b) == "numpy.unique":
            return mk("len", mk("index", b, const(0))) if ix.op == "const" and kw(b, "return_inverse") is None and kw(b, "return_index") is None else mk("len", t)
        if b.op == "mcall" and b.args[0] == "query" and b.args[2]:
            return length(interp, b.args[2][0])
    if o in ("lin", "mono", "pow"):
        nd = F.ndim(t)
        cs = [c for c in _operands(t) if F.kind(c) in ("ndarray", "list") and (nd is None or F.ndim(c) == nd)]
        if cs:
            ls = {length(interp, c) for c in cs}
            if len(ls) == 1:
                return ls.pop()
            ls.discard(const(1))
            return sorted(ls)[0] if ls else const(1)
    if o == "cmp" and F.kind(t) == "ndarray":
        for c in t.args[1:]:
            if F.kind(c) == "ndarray":
                return length(interp, c)
    if o == "not":
        return length(interp, t.args[0])
    if o == "setitem" and F.kind(t.args[0]) == "ndarray":
        return length(interp, t.args[0])
    if o == "loopout" and len(t.args) == 3 and F.ndim(t) and F.ndim(t.args[2]) == F.ndim(t):
        return length(interp, t.args[2])
    if o == "call":
        n = callee(t)
        a = t.args[1]
        if n is not None:
            if n in ELEMENTWISE or n in ("truediv", "floordiv", "mod", "bitand", "bitor", "bitxor", "invert", "numpy.copy", "numpy.sort",
                                         "numpy.flip", "numpy.cumsum", "numpy.asarray", "astype", "numpy.argsort", "numpy.zeros_like",
                                         "numpy.ones_like", "numpy.empty_like", "numpy.full_like", "builtins.tuple", "builtins.list", "builtins.sorted"):
                nd = F.ndim(t)
                for x in a:
                    if F.kind(x) in ("ndarray", "list", "tuple", "unknown", "view", "set", "dict") and (nd is None or F.ndim(x) is None or F.ndim(x) == nd):
                        return length(interp, x)
            if n in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full") and a:
                sh = a[0]
                if sh.op in ("tuple", "list"):
                    return sh.args[0] if sh.args else mk("len", t)
                if sh.op == "attr" and sh.args[1] == "shape":
                    return length(interp, sh.args[0])
                if F.kind(sh) == "int":
                    return sh
            if n == "numpy.arange" and not t.args[2] and len(a) == 1:
                return a[0]
            if n == "range":
                if len(a) == 1:
                    return a[0]
                if len(a) == 2:
                    return sub(a[1], a[0])
                return mk("call", "rangelen", tuple(a), ())
            if n == "numpy.expand_dims" and a[1] is not const(0):
                return length(interp, a[0])
            if n == "numpy.concatenate" and a[0].op in ("tuple", "list"):
                ax = kw(t, "axis") or const(0)
                if ax is const(0):
                    return add(*[length(interp, x) for x in a[0].args])
                return length(interp, a[0].args[0])
            if n in ("numpy.column_stack", "numpy.vstack") and a[0].op in ("tuple", "list") and n == "numpy.column_stack":
                return length(interp, a[0].args[0])
            if n == "numpy.colvec":
                return length(interp, a[0])
            if n == "numpy.ravel" and F.ndim(a[0]) == 1:
                return length(interp, a[0])
            if n == "numpy.reshape" and len(a) > 1:
                sh = a[1]
                if sh.op == "tuple" and sh.args and sh.args[0] is not const(-1):
                    return sh.args[0]
            if n == "numpy.unique" and not any(k.startswith("return") for k, _ in t.args[2]):
                # number of distinct values: the same object whether or not counts are requested
                pass
            if n in REDUCE:
                ax = kw(t, "axis")
                if ax is const(0) and a and a[0].op in ("list", "tuple") and a[0].args:
                    return length(interp, a[0].args[0])
                if ax is const(0) and a and a[0].op == "map":
                    return length(interp, a[0].args[1])
                if ax in (const(1), const(-1)) and a and F.ndim(a[0]) == 2:
                    return length(interp, a[0])
            if n == "numpy.linspace":
                return kw(t, "num", const(50), pos=2)
            if n == "numpy.array_split":
                x = a[1]
                if F.kind(x) == "int":
                    return x
            if n == "numpy.lib.stride_tricks.as_strided":
                sh = kw(t, "shape", pos=1)
                if sh is not None and sh.op in ("tuple", "list") and sh.args:
                    return sh.args[0]
            if n == "numpy.apply_along_axis" and a[1] in (const(1), const(-1)) and F.ndim(a[2]) == 2:
                return length(interp, a[2])
    if o == "mcall":
        n = t.args[0]
        if n in ("query_ball_point",) and t.args[2]:
            return length(interp, t.args[2][0])
        if n == "evaluate" and t.args[2]:
            x = t.args[2][0]
            if x.op == "attr" and x.args[1] == "T":
                return length(interp, x.args[0])
    if o == "draw":
        meth, args, kws = t.args[0], t.args[4], dict(t.args[5])
        if meth in ("permutation", "permuted", "shuffled") and args:
            return length(interp, args[0])
        if meth == "choice":
            s = kws.get("size")
            if s is not None and F.kind(s) == "int":
                return s
        if meth in ("normal", "uniform", "standard_normal", "random"):
            s = kws.get("size") or (args[2] if len(args) > 2 else None)
            if s is not None and s.op == "attr":
                return length(interp, s.args[0])
            if s is not None and s.op == "tuple" and s.args:
                return s.args[0]
    return mk("len", t)


def _boolish(p):
    return p.op in ("cmp", "and", "or", "not") or callee(p) in ("bitand", "bitor", "invert", "numpy.isnan", "numpy.isfinite", "numpy.isinf", "numpy.isin", "numpy.in1d", "numpy.logical_not")


def _operands(t):
    if t.op == "lin":
        for m, c in t.args[0]:
            if m is not None:
                yield from (_operands(m) if m.op == "mono" else (m,))
    elif t.op == "mono":
        for b, e in t.args[0]:
            yield from (_operands(b) if b.op in ("lin", "mono") else (b,))
    else:
        yield from t.args


# ------------------------------------------------------------------ devectorisation
def lift_map(interp, n, body, bv):
    """map(n, body(bv)) as an element-wise array expression, or None"""
    F = interp.facts
    memo = {}

    def free(x):
        return not mentions(x, bv)

    def rec(x):
        if x in memo:
            return memo[x]
        memo[x] = None
        r = rec_(x)
        memo[x] = r
        return r

    def rec_(x):
        if x is bv:
            return None
        if free(x):
            return x if F.kind(x) in NUMK or x.op == "const" or F.ndim(x) == 0 else None
        if x.op == "index" and x.args[1] is bv and free(x.args[0]):
            a = x.args[0]
            if F.kind(a) == "ndarray" and F.ndim(a) == 1 and length(interp, a) is n:
                return a
            return None
        if x.op in ("lin", "mono", "pow"):
            def ra(y):
                if isinstance(y, T):
                    return rec(y)
                if isinstance(y, tuple):
                    z = tuple(ra(e) for e in y)
                    return z
                return y

            def ok(y, orig):
                if isinstance(orig, T):
                    return y is not None
                if isinstance(orig, tuple):
                    return all(ok(p, q) for p, q in zip(y, orig))
                return True
            na = tuple(ra(y) for y in x.args)
            return rebuild(x, na) if all(ok(p, q) for p, q in zip(na, x.args)) else None
        if x.op == "call" and callee(x) in ELEMENTWISE | {"truediv", "mod", "floordiv"} and not any(mentions(v, bv) for _, v in x.args[2]):
            na = tuple(rec(y) for y in x.args[1])
            if all(y is not None for y in na):
                return mk("call", x.args[0], na, x.args[2])
        return None
    return rec(body)


def np_sum_map(interp, n, body):
    """sum of body over the innermost enclosing loop variable"""
    bv = mk("bv", interp.loop_depth)
    if not mentions(body, bv):
        return mul(n, body)
    lifted = lift_map(interp, n, body, bv)
    if lifted is not None:
        return np_reduce(interp, "numpy.sum", lifted)
    # linear parts separately
    parts = lin_parts(body)
    out = const(0)
    for m, c in parts:
        if m is None:
            out = add(out, mul(n, fnum(c)))
            continue
        inv, dep = [], []
        for b, e in mono_parts(m):
            (dep if mentions(b, bv) else inv).append((b, e))
        x = _mk_mono(dict(dep))
        if x is None:
            s = n
        else:
            lf = lift_map(interp, n, x, bv)
            s = np_reduce(interp, "numpy.sum", lf) if lf is not None else mk("call", "numpy.sum", (mk("map", n, x),), ())
        f = _mk_mono(dict(inv))
        s = mul(f, s) if f is not None else s
        out = add(out, scale(s, c))
    return out


def scalar_like(F, x):
    return F.kind(x) in NUMK or F.ndim(x) == 0 or x.op in ("len",)


def np_reduce(interp, name, x, kws=()):
    """sum / mean with scalar factors pulled out; mean of a 1-D array is sum/len"""
    F = interp.facts
    ax = dict(kws).get("axis")
    others = [k for k in dict(kws) if k != "axis"]
    if others or name not in ("numpy.sum", "numpy.mean"):
        return mk("call", name, (x,), tuple(kws))
    if x.op == "phi" and ax is None:
        return phi(x.args[0], np_reduce(interp, name, x.args[1]), np_reduce(interp, name, x.args[2]))
    nd = F.ndim(x)
    if nd == 0 and ax is None:
        return x
    if ax in (const(0), const(-1)) and nd == 1:
        ax = None
        kws = ()
    if callee(x) == "numpy.asarray" and not x.args[2] and x.args[1][0].op in ("list", "map") and (F.ndim(x) == 1):
        return np_reduce(interp, name, x.args[1][0], kws)
    if x.op in ("list", "tuple") and ax is None and x.args and all(scalar_like(F, y) for y in x.args):
        s = add(*x.args)
        return s if name == "numpy.sum" else div(s, const(len(x.args)))
    if x.op in ("list", "tuple") and ax is const(0) and x.args and all(F.ndim(y) == 1 for y in x.args):
        s = add(*x.args)
        return s if name == "numpy.sum" else div(s, const(len(x.args)))
    if name == "numpy.mean" and nd == 1 and ax is None:
        return div(np_reduce(interp, "numpy.sum", x), length(interp, x))
    # constant factors
    if x.op in ("lin", "mono") and ax is None:
        ps = lin_parts(x)
        out = const(0)
        if nd == 1 or len(ps) == 1:
            L = length(interp, x) if nd == 1 else None
            for m, c in ps:
                if m is None:
                    out = add(out, mul(L if name == "numpy.sum" else const(1), fnum(c)))
                    continue
                inv, dep = {}, {}
                for b, e in mono_parts(m):
                    (inv if scalar_like(F, b) else dep)[b] = e
                d = _mk_mono(dep)
                f = _mk_mono(inv)
                if d is None:
                    s = L if name == "numpy.sum" else const(1)
                elif d.op in ("lin", "mono"):
                    s = mk("call", name, (d,), tuple(kws))
                else:
                    s = np_reduce(interp, name, d, kws)
                s = mul(f, s) if f is not None else s
                out = add(out, scale(s, c))
            return out
    if x.op == "map" and ax is None and F.kind(x.args[1]) in NUMK:
        bvs = {y for y in walk(x.args[1]) if y.op == "bv"}
        if len(bvs) == 1:
            bv = next(iter(bvs))
            s = interp.loop_depth
            interp.loop_depth = bv.args[0]
            try:
                r = np_sum_map(interp, x.args[0], x.args[1])
            finally:
                interp.loop_depth = s
            return r if name == "numpy.sum" else div(r, x.args[0])
    return mk("call", name, (x,), tuple(kws))


# ------------------------------------------------------------------ external calls
def frz(interp, args, kwargs, st):
    return [interp.freeze(a, st) for a in args], {k: interp.freeze(v, st) for k, v in kwargs.items()}


def call(interp, name, args, kwargs, st, node):
    if is_logger(name):
        if name.startswith("logging.getLogger"):
            return mk("call", name, tuple(interp.freeze(a, st) for a in args), ())
        return NONE
    name = canon_name(name)
    h = B.get(name)
    if h is not None:
        r = h(interp, args, kwargs, st, node)
        if r is not None:
            return r
    if name.startswith(NONDET) or (name.startswith("numpy.random.") and name.split(".")[-1] not in ("default_rng", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox", "BitGenerator", "RandomState")):
        interp.event("nondet", st, node, name=name)
        fa, fk = frz(interp, args, kwargs, st)
        st.draws += 1
        return mk("draw", "global:" + name, NONE, st.draws, tuple(interp.bvs), tuple(fa), tuple(sorted(fk.items())))
    if name in PUREMUT or name.rsplit(".", 1)[0] in SHARED and name.rsplit(".", 1)[1] in MUTATORS:
        effect(interp, st, node, name)
    if interp.implicit:
        interp.implicit_exit(st, node)
    if name.startswith("numpy.") or name.startswith("scipy.special."):
        fa, fk = frz(interp, args, kwargs, st)
        out = kwargs.get("out")
        r = np_call(interp, name, fa, fk, st, node)
        if out is not None and out is not NONE:
            if out.op == "tuple" and len(out.args) == 1:
                out = out.args[0]
            if out.op == "ref":
                interp.mutate_arr(out, r, st, node, "out=")
                return out
            interp.mutated(out, st, node, "out=")
        return r
    # a callable handed to external code: analyse it once with an opaque argument
    callbacks(interp, name, args, kwargs, st, node)
    fa, fk = frz(interp, args, kwargs, st)
    return gen_call(interp, name, fa, fk)


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "popitem", "add", "discard"}
SHARED = {"warnings.filters", "sys.path", "sys.modules", "sys.argv", "os.environ", "sys.meta_path", "sys.path_hooks", "logging.root.handlers", "logging.root.filters"}
PUREMUT = {"warnings.resetwarnings", "logging.captureWarnings", "logging.setLoggerClass", "logging.addLevelName", "numpy.seterrcall", "builtins.open", "os.remove", "os.chdir", "os.putenv", "sys.setrecursionlimit", "warnings.filterwarnings", "warnings.simplefilter",
           "os.environ.update", "os.environ.setdefault", "numpy.seterr", "numpy.set_printoptions", "random.seed", "locale.setlocale", "random.setstate", "numpy.random.set_state", "logging.basicConfig", "logging.disable", "numpy.setbufsize", "numpy.errstate.__enter__", "sys.setswitchinterval", "threading.stack_size", "os.umask", "time.tzset",
           "signal.signal", "sys.exit", "multiprocessing.set_start_method", "gc.disable", "gc.enable", "os.system", "builtins.exec"}


def callbacks(interp, name, args, kwargs, st, node):
    for a in list(args) + list(kwargs.values()):
        if a.op in ("func", "bound") and (a.op == "func" or a.args[0].op == "func"):
            fn = interp.funcs[(a if a.op == "func" else a.args[0]).args[0]]
            key = ("cb", fn.node)
            npos = len(fn.node.args.posonlyargs + fn.node.args.args) - len(fn.defaults) - (1 if a.op == "bound" else 0)
            if npos < 0 or npos > 3 or fn.kind == "ctx":
                continue
            s2 = st.copy()
            interp.collectors.append([])
            try:
                interp.call(a, [mk("param", f"cb:{name.split('.')[-1]}:{i}") for i in range(npos)], {}, s2, node)
            except Dead:
                pass
            finally:
                interp.collectors.pop()


def gen_call(interp, name, fa, fk):
    sig = SIG.get(name)
    if sig is not None:
        nmin = KWMIN.get(name, 1)
        fk = dict(fk)
        for i, a in enumerate(fa):
            if i < len(sig):
                fk.setdefault(sig[i], a)
        pos = []
        for i in range(nmin):
            if sig[i] in fk:
                pos.append(fk.pop(sig[i]))
            else:
                break
        for k in list(fk):
            d = DROPDEF.get((name, k))
            if d is not None and fk[k] is d:
                del fk[k]
        fa = pos
    return mk("call", name, tuple(fa), tuple(sorted(fk.items())))


def norm_axis(interp, fa, fk, pos=1):
    """axis given positionally -> keyword; None dropped; negative axis resolved when the rank is known"""
    fk = dict(fk)
    if len(fa) > pos and "axis" not in fk:
        fk["axis"] = fa[pos]
        fa = fa[:pos] + fa[pos + 1:]
    ax = fk.get("axis")
    if ax is NONE:
        del fk["axis"]
    elif ax is not None and ax.op == "const" and isinstance(cval(ax), int) and cval(ax) < 0:
        nd = interp.facts.ndim(fa[0])
        if nd is not None:
            fk["axis"] = const(cval(ax) + nd)
    if fk.get("keepdims") is FALSE:
        del fk["keepdims"]
    return fa, fk


def colvec(interp, x):
    nd = interp.facts.ndim(x)
    if nd == 1:
        return mk("call", "numpy.expand_dims", (x, const(1)), ())
    if nd is not None and nd >= 2:
        return x
    if x.op == "phi":
        return phi(x.args[0], colvec(interp, x.args[1]), colvec(interp, x.args[2]))
    if callee(x) == "numpy.colvec":
        return x
    return mk("call", "numpy.colvec", (x,), ())


def concat(interp, items, axis):
    flat = []
    for x in items:
        if callee(x) == "numpy.concatenate" and x.args[1][0].op == "tuple" and (kw(x, "axis") or const(0)) is const(axis):
            flat += x.args[1][0].args
        else:
            flat.append(x)
    if len(flat) == 1:
        return flat[0]
    return mk("call", "numpy.concatenate", (mk("tuple", *flat),), (("axis", const(axis)),) if axis else ())


def seq_items(t):
    if t.op in ("tuple", "list"):
        return list(t.args)
    return None


def np_call(interp, name, fa, fk, st, node):
    F = interp.facts
    name = canon_name(name)
    b = name.split(".")[-1]
    fk = {k: v for k, v in fk.items() if k != "out"}
    if name.startswith("scipy.special."):
        if len(fa) == 1 and fa[0].op == "phi" and b in ("digamma", "gammaln", "gamma"):
            pass
        return gen_call(interp, name, fa, fk)
    if name.startswith("numpy.random.default_rng"):
        seed = fa[0] if fa else fk.get("seed", NONE)
        interp.event("rng-create", st, node, seed=seed)
        return mk("call", name, (seed,), ())
    if name.count(".") > 1:
        return gen_call(interp, name, fa, fk)
    n = len(fa)
    if b == "log" and n == 2:          # math.log(x, base)
        return div(np_call(interp, "numpy.log", [fa[0]], {}, st, node), np_call(interp, "numpy.log", [fa[1]], {}, st, node))
    if b in ("log2", "log10"):
        return div(np_call(interp, "numpy.log", fa[:1], {}, st, node), mk("call", "numpy.log", (const(2 if b == "log2" else 10),), ()))
    if b == "log1p":
        return np_call(interp, "numpy.log", [add(const(1), fa[0])], {}, st, node)
    if b == "expm1":
        return sub(np_call(interp, "numpy.exp", fa[:1], {}, st, node), const(1))
    if b == "exp2":
        return powr(const(2), fa[0])
    if b == "log":
        x = fa[0]
        if x is const(1):
            return const(0)
        if callee(x) == "numpy.exp" and not fk:
            return x.args[1][0]
        if fk:
            return mk("call", name, tuple(fa), tuple(sorted(fk.items())))
        if x.op == "phi" and F.kind(x) != "ndarray":
            return phi(x.args[0], np_call(interp, name, [x.args[1]], fk, st, node), np_call(interp, name, [x.args[2]], fk, st, node))
        return mk("call", "numpy.log", (x,), ())
    if b == "exp":
        if fa[0] is const(0):
            return const(1)
        return mk("call", "numpy.exp", (fa[0],), tuple(sorted(fk.items())))
    if b == "sqrt":
        return powr(fa[0], const(0.5))
    if b == "square":
        return mul(fa[0], fa[0])
    if b == "negative":
        return neg(fa[0])
    if b == "positive":
        return fa[0]
    if b == "reciprocal":
        return div(const(1), fa[0])
    if b in ARITH_UF and n >= 2 and not (set(fk) - {"dtype"}):
        return arith(interp, ARITH_UF[b], fa[0], fa[1], st, node)
    if b in CMP_UF and n >= 2:
        return interp.mkcmp(CMP_UF[b], fa[0], fa[1], st)
    if b == "where" and n == 3 and not fk:
        # zeroes at marked places of an array
        for c, a, z in ((invert(interp, fa[0]), fa[1], fa[2]), (fa[0], fa[2], fa[1])):
            if _isnum(z) and cval(z) == 0 and F.ndim(a) and F.ndim(a) == F.ndim(fa[0]) and length(interp, a) is length(interp, fa[0]):
                return mk("setitem", a, c, z if F.kind(a) != "ndarray" else fnum(Fraction(0)) if isinstance(cval(z), float) else z)
    if b == "logical_not" and n == 1:
        return invert(interp, fa[0])
    if b == "abs":
        if _isnum(fa[0]):
            return fnum(abs(_frac(cval(fa[0]))))
        x = fa[0]
        # |x| = |-x|: fix the sign
        if x.op == "lin" and x.args[0][0][1] < 0:
            x = neg(x)
        return mk("call", name, (x,), ())
    if b in ("asarray", "array"):
        return mk_asarray(interp, b, fa, fk)
    if b == "copy":
        if F.kind(fa[0]) in ("list", "tuple"):
            return mk_asarray(interp, "array", fa[:1], {})
        return mk("call", "numpy.copy", (fa[0],), ())
    if b == "astype":
        return do_astype(interp, fa, fk)
    if b == "ndim":
        nd = F.ndim(fa[0])
        return const(nd) if nd is not None else mk("attr", fa[0], "ndim")
    if b == "shape":
        return term_attr(interp, fa[0], "shape", st, node)
    if b == "size":
        return term_attr(interp, fa[0], "size", st, node)
    if b == "expand_dims":
        ax = fa[1] if n > 1 else fk.get("axis")
        if ax is const(-1) and F.ndim(fa[0]) is not None:
            ax = const(F.ndim(fa[0]))
        return mk("call", name, (fa[0], ax), ())
    if b == "atleast_2d" and n == 1:
        nd = F.ndim(fa[0])
        if nd == 2:
            return fa[0]
        if nd == 1:
            return mk("call", "numpy.expand_dims", (fa[0], const(0)), ())
    if b == "atleast_1d" and n == 1 and (F.ndim(fa[0]) or 0) >= 1:
        return fa[0]
    if b == "column_stack":
        its = seq_items(fa[0])
        if its is not None and its:
            return concat(interp, [colvec(interp, x) for x in its], 1)
        return mk("call", name, tuple(fa), ())
    if b in ("concatenate", "hstack", "vstack", "stack"):
        seq = fa[0]
        its = seq_items(seq)
        ax = fk.get("axis") or (fa[1] if n > 1 else None)
        if its:
            nds = [F.ndim(x) for x in its]
            if b == "hstack":
                ax = const(0) if nds[0] == 1 else (const(1) if nds[0] is not None else None)
                if ax is None:
                    return mk("call", name, (mk("tuple", *its),), ())
            if b == "vstack":
                if all(d == 2 for d in nds):
                    ax = const(0)
                elif all(d == 1 for d in nds):
                    its = [mk("call", "numpy.expand_dims", (x, const(0)), ()) for x in its]
                    ax = const(0)
                else:
                    return mk("call", name, (mk("tuple", *its),), ())
            if b == "stack":
                a = 0 if ax is None else cval(ax)
                if all(d == 1 for d in nds):
                    a = a % 2
                    its = [mk("call", "numpy.expand_dims", (x, const(a)), ()) for x in its]
                    return concat(interp, its, a)
                return mk("call", name, (mk("tuple", *its),), (("axis", const(a)),))
            a = 0 if ax is None else cval(ax)
            if a is None:
                return mk("call", name, (mk("tuple", *its),), (("axis", NONE),))
            if a < 0 and nds[0] is not None:
                a += nds[0]
            return concat(interp, its, a)
        return mk("call", name, (seq,), (("axis", ax),) if ax not in (None, const(0)) else ())
    if b == "reshape":
        if n == 1 and "shape" in fk:
            sh = fk["shape"]
        elif n == 1 and "newshape" in fk:
            sh = fk["newshape"]
        else:
            sh = fa[1] if n == 2 else mk("tuple", *fa[1:])
        if sh.op == "list":
            sh = mk("tuple", *sh.args)
        if sh.op == "tuple" and len(sh.args) == 1:
            sh = sh.args[0]
        if sh is const(-1):
            return np_call(interp, "numpy.ravel", [fa[0]], {}, st, node)
        if F.ndim(fa[0]) == 1 and sh.op == "tuple" and len(sh.args) == 2:
            L = length(interp, fa[0])
            if sh.args[1] is const(1) and sh.args[0] in (const(-1), L):
                return mk("call", "numpy.expand_dims", (fa[0], const(1)), ())
            if sh.args[0] is const(1) and sh.args[1] in (const(-1), L):
                return mk("call", "numpy.expand_dims", (fa[0], const(0)), ())
        if F.ndim(fa[0]) == 2 and sh.op == "tuple" and len(sh.args) == 2:
            L = length(interp, fa[0])
            if sh.args[0] is L and sh.args[1] is const(-1):
                return fa[0]
            if sh.args[0] is L and sh.args[1] is shape_at(interp, fa[0], 1):
                return fa[0]
        return mk("call", name, (fa[0], sh), tuple(sorted((k, v) for k, v in fk.items() if k in ("order",))))
    if b in ("ravel", "flatten"):
        if F.ndim(fa[0]) == 1 and F.kind(fa[0]) == "ndarray":
            return fa[0] if b == "ravel" else mk("call", "numpy.copy", (fa[0],), ())
        return mk("call", "numpy.ravel" if b == "ravel" else "numpy.copy", (fa[0] if b == "ravel" else mk("call", "numpy.ravel", (fa[0],), ()),), ())
    if b == "squeeze":
        if F.ndim(fa[0]) == 1 and not fk and n == 1:
            return fa[0]
        if callee(fa[0]) == "numpy.expand_dims" and F.ndim(fa[0].args[1][0]) == 1 and n == 1:
            return fa[0].args[1][0]
        fa, fk = norm_axis(interp, fa, fk)
        return mk("call", name, tuple(fa), tuple(sorted(fk.items())))
    if b == "transpose" and n == 1 and not fk:
        return term_attr(interp, fa[0], "T", st, node)
    if b == "take":
        ax = fk.get("axis") or (fa[2] if n > 2 else None)
        if ax is const(0) or F.ndim(fa[0]) == 1:
            return index(interp, fa[0], fa[1])
        if ax is const(1):
            return index(interp, fa[0], mk("tuple", FULL, fa[1]))
        return mk("call", name, tuple(fa[:2]), (("axis", ax),) if ax not in (None, NONE) else ())
    if b == "arange":
        a = list(fa)
        if "start" in fk or "stop" in fk or "step" in fk:
            a = (a + [None] * 3)[:3]
            if a[1] is None and "stop" in fk and len(fa) <= 1:
                a = [a[0] or fk.get("start", const(0)), fk["stop"], fk.get("step", const(1))]
            if a[1] is None:
                a = [const(0), a[0], fk.get("step", const(1))]
            a[2] = a[2] or fk.get("step", const(1))
        if len(a) == 3 and a[2] is const(1):
            a = a[:2]
        if len(a) == 2 and a[0] is const(0):
            a = a[1:]
        kk = tuple((k, v) for k, v in fk.items() if k == "dtype" and v.op != "ext")
        return mk("call", name, tuple(a), kk)
    if b in ("zeros", "ones", "empty", "full"):
        sh = fa[0] if fa else fk.pop("shape")
        if sh.op in ("tuple", "list") and len(sh.args) == 1:
            sh = sh.args[0]
        elif sh.op == "list":
            sh = mk("tuple", *sh.args)
        return gen_call(interp, name, [sh] + fa[1:], fk)
    if b in ("sum", "mean"):
        fa, fk = norm_axis(interp, fa, fk)
        dt = fk.pop("dtype", None)
        if dt is not None and not (dt.op == "ext" and dt.args[0].split(".")[-1] in ("float", "float64", "double", "longdouble") or dt is NONE):
            interp.sum_dtypes.append((name, fa[0], dt))
        if fk.get("where") is TRUE:
            del fk["where"]
        return np_reduce(interp, name, fa[0], tuple(sorted(fk.items())))
    if b in ("dot", "inner", "vdot", "matmul") and n == 2 and F.ndim(fa[0]) == 1 and F.ndim(fa[1]) == 1:
        return np_reduce(interp, "numpy.sum", mul(fa[0], fa[1]))
    if name in REDUCE or b in ("cumsum", "cumprod", "sort", "flip", "argsort", "nancumsum"):
        pos = 2 if b in ("percentile", "quantile") else 1
        fa, fk = norm_axis(interp, fa, fk, pos)
        if fk.get("axis") in (const(0), const(-1)) and F.ndim(fa[0]) == 1:
            del fk["axis"]
        if b in ("prod", "max", "min") and not fk and fa[0].op in ("list", "tuple") and fa[0].args:
            its = fa[0].args
            if b == "prod" and all(scalar_like(F, x) for x in its):
                r = const(1)
                for x in its:
                    r = mul(r, x)
                return r
            if all(_isnum(x) for x in its):
                f = max if b == "max" else min
                return f(its, key=lambda x: cval(x))
            if len(its) == 1 and scalar_like(F, its[0]):
                return its[0]
            if b in ("max", "min") and all(scalar_like(F, x) for x in its):
                return mk("call", "builtins." + b, tuple(sorted(set(its))), ())
        if b in ("any", "all") and not fk:
            return mk("call", name, tuple(fa), ())
        return mk("call", name, tuple(fa), tuple(sorted(fk.items())))
    if b in ("maximum", "minimum") and n == 2 and not fk:
        return mk("call", name, tuple(sorted(fa)), ())
    if b in ("sin", "cos"):
        pass
    if b == "issubdtype":
        r = issubdtype(interp, fa[0], fa[1])
        if r is not None:
            return const(r)
        return mk("call", name, tuple(fa), ())
    if b == "isscalar":
        k = F.kind(fa[0])
        if k in NUMK + ("str",):
            return TRUE
        if k in ("ndarray", "list", "tuple", "none"):
            return FALSE
    return gen_call(interp, name, fa, fk)


def mk_asarray(interp, b, fa, fk):
    F = interp.facts
    x = fa[0]
    dt = fk.get("dtype") or (fa[1] if len(fa) > 1 else None)
    cp = fk.get("copy")
    if dt is NONE:
        dt = None
    k = F.kind(x)
    if x.op == "phi" and k == "unknown" and dt is None:
        return phi(x.args[0], mk_asarray(interp, b, [x.args[1]], fk), mk_asarray(interp, b, [x.args[2]], fk))
    if k == "ndarray":
        r = x
        if dt is not None:
            r = do_astype(interp, [x, dt], {})
        elif (b == "array" and cp is not FALSE) or cp is TRUE:
            r = mk("call", "numpy.copy", (x,), ())
        return r
    if callee(x) == "builtins.list" or callee(x) == "builtins.tuple":
        x = x.args[1][0]
    if x.op == "tuple":
        x = mk("list", *x.args)
    kws = (("dtype", dt),) if dt is not None and not (dt.op == "ext" and dt.args[0] in ("builtins.float", "numpy.float64")) else ()
    r = mk("call", "numpy.asarray", (x,), kws)
    m = F.meta.get(x, {}) if x.op == "param" else {}
    if k == "list" and m.get("elem") in ("float", "int") and r not in F.meta:
        n = m["len"]
        F.declare(r, kind="ndarray", ndim=1, len=n, shape=(n,), dtype=m["elem"], notnone=True)
    return r


def do_astype(interp, fa, fk):
    dt = fa[1] if len(fa) > 1 else fk.get("dtype")
    if dt is not None and dt.op == "ext" and dt.args[0] in ("numpy.float64", "numpy.double"):
        dt = mk("ext", "builtins.float")
    if dt is not None and dt is const("float"):
        dt = mk("ext", "builtins.float")
    if dt is not None and dt is const("int"):
        dt = mk("ext", "builtins.int")
    kws = tuple((k, v) for k, v in sorted(fk.items()) if k == "copy" and v is FALSE)
    if dt is not None and dt.op == "attr" and dt.args[1] == "dtype":
        if dt.args[0] is fa[0]:
            return fa[0] if kws else mk("call", "numpy.copy", (fa[0],), ())
        d = dtype_of(interp, dt.args[0])
        if d in ("int", "float"):
            dt = mk("ext", "builtins." + d)
    return mk("call", "astype", (fa[0], dt), kws)


INTK = {"numpy.integer", "numpy.int64", "numpy.int32", "numpy.signedinteger", "builtins.int"}
NUMT = {"numpy.number", "numbers.Number"}


def issubdtype(interp, a, b):
    bn = b.args[0] if b.op == "ext" else None
    an = a.args[0] if a.op == "ext" else None
    if bn is None:
        return None
    if a.op == "attr" and a.args[1] == "dtype":
        d = dtype_of(interp, a.args[0])
        if d == "int":
            an = "numpy.int64"
        elif d == "float":
            an = "builtins.float"
        else:
            return None
    if an is None:
        return None
    fam = "int" if an in ("builtins.int", "numpy.int64", "numpy.int32", "numpy.integer") else "float" if an in ("builtins.float", "numpy.float64", "numpy.floating") else \
        "bool" if an == "builtins.bool" else "other" if an in ("builtins.str", "builtins.list", "builtins.tuple", "builtins.dict", "types.NoneType", "numpy.ndarray") else None
    if fam is None:
        return None
    if bn in INTK:
        return fam == "int"
    if bn in NUMT:
        return fam in ("int", "float")
    if bn in ("numpy.floating", "numpy.float64", "builtins.float"):
        return fam == "float"
    return None


INT_DT = ("builtins.int", "numpy.int64", "numpy.int32", "numpy.uint64", "numpy.uint32", "numpy.intp")
FLT_DT = ("builtins.float", "numpy.float64", "numpy.float32", "numpy.double")
FLT_UF = ("log", "log2", "log10", "log1p", "exp", "expm1", "sqrt", "sin", "cos", "mean", "std", "var", "linspace", "nextafter")
SAME_DT = ("numpy.copy", "numpy.asarray", "numpy.expand_dims", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.flip",
           "numpy.sort", "numpy.repeat", "numpy.tile", "numpy.roll", "numpy.broadcast_to", "numpy.abs", "numpy.max", "numpy.min", "numpy.take", "numpy.cumsum", "numpy.sum")


def dtype_of(interp, t, depth=0):
    """"int" / "float": element type of an array, type of a number; None if unknown"""
    F = interp.facts
    m = F.meta.get(t)
    if m and m.get("dtype"):
        return m["dtype"]
    k = F.kind(t)
    rec = lambda x: dtype_of(interp, x, depth + 1)
    n = callee(t)
    if k == "int":
        return k
    if k == "float":        # "float" may merely stand for a number: an element or extreme of an array has the array's type
        d = rec(t.args[1][0]) if n in SAME_DT and t.args[1] and depth < 60 and kw(t, "dtype") is None else None
        if t.op not in ("lin", "mono") or depth > 60:
            return d or k
    if k == "bool" or depth > 60:
        return None
    if n == "numpy.unique" or (t.op == "index" and callee(t.args[0]) == "numpy.unique" and t.args[1] is not const(0)):
        return "int" if t.op == "index" else None
    if n == "astype":
        d = t.args[1][1]
        if d.op == "ext":
            return "int" if d.args[0] in INT_DT else "float" if d.args[0] in FLT_DT else None
        if d.op == "attr" and d.args[1] == "dtype":
            return rec(d.args[0])
        return None
    if t.op == "index":
        return rec(t.args[0]) if F.kind(t.args[0]) == "ndarray" else None
    if n in SAME_DT and t.args[1]:
        d = kw(t, "dtype")
        return rec(t.args[1][0]) if d is None else "int" if d.op == "ext" and d.args[0] in INT_DT else "float" if d.op == "ext" and d.args[0] in FLT_DT else None
    if n is not None and (n.startswith("numpy.") and n[6:] in FLT_UF or n.startswith("scipy.special.") or n == "truediv"):
        return "float"
    if n in ("numpy.column_stack", "numpy.concatenate", "numpy.vstack", "numpy.stack") and t.args[1] and t.args[1][0].op in ("tuple", "list"):
        ds = {rec(x) for x in t.args[1][0].args}
        return "float" if "float" in ds else "int" if ds == {"int"} else None
    if t.op in ("setitem", "fill"):
        return rec(t.args[0])
    if t.op == "phi":
        a, b = rec(t.args[1]), rec(t.args[2])
        return a if a == b else None
    if t.op == "lin":
        ds = set()
        for x, c in t.args[0]:
            if isinstance(c, float) or getattr(c, "denominator", 1) != 1:
                ds.add("float")
            if x is not None:
                ds.add(rec(x))
        return "float" if "float" in ds else "int" if ds == {"int"} or (ds and ds <= {"int"}) else None
    if t.op == "mono":
        ds = set()
        for x, e in t.args[0]:
            if isinstance(e, T) or (is_number(e) and e < 0) or getattr(e, "denominator", 1) != 1:
                ds.add("float" if not isinstance(e, T) else None)
            ds.add(rec(x))
        return "float" if "float" in ds else "int" if ds == {"int"} else None
    if t.op == "draw":
        if t.args[0] in ("normal", "uniform", "random", "standard_normal", "exponential", "beta", "gamma", "laplace"):
            return "float"
        if t.args[0] in ("integers", "randint"):
            return "int"
        return None
    return None


def is_number(x):
    return isinstance(x, (int, float)) or type(x).__name__ == "Fraction"


# ------------------------------------------------------------------ attributes of terms
def term_attr(interp, v, name, st, node):
    F = interp.facts
    if v.op == "phi" and name in DATA_ATTRS:
        return phi(v.args[0], term_attr(interp, v.args[1], name, st, node), term_attr(interp, v.args[2], name, st, node))
    k = F.kind(v)
    if k in ("list", "dict", "str", "tuple", "set", "rng", "generator"):
        if name in DATA_ATTRS and name not in ("__class__", "__name__") and k != "rng":
            if k in ("list", "tuple", "dict", "str", "set") and name in ("shape", "ndim", "dtype", "size", "T"):
                interp.raise_name(st, "AttributeError", node, name)
        return mk("extbound", v, name)
    if k in ("int", "float") and v.op in ("const", "param") and name in ("shape", "dtype", "astype") and k == "int" and v.op == "const":
        interp.raise_name(st, "AttributeError", node, name)
    if name == "ndim":
        nd = F.ndim(v)
        if nd is not None:
            return const(nd)
        if callee(v) == "sparse.COO" and F.sparse_ndim(v) is not None:
            return const(F.sparse_ndim(v))
        return mk("attr", v, "ndim")
    if name == "size" and F.ndim(v) == 1:
        return length(interp, v)
    if name == "size" and F.ndim(v) == 2:
        return mul(length(interp, v), shape_at(interp, v, 1))
    if name == "shape":
        nd = F.ndim(v)
        if nd == 1:
            return mk("tuple", length(interp, v))
        if nd == 2:
            return mk("tuple", length(interp, v), shape_at(interp, v, 1))
        return mk("attr", v, "shape")
    if name == "T":
        if F.ndim(v) == 1:
            return v
        if v.op == "attr" and v.args[1] == "T":
            return v.args[0]
        return mk("attr", v, "T")
    if name == "kind" and v.op == "attr" and v.args[1] == "dtype":      # unsigned arrays are not told from signed ones
        d = dtype_of(interp, v.args[0])
        if d in ("int", "float"):
            return const(d[0])
    if name in DATA_ATTRS:
        return mk("attr", v, name)
    if name in ("max", "min") and callee(v) in ("numpy.iinfo", "numpy.finfo"):
        return mk("attr", v, name)
    return mk("extbound", v, name)


def arr_attr(interp, ref, term, name, st, node):
    if name in DATA_ATTRS:
        r = term_attr(interp, term, name, st, node)
        if name in ("T", "real", "imag", "flat") and interp.facts.kind(r) == "ndarray":
            return ref if r is term else st.alloc(HObj("arr", sym=r))
        return r
    return mk("extbound", ref, name)


# ------------------------------------------------------------------ methods
def absent_in(v):
    return v is ABSENT or (v.op == "phi" and (absent_in(v.args[1]) or absent_in(v.args[2])))


def present_cond(v):
    """condition under which a maybe-absent value is present"""
    if v is ABSENT:
        return FALSE
    if v.op == "phi" and absent_in(v):
        return phi(v.args[0], present_cond(v.args[1]), present_cond(v.args[2]))
    return TRUE


def drop_absent(v, default):
    if v is ABSENT:
        return default
    if v.op == "phi" and absent_in(v):
        a, b = drop_absent(v.args[1], default), drop_absent(v.args[2], default)
        if a is None:
            return b
        if b is None:
            return a
        return phi(v.args[0], a, b)
    return v


def keyterm(interp, ix, st):
    return interp.freeze(ix, st)


def dict_get(interp, ref, ix, st, node, default=None, has_default=False):
    o = st.obj(ref)
    k = keyterm(interp, ix, st)
    if k.op == "phi" and all(x.op == "const" for x in k.args[1:]) and o.sym is None:
        return interp.fork(k.args[0], st, lambda s: dict_get(interp, ref, k.args[1], s, node, default, has_default),
                           lambda s: dict_get(interp, ref, k.args[2], s, node, default, has_default))
    if o.sym is not None:
        if o.sym.op == "dict":
            for kk, v in o.sym.args[0]:
                if kk is k:
                    return v
        if has_default:
            return mk("mcall", "get", o.sym, (k, interp.freeze(default, st)), ())
        return index(interp, o.sym, k)
    if k in o.d:
        v = o.d[k]
        if not absent_in(v):
            return v
        if has_default:
            return drop_absent(v, interp.freeze(default, st))
        pc = present_cond(v)
        t = interp.truth(pc, st)
        if t is False:
            interp.raise_name(st, "KeyError", node, show(k))
        if t is None:
            s2 = st.copy()
            s2.assume(b_not(pc))
            try:
                interp.raise_name(s2, "KeyError", node, show(k))
            except Dead:
                pass
            st.assume(pc)
        return drop_absent(v, None)
    if k.op in ("const", "class", "ext", "func") and all(x.op in ("const", "class", "ext", "func") for x in o.d):
        if has_default:
            return default
        interp.raise_name(st, "KeyError", node, show(k))
    # symbolic key against known keys: alternatives
    out = None
    conds = []
    for kk, v in o.d.items():
        c = interp.mkcmp("==", k, kk, st)
        t = interp.truth(c, st)
        if t is True:
            return drop_absent(v, None)
        if t is False:
            continue
        conds.append((c, v))
    if not conds:
        if has_default:
            return default
        interp.raise_name(st, "KeyError", node, show(k))
    anyc = b_or(*[c for c, _ in conds])
    if has_default:
        r = interp.freeze(default, st)
    else:
        s2 = st.copy()
        s2.assume(b_not(anyc))
        try:
            interp.raise_name(s2, "KeyError", node, show(k), explicit=False)
        except Dead:
            pass
        st.assume(anyc)
        r = conds[-1][1]
        conds = conds[:-1]
    for c, v in reversed(conds):
        r = phi(c, v if v.op == "ref" and st.obj(v).kind == "inst" else interp.freeze(v, st), r)
    return r


def list_extend(interp, ref, v, st):
    items = interp.known_items(v, st)
    o = st.w(ref)
    if items is not None and o.sym is None:
        o.d = o.d + [interp.bindable(x, st) for x in items]
        st.heap[ref.args[0]].d = o.d
        return
    cur = o.sym if o.sym is not None else interp._freeze_obj(o, st)
    o = st.w(ref)
    fv = interp.freeze(v, st)
    if items is not None and fv.op != "list":
        fv = mk("list", *[interp.freeze(x, st) for x in items])
    o.sym = mk("concat", cur, fv) if not (cur.op == "list" and not cur.args) else fv
    o.d = []


def m_append(interp, ref, args, kwargs, st, node):
    o = st.w(ref)
    if o.sym is None:
        o.d = o.d + [interp.bindable(args[0], st)]
        return NONE
    o.sym = mk("append", o.sym, interp.freeze(args[0], st))
    return NONE


def m_update(interp, ref, srcs, kwargs, st, node):
    o = st.w(ref)
    if o.kind == "set":
        for s in srcs:
            its = interp.known_items(s, st)
            if its is None or o.sym is not None:
                cur = interp.freeze(ref, st)
                o = st.w(ref)
                o.sym = mk("mcall", "union", cur, (interp.freeze(s, st),), ())
                o.d = {}
            else:
                for x in its:
                    o.d[interp.freeze(x, st)] = TRUE
        return NONE
    for s in srcs:
        s = interp.assume_simpl(s, st)
        if s.op == "ref" and st.obj(s).kind == "dict" and st.obj(s).sym is None and o.sym is None:
            for k, v in st.obj(s).d.items():
                if absent_in(v):
                    v = interp_or(v, o.d.get(k, ABSENT))
                o.d[k] = v
        elif s.op == "dict" and o.sym is None:
            for k, v in s.args[0]:
                o.d[k] = v
        else:
            its = interp.known_items(s, st) if not (s.op == "ref" and st.obj(s).kind == "dict") else None
            if its is not None and all(x.op == "tuple" and len(x.args) == 2 for x in its) and o.sym is None:
                for x in its:
                    o.d[interp.freeze(x.args[0], st)] = x.args[1]
            else:
                cur = interp.freeze(ref, st)
                o = st.w(ref)
                o.sym = mk("dictupdate", cur, interp.freeze(s, st))
                o.d = {}
    for k, v in kwargs.items():
        o.d[const(k)] = v
    return NONE


def interp_or(v, fallback):
    if v is ABSENT:
        return fallback
    if v.op == "phi" and absent_in(v):
        return phi(v.args[0], interp_or(v.args[1], fallback), interp_or(v.args[2], fallback))
    return v


def set_op(interp, op, ref, others, st):
    o = st.obj(ref)
    known = o.sym is None
    items = list(o.d) if known else None
    for x in others:
        its = interp.known_items(x, st)
        if items is None or its is None:
            items = None
            break
        its = [interp.freeze(y, st) for y in its]
        if not all(y.op in ("const", "class") for y in its + items) and op != "union":
            items = None
            break
        if op == "union":
            items = items + [y for y in its if y not in items]
        elif op == "intersection":
            items = [y for y in items if y in its]
        elif op == "difference":
            items = [y for y in items if y not in its]
        elif op == "symmetric_difference":
            items = [y for y in items if y not in its] + [y for y in its if y not in items]
    if items is not None:
        return st.alloc(HObj("set", {x: TRUE for x in items}))
    return st.alloc(HObj("set", {}, sym=setterm(op, interp.freeze(ref, st), [interp.freeze(x, st) for x in others])))


def setterm(op, a, others):
    r = a
    for x in others:
        if callee(x) == "builtins.set":
            x = x.args[1][0]
        if op in ("union", "intersection") and callee(r) == "builtins.set" and x.id < r.args[1][0].id:
            r = mk("mcall", op, mk("call", "builtins.set", (x,), ()), (r.args[1][0],), ())
        else:
            r = mk("mcall", op, r, (x,), ())
    return r


STRM = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "startswith", "endswith", "title", "capitalize",
        "join", "find", "index", "count", "isdigit", "isalpha", "partition", "rpartition", "casefold", "removeprefix", "removesuffix", "zfill", "format", "encode", "isidentifier"}


def method_call(interp, recv, name, args, kwargs, st, node):
    recv = interp.assume_simpl(recv, st)
    if recv.op == "phi" and any(x.op == "ref" for x in recv.args[1:]):
        return interp.fork(recv.args[0], st, lambda s: method_call(interp, recv.args[1], name, args, kwargs, s, node),
                           lambda s: method_call(interp, recv.args[2], name, args, kwargs, s, node))
    if recv.op == "ref":
        k = st.obj(recv).kind
        if k == "list":
            return list_method(interp, recv, name, args, kwargs, st, node)
        if k == "dict":
            return dict_method(interp, recv, name, args, kwargs, st, node)
        if k == "set":
            return set_method(interp, recv, name, args, kwargs, st, node)
        if k == "arr":
            return nd_method(interp, recv, st.obj(recv).sym, name, args, kwargs, st, node)
        if k == "generator":
            if name == "close":
                return NONE
        raise Undecided(f"method {name} of {k} object")
    if recv.op == "const" and isinstance(cval(recv), str):
        return str_method(interp, recv, name, args, kwargs, st, node)
    if recv.op == "class":
        if name == "mro":
            return st.alloc(HObj("list", list(interp.mro(recv, st))))
        if name == "__subclasses__":
            raise Undecided("__subclasses__")
    if recv.op == "tuple":
        if name == "index" or name == "count":
            return mk("mcall", name, interp.freeze(recv, st), tuple(interp.freeze(a, st) for a in args), ())
    F = interp.facts
    k = F.kind(recv)
    if k == "str":
        return str_method(interp, recv, name, args, kwargs, st, node)
    if k == "rng" or (recv.op in ("attr", "param") and name in ("permutation", "shuffle", "permuted", "integers", "normal") and k == "unknown"):
        return rng_method(interp, recv, name, args, kwargs, st, node)
    if k == "ndarray":
        return nd_method(interp, None, recv, name, args, kwargs, st, node)
    fa, fk = frz(interp, args, kwargs, st)
    if k in ("dict",):
        if name in ("keys", "values", "items"):
            return mk(name, recv)
        if name == "get":
            return mk("mcall", "get", recv, tuple(fa), ())
        if name == "copy":
            return st.alloc(HObj("dict", {}, sym=recv))
        if name in ("pop", "update", "clear", "setdefault"):
            interp.mutated(recv, st, node, name)
    if k == "list":
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"):
            interp.mutated(recv, st, node, "list." + name)
            if recv.op == "param":
                return mk("mcall", name, recv, tuple(fa), tuple(sorted(fk.items())))
            raise Undecided("mutation of a list value: " + name)
        if name == "copy":
            return st.alloc(HObj("list", [], sym=recv))
    if k == "set" and name in ("union", "intersection", "difference", "symmetric_difference"):
        return st.alloc(HObj("set", {}, sym=setterm(name, recv, fa)))
    if recv.op == "call" and isinstance(recv.args[0], str) and recv.args[0].split(".")[-1] in ("Pool", "ThreadPool", "ProcessPoolExecutor", "ThreadPoolExecutor"):
        if name in ("map", "imap"):
            return B["builtins.map"](interp, args[:2] if name == "imap" or len(args) > 2 else args, {}, st, node)
        if name == "starmap":
            return B["itertools.starmap"](interp, args[:2], {}, st, node)
        if name == "imap_unordered" and len(args) >= 2:
            return mk("call", "unordered", (interp.freeze(B["builtins.map"](interp, args[:2], {}, st, node), st),), ())
        if name in ("close", "join", "terminate", "shutdown"):
            return NONE
    if recv.op == "call" and name in ("__enter__",):
        return recv
    if name in ND_METHODS and recv.op in ("lin", "mono", "pow", "phi"):
        return nd_method(interp, None, recv, name, args, kwargs, st, node)
    if k in NUMK and name in ND_METHODS:
        if name in ("item", "copy", "squeeze", "sum", "mean", "min", "max"):
            return recv
        if name == "astype":
            return do_astype(interp, [recv] + fa, fk)
    if k == "unknown" and name in ND_MUTATE:
        interp.mutated(recv, st, node, name)
    if k == "none":
        interp.raise_name(st, "AttributeError", node, name)
    sig = SIGM.get(name)
    if sig is not None:
        for i, a in enumerate(fa):
            if i < len(sig):
                fk.setdefault(sig[i], a)
        fa = [fk.pop(sig[0])] if sig[0] in fk else []
        for kk in list(fk):
            d = DROPDEF.get((name, kk))
            if d is not None and fk[kk] is d:
                del fk[kk]
    callbacks(interp, name, args, kwargs, st, node)
    if name == "sum" and k == "unknown":
        fa, fk = ([], {"axis": fa[0]}) if fa else (fa, fk)
    return mk("mcall", name, recv, tuple(fa), tuple(sorted(fk.items())))


def rng_method(interp, rng, name, args, kwargs, st, node):
    fa, fk = frz(interp, args, kwargs, st)
    st.draws += 1
    sigs = {"permutation": ["x", "axis"], "shuffle": ["x", "axis"], "permuted": ["x", "axis"], "choice": ["a", "size", "replace", "p", "axis", "shuffle"],
            "normal": ["loc", "scale", "size"], "uniform": ["low", "high", "size"], "integers": ["low", "high", "size"], "random": ["size"], "standard_normal": ["size"]}
    sg = sigs.get(name)
    if sg:
        for i, a in enumerate(fa):
            if i < len(sg):
                fk.setdefault(sg[i], a)
        dflt = {"axis": const(0), "replace": TRUE, "p": NONE}
        if name in ("permutation", "shuffle", "permuted", "choice"):
            first = sg[0]
            fa = [fk.pop(first)] if first in fk else []
            for k in list(fk):
                if k in dflt and fk[k] is dflt[k] and not (name == "permuted" and k == "axis"):
                    del fk[k]
        else:
            fa = []
    meth = "shuffled" if name == "shuffle" else name
    t = mk("draw", meth, rng, st.draws, tuple(interp.bvs), tuple(fa), tuple(sorted(fk.items())))
    interp.event("draw", st, node, rng=rng, meth=name, args_=tuple(fa), term=t)
    if name == "shuffle":
        x = args[0] if args else kwargs["x"]
        if x.op == "ref" and st.obj(x).kind == "arr":
            interp.mutate_arr(x, t, st, node, "shuffle")
        elif x.op == "ref" and st.obj(x).kind == "list":
            w = st.w(x)
            w.sym = t
            w.d = []
        else:
            interp.mutated(interp.freeze(x, st), st, node, "shuffle")
        return NONE
    return t


def nd_method(interp, ref, term, name, args, kwargs, st, node):
    if name in ND_MUTATE:
        fa, fk = frz(interp, args, kwargs, st)
        nt = np_call(interp, "numpy.sort", [term] + fa, fk, st, node) if name == "sort" else mk("mcall", name, term, tuple(fa), tuple(sorted(fk.items())))
        if ref is not None:
            interp.mutate_arr(ref, nt, st, node, name)
        else:
            interp.mutated(term, st, node, name)
        return NONE
    if name == "astype":
        fa, fk = frz(interp, args, kwargs, st)
        return do_astype(interp, [term] + fa, fk)
    if name == "copy":
        return mk("call", "numpy.copy", (term,), ())
    if name == "item" and not args:
        return mk("call", "builtins.float_item", (term,), ()) if interp.facts.ndim(term) != 0 else term
    if name == "tolist":
        return st.alloc(HObj("list", [], sym=mk("call", "builtins.list", (term,), ())))
    if name == "nonzero":
        return mk("mcall", "nonzero", term, (), ())
    if name in ND_METHODS:
        nm = {"flatten": "flatten"}.get(name, name)
        return call(interp, "numpy." + nm, [ref if ref is not None else term] + list(args), dict(kwargs), st, node)
    fa, fk = frz(interp, args, kwargs, st)
    return mk("mcall", name, term, tuple(fa), tuple(sorted(fk.items())))


def str_method(interp, recv, name, args, kwargs, st, node):
    if name == "join":
        its = interp.known_items(args[0], st)
        if its is not None and recv.op == "const" and all(interp.freeze(x, st).op == "const" for x in its):
            try:
                return const(cval(recv).join(cval(x) for x in its))
            except TypeError:
                interp.raise_name(st, "TypeError", node, "join")
        return mk("fstr", (recv, interp.freeze(args[0], st)))
    fa, fk = frz(interp, args, kwargs, st)
    if recv.op == "const" and all(a.op == "const" for a in fa) and not fk and name in STRM:
        try:
            r = getattr(cval(recv), name)(*[cval(a) for a in fa])
        except (TypeError, ValueError, AttributeError) as ex:
            interp.raise_name(st, type(ex).__name__, node, name)
        if isinstance(r, (list,)):
            return st.alloc(HObj("list", [const(x) for x in r]))
        if isinstance(r, tuple):
            return mk("tuple", *[const(x) for x in r])
        return const(r)
    if name == "format":
        return mk("fstr", (recv,) + tuple(fa))
    return mk("mcall", name, recv, tuple(fa), tuple(sorted(fk.items())))


def list_method(interp, ref, name, args, kwargs, st, node):
    o = st.obj(ref)
    if name == "append":
        return m_append(interp, ref, args, kwargs, st, node)
    if name == "extend":
        list_extend(interp, ref, args[0], st)
        return NONE
    if name == "copy":
        return st.alloc(HObj("list", list(o.d), o.sym))
    if name == "clear":
        w = st.w(ref)
        w.d, w.sym = [], None
        return NONE
    if o.sym is None:
        if name == "insert" and is_num(interp.val(args[0], st)):
            w = st.w(ref)
            w.d.insert(int(cval(args[0])), interp.bindable(args[1], st))
            return NONE
        if name == "pop":
            i = int(cval(args[0])) if args and is_num(args[0]) else (-1 if not args else None)
            if i is not None:
                if not -len(o.d) <= i < len(o.d):
                    interp.raise_name(st, "IndexError", node, "pop")
                w = st.w(ref)
                return w.d.pop(i)
        if name == "reverse":
            w = st.w(ref)
            w.d.reverse()
            return NONE
        if name == "index" and args:
            k = interp.freeze(args[0], st)
            fz = [interp.freeze(x, st) for x in o.d]
            if k in fz and all(x.op == "const" for x in fz):
                return const(fz.index(k))
        if name == "sort" and not kwargs and all(x.op == "const" for x in o.d):
            w = st.w(ref)
            w.d.sort(key=cval)
            return NONE
        if name == "remove" and all(interp.freeze(x, st).op == "const" for x in o.d):
            k = interp.freeze(args[0], st)
            w = st.w(ref)
            for i, x in enumerate(w.d):
                if x is k:
                    del w.d[i]
                    return NONE
            interp.raise_name(st, "ValueError", node, "remove")
    cur = interp.freeze(ref, st)
    fa, fk = frz(interp, args, kwargs, st)
    if name in ("pop", "insert", "remove", "sort", "reverse"):
        w = st.w(ref)
        w.sym = mk("mcall", "list." + name, cur, tuple(fa), tuple(sorted(fk.items())))
        w.d = []
        return mk("mcall", "list.popped", cur, tuple(fa), ()) if name == "pop" else NONE
    return mk("mcall", name, cur, tuple(fa), tuple(sorted(fk.items())))


def dict_method(interp, ref, name, args, kwargs, st, node):
    o = st.obj(ref)
    if name == "get":
        return dict_get(interp, ref, args[0], st, node, args[1] if len(args) > 1 else kwargs.get("default", NONE), True)
    if name == "copy":
        return st.alloc(HObj("dict", dict(o.d), o.sym))
    if name == "update":
        return m_update(interp, ref, args, kwargs, st, node)
    if name == "clear":
        w = st.w(ref)
        w.d, w.sym = {}, None
        return NONE
    if name in ("keys", "values", "items"):
        if o.sym is None and not any(absent_in(v) for v in o.d.values()):
            if name == "keys":
                its = list(o.d)
            elif name == "values":
                its = list(o.d.values())
            else:
                its = [mk("tuple", k, v) for k, v in o.d.items()]
            return st.alloc(HObj("list", its))
        return mk(name, interp.freeze(ref, st))
    if name == "pop":
        k = keyterm(interp, args[0], st)
        if o.sym is None:
            if k in o.d:
                v = o.d[k]
                w = st.w(ref)
                if absent_in(v):
                    if len(args) > 1:
                        r = drop_absent(v, interp.freeze(args[1], st))
                    else:
                        r = dict_get(interp, ref, k, st, node)
                        w = st.w(ref)
                    del w.d[k]
                    return r
                del w.d[k]
                return v
            if k.op == "const":
                if len(args) > 1:
                    return args[1]
                interp.raise_name(st, "KeyError", node, show(k))
        cur = interp.freeze(ref, st)
        w = st.w(ref)
        w.sym, w.d = mk("delitem", cur, k), {}
        return mk("mcall", "get", cur, (k,) + tuple(interp.freeze(a, st) for a in args[1:]), ())
    if name == "setdefault":
        k = keyterm(interp, args[0], st)
        if o.sym is None:
            if k in o.d:
                v = drop_absent(o.d[k], interp.freeze(args[1], st) if len(args) > 1 else NONE) if absent_in(o.d[k]) else o.d[k]
                st.w(ref).d[k] = v
                return v
            if k.op == "const":
                v = interp.bindable(args[1], st) if len(args) > 1 else NONE
                st.w(ref).d[k] = v
                return v
    if name in ("most_common", "total", "elements"):
        return mk("mcall", name, interp.freeze(ref, st), tuple(interp.freeze(a, st) for a in args), ())
    if name == "__contains__":
        return contains_op(interp, args[0], ref, st, node)
    raise Undecided("dict method " + name)


def set_method(interp, ref, name, args, kwargs, st, node):
    o = st.obj(ref)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        return set_op(interp, name, ref, args, st)
    if name == "add":
        k = interp.freeze(args[0], st)
        w = st.w(ref)
        if o.sym is None:
            w.d[k] = TRUE
        else:
            w.sym = mk("mcall", "union", o.sym, (mk("set", k),), ())
        return NONE
    if name == "update":
        return m_update(interp, ref, args, kwargs, st, node)
    if name == "copy":
        return st.alloc(HObj("set", dict(o.d), o.sym))
    if name in ("discard", "remove"):
        k = interp.freeze(args[0], st)
        w = st.w(ref)
        if o.sym is None and (k in o.d or (k.op == "const" and all(x.op == "const" for x in o.d))):
            if k not in o.d and name == "remove":
                interp.raise_name(st, "KeyError", node)
            w.d.pop(k, None)
            return NONE
    if name in ("issubset", "issuperset", "isdisjoint"):
        its = interp.known_items(args[0], st)
        if o.sym is None and its is not None and all(x.op == "const" for x in list(o.d) + its):
            a, b = set(o.d), set(its)
            return const({"issubset": a <= b, "issuperset": a >= b, "isdisjoint": not (a & b)}[name])
        return mk("mcall", name, interp.freeze(ref, st), (interp.freeze(args[0], st),), ())
    raise Undecided("set method " + name)


# ------------------------------------------------------------------ membership
def contains_op(interp, a, b, st, node):
    fa = interp.freeze(a, st)
    b = interp.assume_simpl(b, st)
    if b.op == "ref" and st.obj(b).kind == "dict" and st.obj(b).sym is None:
        d = st.obj(b).d
        if fa in d:
            return present_cond(d[fa]) if absent_in(d[fa]) else TRUE
        if fa.op in ("const", "class", "ext", "func") and all(k.op in ("const", "class", "ext", "func") for k in d):
            return FALSE
        return b_or(*[interp.boolterm(interp.mkcmp("==", fa, k, st), st) for k in d])
    if b.op == "ref" and st.obj(b).kind == "inst":
        f = interp.class_lookup(st.obj(b).cls, "__contains__", st)
        if f is not None:
            return interp.boolterm(interp.call(mk("bound", f, b), [a], {}, st, node), st)
    if b.op == "const" and isinstance(cval(b), str):
        if fa.op == "const" and isinstance(cval(fa), str):
            return const(cval(fa) in cval(b))
        return mk("cmp", "in", fa, b)
    if b.op == "classdict":
        if fa.op == "const":
            return const(cval(fa) in interp._class_obj(b.args[0], st).d)
        raise Undecided("class __dict__ membership")
    if b.op == "instdict":
        return const(cval(fa) in st.obj(b.args[0]).d) if fa.op == "const" else mk("cmp", "in", fa, b)
    items = interp.known_items(b, st)
    if items is not None:
        cs = []
        for x in items:
            fx = interp.freeze(x, st)
            if fx is fa and interp.facts.kind(fa) not in ("ndarray",):
                return TRUE
            c = interp.boolterm(interp.mkcmp("==", fa, fx, st), st)
            t = interp.truth(c, st)
            if t is True:
                return TRUE
            if t is False:
                continue
            cs.append(c)
        return b_or(*cs)
    fb = interp.freeze(b, st)
    if fb.op == "keys":
        fb = fb.args[0]
    return mk("cmp", "in", fa, fb)


# ------------------------------------------------------------------ builtins
@reg("builtins.len")
def b_len(interp, args, kwargs, st, node):
    v = interp.assume_simpl(args[0], st)
    if v.op == "phi" and any(x.op in ("ref", "tuple") for x in v.args[1:]):
        return interp.fork(v.args[0], st, lambda s: b_len(interp, [v.args[1]], {}, s, node), lambda s: b_len(interp, [v.args[2]], {}, s, node))
    if v.op == "ref":
        o = st.obj(v)
        if o.kind == "inst":
            f = interp.class_lookup(o.cls, "__len__", st)
            if f is not None:
                return interp.call(mk("bound", f, v), [], {}, st, node)
            interp.raise_name(st, "TypeError", node, "len")
        if o.kind == "generator":
            interp.raise_name(st, "TypeError", node, "len of generator")
        if o.kind in ("list", "set") and o.sym is None:
            if o.kind == "list" or all(x.op == "const" for x in o.d) or len(o.d) <= 1:
                return const(len(o.d))
        if o.kind == "dict" and o.sym is None and not any(absent_in(x) for x in o.d.values()) and all(x.op == "const" for x in o.d):
            return const(len(o.d))
    fv = interp.freeze(v, st)
    k = interp.facts.kind(fv)
    if k in NUMK + ("none", "rng") and k != "number" or fv.op == "ext":
        interp.raise_name(st, "TypeError", node, "object has no len()")
    return length(interp, fv)


KINDCLS = {"builtins.str": {"str"}, "builtins.int": {"int", "bool"}, "builtins.float": {"float"}, "builtins.bool": {"bool"},
           "builtins.tuple": {"tuple"}, "builtins.list": {"list"}, "builtins.dict": {"dict"}, "builtins.set": {"set"},
           "numpy.ndarray": {"ndarray"}, "numpy.random.Generator": {"rng"}, "types.NoneType": {"none"},
           "collections.abc.Sequence": {"list", "tuple", "str"}, "typing.Sequence": {"list", "tuple", "str"},
           "collections.abc.Generator": {"generator"}, "typing.Generator": {"generator"}, "collections.abc.Callable": {"func", "class"}, "typing.Callable": {"func", "class"},
           "collections.abc.Iterable": {"list", "tuple", "str", "dict", "set", "ndarray", "generator"}, "typing.Iterable": {"list", "tuple", "str", "dict", "set", "ndarray", "generator"},
           "numbers.Number": {"int", "float", "bool", "number"}, "numbers.Real": {"int", "float", "bool", "number"}, "numbers.Integral": {"int", "bool"},
           "numpy.integer": set(), "numpy.floating": set(), "numpy.number": set(), "collections.abc.Mapping": {"dict"}, "types.GeneratorType": {"generator"},
           "builtins.type": {"class"}, "collections.abc.Sized": {"list", "tuple", "str", "dict", "set", "ndarray"}}
ALLKINDS = {"str", "int", "float", "bool", "tuple", "list", "dict", "set", "ndarray", "rng", "none", "generator", "func", "class", "view"}


def flat_classes(interp, c, st):
    if c.op == "tuple":
        out = []
        for x in c.args:
            r = flat_classes(interp, x, st)
            if r is None:
                return None
            out += r
        return out
    if callee(c) == "bitor":
        return flat_classes(interp, mk("tuple", *c.args[1]), st)
    if c is NONE:
        return [mk("ext", "types.NoneType")]
    if callee(c) == "builtins.type" and c.args[1] and c.args[1][0] is NONE:
        return [mk("ext", "types.NoneType")]
    if c.op in ("class", "ext"):
        return [c]
    return None


def ref_kind(interp, v, st):
    if v.op == "ref":
        k = st.obj(v).kind
        return {"arr": "ndarray", "inst": "inst"}.get(k, k)
    if v.op in ("class", "ext"):
        return "class"
    return interp.facts.kind(v)


@reg("builtins.isinstance")
def b_isinstance(interp, args, kwargs, st, node):
    v, c = interp.assume_simpl(args[0], st), args[1]
    if v.op == "phi" and (any(x.op == "ref" for x in v.args[1:]) or interp.facts.kind(v) == "unknown"):
        return phi(v.args[0], b_isinstance(interp, [v.args[1], c], {}, st, node), b_isinstance(interp, [v.args[2], c], {}, st, node))
    cl = flat_classes(interp, c, st)
    if cl is None:
        raise Undecided("isinstance of unknown class")
    k = ref_kind(interp, v, st)
    if k == "inst":
        ms = interp.mro(st.obj(v).cls, st)
        return const(any(x in ms or (x.op == "ext" and x.args[0] == "builtins.object") for x in cl))
    if k == "exc":
        return mk("call", "builtins.isinstance", (v, c), ())
    if v.op == "exc":
        bs = interp.exc_bases(v.args[0], st) or []
        return const(any(x.args[0] in bs or x.args[0].split(".")[-1] in bs for x in cl))
    res = []
    for x in cl:
        if x.op == "class":
            res.append(False if k in ALLKINDS or k in ("module",) else None)
            continue
        s = KINDCLS.get(x.args[0])
        if x.args[0] == "builtins.object":
            res.append(True)
        elif s is None:
            res.append(None if k == "unknown" else (None if x.args[0].split(".")[0] not in ("builtins", "numpy") else False))
        elif k == "unknown" or k == "number":
            m = interp.facts.meta.get(v, {})
            if k == "number" and x.args[0] in ("builtins.int", "builtins.float"):
                res.append("num")
            elif k == "number":
                res.append("number" in s)
            else:
                res.append(None)
        elif k == "float" and x.args[0] in ("builtins.float", "numpy.floating", "numpy.number"):
            res.append(True if x.args[0] == "builtins.float" else None)
        else:
            res.append(k in s)
    if True in res:
        return TRUE
    if res.count("num") == 2 or ("num" in res and len({x.args[0] for x, r in zip(cl, res) if r == "num"}) == 2):
        return TRUE
    if all(r is False for r in res):
        return FALSE
    keep = tuple(sorted((x for x, r in zip(cl, res) if r is not False)))
    return mk("call", "builtins.isinstance", (interp.freeze(v, st), mk("tuple", *keep)), ())


@reg("builtins.issubclass")
def b_issubclass(interp, args, kwargs, st, node):
    c = args[0]
    cl = flat_classes(interp, args[1], st)
    if c.op == "class" and cl is not None:
        ms = interp.mro(c, st)
        return const(any(x in ms or (x.op == "ext" and x.args[0] == "builtins.object") for x in cl))
    if c.op in ("ext",) and cl is not None:
        eb = interp.exc_bases(c, st)
        if eb:
            return const(any(x.args[0].split(".")[-1] in eb for x in cl))
        return const(c in cl)
    if c.op == "phi":
        return phi(c.args[0], b_issubclass(interp, [c.args[1], args[1]], {}, st, node), b_issubclass(interp, [c.args[2], args[1]], {}, st, node))
    if c.op == "const" or c.op == "func" or c.op == "ref":
        interp.raise_name(st, "TypeError", node, "issubclass() arg 1 must be a class")
    return mk("call", "builtins.issubclass", (interp.freeze(c, st), args[1]), ())


@reg("builtins.hasattr")
def b_hasattr(interp, args, kwargs, st, node):
    v, n = interp.assume_simpl(args[0], st), args[1]
    if n.op != "const":
        raise Undecided("hasattr with unknown name")
    name = cval(n)
    if v.op == "ref":
        o = st.obj(v)
        if o.kind == "inst":
            if name in o.d:
                x = o.d[name]
                if x is UNDEF:
                    pass
                elif x.op == "phi" and UNDEF in x.args[1:]:
                    if interp.class_lookup(o.cls, name, st) is None:
                        return x.args[0] if x.args[2] is UNDEF else b_not(x.args[0])
                else:
                    return TRUE
            r = interp.class_lookup(o.cls, name, st)
            return const(r is not None)
        if o.kind == "arr":
            return const(name in DATA_ATTRS or name in ND_METHODS | ND_MUTATE or name.startswith("__"))
        if o.kind == "module":
            return const(name in o.d)
        d = {"list": list, "dict": dict, "set": set}.get(o.kind)
        if d:
            return const(hasattr(d, name))
    if v.op == "class":
        return const(interp.class_lookup(v, name, st) is not None)
    k = interp.facts.kind(v)
    d = {"str": str, "int": int, "float": float, "list": list, "tuple": tuple, "dict": dict, "none": type(None)}.get(k)
    if d:
        return const(hasattr(d, name))
    if k == "ndarray":
        return const(name in DATA_ATTRS or name in ND_METHODS | ND_MUTATE or name.startswith("__"))
    return mk("call", "builtins.hasattr", (interp.freeze(v, st), n), ())


@reg("builtins.getattr")
def b_getattr(interp, args, kwargs, st, node):
    n = interp.val(args[1], st)
    if n.op == "phi" and all(x.op == "const" for x in n.args[1:]):
        return interp.fork(n.args[0], st, lambda s: b_getattr(interp, [args[0], n.args[1]] + args[2:], {}, s, node), lambda s: b_getattr(interp, [args[0], n.args[2]] + args[2:], {}, s, node))
    if n.op != "const":
        raise Undecided("getattr with unknown name")
    from .interp import SENT
    return interp.getattr(args[0], cval(n), st, node, args[2] if len(args) > 2 else SENT)


@reg("builtins.setattr")
def b_setattr(interp, args, kwargs, st, node):
    n = args[1]
    if n.op != "const":
        raise Undecided("setattr with unknown name")
    interp.setattr(args[0], cval(n), interp.bindable(args[2], st), st, node)
    return NONE


@reg("builtins.delattr")
def b_delattr(interp, args, kwargs, st, node):
    if args[0].op == "ref" and args[1].op == "const":
        st.w(args[0]).d.pop(cval(args[1]), None)
        return NONE
    raise Undecided("delattr")


@reg("builtins.object.__setattr__")
def b_objset(interp, args, kwargs, st, node):
    o, n, v = args
    if o.op == "ref" and n.op == "const":
        interp.event("attr-write", st, node, obj=o, name=cval(n), value=v)
        st.w(o).d[cval(n)] = interp.bindable(v, st)
        return NONE
    raise Undecided("object.__setattr__")


@reg("builtins.object.__init__")
def b_objinit(interp, args, kwargs, st, node):
    if len(args) > 1 or kwargs:
        interp.raise_name(st, "TypeError", node, "object.__init__() takes exactly one argument")
    return NONE


@reg("builtins.callable")
def b_callable(interp, args, kwargs, st, node):
    v = interp.assume_simpl(args[0], st)
    if v.op in ("func", "bound", "class", "ext", "lam", "extbound", "partial"):
        return TRUE
    if v.op == "ref":
        o = st.obj(v)
        if o.kind == "inst":
            return const(interp.class_lookup(o.cls, "__call__", st) is not None)
        return FALSE
    if v.op == "phi":
        return phi(v.args[0], b_callable(interp, [v.args[1]], {}, st, node), b_callable(interp, [v.args[2]], {}, st, node))
    k = interp.facts.kind(v)
    if k in ("func", "class"):
        return TRUE
    if k != "unknown":
        return FALSE
    return mk("call", "builtins.callable", (v,), ())


@reg("builtins.type")
def b_type(interp, args, kwargs, st, node):
    if len(args) == 3:
        raise Undecided("dynamic class creation")
    v = interp.assume_simpl(args[0], st)
    if v.op == "ref":
        o = st.obj(v)
        if o.kind == "inst":
            return o.cls
        return mk("ext", {"arr": "numpy.ndarray", "list": "builtins.list", "dict": "builtins.dict", "set": "builtins.set", "generator": "types.GeneratorType"}.get(o.kind, "types.ModuleType"))
    if v.op == "class":
        return mk("ext", "builtins.type")
    if v.op == "exc":
        return v.args[0]
    if v.op == "phi" and any(x.op == "ref" for x in v.args[1:]):
        return interp.fork(v.args[0], st, lambda s: b_type(interp, [v.args[1]], {}, s, node), lambda s: b_type(interp, [v.args[2]], {}, s, node))
    k = interp.facts.kind(v)
    n = {"int": "builtins.int", "float": "builtins.float", "str": "builtins.str", "bool": "builtins.bool", "none": "types.NoneType",
         "list": "builtins.list", "tuple": "builtins.tuple", "dict": "builtins.dict", "ndarray": "numpy.ndarray", "set": "builtins.set"}.get(k)
    if n and not (v.op == "phi" and k == "float"):
        return mk("ext", n)
    return mk("call", "builtins.type", (interp.freeze(v, st),), ())


@reg("builtins.range")
def b_range(interp, args, kwargs, st, node):
    a = [interp.val(x, st) for x in args]
    if len(a) == 2 and a[0] is const(0):
        a = a[1:]
    if len(a) == 3 and a[2] is const(1):
        a = a[:2]
    return mk("call", "range", tuple(a), ())


@reg("builtins.enumerate")
def b_enumerate(interp, args, kwargs, st, node):
    start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
    its = interp.known_items(args[0], st)
    if its is not None and is_num(start):
        return st.alloc(HObj("list", [mk("tuple", const(cval(start) + i), x) for i, x in enumerate(its)]))
    v = args[0]
    return mk("enumerate", v if v.op == "ref" and st.obj(v).kind == "arr" else interp.freeze(v, st), start)


@reg("builtins.zip", "itertools.zip_longest")
def b_zip(interp, args, kwargs, st, node):
    ks = [interp.known_items(x, st) for x in args]
    if all(k is not None for k in ks):
        return st.alloc(HObj("list", [mk("tuple", *x) for x in zip(*ks)]))
    return mk("zip", *[interp.freeze(x, st) for x in args])


@reg("builtins.reversed")
def b_reversed(interp, args, kwargs, st, node):
    its = interp.known_items(args[0], st)
    if its is not None:
        return st.alloc(HObj("list", its[::-1]))
    return mk("reversed", interp.freeze(args[0], st))


def sym_map(interp, f, its, st, node):
    """map of a package function over sequences of unknown length"""
    n, el = its
    interp.loop_depth += 1
    bv = mk("bv", interp.loop_depth)
    interp.bvs.append(bv)
    g = st.guard
    try:
        v = interp.freeze(f(el(bv, st), st), st)
    finally:
        interp.bvs.pop()
        interp.loop_depth -= 1
    st.guard = g
    return st.alloc(HObj("list", [], sym=binder(mk("map", n, v), bv)))


@reg("builtins.map")
def b_map(interp, args, kwargs, st, node):
    f, seqs = args[0], args[1:]
    ks = [interp.known_items(x, st) for x in seqs]
    if all(k is not None for k in ks):
        return st.alloc(HObj("list", [interp.bindable(interp.call(f, list(x), {}, st, node), st) for x in zip(*ks)]))
    if len(seqs) == 1:
        return sym_map(interp, lambda x, s: interp.call(f, [x], {}, s, node), interp.sym_iter(seqs[0], st), st, node)
    z = interp.sym_iter(mk("zip", *[interp.freeze(x, st) for x in seqs]), st)
    return sym_map(interp, lambda x, s: interp.call(f, list(x.args), {}, s, node), z, st, node)


@reg("itertools.starmap")
def b_starmap(interp, args, kwargs, st, node):
    f, seq = args[:2]
    its = interp.known_items(seq, st)
    if its is not None:
        out = []
        for x in its:
            a = interp.known_items(x, st)
            if a is None:
                raise Undecided("starmap")
            out.append(interp.bindable(interp.call(f, a, {}, st, node), st))
        return st.alloc(HObj("list", out))

    def one(x, s):
        a = interp.known_items(x, s)
        if a is None:
            raise Undecided("starmap")
        return interp.call(f, a, {}, s, node)
    return sym_map(interp, one, interp.sym_iter(seq, st), st, node)


@reg("builtins.filter")
def b_filter(interp, args, kwargs, st, node):
    its = interp.known_items(args[1], st)
    if its is None:
        raise Undecided("filter over unknown sequence")
    out = []
    for x in its:
        c = interp.boolterm(x if args[0] is NONE else interp.call(args[0], [x], {}, st, node), st)
        t = interp.truth(c, st)
        if t is None:
            raise Undecided("filter condition")
        if t:
            out.append(x)
    return st.alloc(HObj("list", out))


def new_seq(kind):
    def h(interp, args, kwargs, st, node):
        if not args:
            return mk("tuple") if kind == "tuple" else st.alloc(HObj("list", []))
        its = interp.known_items(args[0], st)
        if its is not None:
            return mk("tuple", *its) if kind == "tuple" else st.alloc(HObj("list", list(its)))
        v = interp.assume_simpl(args[0], st)
        k = ref_kind(interp, v, st)
        if k in NUMK + ("none",) and k != "number":
            interp.raise_name(st, "TypeError", node, "not iterable")
        f = interp.freeze(v, st)
        if f.op == "zip" or f.op == "enumerate":
            n, el = interp.sym_iter(f, st)
            interp.loop_depth += 1
            bv = mk("bv", interp.loop_depth)
            b = interp.freeze(el(bv, st), st)
            interp.loop_depth -= 1
            f = binder(mk("map", n, b), bv)
        if kind == "list":
            return st.alloc(HObj("list", [], sym=f if interp.facts.kind(f) == "list" and f.op != "param" else mk("call", "builtins.list", (f,), ())))
        if f.op == "phi":
            a, b = [h(interp, [x], {}, st, node) for x in f.args[1:]]
            if a.op == "tuple" and b.op == "tuple" and len(a.args) != len(b.args):
                return phi(f.args[0], a, b)
        return mk("call", "builtins.tuple", (f,), ())
    return h


B["builtins.list"] = new_seq("list")
B["builtins.tuple"] = new_seq("tuple")


@reg("builtins.sorted")
def b_sorted(interp, args, kwargs, st, node):
    its = interp.known_items(args[0], st)
    if its is not None and "key" not in kwargs:
        if all(x.op == "const" for x in its):
            try:
                return st.alloc(HObj("list", sorted(its, key=cval, reverse=kwargs.get("reverse") is TRUE)))
            except TypeError:
                pass
        if len(its) == 1:
            return st.alloc(HObj("list", its))
    fa, fk = frz(interp, args, kwargs, st)
    return st.alloc(HObj("list", [], sym=mk("call", "builtins.sorted", tuple(fa), tuple(sorted(fk.items())))))


@reg("builtins.set", "builtins.frozenset")
def b_set(interp, args, kwargs, st, node):
    if not args:
        return st.alloc(HObj("set", {}))
    its = interp.known_items(args[0], st)
    if its is not None:
        return st.alloc(HObj("set", {interp.freeze(x, st): TRUE for x in its}))
    f = interp.freeze(args[0], st)
    if f.op == "keys":
        f = f.args[0]
    if callee(f) in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted"):
        f = f.args[1][0]
    return st.alloc(HObj("set", {}, sym=mk("call", "builtins.set", (f,), ())))


@reg("builtins.dict", "collections.OrderedDict")
def b_dict(interp, args, kwargs, st, node):
    r = st.alloc(HObj("dict", {}))
    if args:
        m_update(interp, r, [args[0]], {}, st, node)
        o = st.obj(r)
        if o.sym is not None and o.sym.op == "dictupdate" and o.sym.args[0].op == "dict" and not o.sym.args[0].args[0]:
            st.w(r).sym = mk("call", "builtins.dict", (o.sym.args[1],), ()) if interp.facts.kind(o.sym.args[1]) != "dict" else o.sym.args[1]
    for k, v in kwargs.items():
        st.w(r).d[const(k)] = interp.bindable(v, st)
    return r


@reg("builtins.int")
def b_int(interp, args, kwargs, st, node):
    if not args:
        return const(0)
    v = interp.val(args[0], st)
    if v.op == "const":
        try:
            return const(int(cval(v)))
        except (TypeError, ValueError, OverflowError) as ex:
            interp.raise_name(st, type(ex).__name__, node, "int()")
    if interp.facts.kind(v) == "int" or integral(interp, v):
        return v
    return mk("call", "builtins.int", (interp.freeze(v, st),), ())


def integral(interp, t):
    """a whole number, or an array of whole numbers, whatever its type"""
    F = interp.facts
    if t.op == "const":
        return isinstance(cval(t), (int, Fraction)) and cval(t) == int(cval(t))
    if t.op == "len" or F.kind(t) == "int":
        return True
    n = callee(t)
    if n in ("numpy.sum", "builtins.sum", "numpy.max", "numpy.min", "builtins.max", "builtins.min", "numpy.bincount", "numpy.count_nonzero", "numpy.copy", "numpy.asarray", "numpy.array",
             "floordiv", "numpy.prod", "builtins.int", "numpy.abs", "builtins.abs", "mod") and t.args[1]:
        return n in ("numpy.bincount", "numpy.count_nonzero", "builtins.int") or all(integral(interp, a) for a in t.args[1])
    if t.op == "map":
        return integral(interp, t.args[1])
    if t.op == "index":
        b, i = t.args
        if callee(b) == "numpy.unique":
            return i is not const(0)        # counts or positions
        return integral(interp, b) if b.op in ("index", "map") or callee(b) else False
    if t.op == "lin":
        return all(k.denominator == 1 and (m is None or integral(interp, m)) for m, k in t.args[0])
    if t.op == "mono":
        return all(e.denominator == 1 and e > 0 and integral(interp, b) for b, e in t.args[0])
    return False


@reg("builtins.float")
def b_float(interp, args, kwargs, st, node):
    if not args:
        return const(0.0)
    v = interp.val(args[0], st)
    if v.op == "const":
        try:
            return const(float(cval(v)))
        except (TypeError, ValueError) as ex:
            interp.raise_name(st, type(ex).__name__, node, "float()")
    if interp.facts.kind(v) in ("float", "int", "number"):
        return v
    return mk("call", "builtins.float", (interp.freeze(v, st),), ())


@reg("builtins.bool")
def b_bool(interp, args, kwargs, st, node):
    return interp.boolterm(args[0], st) if args else FALSE


@reg("builtins.str", "builtins.repr")
def b_str(interp, args, kwargs, st, node):
    if not args:
        return const("")
    v = interp.val(args[0], st)
    if v.op == "const":
        return const(str(cval(v)))
    if interp.facts.kind(v) == "str":
        return v
    return mk("fstr", (mk("fmt",),))


def sum_items(interp, its, start, st, node):
    acc = start
    for x in its:
        acc = arith_any(interp, "Add", acc, x, st, node)
    return acc


def arith_any(interp, op, a, b, st, node):
    return interp.binop(getattr(ast, op)(), a, b, st, node)


@reg("builtins.sum")
def b_sum(interp, args, kwargs, st, node):
    start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
    its = interp.known_items(args[0], st)
    if its is not None:
        return sum_items(interp, its, start, st, node)
    f = interp.freeze(args[0], st)
    if f.op == "phi":
        return phi(f.args[0], b_sum(interp, [f.args[1], start], {}, st, node), b_sum(interp, [f.args[2], start], {}, st, node))
    if f.op == "values" and not f.args[0].op == "dict":
        return add(start, mk("call", "numpy.sum", (mk("call", "numpy.asarray", (mk("call", "builtins.list", (f,), ()),), ()),), ()))
    if f.op == "map":
        bvs = sorted({y for y in walk(f.args[1]) if y.op == "bv"}, key=lambda x: x.args[0])
        top_ = [b for b in bvs if not mentions(f.args[0], b)]
        if not top_:
            return add(start, mul(f.args[0], f.args[1]))
        s = interp.loop_depth
        interp.loop_depth = max(b.args[0] for b in top_)
        try:
            r = np_sum_map(interp, f.args[0], f.args[1])
        finally:
            interp.loop_depth = s
        return add(start, r)
    if interp.facts.kind(f) == "ndarray" and interp.facts.ndim(f) == 1:
        return add(start, np_reduce(interp, "numpy.sum", f))
    return add(start, mk("call", "builtins.sum", (f,), ()))


def anyall(isany):
    def h(interp, args, kwargs, st, node):
        its = interp.known_items(args[0], st)
        if its is not None:
            cs = [interp.boolterm(interp.assume_simpl(x, st), st) for x in its]
            out = []
            for c in cs:
                t = interp.truth(c, st)
                if t is isany:
                    return const(isany)
                if t is None:
                    out.append(c)
            return b_or(*out) if isany else b_and(*out)
        f = interp.freeze(args[0], st)
        if f.op == "map":
            c = interp.boolterm(f.args[1], st)
            if c is TRUE:
                return mk("exists", f.args[0], TRUE) if isany else TRUE
            if c is FALSE:
                return FALSE if isany else b_not(mk("exists", f.args[0], TRUE))
            return mk("exists", f.args[0], c) if isany else b_not(mk("exists", f.args[0], b_not(c)))
        return mk("call", "numpy.any" if isany else "numpy.all", (f,), ())
    return h


B["builtins.any"] = anyall(True)
B["builtins.all"] = anyall(False)


def minmax(nm):
    def h(interp, args, kwargs, st, node):
        if kwargs:
            fa, fk = frz(interp, args, kwargs, st)
            return mk("call", "builtins." + nm, tuple(fa), tuple(sorted(fk.items())))
        its = list(args) if len(args) > 1 else interp.known_items(args[0], st)
        if its is None:
            f = interp.freeze(args[0], st)
            return mk("call", "numpy." + nm, (f,), ()) if interp.facts.kind(f) == "ndarray" else mk("call", "builtins." + nm, (f,), ())
        its = [interp.freeze(x, st) for x in its]
        if not its:
            interp.raise_name(st, "ValueError", node, nm + "() of empty sequence")
        u = []
        for x in its:
            if callee(x) == "builtins." + nm and len(x.args[1]) > 1 and not x.args[2]:
                u += [y for y in x.args[1] if y not in u]
            elif x not in u:
                u.append(x)
        nums = [x for x in u if _isnum(x)]
        if len(nums) > 1:
            best = (max if nm == "max" else min)(nums, key=cval)
            u = [x for x in u if not _isnum(x)] + [best]
        # dominated elements
        keep = []
        for x in u:
            dom = False
            for y in u:
                if y is x:
                    continue
                c = interp.mkcmp("<=", x, y, st) if nm == "max" else interp.mkcmp("<=", y, x, st)
                if c is TRUE and not (interp.mkcmp("<=", y, x, st) is TRUE and y.id > x.id):
                    dom = True
            if not dom:
                keep.append(x)
        u = keep or u
        if len(u) == 1:
            return u[0]
        return mk("call", "builtins." + nm, tuple(sorted(u)), ())
    return h


B["builtins.min"] = minmax("min")
B["builtins.max"] = minmax("max")


@reg("builtins.pow")
def b_pow(interp, args, kwargs, st, node):
    fa, _ = frz(interp, args, {}, st)
    return arith(interp, "Pow", fa[0], fa[1], st, node)


@reg("builtins.property")
def b_property(interp, args, kwargs, st, node):
    return mk("property", args[0])


@reg("builtins.iter")
def b_iter(interp, args, kwargs, st, node):
    its = interp.known_items(args[0], st)
    if its is not None:
        return st.alloc(HObj("generator", list(its)))
    return interp.freeze(args[0], st)


@reg("builtins.next")
def b_next(interp, args, kwargs, st, node):
    v = args[0]
    if v.op == "ref" and st.obj(v).kind == "generator" and st.obj(v).sym is None:
        o = st.w(v)
        if o.d:
            return o.d.pop(0)
        if len(args) > 1:
            return args[1]
        interp.raise_name(st, "StopIteration", node)
    raise Undecided("next()")


@reg("builtins.__import__")
def b_import(interp, args, kwargs, st, node):
    n = interp.val(args[0], st)
    if n.op == "phi" and all(x.op == "const" for x in n.args[1:]):
        return interp.fork(n.args[0], st, lambda s: b_import(interp, [n.args[1]] + args[1:], kwargs, s, node), lambda s: b_import(interp, [n.args[2]] + args[1:], kwargs, s, node))
    if n.op != "const":
        raise Undecided("import of unknown module")
    full = cval(n)
    if full in interp.p.modules:
        return interp.load(full, st)
    if full.split(".")[0] == "infomeasure":
        interp.raise_name(st, "ModuleNotFoundError", node, full)
    return mk("ext", full)


@reg("importlib.import_module")
def b_import_module(interp, args, kwargs, st, node):
    return b_import(interp, args[:1], {}, st, node)


@reg("functools.partial")
def b_partial(interp, args, kwargs, st, node):
    return mk("partial", args[0], tuple(interp.bindable(a, st) for a in args[1:]), tuple(kwargs.items()))


@reg("functools.reduce")
def b_reduce(interp, args, kwargs, st, node):
    its = interp.known_items(args[1], st)
    if its is None:
        raise Undecided("functools.reduce over unknown sequence")
    its = list(its)
    acc = args[2] if len(args) > 2 else its.pop(0)
    for x in its:
        acc = interp.bindable(interp.call(args[0], [acc, x], {}, st, node), st)
    return acc


@reg("functools.wraps", "functools.lru_cache", "functools.cache")
def b_wraps(interp, args, kwargs, st, node):
    if len(args) == 1 and args[0].op == "func" and not kwargs:
        return None
    return mk("call", "functools.wraps", (), ())


@reg("operator.add")
def b_opadd(interp, args, kwargs, st, node):
    return arith_any(interp, "Add", args[0], args[1], st, node)


@reg("operator.sub")
def b_opsub(interp, args, kwargs, st, node):
    return arith_any(interp, "Sub", args[0], args[1], st, node)


@reg("operator.mul")
def b_opmul(interp, args, kwargs, st, node):
    return arith_any(interp, "Mult", args[0], args[1], st, node)


@reg("itertools.chain", "itertools.chain.from_iterable")
def b_chain(interp, args, kwargs, st, node):
    if len(args) == 1:
        its = interp.known_items(args[0], st)
        args = its if its is not None else args
    out = st.alloc(HObj("list", []))
    for a in args:
        list_extend(interp, out, a, st)
    return out


@reg("numpy.asarray", "numpy.array")
def b_asarray(interp, args, kwargs, st, node):
    return None


@reg("builtins.id", "builtins.hash")
def b_id(interp, args, kwargs, st, node):
    interp.event("nondet", st, node, name="builtins.id/hash")
    return mk("call", "builtins.id", (interp.freeze(args[0], st),), ())


@reg("copy.copy", "copy.deepcopy")
def b_copy(interp, args, kwargs, st, node):
    v = args[0]
    if v.op == "ref":
        o = st.obj(v)
        if o.kind in ("list", "dict", "set"):
            return st.alloc(HObj(o.kind, (dict(o.d) if isinstance(o.d, dict) else list(o.d)), o.sym))
        if o.kind == "arr":
            return mk("call", "numpy.copy", (o.sym,), ())
        if o.kind == "inst":
            return st.alloc(HObj("inst", dict(o.d), None, o.cls, o.extra))
    if interp.facts.kind(v) == "ndarray":
        return mk("call", "numpy.copy", (v,), ())
    return v


@reg("dataclasses.replace")
def b_replace(interp, args, kwargs, st, node):
    v = args[0]
    if v.op == "ref" and st.obj(v).kind == "inst":
        o = st.obj(v)
        r = st.alloc(HObj("inst", dict(o.d), None, o.cls, o.extra))
        st.w(r).d.update({k: interp.bindable(x, st) for k, x in kwargs.items()})
        return r
    raise Undecided("dataclasses.replace")


@reg("dataclasses.dataclass")
def b_dataclass(interp, args, kwargs, st, node):
    return mk("call", "dataclasses.dataclass", (), ())


@reg("numpy.apply_along_axis")
def b_aaa(interp, args, kwargs, st, node):
    f = args[0] if args else kwargs.get("func1d")
    if f.op in ("func", "bound"):
        # element function on an opaque row
        fn = interp.funcs[(f if f.op == "func" else f.args[0]).args[0]]
        arr = interp.freeze(args[2] if len(args) > 2 else kwargs["arr"], st)
        ax = interp.freeze(args[1] if len(args) > 1 else kwargs["axis"], st)
        lv = interp.loop_depth + 1
        row = mk("row", arr, ax, lv)
        interp.facts.declare(row, kind="ndarray", ndim=1)
        interp.loop_depth += 1
        s = st.guard
        try:
            v = interp.freeze(interp.call(f, [row] + list(args[3:]), {k: x for k, x in kwargs.items() if k not in ("func1d", "axis", "arr")}, st, node), st)
        finally:
            interp.loop_depth -= 1
        st.guard = s
        return mk("call", "numpy.apply_along_axis", (mk("lam", 1, v), ax, arr), ())
    return None


@reg("numpy.vectorize", "numpy.frompyfunc")
def b_vectorize(interp, args, kwargs, st, node):
    return None


@reg("numpy.testing.assert_")
def b_assert(interp, args, kwargs, st, node):
    return NONE


@reg("contextlib.nullcontext")
def b_nullctx(interp, args, kwargs, st, node):
    return args[0] if args else NONE


def apply_lam(lam, args):
    return mk("call", lam, tuple(args), ())


# ------------------------------------------------------------------ opaque entropies
def intercept_entropy(interp, f, args, kwargs, st, node):
    fn, obj = f.args
    F = interp.funcs[fn.args[0]]
    if F.name not in ("global_val", "local_vals", "result") or obj.op != "ref":
        return None
    o = st.obj(obj)
    if o.kind != "inst" or obj is getattr(interp, "opaque_skip", None):
        return None
    names = [c.args[0].split(".")[-1] for c in interp.mro(o.cls, st)]
    if "EntropyEstimator" not in names:
        return None
    fa = tuple(interp.freeze(a, st) for a in o.extra["args"])
    fk = tuple(sorted((k, interp.freeze(v, st)) for k, v in o.extra["kwargs"]))
    mode = "local" if F.name == "local_vals" else "global"
    t = mk("H", mode, o.cls, fa, fk)
    interp.event("H", st, node, mode=mode, cls=o.cls.args[0], args_=fa, kwargs_=fk, term=t)
    if mode == "local" and interp.opaque_local_fails:
        interp.raise_name(st, "UnsupportedOperation", node, explicit=True)
    return t
