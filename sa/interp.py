"""Interprocedural abstract interpreter.

Source -> gated value graph: every joint of control flow is merged with a phi gated by the branch
condition, calls into the package are expanded, external calls stay uninterpreted terms (with a few
canonicalisations).  Nothing of the analysed package is imported or executed, no path is enumerated
and no solver is involved.
"""
from __future__ import annotations
import ast
import logging
import builtins as _bi
from fractions import Fraction
from .terms import *
from .state import *
from .models import Facts, callee, kw, kw_m, ELEMENTWISE, REDUCE
from .loader import Project, Func, Module
from . import ext as E

BUILTIN_EXC = {}
for _n in dir(_bi):
    _o = getattr(_bi, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        BUILTIN_EXC[_n] = [c.__name__ for c in _o.__mro__ if c is not object]
BUILTIN_EXC["UnsupportedOperation"] = ["UnsupportedOperation", "OSError", "ValueError", "Exception", "BaseException"]
BUILTIN_NAMES = set(dir(_bi))
MAX_DEPTH = 70
SENT = object()


def excname(c):
    return c.args[0].split(".")[-1]


class Interp:
    def __init__(self, project: Project, facts: Facts | None = None, opaque_entropy=False, implicit=False):
        self.p = project
        self.facts = facts or Facts()
        self.opaque_entropy = opaque_entropy
        self.stub = {}          # method name -> replacement: the measure itself as an unknown
        self.opaque_local_fails = False
        self.opaque_skip = None
        self.implicit = implicit
        self._implicit_seen = set()
        self.funcs: dict[int, tuple] = {}
        self.classes: dict[str, T] = {}          # qualname -> ref of class object
        self.modrefs: dict[str, T] = {}
        self.collectors: list[list] = [[]]
        self.events: list[dict] = []
        self.loc: list = []
        self.depth = 0
        self.sum_dtypes: list = []                # integer accumulator types: (reduction, argument, dtype)
        self.bvs: list = []                       # enclosing bound variables
        self.loop_depth = 0
        self.mu_updates = {}      # loop variable -> [(value before the loop, value after one pass)]
        self.steps = 0
        self.undecided: list[str] = []
        self.stats = {"calls": 0, "funcs": set(), "ext": set(), "sites": 0}
        self.cur_exc: list = []
        self.yield_hook = None
        self.rets_in_with = []
        self.track_draws = True
        self.scopes: list = []
        self.hcache: dict = {}
        self.fcache: dict = {}
        self.main_depth = None
        root = State({}, None)
        self.root = root
        self._loading = set()

    # ------------------------------------------------------------------ reporting
    def where(self, node=None):
        ln = getattr(node, "lineno", None)
        if self.loc:
            m, q, l = self.loc[-1]
            return f"{m}:{ln or l} {q}"
        return f"?:{ln}"

    def event(self, kind, st, node=None, **k):
        self.events.append(dict(kind=kind, where=self.where(node), guard=st.guard, stack=tuple(x[1] for x in self.loc), **k))

    def raise_(self, st, exc, node=None, explicit=True):
        self.collectors[-1].append(Exit(st.copy(), exc, self.where(node), explicit))
        raise Dead()

    def implicit_exit(self, st, node):
        """an external call may fail: record one exceptional exit per source place"""
        key = (self.where(node), tuple(x[1] for x in self.loc), len(self.collectors))
        if key in self._implicit_seen:
            return
        self._implicit_seen.add(key)
        self.collectors[-1].append(Exit(st.copy(), mk("exc", mk("ext", "builtins.MemoryError"), (const("implicit"),)), self.where(node), False))

    def raise_name(self, st, name, node=None, msg="", explicit=False):
        self.raise_(st, mk("exc", mk("ext", "builtins." + name), (const(msg),)), node, explicit)

    # ------------------------------------------------------------------ modules
    def load(self, name: str, st: State | None = None) -> T:
        """module object reference (evaluating the top level on first use, in every state alike)"""
        if name in self.modrefs:
            ref = self.modrefs[name]
            if st is not None and ref.args[0] not in st.heap:
                self._sync(st)
            return ref
        m = self.p.modules[name]
        rs = self.root
        ref = rs.alloc(HObj("module", {"__name__": const(name)}, extra={"parent": None, "module": m, "func": None}))
        self.modrefs[name] = ref
        if "." in name:
            par = name.rsplit(".", 1)[0]
            if par in self.p.modules:
                self.load(par)
                rs.w(self.modrefs[par]).d[name.rsplit(".", 1)[1]] = ref
        saved = (rs.frame, self.loc, self.collectors)
        rs.frame = ref.args[0]
        self.loc = [(m.path, "<module>", 0)]
        self.collectors = [[]]
        try:
            out = self.exec_block(m.tree.body, rs)
            if out.normal is None:
                raise Undecided(f"module {name} raises on import: " + "; ".join(show(x.exc) + " at " + x.where for x in self.collectors[0]))
            if out.normal is not rs:
                rs.become(out.normal)
        except Dead:
            raise Undecided(f"module {name} raises on import: " + "; ".join(show(x.exc) + " at " + x.where for x in self.collectors[0]))
        finally:
            rs.frame, self.loc, self.collectors = saved
            rs.guard = ()
        if st is not None and st is not rs:
            self._sync(st)
        return ref

    def _sync(self, st):
        for k, v in self.root.heap.items():
            if k not in st.heap:
                st.heap[k] = v

    def fresh_state(self):
        st = self.root.copy()
        f = new_id()
        st.heap[f] = HObj("frame", {}, extra={"parent": None, "module": None, "func": None})
        st.frame = f
        st.guard = ()
        return st

    # ------------------------------------------------------------------ truth
    def assume_simpl(self, t, st, n=12):
        while t.op == "phi" and n:
            n -= 1
            tr = self.truth(t.args[0], st)
            if tr is True:
                t = t.args[1]
            elif tr is False:
                t = t.args[2]
            else:
                break
        return t

    def truth(self, c, st):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        g = st.guard
        if c in g:
            return True
        n = b_not(c)
        if n in g:
            return False
        if c.op == "and":
            rs = [self.truth(x, st) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c.op == "or":
            rs = [self.truth(x, st) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op == "phi":
            t = self.truth(c.args[0], st)
            if t is True:
                return self.truth(c.args[1], st)
            if t is False:
                return self.truth(c.args[2], st)
            a, b = self.truth(c.args[1], st), self.truth(c.args[2], st)
            return a if a == b else None
        if c.op == "cmp":
            return self.truth_cmp(c, st)
        if c.op == "not":
            r = self.truth(c.args[0], st)
            return None if r is None else not r
        return None

    def truth_cmp(self, c, st):
        o, a, b = c.args
        if o == "!=":
            r = self.truth(cmp("==", a, b), st) if cmp("==", a, b) is not c else None
            return None if r is None else (not r)
        if o == "==":
            # x == c1 known and c1 != c2
            for x, y in ((a, b), (b, a)):
                if y.op == "const":
                    for g in st.guard:
                        if g.op == "cmp" and g.args[0] == "==" and x in g.args[1:]:
                            other = g.args[1] if g.args[2] is x else g.args[2]
                            if other.op == "const" and other is not y:
                                return False
                    m = self.facts.meta.get(x)
                    if m and "ne" in m and any(const(v) is y for v in m["ne"]):
                        return False
                    if is_num(y):
                        lo, hi = self.facts.lower(x), self.facts.upper(x)
                        if lo is not None and cval(y) < lo:
                            return False
                        if hi is not None and cval(y) > hi:
                            return False
                    v = (m or {}).get("values")
                    if v is not None and all(const(k) is not y for k in v):
                        return False
            return None
        if o in ("<", "<="):
            lo, hi = self.facts.lower(a), self.facts.upper(a)
            lo2, hi2 = self.facts.lower(b), self.facts.upper(b)
            if hi is not None and lo2 is not None:
                if hi < lo2 or (o == "<=" and hi <= lo2):
                    return True
            if lo is not None and hi2 is not None:
                if lo > hi2 or (o == "<" and lo >= hi2):
                    return False
            # guard: linear difference known (x - y <= k)
            for g in st.guard:
                if g.op == "cmp" and g.args[0] in ("<", "<=") and is_num(b) and is_num(g.args[2]) and g.args[1] is a:
                    k, kk = cval(b), cval(g.args[2])
                    if kk < k or (kk == k and (o == "<=" or g.args[0] == "<")):
                        return True
                # lower facts: c <= a
                if g.op == "cmp" and g.args[0] in ("<", "<=") and is_num(g.args[1]) and g.args[2] is a and is_num(b):
                    kk, k = cval(g.args[1]), cval(b)
                    if kk > k or (kk == k and (o == "<" or g.args[0] == "<")):
                        return False
                if g.op == "cmp" and g.args[0] in ("<", "<=") and is_num(a) and is_num(g.args[1]) and g.args[2] is b:
                    kk, k = cval(g.args[1]), cval(a)
                    if kk > k or (kk == k and (o == "<=" or g.args[0] == "<")):
                        return True
                if g.op == "cmp" and g.args[0] in ("<", "<=") and is_num(a) and is_num(g.args[2]) and g.args[1] is b:
                    k, kk = cval(a), cval(g.args[2])
                    if kk < k or (kk == k and (o == "<" or g.args[0] == "<")):
                        return False
                if g.op == "cmp" and g.args[0] == "==" and (a in g.args[1:] or b in g.args[1:]):
                    x = a if a in g.args[1:] else b
                    other = g.args[1] if g.args[2] is x else g.args[2]
                    if is_num(other):
                        r = self.mkcmp(o, other if x is a else a, other if x is b else b, st)
                        if r is TRUE:
                            return True
                        if r is FALSE:
                            return False
            return None
        if o in ("is", "isnot"):
            return None
        return None

    def boolterm(self, v, st):
        """the truth value of a value, as a boolean term"""
        v = self.assume_simpl(v, st)
        if v.op in ("cmp", "and", "or", "not", "exists") and self.facts.kind(v) != "ndarray":
            return v
        if v.op == "const":
            if v.args[0] == "nan":
                return TRUE
            return TRUE if cval(v) else FALSE
        if v.op == "ref":
            o = st.obj(v)
            if o.kind in ("inst", "module", "class"):
                if o.kind == "inst":
                    f = self.class_lookup(o.cls, "__bool__", st)
                    if f is not None:
                        return self.boolterm(self.call(mk("bound", f, v), [], {}, st), st)
                    f = self.class_lookup(o.cls, "__len__", st)
                    if f is not None:
                        return self.boolterm(self.call(mk("bound", f, v), [], {}, st), st)
                return TRUE
            if o.kind == "arr":
                return self.boolterm(o.sym, st)
            if o.sym is not None:
                return self.mkcmp("!=", E.length(self, o.sym), const(0), st)
            if any(x is ABSENT or (isinstance(x, T) and x.op == "phi" and contains(x, lambda y: y is ABSENT)) for x in (o.d.values() if isinstance(o.d, dict) else ())):
                return mk("truth", self.freeze(v, st))
            return TRUE if len(o.d) else FALSE
        if v.op == "phi":
            return phi(v.args[0], self.boolterm(v.args[1], st), self.boolterm(v.args[2], st))
        if v.op in ("func", "bound", "class", "lam", "extbound"):
            return TRUE
        if v.op == "tuple":
            return TRUE if v.args else FALSE
        k = self.facts.kind(v)
        if k in ("int", "float", "number", "bool"):
            if k == "bool" and v.op != "param":
                return v if v.op in ("cmp", "and", "or", "not") else mk("truth", v)
            if k == "bool":
                return mk("truth", v)
            return self.mkcmp("!=", v, const(0), st)
        if k == "none":
            return FALSE
        if k in ("rng", "func", "class"):
            return TRUE
        if k in ("list", "dict", "set", "tuple"):
            return self.mkcmp("!=", E.length(self, v), const(0), st)
        if v.op == "ext":
            return TRUE
        if v.op == "call" and v.args[0] in ("bitand", "bitor", "invert") and k != "ndarray":
            xs = [self.boolterm(x, st) for x in v.args[1]]
            return b_and(*xs) if v.args[0] == "bitand" else (b_or(*xs) if v.args[0] == "bitor" else b_not(xs[0]))
        return mk("truth", v)

    NUMK = ("int", "float", "number", "bool")

    def mkcmp(self, op, a, b, st):
        """comparison of two *values* as boolean/elementwise term, folded when possible"""
        if op in (">", ">="):
            op = {">": "<", ">=": "<="}[op]
            a, b = b, a
        if a.op == "const" and b.op == "const":
            x, y = cval(a), cval(b)
            try:
                r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                     "is": lambda: x is y or (x == y and type(x) is type(y)),
                     "isnot": lambda: not (x is y or (x == y and type(x) is type(y)))}[op]()
                return const(bool(r))
            except TypeError:
                self.raise_name(st, "TypeError", msg="comparison")
        ka, kb = self.facts.kind(a), self.facts.kind(b)
        if op in ("is", "isnot"):
            r = None
            if a is b and a.op in ("const", "class", "func", "ext", "param"):
                r = True
            elif ka != "unknown" and kb != "unknown" and (("none" in (ka, kb)) and ka != kb):
                r = False
            elif {a.op, b.op} & {"class", "ext", "func"} and a is not b and a.op in ("class", "ext", "func", "const") and b.op in ("class", "ext", "func", "const"):
                r = False
            elif NONE in (a, b):
                x = b if a is NONE else a
                m = self.facts.meta.get(x, {})
                if m.get("notnone") or x.op in ("tuple", "list", "dict", "lin", "mono", "class", "func", "bound", "ext", "call", "index", "draw", "map", "setitem", "lam", "H"):
                    r = False
                elif x.op == "phi":
                    return phi(x.args[0], self.mkcmp(op, x.args[1], NONE, st), self.mkcmp(op, x.args[2], NONE, st))
            if r is None:
                return cmp(op, a, b)
            return const(r if op == "is" else not r)
        if op in ("==", "!="):
            if a.op == "phi" and (b.op == "const") and ka != "ndarray":
                return phi(a.args[0], self.mkcmp(op, a.args[1], b, st), self.mkcmp(op, a.args[2], b, st))
            if b.op == "phi" and (a.op == "const") and kb != "ndarray":
                return phi(b.args[0], self.mkcmp(op, a, b.args[1], st), self.mkcmp(op, a, b.args[2], st))
            simple = self.NUMK
            if a is b and ka in simple + ("str", "none", "class", "func"):
                return const(op == "==")
            if (ka in simple and kb in ("str", "none")) or (kb in simple and ka in ("str", "none")) or \
                    (ka in ("none",) and kb in ("str", "ndarray_")) or (kb == "none" and ka == "str"):
                return const(op == "!=")
            if a.op in ("class", "ext") and b.op in ("class", "ext") and ka != "unknown_":
                if a is b:
                    return const(op == "==")
                if a.op == b.op == "class":
                    return const(op == "!=")
            if ka in simple and kb in simple:
                d = sub(a, b)
                if is_num(d):
                    return const((cval(d) == 0) == (op == "=="))
                l, r = self._canon_diff(d)
                t = cmp(op, l, r)
                # both normal and raw forms are consulted
                return t
            return cmp(op, a, b)
        if op in ("<", "<="):
            if a.op == "phi" and is_num(b):
                return phi(a.args[0], self.mkcmp(op, a.args[1], b, st), self.mkcmp(op, a.args[2], b, st))
            if b.op == "phi" and is_num(a):
                return phi(b.args[0], self.mkcmp(op, a, b.args[1], st), self.mkcmp(op, a, b.args[2], st))
            if ka in self.NUMK and kb in self.NUMK:
                d = sub(a, b)      # d < 0
                if is_num(d):
                    return const(cval(d) < 0 if op == "<" else cval(d) <= 0)
                ps = lin_parts(d)
                if any(m is not None and m.op == "const" for m, _ in ps):
                    return cmp(op, a, b)
                k = sum((c for m, c in ps if m is None), Fraction(0))
                rest = [(m, c) for m, c in ps if m is not None]
                lead = min(rest, key=lambda p: p[0].id)[1]
                s = abs(lead)
                isint = all(self.facts.kind(m) in ("int", "bool") for m, _ in rest)
                l = add(*[mul(m, E.fnum(c / s)) for m, c in rest])
                kk = -k / s
                if lead > 0:
                    if isint and op == "<" and all((c / s).denominator == 1 for _, c in rest):
                        # l < kk  <=>  l <= ceil(kk)-1
                        import math
                        kk, op = Fraction(math.ceil(kk) - 1), "<="
                    t = cmp(op, l, E.fnum(kk))
                else:
                    # -l' + k < 0  <=>  kk' < l'
                    l = neg(l)
                    kk = -kk
                    if isint and op == "<" and all((c / s).denominator == 1 for _, c in rest):
                        import math
                        kk, op = Fraction(math.floor(kk) + 1), "<="
                    t = cmp(op, E.fnum(kk), l)
                    if isint:
                        # kk <= l  ==  not (l <= kk-1): canonical orientation of integer bounds
                        import math
                        t = b_not(cmp("<=", l, E.fnum(Fraction(math.ceil(kk) - 1))))
                        if t.op == "cmp" and t.args[0] == "<" and is_num(t.args[1]):
                            # keep  c < l
                            pass
                lo, hi = None, None
                r = self.truth(t, st)
                if r is not None:
                    return const(r)
                return t
            return cmp(op, a, b)
        return cmp(op, a, b)

    def _canon_diff(self, d):
        ps = lin_parts(d)
        k = sum((c for m, c in ps if m is None), Fraction(0))
        rest = [(m, c) for m, c in ps if m is not None]
        lead = min(rest, key=lambda p: p[0].id)[1]
        if len(rest) == 1:
            return rest[0][0], E.fnum(-k / lead)
        l = add(*[mul(m, E.fnum(c / lead)) for m, c in rest])
        return l, E.fnum(-k / lead)

    # ------------------------------------------------------------------ freeze / merge
    def val(self, v, st):
        """array reference -> current content; other values unchanged"""
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if o is not None and o.kind == "arr":
                return o.sym
        return v

    def freeze(self, v, st, seen=()):
        """deep, immutable snapshot of a value"""
        if not isinstance(v, T):
            return v
        if v.op == "ref":
            o = st.obj(v)
            if o.kind == "arr":
                return o.sym
            if v in seen:
                return mk("cyc",)
            if o.kind in ("list", "generator"):
                if o.sym is not None:
                    return o.sym
                return mk("list", *[self.freeze(x, st, seen + (v,)) for x in o.d])
            if o.kind == "dict":
                if o.sym is not None:
                    return o.sym
                return mk("dict", tuple((self.freeze(k, st, seen + (v,)), self.freeze(x, st, seen + (v,))) for k, x in o.d.items()))
            if o.kind == "set":
                if o.sym is not None:
                    return o.sym
                return mk("set", *sorted({self.freeze(k, st, seen + (v,)) for k in o.d}))
            return v
        if v.op == "tuple":
            if any(x.op in ("ref", "tuple", "phi") for x in v.args):
                return mk("tuple", *[self.freeze(x, st, seen) for x in v.args])
            return v
        if v.op == "phi":
            a, b = self.freeze(v.args[1], st, seen), self.freeze(v.args[2], st, seen)
            return v if (a is v.args[1] and b is v.args[2]) else phi(v.args[0], a, b)
        if v.op in ("func", "bound"):
            return self.freeze_func(v, st)
        return v

    def freeze_func(self, f, st):
        key = f
        if f.op == "bound":
            return mk("bound", f.args[0], f.args[1]) if f.args[1].op != "ref" else mk("boundm", f.args[0])
        return f

    def bindable(self, v, st):
        """value as stored in a variable: arrays get identity"""
        if v.op in ("ref", "const", "tuple", "func", "bound", "class", "ext", "undef", "absent"):
            return v
        if v.op == "param":
            return v
        if self.facts.kind(v) == "ndarray":
            return st.alloc(HObj("arr", sym=v))
        return v

    def merge_vals(self, c, va, vb, sa, sb, out):
        if va is vb:
            return va
        if va.op == "ref" and vb.op == "ref":
            oa, ob = sa.obj(va), sb.obj(vb)
            if oa.kind == ob.kind == "inst":
                return mk("phi", c, va, vb)
            if oa.kind == ob.kind and oa.kind in ("list", "generator") and oa.sym is None and ob.sym is None and len(oa.d) == len(ob.d):
                return out.alloc(HObj(oa.kind, [self.merge_vals(c, x, y, sa, sb, out) for x, y in zip(oa.d, ob.d)]))
            if oa.kind == ob.kind == "dict" and oa.sym is None and ob.sym is None:
                return out.alloc(HObj("dict", self._merge_dict(c, oa.d, ob.d, sa, sb, out)))
            if oa.kind == ob.kind == "arr":
                x, y = self.freeze(va, sa), self.freeze(vb, sb)
                if x is y:
                    return va
                return out.alloc(HObj("arr", sym=phi(c, x, y)))
        if va.op == "tuple" and vb.op == "tuple" and len(va.args) == len(vb.args):
            return mk("tuple", *[self.merge_vals(c, x, y, sa, sb, out) for x, y in zip(va.args, vb.args)])
        x = va if (va.op == "ref" and sa.obj(va).kind in ("inst", "module", "class")) else self.freeze(va, sa)
        y = vb if (vb.op == "ref" and sb.obj(vb).kind in ("inst", "module", "class")) else self.freeze(vb, sb)
        return phi(c, x, y)

    def _merge_dict(self, c, da, db, sa, sb, out):
        r = {}
        for k in list(da) + [k for k in db if k not in da]:
            x, y = da.get(k, ABSENT), db.get(k, ABSENT)
            r[k] = x if x is y else self.merge_vals(c, x, y, sa, sb, out)
        return r

    def merge(self, a: State, b: State, c) -> State:
        """c ? a : b"""
        if a is b:
            return a
        out = State(dict(a.heap), a.frame, self._common(a.guard, b.guard), max(a.draws, b.draws))
        bh = b.heap
        for i, ob in bh.items():
            oa = a.heap.get(i)
            if oa is None:
                out.heap[i] = ob
            elif oa is not ob:
                out.heap[i] = self.merge_obj(c, oa, ob, a, b, out)
        # facts common to both sides but out of order
        for g in a.guard:
            if g in b.guard and g not in out.guard:
                out.guard = out.guard + (g,)
        return out

    def _common(self, g, h):
        n = 0
        while n < len(g) and n < len(h) and g[n] is h[n]:
            n += 1
        return g[:n]

    def merge_obj(self, c, oa, ob, a, b, out):
        r = HObj(oa.kind, None, None, oa.cls, oa.extra)
        if oa.kind == "arr":
            r.sym = phi(c, oa.sym, ob.sym)
            return r
        if isinstance(oa.d, dict) and oa.kind != "dict" and oa.kind != "set":
            d = {}
            for k in list(oa.d) + [k for k in ob.d if k not in oa.d]:
                x, y = oa.d.get(k, UNDEF), ob.d.get(k, UNDEF)
                d[k] = x if x is y else self.merge_vals(c, x, y, a, b, out)
            r.d = d
            return r
        if oa.kind in ("dict", "set"):
            if oa.sym is None and ob.sym is None:
                r.d = self._merge_dict(c, oa.d, ob.d, a, b, out)
                return r
        elif oa.sym is None and ob.sym is None and len(oa.d) == len(ob.d):
            r.d = [self.merge_vals(c, x, y, a, b, out) for x, y in zip(oa.d, ob.d)]
            return r
        fa = oa.sym if oa.sym is not None else self._freeze_obj(oa, a)
        fb = ob.sym if ob.sym is not None else self._freeze_obj(ob, b)
        r.d = {} if oa.kind in ("dict", "set") else []
        r.sym = phi(c, fa, fb)
        return r

    def _freeze_obj(self, o, st):
        if o.kind == "dict":
            return mk("dict", tuple((self.freeze(k, st), self.freeze(x, st)) for k, x in o.d.items()))
        if o.kind == "set":
            return mk("set", *sorted({self.freeze(k, st) for k in o.d}))
        return mk("list", *[self.freeze(x, st) for x in o.d])

    def merge_many(self, items):
        """items: list of (State, value) in program order, mutually exclusive and exhaustive -> (State, value)"""
        acc_s, acc_v = items[-1]
        for s, v in reversed(items[:-1]):
            n = len(self._common(s.guard, acc_s.guard))
            c = b_and(*s.guard[n:]) if s.guard[n:] else TRUE
            if c is TRUE:
                # indistinguishable by guards (e.g. lost at a merge): use the other side
                c2 = b_and(*acc_s.guard[n:]) if acc_s.guard[n:] else None
                c = b_not(c2) if c2 is not None else mk("truth", top("merge"))
            m = self.merge(s, acc_s, c)
            if v is None and acc_v is None:
                mv = None
            else:
                mv = self.merge_vals(c, v if v is not None else NONE, acc_v if acc_v is not None else NONE, s, acc_s, m)
            acc_s, acc_v = m, mv
        return acc_s, acc_v

    def fork(self, cond, st, fa, fb):
        """evaluate fa under cond and fb otherwise; merges into st, returns merged value"""
        t = self.truth(cond, st)
        if t is True:
            return fa(st)
        if t is False:
            return fb(st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(cond)
        s2.assume(b_not(cond))
        r = []
        for s, f in ((s1, fa), (s2, fb)):
            try:
                r.append((s, f(s)))
            except Dead:
                r.append(None)
        if r[0] is None and r[1] is None:
            raise Dead()
        if r[0] is None:
            st.become(r[1][0])
            return r[1][1]
        if r[1] is None:
            st.become(r[0][0])
            return r[0][1]
        m = self.merge(r[0][0], r[1][0], cond)
        g = st.guard
        v = self.merge_vals(cond, r[0][1], r[1][1], r[0][0], r[1][0], m)
        m.guard = g
        st.become(m)
        return v

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st) -> Out:
        out = Out(st)
        for s in stmts:
            if out.normal is None:
                break
            self.steps += 1
            if self.steps > 600000:
                raise Undecided("analysis budget exceeded")
            try:
                o = self.exec(s, out.normal)
            except Dead:
                o = Out(None)
            out.absorb(o)
            out.normal = o.normal
        return out

    def exec(self, s, st) -> Out:
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__} at {self.where(s)}")
        if self.loc:
            a, q, _ = self.loc[-1]
            self.loc[-1] = (a, q, s.lineno)
        r = m(s, st)
        return r if r is not None else Out(st)

    def x_Expr(self, s, st):
        self.eval(s.value, st)

    def x_Pass(self, s, st):
        pass

    def x_Import(self, s, st):
        for a in s.names:
            root = a.name.split(".")[0]
            if root == "infomeasure":
                self.load(a.name, st)
                v = self.load(a.name if a.asname else root, st)
            else:
                v = mk("ext", a.name if a.asname else root)
            self.set_name(a.asname or root, v, st)

    def x_ImportFrom(self, s, st):
        mod = self.cur_module(st)
        if s.module == "__future__":
            return
        full = self.p.resolve_from(mod, s.level, s.module)
        for a in s.names:
            if a.name == "*":
                raise Undecided("star import")
            self.set_name(a.asname or a.name, self.import_name(full, a.name, st, s), st)

    def import_name(self, full, name, st, node=None):
        if full in self.p.modules:
            ref = self.load(full, st)
            o = st.heap.get(ref.args[0]) or self.root.heap[ref.args[0]]
            if name in o.d:
                return o.d[name]
            sub_ = full + "." + name
            if sub_ in self.p.modules:
                return self.load(sub_, st)
            self.raise_name(st, "ImportError", node, f"{full}.{name}")
        if full.split(".")[0] == "infomeasure":
            self.raise_name(st, "ImportError", node, full)
        return E.ext_value(full + "." + name)

    def cur_module(self, st) -> Module:
        return st.heap[st.frame].extra["module"]

    def x_FunctionDef(self, s, st):
        f = self.make_func(s, st)
        for d in reversed(s.decorator_list):
            f = self.apply_decorator(d, f, st)
        self.set_name(s.name, f, st)

    def make_func(self, node, st, name=None):
        fr = st.heap[st.frame]
        mod = fr.extra["module"]
        is_cls = fr.extra.get("is_class")
        qual = (fr.extra.get("qual", "") + "." if fr.extra.get("qual") else "") + getattr(node, "name", "<lambda>")
        fn = Func(node, mod, qual)
        fn.cls = fr.extra.get("class_term") if is_cls else None
        a = node.args
        fn.defaults = [self.bindable(self.eval(d, st), st) for d in a.defaults]
        fn.kwdefaults = {k.arg: self.bindable(self.eval(d, st), st) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if is_cls:
            # methods do not see the class scope
            parent = fr.extra["parent"]
        else:
            parent = st.frame
            if fr.kind == "frame":
                fr.extra["captured"] = True
        fn.closure = parent
        i = new_id()
        self.funcs[i] = fn
        return mk("func", i)

    def apply_decorator(self, d, f, st):
        v = self.eval(d, st)
        if v.op == "ext":
            n = v.args[0]
            base = n.split(".")[-1]
            if base in ("staticmethod", "classmethod"):
                return mk(base, f)
            if base in ("property", "cached_property"):
                return mk("property", f)
            if base in ("abstractmethod", "final", "wraps", "lru_cache", "cache", "override", "njit", "jit"):
                return f
            if base == "contextmanager":
                self.funcs[f.args[0]].kind = "ctx"
                return f
            if base == "abstractproperty":
                return mk("property", f)
            if base in ("dataclass",):
                return f
            return self.call_ext(n, [f], {}, st, d)
        if v.op == "call" and isinstance(v.args[0], str) and v.args[0].split(".")[-1] in ("wraps", "lru_cache", "cache", "dataclass"):
            return f
        if v.op == "call" and v.args[0] == "functools.partial" :
            return f
        return self.call(v, [f], {}, st, d)

    def x_ClassDef(self, s, st):
        fr = st.heap[st.frame]
        mod = fr.extra["module"]
        qual = mod.name + "." + s.name
        bases = [self.eval(b, st) for b in s.bases]
        ct = mk("class", qual)
        ref = st.alloc(HObj("class", {}, cls=ct, extra={
            "parent": st.frame, "module": mod, "func": None, "is_class": True, "class_term": ct, "qual": s.name,
            "bases": bases, "name": s.name, "node": s}))
        self.classes[qual] = ref
        saved = st.frame
        st.frame = ref.args[0]
        out = self.exec_block(s.body, st)
        st2 = out.normal
        if st2 is None:
            raise Dead()
        if st2 is not st:
            st.become(st2)
        st.frame = saved
        o = st.obj(ref)
        o.extra = dict(o.extra)
        for d in s.decorator_list:
            n = ast.unparse(d)
            if n.split("(")[0].split(".")[-1] == "dataclass":
                o.extra["dataclass"] = True
                o.extra["frozen"] = isinstance(d, ast.Call) and any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords)
                fields = []
                for b in self.mro(ct, st)[1:]:
                    if b.op == "class":
                        fields += [f for f in (st.obj(self.classes[b.args[0]]).extra.get("fields") or []) if f[0] not in [g[0] for g in fields]]
                for b in s.body:
                    if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                        init, dflt = True, None
                        if b.value is not None:
                            dv = o.d.get(b.target.id)
                            if dv is not None and dv.op == "call" and isinstance(dv.args[0], str) and dv.args[0].endswith(".field"):
                                iv = kw(dv, "init")
                                init = iv is not FALSE
                                dflt = kw(dv, "default")
                                df = kw(dv, "default_factory")
                                if df is not None:
                                    dflt = mk("factory", df)
                                if dflt is None:
                                    o.d.pop(b.target.id, None)
                            else:
                                dflt = dv
                        fields = [f for f in fields if f[0] != b.target.id] + [(b.target.id, init, dflt)]
                o.extra["fields"] = fields
        self.set_name(s.name, ct, st)

    def x_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        o = Out(None)
        o.rets.append((st, v))
        return o

    def x_Break(self, s, st):
        o = Out(None)
        o.brks.append(st)
        return o

    def x_Continue(self, s, st):
        o = Out(None)
        o.conts.append(st)
        return o

    def x_Global(self, s, st):
        f = st.w(mk("ref", st.frame))
        f.extra = dict(f.extra, globals=set(f.extra.get("globals", ())) | set(s.names))

    def x_Nonlocal(self, s, st):
        f = st.w(mk("ref", st.frame))
        f.extra = dict(f.extra, nonlocals=set(f.extra.get("nonlocals", ())) | set(s.names))

    def x_Assert(self, s, st):
        c = self.boolterm(self.eval(s.test, st), st)
        t = self.truth(c, st)
        if t is True:
            return
        if t is False:
            self.raise_name(st, "AssertionError", s)
        s2 = st.copy()
        s2.assume(b_not(c))
        try:
            self.raise_name(s2, "AssertionError", s, explicit=True)
        except Dead:
            pass
        st.assume(c)

    def x_Raise(self, s, st):
        if s.exc is None:
            exc = self.cur_exc[-1] if self.cur_exc else mk("exc", mk("ext", "builtins.RuntimeError"), ())
        else:
            v = self.eval_exc(s.exc, st)
            exc = v
        self.raise_(st, exc, s)

    def eval_exc(self, node, st):
        # the message is irrelevant: evaluate only what names the class
        if isinstance(node, ast.Call):
            f = self.eval(node.func, st)
            if f.op in ("ext", "class") and self.is_exc_class(f, st):
                return mk("exc", f, ())
            v = self.eval(node, st)
        else:
            v = self.eval(node, st)
        if v.op in ("ext", "class"):
            return mk("exc", v, ())
        if v.op == "ref" and st.obj(v).kind == "inst":
            return mk("exc", st.obj(v).cls, ())
        if v.op == "exc":
            return v
        return mk("exc", mk("ext", "builtins.Exception"), (v,))

    def is_exc_class(self, c, st):
        return self.exc_bases(c, st) is not None

    def exc_bases(self, c, st):
        if c.op == "ext":
            return BUILTIN_EXC.get(c.args[0].split(".")[-1])
        if c.op == "class":
            out = []
            for m in self.mro(c, st):
                if m.op == "class":
                    out.append(m.args[0])
                    out.append(m.args[0].split(".")[-1])
                else:
                    b = BUILTIN_EXC.get(m.args[0].split(".")[-1])
                    if b:
                        out += b
            return out if any(x in BUILTIN_EXC for x in out) else None
        return None

    def exc_match(self, exc, handler_types, st):
        """True/False/None"""
        bs = self.exc_bases(exc.args[0], st) if exc.op == "exc" else None
        if bs is None:
            return None
        for h in handler_types:
            n = h.args[0] if h.op == "class" else h.args[0].split(".")[-1]
            if h.op == "class":
                if n in bs:
                    return True
            elif n in bs:
                return True
            elif n in ("UnsupportedOperation",) and n in bs:
                return True
        return False

    def x_If(self, s, st):
        c = self.boolterm(self.eval(s.test, st), st)
        t = self.truth(c, st)
        if t is True:
            return self.exec_block(s.body, st)
        if t is False:
            return self.exec_block(s.orelse, st)
        g = st.guard
        s1, s2 = st.copy(), st
        s1.assume(c)
        s2.assume(b_not(c))
        o1 = self.exec_block(s.body, s1)
        o2 = self.exec_block(s.orelse, s2)
        out = Out(None)
        out.absorb(o1)
        out.absorb(o2)
        if o1.normal is not None and o2.normal is not None:
            out.normal = self.merge(o1.normal, o2.normal, c)
        else:
            out.normal = o1.normal if o1.normal is not None else o2.normal
        return out

    def x_Match(self, s, st):
        v = self.eval(s.subject, st)
        out = Out(None)
        cur = st
        normals = []
        for case in s.cases:
            if cur is None:
                break
            c = self.match_pattern(case.pattern, v, cur)
            if case.guard is not None:
                sx = cur.copy()
                sx.assume(c)
                c = b_and(c, self.boolterm(self.eval(case.guard, sx), sx))
            t = self.truth(c, cur)
            if t is False:
                continue
            s1 = cur if t is True else cur.copy()
            s1.assume(c)
            nxt = None
            if t is None:
                nxt = cur
                nxt.assume(b_not(c))
            self.match_bind(case.pattern, v, s1)
            o = self.exec_block(case.body, s1)
            out.absorb(o)
            if o.normal is not None:
                normals.append((o.normal, None))
            cur = nxt
        if cur is not None:
            normals.append((cur, None))
        if normals:
            out.normal = self.merge_many(normals)[0]
        return out

    def match_pattern(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            return self.mkcmp("==", self.val(v, st), self.val(self.eval(p.value, st), st), st)
        if isinstance(p, ast.MatchSingleton):
            return self.mkcmp("is", self.val(v, st), const(p.value), st)
        if isinstance(p, ast.MatchOr):
            return b_or(*[self.match_pattern(x, v, st) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            return TRUE if p.pattern is None else self.match_pattern(p.pattern, v, st)
        if isinstance(p, ast.MatchSequence) and v.op == "tuple":
            if len(p.patterns) != len(v.args):
                return FALSE
            return b_and(*[self.match_pattern(x, y, st) for x, y in zip(p.patterns, v.args)])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.boolterm(E.b_isinstance(self, [v, self.eval(p.cls, st)], {}, st, p), st)
        raise Undecided("match pattern " + type(p).__name__)

    def match_bind(self, p, v, st):
        if isinstance(p, ast.MatchAs):
            if p.name:
                self.set_name(p.name, v, st)
            if p.pattern is not None:
                self.match_bind(p.pattern, v, st)
        elif isinstance(p, ast.MatchSequence) and v.op == "tuple":
            for x, y in zip(p.patterns, v.args):
                self.match_bind(x, y, st)

    # ---- assignment
    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        v = self.bindable(v, st)
        for t in s.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.bindable(self.eval(s.value, st), st), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.set_name(t.id, self.bindable(v, st), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, self.mangle(t.attr, st), self.bindable(v, st), st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            ix = self.eval_index(t.slice, st)
            self.store_item(base, ix, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Undecided("assignment target")

    def unpack(self, elts, v, st):
        v = self.assume_simpl(v, st)
        items = self.known_items(v, st, len(elts) if not any(isinstance(e, ast.Starred) for e in elts) else None)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is None:
            if star:
                n = E.length(self, self.freeze(v, st))
                k = star[0]
                fv = self.freeze(v, st)
                for i, e in enumerate(elts[:k]):
                    self.assign(e, E.index(self, fv, const(i)), st)
                tail = len(elts) - k - 1
                self.assign(elts[k].value, st.alloc(HObj("list", [], sym=E.index(self, fv, mk("slice", const(k), const(-tail) if tail else NONE, NONE)))), st)
                for j in range(tail):
                    self.assign(elts[len(elts) - tail + j], E.index(self, fv, const(-(tail - j))), st)
                return
            fv = self.freeze(v, st)
            for i, e in enumerate(elts):
                self.assign(e, E.index(self, fv, const(i)), st)
            return
        if star:
            k = star[0]
            tail = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                self.raise_name(st, "ValueError", None, "unpack")
            mid = items[k:len(items) - tail]
            seq = items[:k] + [st.alloc(HObj("list", list(mid)))] + items[len(items) - tail:]
            for e, x in zip(elts, seq):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
            return
        if len(items) != len(elts):
            self.raise_name(st, "ValueError", None, "unpack")
        for e, x in zip(elts, items):
            self.assign(e, x, st)

    def mangle(self, name, st):
        if name.startswith("__") and not name.endswith("__"):
            f = st.heap[st.frame]
            while f is not None:
                c = f.extra.get("class_term") or f.extra.get("def_class")
                if c is not None:
                    return "_" + c.args[0].split(".")[-1].lstrip("_") + name
                f = st.heap.get(f.extra.get("parent")) if f.extra.get("parent") else None
        return name

    def set_name(self, name, v, st):
        name = self.mangle(name, st)
        f = st.heap[st.frame]
        if name in f.extra.get("globals", ()):
            m = self.modrefs[f.extra["module"].name]
            self.event("global-write", st, name=name, module=f.extra["module"].name)
            st.w(m).d[name] = v
            return
        if name in f.extra.get("nonlocals", ()):
            p = f.extra["parent"]
            while p is not None:
                o = st.heap[p]
                if name in o.d:
                    st.w(mk("ref", p)).d[name] = v
                    return
                p = o.extra.get("parent")
        tgt = f
        if f.extra.get("walrus_parent") and f.extra.get("in_walrus"):
            pass
        st.w(mk("ref", st.frame)).d[name] = v

    def x_AugAssign(self, s, st):
        t = s.target
        rhs = self.eval(s.value, st)
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, t)
            nv = self.inplace(s.op, old, rhs, st, s)
            if nv is not None:
                self.set_name(t.id, self.bindable(nv, st), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            name = self.mangle(t.attr, st)
            old = self.getattr(o, name, st, t)
            nv = self.inplace(s.op, old, rhs, st, s)
            if nv is not None:
                self.setattr(o, name, self.bindable(nv, st), st, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            ix = self.eval_index(t.slice, st)
            old = self.load_item(base, ix, st, t)
            nv = self.inplace(s.op, old, rhs, st, s, view=True)
            if nv is None:
                # the element object itself was changed
                nv = old
            self.store_item(base, ix, nv, st, t, aug=True)
        else:
            raise Undecided("augmented assignment target")

    def inplace(self, op, old, rhs, st, node, view=False):
        """returns the new value to bind, or None when the object was mutated in place"""
        o = None
        if old.op == "ref":
            o = st.obj(old)
        if o is not None and o.kind in ("list",):
            if isinstance(op, ast.Add):
                E.list_extend(self, old, rhs, st)
                return None
            if isinstance(op, ast.Mult):
                return self.binop(op, old, rhs, st, node)
        if o is not None and o.kind in ("dict", "set"):
            if isinstance(op, ast.BitOr):
                E.m_update(self, old, [rhs], {}, st, node)
                return None
            return self.binop(op, old, rhs, st, node)
        ov = self.val(old, st)
        nv = self.binop(op, ov, self.val(rhs, st), st, node)
        if old.op == "phi" and any(x.op == "ref" for x in old.args):
            raise Undecided("in-place operation on alternatives")
        k = self.facts.kind(ov)
        if k == "ndarray" and isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)) and E.dtype_of(self, ov) == "int" \
                and (isinstance(op, ast.Div) or E.dtype_of(self, self.val(rhs, st)) == "float"):
            self.raise_name(st, "TypeError", node, "an array of integers cannot hold the result")    # numpy: UFuncTypeError
        if k == "ndarray":
            if old.op == "ref":
                self.mutate_arr(old, nv, st, node, "augmented assignment")
                return None
            if not view:
                self.mutated(ov, st, node, "augmented assignment")
            return nv
        if k in ("unknown",) and not view and self.facts.storage(ov):
            self.mutated(ov, st, node, "augmented assignment")
        return nv

    def mutate_arr(self, ref, newterm, st, node, how):
        o = st.obj(ref)
        self.mutated(o.sym, st, node, how)
        w = st.w(ref)
        w.sym = newterm
        vo = w.extra
        if vo:
            base, ix = vo
            bo = st.heap.get(base.args[0])
            if bo is not None:
                self.mutate_arr(base, E.setitem(self, bo.sym, ix, newterm), st, node, how)

    def mutated(self, oldterm, st, node, how):
        roots = self.facts.storage(oldterm)
        if roots:
            self.event("mutate", st, node, roots=tuple(sorted(roots)), how=how, term=oldterm)

    def store_item(self, base, ix, v, st, node, aug=False):
        base = self.assume_simpl(base, st)
        if base.op == "phi":
            if any(a.op == "ref" and st.obj(a).kind in ("list", "dict", "arr") for a in base.args[1:]):
                self.fork(base.args[0], st, lambda s: (self.store_item(base.args[1], ix, v, s, node, aug), NONE)[1],
                          lambda s: (self.store_item(base.args[2], ix, v, s, node, aug), NONE)[1])
                return
        if base.op == "ref":
            o = st.obj(base)
            if o.kind == "arr":
                fi = self.freeze(ix, st)
                self.mutate_arr(base, E.setitem(self, o.sym, fi, self.freeze(v, st)), st, node, "item assignment")
                return
            if o.kind in ("list",):
                if o.sym is None and is_num(ix):
                    i = int(cval(ix))
                    if not -len(o.d) <= i < len(o.d):
                        self.raise_name(st, "IndexError", node)
                    st.w(base).d[i] = self.bindable(v, st)
                    return
                cur = self.freeze(base, st)
                w = st.w(base)
                w.sym = E.setitem(self, cur, self.freeze(ix, st), self.freeze(v, st))
                w.d = []
                return
            if o.kind == "dict":
                k = self.freeze(ix, st)
                if o.sym is None and k.op in ("const", "class", "tuple", "ext", "param") or (o.sym is None and k in o.d):
                    if k.op != "const" and not (k.op == "tuple" and all(x.op == "const" for x in k.args)) and any(x is not k for x in o.d) and k not in o.d and not all(y.op == "const" for y in o.d):
                        pass
                    st.w(base).d[k] = self.bindable(v, st)
                    return
                cur = self.freeze(base, st)
                w = st.w(base)
                w.sym = mk("setitem", cur, k, self.freeze(v, st))
                w.d = {}
                return
            if o.kind == "inst":
                f = self.class_lookup(o.cls, "__setitem__", st)
                if f is not None:
                    self.call(mk("bound", f, base), [ix, v], {}, st, node)
                    return
            if o.kind == "class":
                pass
            raise Undecided("item assignment on " + o.kind)
        # a pure term: parameters and views
        if base.op == "ext":
            self.event("ext-write", st, node, name=base.args[0])
            return
        k = self.facts.kind(base)
        self.mutated(base, st, node, "item assignment")
        if base.op == "param" and (self.facts.meta.get(base) or {}).get("owner"):
            return
        if base.op in ("mu",):
            raise Undecided("item assignment on loop value")
        # view of something: find the holder
        if base.op == "index":
            return
        if base.op in ("attr", "call", "mcall"):
            return
        raise Undecided("item assignment on " + base.op)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                ix = self.eval_index(t.slice, st)
                if base.op == "ref" and st.obj(base).kind == "dict" and st.obj(base).sym is None:
                    k = self.freeze(ix, st)
                    o = st.obj(base)
                    if k not in o.d:
                        self.raise_name(st, "KeyError", t)
                    del st.w(base).d[k]
                elif base.op == "ref" and st.obj(base).kind == "list" and st.obj(base).sym is None and is_num(ix):
                    del st.w(base).d[int(cval(ix))]
                elif base.op == "ref" and st.obj(base).kind in ("list", "dict"):
                    cur = self.freeze(base, st)
                    w = st.w(base)
                    w.sym = mk("delitem", cur, self.freeze(ix, st))
                    w.d = {} if w.kind == "dict" else []
                else:
                    raise Undecided("del")
            elif isinstance(t, ast.Name):
                st.w(mk("ref", st.frame)).d.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                if o.op == "ref":
                    st.w(o).d.pop(self.mangle(t.attr, st), None)
            else:
                raise Undecided("del")

    # ---- loops
    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        it = self.assume_simpl(it, st)
        items = self.known_items(it, st)
        if items is not None and len(items) <= 400:
            out = Out(st)
            cur = st
            brk = []
            for x in items:
                if cur is None:
                    break
                self.assign(s.target, x, cur)
                o = self.exec_block(s.body, cur)
                out.rets += o.rets
                brk += o.brks
                nxt = [(c, None) for c in o.conts] + ([(o.normal, None)] if o.normal is not None else [])
                cur = self.merge_many(nxt)[0] if nxt else None
            if cur is not None and s.orelse:
                o = self.exec_block(s.orelse, cur)
                out.rets += o.rets
                brk2 = o.brks
                out.brks += brk2
                out.conts += o.conts
                cur = o.normal
            nn = [(b, None) for b in brk] + ([(cur, None)] if cur is not None else [])
            out.normal = self.merge_many(nn)[0] if nn else None
            return out
        n, elem = self.sym_iter(it, st)
        return self.sym_loop(s, st, n, lambda bv, s2: self.assign(s.target, elem(bv, s2), s2))

    def sym_loop(self, s, st, n, bind, orelse=True):
        """summarise a loop with an unknown number of iterations"""
        self.loop_depth += 1
        bv = mk("bv", self.loop_depth)
        try:
            # 1. which slots change?
            probe = st.copy()
            save_ev = len(self.events)
            self.collectors.append([])
            self.bvs.append(bv)
            try:
                bind(bv, probe)
                o = self.exec_block(s.body, probe)
            finally:
                self.collectors.pop()
                self.bvs.pop()
            del self.events[save_ev:]
            ends = [(c, None) for c in o.conts] + ([(o.normal, None)] if o.normal is not None else [])
            exits_early = bool(o.brks or o.rets)
            if not ends and not exits_early:
                # body always raises: either zero iterations or raise
                s1 = st.copy()
                c = self.mkcmp("!=", n, const(0), st)
                s1.assume(c)
                try:
                    self.bvs.append(bv)
                    bind(bv, s1)
                    self.exec_block(s.body, s1)
                finally:
                    self.bvs.pop()
                st.assume(b_not(c))
                return Out(st)
            end = self.merge_many(ends)[0] if ends else probe
            changed = self._changed(st, end)
            for b in o.brks:
                for x in self._changed(st, b):
                    if x not in changed:
                        changed.append(x)
            # 2. loop head with mu variables
            head = st.copy()
            mus = {}
            for slot in changed:
                self._set_mu(slot, head, mus, end, bv)
            body_st = head.copy()
            self.bvs.append(bv)
            if not exits_early:
                body_st.assume(mk("inloop", bv))
            try:
                bind(bv, body_st)
                o = self.exec_block(s.body, body_st)
            finally:
                self.bvs.pop()
            out = Out(None)
            if o.rets:
                # value escapes from the middle of the loop
                for rs, rv in o.rets:
                    fv = self.freeze(rv, rs)
                    n_c = len(self._common(rs.guard, st.guard))
                    c = mk("exists", n, b_and(*rs.guard[n_c:]) if rs.guard[n_c:] else TRUE)
                    r2 = st.copy()
                    r2.assume(c)
                    out.rets.append((r2, mk("escape", n, fv)))
                    st.assume(b_not(c))
            ends = [(c, None) for c in o.conts] + ([(o.normal, None)] if o.normal is not None else [])
            brk = [(b, None) for b in o.brks]
            if not ends and not brk:
                out.normal = st
                return out
            end = self.merge_many(brk + ends)[0] if brk + ends else None
            after = st
            for slot, (mu, init) in mus.items():
                ev = self._get_slot(slot, end)
                fe = self.freeze(ev, end) if ev is not None else UNDEF
                self._put_slot(slot, after, self._summary(slot, mu, init, fe, n, bv, bool(brk), after), st)
            # new objects allocated in the body and reachable from the slots
            for k, v in end.heap.items():
                if k not in after.heap:
                    after.heap[k] = v
            after.draws = max(after.draws, end.draws)
            # loop variables
            out.normal = after
            if s.orelse and orelse and not brk:
                o2 = self.exec_block(s.orelse, after)
                out.absorb(o2)
                out.normal = o2.normal
            return out
        finally:
            self.loop_depth -= 1

    def _changed(self, a, b):
        r = []
        for i, ob in b.heap.items():
            oa = a.heap.get(i)
            if oa is None or oa is ob:
                continue
            if oa.kind in ("frame", "inst", "module", "class"):
                for k in ob.d:
                    if oa.d.get(k) is not ob.d[k]:
                        r.append((i, k))
            elif oa.kind == "arr":
                if oa.sym is not ob.sym:
                    r.append((i, "<arr>"))
            elif oa.kind in ("list", "dict", "set", "generator"):
                if oa.sym is not ob.sym or list(oa.d) != list(ob.d) or (isinstance(oa.d, dict) and list(oa.d.values()) != list(ob.d.values())):
                    r.append((i, "<obj>"))
        return r

    def _get_slot(self, slot, st):
        i, k = slot
        o = st.heap.get(i)
        if o is None:
            return None
        if k == "<arr>":
            return o.sym
        if k == "<obj>":
            return o.sym if o.sym is not None else self._freeze_obj(o, st)
        return o.d.get(k, UNDEF)

    def _set_mu(self, slot, st, mus, end=None, bv=None):
        i, k = slot
        cur = self._get_slot(slot, st)
        fcur = self.freeze(cur, st) if cur is not None else UNDEF
        mu = mk("mu", self.loop_depth, f"{len(mus)}:{k}")
        o = st.w(mk("ref", i))
        if k == "<arr>":
            kd = self.facts.kind(fcur)
            self.facts.declare(mu, kind=kd, ndim=self.facts.ndim(fcur), mu_init=fcur)
            o.sym = mu
        elif k == "<obj>":
            kd = {"list": "list", "dict": "dict", "set": "set"}.get(o.kind, "list")
            self.facts.declare(mu, kind=kd, mu_init=fcur)
            o.sym = mu
            o.d = {} if o.kind in ("dict", "set") else []
        else:
            if fcur is UNDEF:
                o.d[k] = UNDEF
                mus[slot] = (UNDEF, UNDEF)
                ev = self._get_slot(slot, end) if end is not None and o.kind == "inst" and bv is not None else None
                if ev is not None and ev is not UNDEF:
                    # an attribute that appears in the loop: there from the second iteration on
                    fe = self.freeze(ev, end)
                    if fe.op == "phi" and UNDEF in fe.args[1:]:
                        return
                    el = []
                    for j, x in enumerate(fe.args if fe.op == "tuple" else (fe,)):
                        m = mk("mu", self.loop_depth, f"{len(mus)}:{k}:{j}")
                        kd = self.facts.kind(x)
                        self.facts.declare(m, kind="number" if kd in ("int", "float", "number") else kd, ndim=self.facts.ndim(x))
                        el.append(m)
                    m = mk("tuple", *el) if fe.op == "tuple" else el[0]
                    o.d[k] = mk("phi", mk("later", bv), m if fe.op == "tuple" or self.facts.kind(fe) != "ndarray" else st.alloc(HObj("arr", sym=m)), UNDEF)
                    mus[slot] = (m, UNDEF)
                return
            if fcur.op == "tuple" and fcur.args and end is not None:
                ev = self._get_slot(slot, end)
                fe = self.freeze(ev, end) if ev is not None and ev is not UNDEF else None
                if fe is not None and fe.op == "tuple" and len(fe.args) == len(fcur.args):
                    # a tuple of fixed length: one variable per element that changes
                    el = []
                    for j, (a, b) in enumerate(zip(fcur.args, fe.args)):
                        if a is b:
                            el.append(a)
                            continue
                        m = mk("mu", self.loop_depth, f"{len(mus)}:{k}:{j}")
                        kd = self.facts.kind(a)
                        self.facts.declare(m, kind="number" if kd in ("int", "float", "number") else kd, ndim=self.facts.ndim(a), mu_init=a)
                        el.append(m)
                    mu = mk("tuple", *el)
                    o.d[k] = self.bindable(mu, st)
                    mus[slot] = (mu, fcur)
                    return
            kd = self.facts.kind(fcur)
            self.facts.declare(mu, kind="number" if kd in ("int", "float", "number") else kd, ndim=self.facts.ndim(fcur), mu_init=fcur)
            if kd == "ndarray":
                o.d[k] = st.alloc(HObj("arr", sym=mu))
            else:
                o.d[k] = mu
        mus[slot] = (mu, fcur)

    def _put_slot(self, slot, st, v, before):
        i, k = slot
        o = st.w(mk("ref", i))
        if k == "<arr>":
            o.sym = v
        elif k == "<obj>":
            o.sym = v
            o.d = {} if o.kind in ("dict", "set") else []
            if o.kind == "list" and v.op == "list":
                o.sym, o.d = None, list(v.args)
        else:
            o.d[k] = self.bindable(v, st) if v is not UNDEF else v

    def _summary(self, slot, mu, init, end, n, bv, has_break, st):
        r = self._summary_(slot, mu, init, end, n, bv, has_break, st)
        for t in (r, *(children(r) if r.op in ("concat", "lin", "mono") else ())):
            E.binder(t, bv)
        return r

    def _summary_(self, slot, mu, init, end, n, bv, has_break, st):
        if mu is UNDEF:
            return mk("last", n, end, UNDEF) if end is not UNDEF else UNDEF
        end0 = end
        if end is mu:
            return init
        if mu.op == "mu":
            self.mu_updates.setdefault(mu, []).append((init, end))
        if mu.op == "tuple":
            if end.op != "tuple" or len(end.args) != len(mu.args):
                raise Undecided("tuple of varying length in a loop")
            if init is UNDEF:
                init = mk("tuple", *[UNDEF] * len(mu.args))
            return mk("tuple", *[i if m is i and e is i else self._summary(slot, m, i, e, n, bv, has_break, st) for m, i, e in zip(mu.args, init.args, end.args)])
        if has_break:
            return mk("loopout", n, end, init, "break")
        if init is UNDEF:
            end = subst(end, {mk("later", bv): TRUE}) if not has_break else end
            first = subst(end0, {mk("later", bv): FALSE})
            if end is mu:   # set once, in the first iteration
                return first if (self.facts.lower(n) or 0) >= 1 and not mentions(first, bv) else mk("last", n, first, UNDEF)
            if end is first and not mentions(end, mu):
                return mk("last", n, end, UNDEF)
            return mk("loopout", n, end0, UNDEF)
        if not mentions(end, mu):
            return mk("last", n, end, init)
        k = self.facts.kind(init)
        # accumulation
        if k in ("int", "float", "number", "ndarray") or init.op in ("lin", "mono", "call"):
            d = sub(end, mu)
            if not mentions(d, mu):
                if not contains(d, lambda x: x.op == "mu" and x.args[0] == self.loop_depth):
                    return add(init, E.np_sum_map(self, n, d))
            # conditional accumulation
            if end.op == "phi":
                a, b = end.args[1], end.args[2]
                da, db = sub(a, mu), sub(b, mu)
                if not mentions(da, mu) and not mentions(db, mu):
                    d = phi(end.args[0], da, db)
                    return add(init, E.np_sum_map(self, n, d))
        # list append
        if end.op == "append" and end.args[0] is mu and not mentions(end.args[1], mu):
            m = mk("map", n, end.args[1])
            if init.op == "list" and not init.args:
                return m
            return mk("concat", init, m)
        if end.op == "phi":
            c, a, b = end.args
            if b is mu and a.op == "append" and a.args[0] is mu and not mentions(a.args[1], mu):
                f = mk("filtermap", n, c, a.args[1])
                return f if (init.op == "list" and not init.args) else mk("concat", init, f)
            if a is mu and b.op == "append" and b.args[0] is mu and not mentions(b.args[1], mu):
                f = mk("filtermap", n, b_not(c), b.args[1])
                return f if (init.op == "list" and not init.args) else mk("concat", init, f)
            # append in both branches
            if a.op == "append" and b.op == "append" and a.args[0] is mu and b.args[0] is mu:
                m = mk("map", n, phi(c, a.args[1], b.args[1]))
                return m if (init.op == "list" and not init.args) else mk("concat", init, m)
        # element fill
        if end.op == "setitem" and end.args[0] is mu:
            ix, v = end.args[1], end.args[2]
            if ix is bv:
                v2 = subst(v, {E.index(self, mu, bv): E.index(self, init, bv), mk("index", mu, bv): E.index(self, init, bv)})
                if not mentions(v2, mu):
                    L = E.length(self, init)
                    if L is n:
                        lifted = E.lift_map(self, n, v2, bv)
                        return lifted if lifted is not None else mk("fill", init, n, v2)
                    return mk("fill", init, n, v2)
            if not mentions(v, mu) and not mentions(ix, mu):
                if init.op == "dict" and not init.args[0] and ix.op == "index" and ix.args[1] is bv and not mentions(ix.args[0], bv) \
                        and self.facts.kind(ix.args[0]) == "ndarray" and E.length(self, ix.args[0]) is n:
                    vs = E.lift_map(self, n, v, bv)
                    if vs is not None and self.facts.kind(vs) == "ndarray":
                        return mk("call", "builtins.dict", (mk("zip", ix.args[0], vs),), ())
                return mk("dmap", init, n, ix, v)
        return mk("loopout", n, end, init)

    def x_While(self, s, st):
        out = Out(None)
        cur = st
        brk = []
        n = 0
        while True:
            c = self.boolterm(self.eval(s.test, cur), cur)
            t = self.truth(c, cur)
            if t is False:
                break
            if t is None:
                if n == 0 and not brk:
                    return self.sym_while(s, cur, c)
                raise Undecided("while loop with data-dependent bound")
            n += 1
            if n > 200:
                raise Undecided("while loop does not terminate within the unrolling bound")
            o = self.exec_block(s.body, cur)
            out.rets += o.rets
            brk += o.brks
            nxt = [(x, None) for x in o.conts] + ([(o.normal, None)] if o.normal is not None else [])
            if not nxt:
                cur = None
                break
            cur = self.merge_many(nxt)[0]
        if cur is not None and s.orelse:
            o = self.exec_block(s.orelse, cur)
            out.absorb(o)
            cur = o.normal
        nn = [(b, None) for b in brk] + ([(cur, None)] if cur is not None else [])
        out.normal = self.merge_many(nn)[0] if nn else None
        return out

    def sym_while(self, s, st, c):
        # i = a; while i < n: body; i += 1   ==>  for i in range(a, n)
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name):
            iv = t.left.id
            last = s.body[-1] if s.body else None
            if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == iv and isinstance(last.op, ast.Add) \
                    and isinstance(last.value, ast.Constant) and last.value.value == 1 \
                    and not any(isinstance(x, ast.Name) and x.id == iv and isinstance(x.ctx, ast.Store) for b in s.body[:-1] for x in ast.walk(b)) \
                    and not any(isinstance(x, (ast.Continue,)) for b in s.body for x in ast.walk(b)):
                a = self.val(self.lookup(iv, st, t), st)
                b = self.val(self.eval(t.comparators[0], st), st)
                if isinstance(t.ops[0], ast.LtE):
                    b = add(b, const(1))
                n = sub(b, a)
                loop = ast.For(target=ast.Name(id=iv, ctx=ast.Store()), iter=t, body=s.body[:-1] or [ast.Pass()], orelse=s.orelse, lineno=s.lineno, col_offset=0)
                return self.sym_loop(loop, st, n, lambda bv, s2: self.set_name(iv, add(a, bv), s2))
        raise Undecided(f"while loop at {self.where(s)}")

    # ---- try / with
    def x_Try(self, s, st):
        frame = st.frame
        self.collectors.append([])
        try:
            o = self.exec_block(s.body, st)
        finally:
            raised = self.collectors.pop()
        out = Out(None)
        normals = []
        out.rets += o.rets
        out.brks += o.brks
        out.conts += o.conts
        fin = []            # exits to be routed through finally
        if o.normal is not None:
            if s.orelse:
                self.collectors.append([])
                try:
                    o2 = self.exec_block(s.orelse, o.normal)
                finally:
                    fin += self.collectors.pop()
                out.absorb(o2)
                if o2.normal is not None:
                    normals.append(o2.normal)
            else:
                normals.append(o.normal)
        for ex in raised:
            cur = ex.state.copy()
            cur.frame = frame
            handled = False
            for h in s.handlers:
                if h.type is None:
                    m = True
                    types = []
                else:
                    tv = self.eval(h.type, cur.copy())
                    types = list(tv.args) if tv.op == "tuple" else [tv]
                    m = self.exc_match(ex.exc, types, cur)
                if m is False:
                    continue
                if m is None:
                    raise Undecided("unknown exception class in try")
                hs = cur.copy()
                hs.frame = frame
                if h.name:
                    hs.w(mk("ref", frame)).d[h.name] = ex.exc
                self.cur_exc.append(ex.exc)
                self.collectors.append([])
                try:
                    oh = self.exec_block(h.body, hs)
                finally:
                    fin += self.collectors.pop()
                    self.cur_exc.pop()
                out.absorb(oh)
                self.event("handled", cur, h, exc=ex.exc, types=tuple(types))
                if oh.normal is not None:
                    normals.append(oh.normal)
                handled = True
                break
            if not handled:
                fin.append(ex)
        if s.finalbody:
            res = Out(None)
            nn = []
            for x in normals:
                of = self.exec_block(s.finalbody, x)
                res.absorb(of)
                if of.normal is not None:
                    nn.append(of.normal)
            for x, v in out.rets:
                # the return value was computed before
                keep = x.w(mk("ref", frame))
                keep.d["__ret__"] = v
                of = self.exec_block(s.finalbody, x)
                res.absorb(of)
                if of.normal is not None:
                    fr = of.normal.w(mk("ref", frame))
                    vv = fr.d.pop("__ret__", NONE)
                    res.rets.append((of.normal, vv))
            for x in out.brks:
                of = self.exec_block(s.finalbody, x)
                res.absorb(of)
                if of.normal is not None:
                    res.brks.append(of.normal)
            for x in out.conts:
                of = self.exec_block(s.finalbody, x)
                res.absorb(of)
                if of.normal is not None:
                    res.conts.append(of.normal)
            for ex in fin:
                xs = ex.state.copy()
                xs.frame = frame
                of = self.exec_block(s.finalbody, xs)
                res.absorb(of)
                if of.normal is not None:
                    self.collectors[-1].append(Exit(of.normal, ex.exc, ex.where, ex.explicit))
            normals, out = nn, res
        else:
            self.collectors[-1] += fin
        if normals:
            out.normal = self.merge_many([(x, None) for x in normals])[0] if len(normals) > 1 else normals[0]
        return out

    x_TryStar = x_Try

    def x_With(self, s, st):
        return self._with(s.items, s.body, st, s)

    def _with(self, items, body, st, node):
        if not items:
            return self.exec_block(body, st)
        it = items[0]
        cm = self.eval(it.context_expr, st)
        sc = E.scope_of(cm)
        if sc:
            self.scopes.append(sc)      # settings changed inside are restored at the end
            try:
                return self._with_body(items, body, st, node, cm)
            finally:
                self.scopes.pop()
        return self._with_body(items, body, st, node, cm)

    def _with_body(self, items, body, st, node, cm):
        it = items[0]
        if cm.op == "ctx":
            # generator based context manager: run the body at its yield
            fn, args, kwargs = cm.args
            frame = st.frame
            caller_loc = list(self.loc)
            res = {}

            def hook(v, gst):
                gframe = gst.frame
                gst.frame = frame
                saved_hook = self.yield_hook
                self.yield_hook = None
                saved_loc = self.loc
                self.loc = list(caller_loc)
                try:
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, gst)
                    o = self._with(items[1:], body, gst, node)
                finally:
                    self.yield_hook = saved_hook
                    self.loc = saved_loc
                if o.brks or o.conts:
                    raise Undecided("break/continue out of a context manager")
                if o.rets:
                    if o.normal is not None:
                        raise Undecided("conditional return out of a context manager")
                    rs, rv = self.merge_many(o.rets)
                    rs.w(mk("ref", frame)).d["__with_ret__"] = rv
                    res["ret"] = True
                    o.normal = rs
                if o.normal is None:
                    raise Dead()
                if o.normal is not gst:
                    gst.become(o.normal)
                gst.frame = gframe
                return NONE
            saved = self.yield_hook
            self.yield_hook = hook
            try:
                self.call_func(fn, list(args), dict(kwargs), st, node, run_ctx=True)
            finally:
                self.yield_hook = saved
            if res.get("ret"):
                v = st.w(mk("ref", frame)).d.pop("__with_ret__")
                o = Out(None)
                o.rets.append((st, v))
                return o
            return Out(st)
        if cm.op == "ref" and st.obj(cm).kind == "inst":
            o = st.obj(cm)
            ent = self.class_lookup(o.cls, "__enter__", st)
            exi = self.class_lookup(o.cls, "__exit__", st)
            if ent is None or exi is None:
                self.raise_name(st, "TypeError", node, "context manager")
            v = self.call(mk("bound", ent, cm), [], {}, st, node)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
            frame = st.frame
            self.collectors.append([])
            try:
                ob = self._with(items[1:], body, st, node)
            finally:
                raised = self.collectors.pop()
            out = Out(None)

            def leave(x):
                self.call(mk("bound", exi, cm), [NONE, NONE, NONE], {}, x, node)
            if ob.normal is not None:
                leave(ob.normal)
                out.normal = ob.normal
            for lst, dst in ((ob.brks, out.brks), (ob.conts, out.conts)):
                for x in lst:
                    leave(x)
                    dst.append(x)
            for x, v in ob.rets:
                leave(x)
                out.rets.append((x, v))
            for ex in raised:
                xs = ex.state.copy()
                xs.frame = frame
                r = self.call(mk("bound", exi, cm), [ex.exc.args[0], ex.exc, NONE], {}, xs, node)
                c = self.truth(self.boolterm(r, xs), xs)
                if c is True:
                    out.normal = xs if out.normal is None else self.merge_many([(xs, None), (out.normal, None)])[0]
                elif c is False:
                    self.collectors[-1].append(Exit(xs, ex.exc, ex.where, ex.explicit))
                else:
                    raise Undecided("__exit__ result")
            return out
        if cm.op == "call" and cm.args[0] == "contextlib.suppress":
            types = list(cm.args[1])
            frame = st.frame
            self.collectors.append([])
            try:
                ob = self._with(items[1:], body, st, node)
            finally:
                raised = self.collectors.pop()
            for ex in raised:
                m = self.exc_match(ex.exc, types, ex.state)
                if m:
                    xs = ex.state.copy()
                    xs.frame = frame
                    self.event("handled", xs, node, exc=ex.exc, types=tuple(types))
                    ob.normal = xs if ob.normal is None else self.merge_many([(xs, None), (ob.normal, None)])[0]
                else:
                    self.collectors[-1].append(ex)
            return ob
        if it.optional_vars is not None:
            self.assign(it.optional_vars, cm, st)
        return self._with(items[1:], body, st, node)

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, node=None):
        name = self.mangle(name, st)
        fid = st.frame
        first = True
        while fid is not None:
            f = st.heap[fid]
            ex = f.extra
            if name in f.d and not (ex.get("is_class") and not first) and not (first and name in ex.get("globals", ())):
                v = f.d[name]
                if v is UNDEF or (v.op == "phi" and (v.args[1] is UNDEF or v.args[2] is UNDEF)):
                    v = self.use_maybe_undef(v, name, st, node)
                return self.assume_simpl(v, st) if v.op == "phi" else v
            if first and f.kind == "frame" and name in (ex.get("locals") or ()) and name not in ex.get("globals", ()) and name not in ex.get("nonlocals", ()):
                self.raise_name(st, "UnboundLocalError", node, name)
            first = False if not ex.get("transparent") else first
            nxt = ex.get("parent")
            if nxt is None and f.kind != "module" and ex.get("module") is not None:
                nxt = self.modrefs[ex["module"].name].args[0]
            fid = nxt
        if name in BUILTIN_NAMES:
            return E.ext_value("builtins." + name)
        if name in ("__file__", "__doc__", "__package__"):
            return const("")
        self.raise_name(st, "NameError", node, name)

    def use_maybe_undef(self, v, name, st, node):
        if v is UNDEF:
            self.raise_name(st, "UnboundLocalError", node, name)
        c, a, b = v.args
        t = self.truth(c, st)
        if t is True:
            return self.use_maybe_undef(a, name, st, node) if a is UNDEF else a
        if t is False:
            return self.use_maybe_undef(b, name, st, node) if b is UNDEF else b
        # raises when the undefined side is taken
        bad = c if a is UNDEF else b_not(c)
        s2 = st.copy()
        s2.assume(bad)
        try:
            self.raise_name(s2, "UnboundLocalError", node, name)
        except Dead:
            pass
        st.assume(b_not(bad))
        return b if a is UNDEF else a

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st) -> T:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__} at {self.where(e)}")
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                # formatting is not analysed unless it is a plain name/attribute with a constant value
                try:
                    if isinstance(v.value, (ast.Name, ast.Attribute)) and v.format_spec is None:
                        x = self.val(self.eval(v.value, st.copy()), st)
                        parts.append(x if x.op in ("const", "param") else mk("fmt",))
                    else:
                        parts.append(mk("fmt",))
                except (Dead, Undecided):
                    parts.append(mk("fmt",))
        if all(p.op == "const" for p in parts):
            return const("".join(str(cval(p)) for p in parts))
        return mk("fstr", tuple(parts))

    def e_Tuple(self, e, st):
        return mk("tuple", *self.eval_seq(e.elts, st))

    def eval_seq(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                items = self.known_items(v, st)
                if items is None:
                    raise Undecided(f"unpacking of unknown length at {self.where(x)}")
                out += items
            else:
                out.append(self.bindable(self.eval(x, st), st))
        return out

    def e_List(self, e, st):
        return st.alloc(HObj("list", self.eval_seq(e.elts, st)))

    def e_Set(self, e, st):
        return st.alloc(HObj("set", {self.freeze(x, st): TRUE for x in self.eval_seq(e.elts, st)}))

    def e_Dict(self, e, st):
        d = {}
        ref = st.alloc(HObj("dict", d))
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, st)
                E.m_update(self, ref, [src], {}, st, e)
            else:
                kv = self.eval(k, st)
                self.store_item(ref, kv, self.bindable(self.eval(v, st), st), st, e)
        return ref

    def e_Starred(self, e, st):
        raise Undecided("starred expression")

    def e_NamedExpr(self, e, st):
        v = self.bindable(self.eval(e.value, st), st)
        f = st.heap[st.frame]
        if f.extra.get("comp"):
            # binds in the enclosing function scope
            saved = st.frame
            fid = st.frame
            while st.heap[fid].extra.get("comp"):
                fid = st.heap[fid].extra["parent"]
            st.frame = fid
            self.set_name(e.target.id, v, st)
            st.frame = saved
        else:
            self.set_name(e.target.id, v, st)
        return v

    def e_Lambda(self, e, st):
        return self.make_func(e, st)

    def e_IfExp(self, e, st):
        c = self.boolterm(self.eval(e.test, st), st)
        return self.fork(c, st, lambda s: self.bindable(self.eval(e.body, s), s), lambda s: self.bindable(self.eval(e.orelse, s), s))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            v = self.eval(e.values[i], s)
            if i == len(e.values) - 1:
                return v
            c = self.boolterm(v, s)
            boolish = v.op in ("cmp", "and", "or", "not", "exists", "truth") or v in (TRUE, FALSE)
            t = self.truth(c, s)
            if t is True:
                return rec(i + 1, s) if isand else v
            if t is False:
                return v if isand else rec(i + 1, s)
            if boolish:
                v = c
            if isand:
                r = self.fork(c, s, lambda x: rec(i + 1, x), lambda x: FALSE if boolish else v)
            else:
                r = self.fork(c, s, lambda x: TRUE if boolish else v, lambda x: rec(i + 1, x))
            return r
        r = rec(0, st)
        return self.norm_bool(r)

    def norm_bool(self, r):
        """phi(c, x, FALSE) -> c and x, phi(c, TRUE, x) -> c or x, for boolean x"""
        if r.op != "phi":
            return r
        c, a, b = r.args
        bl = ("cmp", "and", "or", "not", "exists", "truth")

        def isb(x):
            return x in (TRUE, FALSE) or (x.op in bl and self.facts.kind(x) in ("bool", "unknown")) or (x.op == "phi" and isb(x.args[1]) and isb(x.args[2]))
        if isb(a) and isb(b):
            a, b = self.norm_bool(a), self.norm_bool(b)
            if b is FALSE:
                return b_and(c, a)
            if a is TRUE:
                return b_or(c, b)
            if a is FALSE:
                return b_and(b_not(c), b)
            if b is TRUE:
                return b_or(b_not(c), a)
        return r

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return b_not(self.boolterm(v, st))
        v = self.val(v, st)
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return neg(self.freeze(v, st))
        if isinstance(e.op, ast.UAdd):
            return v
        if v.op == "const" and isinstance(cval(v), int):
            return const(~cval(v))
        return E.invert(self, self.freeze(v, st))

    OPN = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.Pow: "__pow__",
           ast.FloorDiv: "__floordiv__", ast.Mod: "__mod__", ast.BitAnd: "__and__", ast.BitOr: "__or__", ast.BitXor: "__xor__", ast.MatMult: "__matmul__"}

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        for x, y, r in ((a, b, ""), (b, a, "r")):
            if x.op == "ref" and st.obj(x).kind == "inst":
                nm = self.OPN.get(type(op), "?")
                f = self.class_lookup(st.obj(x).cls, nm if not r else "__r" + nm[2:], st)
                if f is not None:
                    return self.call(mk("bound", f, x), [y], {}, st, node)
        # sequences
        la, lb = self.seq_kind(a, st), self.seq_kind(b, st)
        if isinstance(op, ast.Add) and la and lb and la == lb:
            xa, xb = self.known_items(a, st), self.known_items(b, st)
            if xa is not None and xb is not None:
                return mk("tuple", *(xa + xb)) if la == "tuple" else st.alloc(HObj("list", list(xa + xb)))
            return mk("concat", self.freeze(a, st), self.freeze(b, st))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                k = self.seq_kind(x, st)
                if k and self.facts.kind(self.val(y, st)) in ("int", "number", "unknown") and not self.seq_kind(y, st):
                    items = self.known_items(x, st)
                    yv = self.val(y, st)
                    if items is not None and is_num(yv):
                        n = int(cval(yv))
                        return mk("tuple", *(items * n)) if k == "tuple" else st.alloc(HObj("list", list(items * n)))
                    if self.facts.kind(yv) == "int" and items is not None and len(items) == 1:
                        return st.alloc(HObj("list", [], sym=mk("map", yv, self.freeze(items[0], st))))
                    if self.facts.kind(yv) == "int":
                        return mk("repeat", self.freeze(x, st), yv)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and a.op == "ref" and b.op == "ref" and st.obj(a).kind == st.obj(b).kind == "set":
            return E.set_op(self, {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference"}[type(op).__name__], a, [b], st)
        if isinstance(op, ast.BitOr) and a.op == "ref" and b.op == "ref" and st.obj(a).kind == st.obj(b).kind == "dict":
            r = st.alloc(HObj("dict", dict(st.obj(a).d), st.obj(a).sym))
            E.m_update(self, r, [b], {}, st, node)
            return r
        return E.arith(self, type(op).__name__, self.freeze(a, st), self.freeze(b, st), st, node)

    def seq_kind(self, v, st):
        if v.op == "tuple":
            return "tuple"
        if v.op == "ref" and st.obj(v).kind == "list":
            return "list"
        if v.op in ("list", "map", "filtermap"):
            return "list"
        return None

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = []
        cur = left
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            rv = self.eval(r, st)
            c = self.compare(op, cur, rv, st, e)
            out.append(c)
            cur = rv
            if c is FALSE:
                break
        if len(out) == 1:
            return out[0]
        return b_and(*[self.boolterm(x, st) for x in out])

    CMPN = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "isnot"}

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            if b is NONE or b.op == "const" and isinstance(cval(b), (int, float)):
                self.raise_name(st, "TypeError", node, "argument is not iterable")
            c = E.contains_op(self, a, b, st, node)
            return c if isinstance(op, ast.In) else b_not(c)
        o = self.CMPN[type(op)]
        if o in ("is", "isnot"):
            a, b = self.assume_simpl(a, st), self.assume_simpl(b, st)
            if a.op == "ref" and b.op == "ref":
                if a is b:
                    return const(o == "is")
                if st.obj(a).kind != "arr" or st.obj(b).kind != "arr":
                    return const(o == "isnot")
                return cmp(o, self.val(a, st), self.val(b, st))
            for x, y in ((a, b), (b, a)):
                if x.op == "ref" and y.op in ("const", "class", "ext", "func"):
                    if st.obj(x).kind == "arr":
                        return self.mkcmp(o, st.obj(x).sym, y, st)
                    return const(o == "isnot")
                if x.op == "phi" and y is NONE and any(z.op == "ref" for z in x.args[1:]):
                    return phi(x.args[0], self.compare(op, x.args[1], y, st, node), self.compare(op, x.args[2], y, st, node))
            return self.mkcmp(o, a, b, st)
        if a.op == "ref" and b.op == "ref" and a is b and st.obj(a).kind not in ("arr",):
            return const(o in ("==", "<=", ">="))
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        # sequences of known items
        if o in ("==", "!=") and fa.op in ("tuple", "list") and fb.op == fa.op:
            if len(fa.args) != len(fb.args):
                return const(o == "!=")
            c = b_and(*[self.boolterm(self.mkcmp("==", x, y, st), st) for x, y in zip(fa.args, fb.args)])
            return c if o == "==" else b_not(c)
        if fa.op == "set" and fb.op == "set" and o in ("==", "!="):
            if all(x.op == "const" for x in fa.args + fb.args):
                return const((set(fa.args) == set(fb.args)) == (o == "=="))
        return self.mkcmp(o, fa, fb, st)

    def e_Attribute(self, e, st):
        v = self.eval(e.value, st)
        return self.getattr(v, self.mangle(e.attr, st), st, e)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        ix = self.eval_index(e.slice, st)
        return self.load_item(b, ix, st, e)

    def eval_index(self, e, st):
        if isinstance(e, ast.Slice):
            f = lambda x: NONE if x is None else self.freeze(self.eval(x, st), st)
            return mk("slice", f(e.lower), f(e.upper), f(e.step))
        if isinstance(e, ast.Tuple):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    items = self.known_items(self.eval(x.value, st), st)
                    if items is None:
                        raise Undecided("starred index")
                    out += [self.freeze(y, st) for y in items]
                else:
                    out.append(self.eval_index(x, st))
            return mk("tuple", *out)
        v = self.eval(e, st)
        return v if v.op == "ref" and st.obj(v).kind not in ("arr",) else self.freeze(v, st)

    def e_Slice(self, e, st):
        return self.eval_index(e, st)

    def load_item(self, b, ix, st, node):
        b = self.assume_simpl(b, st)
        if b.op == "phi" and any(x.op in ("ref", "tuple") for x in b.args[1:]):
            return self.fork(b.args[0], st, lambda s: self.load_item(b.args[1], ix, s, node), lambda s: self.load_item(b.args[2], ix, s, node))
        if ix.op == "phi" and b.op in ("ref", "tuple") and all(x.op == "const" for x in ix.args[1:]):
            return self.fork(ix.args[0], st, lambda s: self.load_item(b, ix.args[1], s, node), lambda s: self.load_item(b, ix.args[2], s, node))
        if b.op == "tuple":
            return self._seq_item(list(b.args), ix, st, node, "tuple")
        if b.op == "ref":
            o = st.obj(b)
            if o.kind == "arr":
                fi = self.freeze(ix, st)
                t = E.index(self, o.sym, fi)
                if self.facts.is_view_index(fi) and self.facts.kind(t) == "ndarray":
                    return st.alloc(HObj("arr", sym=t, extra=(b, fi)))
                return t
            if o.kind in ("list", "generator"):
                if o.sym is None:
                    return self._seq_item(o.d, ix, st, node, "list")
                return E.index(self, o.sym, self.freeze(ix, st))
            if o.kind == "dict":
                return E.dict_get(self, b, ix, st, node)
            if o.kind == "inst":
                f = self.class_lookup(o.cls, "__getitem__", st)
                if f is not None:
                    return self.call(mk("bound", f, b), [ix], {}, st, node)
            raise Undecided("subscript of " + o.kind)
        if b.op in ("ext", "class"):
            return b                        # generic alias:  type[...]
        return E.index(self, b, self.freeze(ix, st))

    def _seq_item(self, items, ix, st, node, kind):
        if ix.op == "const" and isinstance(cval(ix), (int, bool)):
            i = int(cval(ix))
            if not -len(items) <= i < len(items):
                self.raise_name(st, "IndexError", node)
            return items[i]
        if ix.op == "slice" and all(x.op == "const" for x in ix.args):
            r = items[slice(*[cval(x) for x in ix.args])]
            return mk("tuple", *r) if kind == "tuple" else st.alloc(HObj("list", list(r)))
        fz = [self.freeze(x, st) for x in items]
        return E.index(self, mk(kind, *fz), self.freeze(ix, st))

    # ---- iteration
    def known_items(self, v, st, want=None):
        """list of element values when the number of elements is known"""
        v = self.assume_simpl(v, st)
        if v.op == "tuple":
            return list(v.args)
        if v.op == "ref":
            o = st.obj(v)
            if o.kind in ("list", "generator"):
                return list(o.d) if o.sym is None else self.known_items(o.sym, st, want)
            if o.kind in ("dict", "set"):
                if o.sym is not None:
                    return None
                if any(x is ABSENT or (x.op == "phi" and contains(x, lambda y: y is ABSENT)) for x in o.d.values()):
                    return None
                return list(o.d)
            if o.kind == "arr":
                return self.known_items(o.sym, st, want)
            if o.kind == "inst":
                f = self.class_lookup(o.cls, "__iter__", st)
                if f is not None:
                    return self.known_items(self.call(mk("bound", f, v), [], {}, st), st)
            return None
        if v.op == "list":
            return list(v.args)
        if v.op == "dict":
            return [k for k, _ in v.args[0]]
        if v.op == "set":
            return list(v.args)
        if v.op == "const" and isinstance(cval(v), str):
            return [const(c) for c in cval(v)]
        if v.op == "phi":
            a, b = self.known_items(v.args[1], st, want), self.known_items(v.args[2], st, want)
            if a is not None and b is not None and len(a) == len(b):
                out = State(st.heap, st.frame, st.guard, st.draws)
                return [self.merge_vals(v.args[0], x, y, st, st, st) for x, y in zip(a, b)]
            return None
        if v.op == "call":
            n = callee(v)
            if n == "range":
                a = v.args[1]
                if all(is_num(x) for x in a):
                    r = range(*[int(cval(x)) for x in a])
                    return [const(i) for i in r] if len(r) <= 400 else None
                return None
        k = self.facts.tuple_len(v)
        if k is not None:
            return [E.index(self, v, const(i)) for i in range(k)]
        if want is not None and self.facts.kind(v) in ("ndarray", "unknown"):
            return None
        if v.op == "param":
            m = self.facts.meta.get(v, {})
            if m.get("nitems") is not None:
                return [E.index(self, v, const(i)) for i in range(m["nitems"])]
        return None

    def sym_iter(self, v, st):
        """(number of elements, element function(bv, state))"""
        v = self.assume_simpl(v, st)
        if v.op == "zip":
            parts = [(self.known_items(x, st), x) for x in v.args]
            its = []
            for k, x in parts:
                if k is not None:
                    raise Undecided("zip of known and unknown length: "+" | ".join(show(x,5) for x in v.args))
                its.append(self.sym_iter(x, st))
            n = its[0][0]
            return n, lambda bv, s: mk("tuple", *[f(bv, s) for _, f in its])
        if v.op == "enumerate":
            n, f = self.sym_iter(v.args[0], st)
            return n, lambda bv, s: mk("tuple", add(bv, v.args[1]), f(bv, s))
        if v.op == "reversed":
            n, f = self.sym_iter(v.args[0], st)
            return n, lambda bv, s: f(sub(sub(n, const(1)), bv), s)
        if v.op == "ref":
            o = st.obj(v)
            if o.kind == "arr":
                t = o.sym

                def el(bv, s, ref=v):
                    cur = s.obj(ref).sym
                    x = E.index(self, cur, bv)
                    if self.facts.kind(x) == "ndarray":
                        return s.alloc(HObj("arr", sym=x, extra=(ref, bv)))
                    return x
                return E.length(self, t), el
            if o.kind in ("list", "generator") and o.sym is not None:
                return self.sym_iter(o.sym, st)
            if o.kind == "dict" and o.sym is not None:
                t = mk("keys", o.sym)
                return E.length(self, o.sym), lambda bv, s: E.index(self, t, bv)
            if o.kind == "set" and o.sym is not None:
                return E.length(self, o.sym), lambda bv, s: mk("elem", o.sym, bv)
            if o.kind in ("dict", "set") :
                t = self.freeze(v, st)
                return E.length(self, t), lambda bv, s: mk("elem", t, bv)
            raise Undecided("iteration over " + o.kind)
        if v.op == "call" and v.args[0] == "range":
            a = list(v.args[1])
            if len(a) == 1:
                return a[0], lambda bv, s: bv
            if len(a) == 2:
                return sub(a[1], a[0]), lambda bv, s: add(a[0], bv)
            return mk("call", "rangelen", tuple(a), ()), lambda bv, s: add(a[0], mul(bv, a[2]))
        if v.op == "map":
            return v.args[0], lambda bv, s: E.beta(v, bv, self)
        k = self.facts.kind(v)
        if k in ("set", "dict", "view") or v.op in ("keys", "values", "items"):
            t = v
            if v.op == "values":
                return E.length(self, v.args[0]), lambda bv, s: mk("index", t, bv)
            if v.op == "items":
                d = v.args[0]
                return E.length(self, d), lambda bv, s: mk("tuple", E.index(self, mk("keys", d), bv), E.index(self, mk("values", d), bv))
            if k == "dict":
                return E.length(self, v), lambda bv, s: E.index(self, mk("keys", v), bv)
            return E.length(self, t), lambda bv, s: mk("elem", t, bv)
        if v.op in ("const", "class", "func"):
            self.raise_name(st, "TypeError", None, "not iterable")
        return E.length(self, v), lambda bv, s: E.index(self, v, bv)

    # ---- comprehensions
    def comp(self, e, st, kind):
        frame = new_id()
        parent = st.frame
        pf = st.heap[parent]
        # first iterable is evaluated in the enclosing scope
        first = self.eval(e.generators[0].iter, st)
        par = parent
        st.heap[frame] = HObj("frame", {}, extra={"parent": par, "module": pf.extra["module"], "func": pf.extra.get("func"), "comp": True,
                                                  "def_class": pf.extra.get("def_class") or pf.extra.get("class_term"), "locals": None, "self": pf.extra.get("self"),
                                                  "qual": pf.extra.get("qual"), "super_cls": pf.extra.get("super_cls")})
        acc = st.alloc(HObj("list", []) if kind != "dict" else HObj("dict", {}))
        if kind == "set":
            acc = st.alloc(HObj("list", []))
        accname = f"~acc{frame}"

        def body_ast():
            tgt = ast.Name(id=accname, ctx=ast.Load())
            if kind == "dict":
                leaf = ast.Assign(targets=[ast.Subscript(value=tgt, slice=e.key, ctx=ast.Store())], value=e.value, lineno=e.lineno, col_offset=0)
            else:
                leaf = ast.Expr(value=ast.Call(func=ast.Attribute(value=tgt, attr="append", ctx=ast.Load()), args=[e.elt], keywords=[]), lineno=e.lineno, col_offset=0)
            cur = [leaf]
            for gi, g in reversed(list(enumerate(e.generators))):
                for c in reversed(g.ifs):
                    cur = [ast.If(test=c, body=cur, orelse=[], lineno=e.lineno, col_offset=0)]
                it = g.iter if gi else ast.Name(id=accname + "_it", ctx=ast.Load())
                cur = [ast.For(target=g.target, iter=it, body=cur, orelse=[], lineno=e.lineno, col_offset=0)]
            for x in cur:
                ast.fix_missing_locations(x)
            return cur
        key = (id(e), kind)
        st.frame = frame
        f = st.w(mk("ref", frame))
        f.d[accname] = acc
        f.d[accname + "_it"] = first
        o = self.exec_block(body_ast(), st)
        if o.normal is None:
            raise Dead()
        if o.normal is not st:
            st.become(o.normal)
        st.frame = parent
        fr = st.heap.get(frame)
        if fr is not None and not fr.extra.get("captured"):
            acc = fr.d.get(accname, acc)
            del st.heap[frame]
        return acc

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        r = self.comp(e, st, "list")
        o = st.w(r)
        o.kind = "generator"
        return r

    def e_SetComp(self, e, st):
        r = self.comp(e, st, "set")
        return E.b_set(self, [r], {}, st, e)

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def e_Yield(self, e, st):
        v = NONE if e.value is None else self.eval(e.value, st)
        if self.yield_hook is not None:
            return self.yield_hook(v, st)
        f = st.heap[st.frame]
        acc = f.d.get("__yield__")
        if acc is None:
            raise Undecided("yield")
        E.m_append(self, acc, [v], {}, st, e)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        acc = st.heap[st.frame].d.get("__yield__")
        if acc is None:
            raise Undecided("yield from")
        E.list_extend(self, acc, v, st)
        return NONE

    # ------------------------------------------------------------------ attributes
    def mro(self, c, st):
        key = ("mro", c)
        r = self.fcache.get(key)
        if r is not None:
            return r
        if c.op != "class":
            return [c]
        o = self._class_obj(c, st)
        bases = [b for b in o.extra["bases"]]
        bases = [self._strip_alias(b) for b in bases]
        seqs = [list(self.mro(b, st)) for b in bases if b.op == "class"] + [[b] for b in bases if b.op != "class"] + [[b for b in bases]]
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Undecided("inconsistent class hierarchy " + c.args[0])
            out.append(h)
            seqs = [[x for x in s if x is not h] if s[0] is h else s for s in seqs]
            seqs = [s for s in seqs if s]
        ob = mk("ext", "builtins.object")
        out = [x for x in out if x is not ob] + [ob]
        self.fcache[key] = out
        return out

    def _strip_alias(self, b):
        return b

    def _class_obj(self, c, st):
        ref = self.classes.get(c.args[0])
        if ref is None:
            raise Undecided("unknown class " + c.args[0])
        return st.heap.get(ref.args[0]) or self.root.heap[ref.args[0]]

    def class_lookup(self, c, name, st, after=None):
        """raw attribute from the class (or a base); None if absent"""
        ms = self.mro(c, st)
        if after is not None:
            ms = ms[ms.index(after) + 1:]
        for m in ms:
            if m.op == "class":
                o = self._class_obj(m, st)
                if name in o.d:
                    return o.d[name]
            elif m.op == "ext" and m.args[0].split(".")[-1] not in ("object", "ABC", "Generic", "Protocol", "Enum") and self.exc_bases(m, st) is None:
                return mk("extattr", m, name)
        return None

    def getattr(self, v, name, st, node=None, default=SENT):
        v = self.assume_simpl(v, st)
        if v.op == "phi":
            if any(x.op in ("ref", "class", "func", "tuple", "bound", "ext") for x in v.args[1:]):
                return self.fork(v.args[0], st, lambda s: self.getattr(v.args[1], name, s, node, default), lambda s: self.getattr(v.args[2], name, s, node, default))
        if v.op == "ref":
            o = st.obj(v)
            if o.kind == "module":
                if name in o.d:
                    return o.d[name]
                full = o.extra["module"].name + "." + name
                if full in self.p.modules:
                    return self.load(full, st)
                return self._noattr(v, name, st, node, default)
            if o.kind == "inst":
                return self._inst_attr(v, o, name, st, node, default)
            if o.kind == "arr":
                return E.arr_attr(self, v, o.sym, name, st, node)
            return mk("extbound", v, name)
        if v.op == "class":
            return self._class_attr(v, name, st, node, default)
        if v.op == "super":
            cls, obj = v.args
            rt = st.obj(obj).cls if obj.op == "ref" else obj
            raw = self.class_lookup(rt, name, st, after=cls)
            if raw is None:
                if name == "__init__":
                    return mk("objinit", obj)
                if name in ("__setattr__", "__getattribute__", "__new__", "__init_subclass__", "__delattr__"):
                    return mk("objm", name, obj)
                return self._noattr(v, name, st, node, default)
            return self._bind_raw(raw, obj, rt, st, node)
        if v.op in ("ext", "func", "bound", "exc", "staticmethod", "extattr"):
            if v.op == "ext":
                if name == "__name__":
                    return const(v.args[0].split(".")[-1])
                if v.args[0] == "logging" and not hasattr(logging, name):
                    return self._noattr(v, name, st, node, default)
                return E.ext_value(v.args[0] + "." + name)
            if v.op in ("func", "bound"):
                f = v if v.op == "func" else v.args[0]
                if name in ("__name__", "__qualname__") and f.op == "func":
                    return const(self.funcs[f.args[0]].name)
                return mk("fattr", v, name)
            return mk("attr", v, name)
        if v.op == "const" and isinstance(cval(v), str):
            return mk("extbound", v, name)
        if v is NONE:
            return self._noattr(v, name, st, node, default)
        return E.term_attr(self, v, name, st, node)

    def _noattr(self, v, name, st, node, default):
        if default is not SENT:
            return default
        self.raise_name(st, "AttributeError", node, name)

    def _inst_attr(self, v, o, name, st, node, default):
        raw = self.class_lookup(o.cls, name, st)
        if raw is not None and raw.op == "property":
            return self.call(mk("bound", raw.args[0], v), [], {}, st, node)
        if name in o.d:
            x = o.d[name]
            if x is UNDEF or (x.op == "phi" and UNDEF in x.args[1:]):
                if x is UNDEF:
                    if raw is None:
                        return self._noattr(v, name, st, node, default)
                else:
                    if raw is not None:
                        rv = self._bind_raw(raw, v, o.cls, st, node)
                        return phi(x.args[0], rv if x.args[1] is UNDEF else x.args[1], rv if x.args[2] is UNDEF else x.args[2])
                    if default is not SENT:
                        return phi(x.args[0], default if x.args[1] is UNDEF else x.args[1], default if x.args[2] is UNDEF else x.args[2])
                    return self.use_maybe_undef_attr(x, name, st, node)
            else:
                return self.assume_simpl(x, st) if x.op == "phi" else x
        if raw is not None:
            return self._bind_raw(raw, v, o.cls, st, node)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return mk("instdict", v)
        return self._noattr(v, name, st, node, default)

    def use_maybe_undef_attr(self, v, name, st, node):
        c, a, b = v.args
        bad = c if a is UNDEF else b_not(c)
        s2 = st.copy()
        s2.assume(bad)
        try:
            self.raise_name(s2, "AttributeError", node, name)
        except Dead:
            pass
        st.assume(b_not(bad))
        return b if a is UNDEF else a

    def _class_attr(self, c, name, st, node, default):
        if name == "__name__" or name == "__qualname__":
            return const(c.args[0].split(".")[-1])
        if name == "__mro__":
            return mk("tuple", *self.mro(c, st))
        if name == "__dict__":
            return mk("classdict", c)
        if name == "__module__":
            return const(c.args[0].rsplit(".", 1)[0])
        if name == "mro":
            return mk("extbound", c, "mro")
        raw = self.class_lookup(c, name, st)
        if raw is None:
            if name == "__init__":
                return mk("ext", "builtins.object.__init__")
            return self._noattr(c, name, st, node, default)
        if raw.op == "classmethod":
            return mk("bound", raw.args[0], c)
        if raw.op == "staticmethod":
            return raw.args[0]
        return raw

    def _bind_raw(self, raw, obj, cls, st, node):
        if raw.op == "func":
            if obj.op == "class":
                return raw
            return mk("bound", raw, obj)
        if raw.op == "classmethod":
            return mk("bound", raw.args[0], cls)
        if raw.op == "staticmethod":
            return raw.args[0]
        if raw.op == "property":
            return self.call(mk("bound", raw.args[0], obj), [], {}, st, node)
        return raw

    def setattr(self, o, name, v, st, node=None):
        o = self.assume_simpl(o, st)
        if o.op == "phi":
            self.fork(o.args[0], st, lambda s: (self.setattr(o.args[1], name, v, s, node), NONE)[1], lambda s: (self.setattr(o.args[2], name, v, s, node), NONE)[1])
            return
        if o.op == "ref":
            ob = st.obj(o)
            if ob.kind == "inst":
                if self._class_frozen(ob.cls, st):
                    self.raise_name(st, "AttributeError", node, "frozen " + name)
                self.event("attr-write", st, node, obj=o, name=name, value=v)
                st.w(o).d[name] = v
                return
            if ob.kind == "module":
                self.event("global-write", st, node, name=name, module=ob.extra["module"].name)
                st.w(o).d[name] = v
                return
            if ob.kind == "arr":
                if name in ("shape", "dtype", "strides", "flags"):
                    self.mutated(ob.sym, st, node, "attribute " + name)
                    st.w(o).sym = mk("call", "setattr." + name, (ob.sym, self.freeze(v, st)), ())
                    return
            raise Undecided("attribute store on " + ob.kind)
        if o.op == "class":
            self.event("class-write", st, node, cls=o.args[0], name=name, value=v)
            st.w(self.classes[o.args[0]]).d[name] = v
            return
        if o.op == "func":
            return
        if o.op == "ext":
            self.event("ext-write", st, node, name=o.args[0] + "." + name)
            return
        if o.op == "param":
            self.mutated(o, st, node, "attribute " + name)
            return
        if E.is_logger_term(o):
            self.event("ext-write", st, node, name="logger." + name)
            return
        raise Undecided("attribute store on " + o.op)

    def _class_frozen(self, c, st):
        return any(m.op == "class" and self._class_obj(m, st).extra.get("frozen") for m in self.mro(c, st))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        self.stats["sites"] += 1
        # super()
        if isinstance(f, ast.Name) and f.id == "super":
            fr = st.heap[st.frame]
            if e.args:
                c, o = self.eval(e.args[0], st), self.eval(e.args[1], st)
                return mk("super", c, o)
            x = fr
            while x.extra.get("comp"):
                x = st.heap[x.extra["parent"]]
            c, slf = x.extra.get("super_cls"), x.extra.get("self")
            if c is None:
                raise Undecided("super() outside method")
            return mk("super", c, slf)
        if isinstance(f, ast.Name) and f.id in ("locals", "globals", "eval", "exec", "vars", "dir"):
            raise Undecided(f"{f.id}() at {self.where(e)}")
        fv = self.eval(f, st)
        if fv.op == "ext" and E.is_logger(fv.args[0]) and fv.args[0] != "logging.getLogger":
            return NONE
        if fv.op == "extbound" and E.is_logger_term(fv.args[0]):
            if fv.args[1] not in E.LOGGER_SETTERS:
                return E.logger_query(fv.args[1])
            a = [self.freeze(self.eval(x, st), st) for x in e.args if not isinstance(x, ast.Starred)] + [self.freeze(self.eval(x.value, st), st) for x in e.keywords]
            E.logger_setting(self, fv.args[0], fv.args[1], a, st, e)
            return NONE
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                items = self.known_items(v, st)
                if items is None:
                    fr = self.freeze(v, st)
                    args.append(mk("star", fr))
                else:
                    args += items
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                src = self.eval(k.value, st)
                src = self.assume_simpl(src, st)
                if src.op == "ref" and st.obj(src).kind == "dict" and st.obj(src).sym is None:
                    for kk, vv in st.obj(src).d.items():
                        if kk.op != "const":
                            raise Undecided("** with unknown keys")
                        if cval(kk) in kwargs:
                            self.raise_name(st, "TypeError", e, "multiple values")
                        kwargs[cval(kk)] = vv
                elif src is NONE:
                    self.raise_name(st, "TypeError", e, "argument after ** must be a mapping")
                else:
                    fsrc = self.freeze(src, st)
                    if fsrc.op == "dict" and all(k2.op == "const" for k2, _ in fsrc.args[0]):
                        for kk, vv in fsrc.args[0]:
                            kwargs[cval(kk)] = vv
                    else:
                        raise Undecided(f"** of unknown mapping at {self.where(e)}")
            else:
                if k.arg in kwargs:
                    self.raise_name(st, "TypeError", e, "multiple values")
                kwargs[k.arg] = self.eval(k.value, st)
        return self.call(fv, args, kwargs, st, e)

    def call(self, f, args, kwargs, st, node=None):
        f = self.assume_simpl(f, st)
        self.stats["calls"] += 1
        # maybe-absent keywords: fork
        for k, v in kwargs.items():
            if v is ABSENT:
                kw2 = {a: b for a, b in kwargs.items() if a != k}
                return self.call(f, args, kw2, st, node)
            if v.op == "phi" and contains_absent(v):
                c, a, b = v.args
                return self.fork(c, st, lambda s: self.call(f, args, dict(kwargs, **{k: a}), s, node),
                                 lambda s: self.call(f, args, dict(kwargs, **{k: b}), s, node))
        if f.op == "phi":
            return self.fork(f.args[0], st, lambda s: self.bindable(self.call(f.args[1], args, kwargs, s, node), s),
                             lambda s: self.bindable(self.call(f.args[2], args, kwargs, s, node), s))
        if f.op == "func":
            return self.call_func(f, args, kwargs, st, node)
        if f.op == "bound":
            tgt = f.args[0]
            if tgt.op == "func":
                if self.stub:
                    fn = self.funcs[tgt.args[0]]
                    h = self.stub.get(fn.qual.rsplit(".", 1)[-1])
                    if h is not None:
                        return h(self, f, args, kwargs, st)
                if self.opaque_entropy:
                    r = E.intercept_entropy(self, f, args, kwargs, st, node)
                    if r is not None:
                        return r
                return self.call_func(tgt, [f.args[1]] + args, kwargs, st, node)
            return self.call(tgt, [f.args[1]] + args, kwargs, st, node)
        if f.op == "class":
            return self.instantiate(f, args, kwargs, st, node)
        if f.op == "ext":
            return self.call_ext(f.args[0], args, kwargs, st, node)
        if f.op == "extbound":
            return E.method_call(self, f.args[0], f.args[1], args, kwargs, st, node)
        if f.op == "objinit":
            if args or kwargs:
                self.raise_name(st, "TypeError", node, "object.__init__ takes no arguments: " + ", ".join(list(kwargs)))
            return NONE
        if f.op == "objm":
            if f.args[0] == "__setattr__":
                nm = args[0]
                st.w(f.args[1]).d[cval(nm)] = self.bindable(args[1], st)
                return NONE
            raise Undecided("object." + f.args[0])
        if f.op == "partial":
            g, pa, pk = f.args
            kk = dict(pk)
            kk.update(kwargs)
            return self.call(g, list(pa) + args, kk, st, node)
        if f.op in ("staticmethod",):
            return self.call(f.args[0], args, kwargs, st, node)
        if f.op == "extattr":
            return NONE
        if f.op == "ref" and st.obj(f).kind == "inst":
            g = self.class_lookup(st.obj(f).cls, "__call__", st)
            if g is not None:
                return self.call(mk("bound", g, f), args, kwargs, st, node)
        if f.op == "lam":
            return E.apply_lam(f, [self.freeze(a, st) for a in args])
        if f.op in ("const",):
            self.raise_name(st, "TypeError", node, "not callable")
        if f.op in ("param", "index", "attr", "call", "mcall", "fattr", "boundm", "mu", "bv", "top", "escape", "last"):
            return mk("call", f, tuple(self.freeze(a, st) for a in args), tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items())))
        raise Undecided(f"call of {f.op} at {self.where(node)}")

    def bind_args(self, fn, args, kwargs, st, node):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        slots = {}
        if any(x.op == "star" for x in args):
            raise Undecided(f"call with unpacked sequence of unknown length: {fn.qual}")
        for n, v in zip(pos, args):
            slots[n] = v
        extra = list(args[len(pos):])
        kw_extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in slots:
                    self.raise_name(st, "TypeError", node, f"{fn.qual}() got multiple values for argument '{k}'")
                slots[k] = v
            else:
                kw_extra[k] = v
        if a.vararg:
            slots[a.vararg.arg] = mk("tuple", *[self.bindable(x, st) for x in extra])
        elif extra:
            self.raise_name(st, "TypeError", node, f"{fn.qual}() takes {len(pos)} positional arguments")
        if a.kwarg:
            slots[a.kwarg.arg] = st.alloc(HObj("dict", {const(k): self.bindable(v, st) for k, v in kw_extra.items()}))
        elif kw_extra:
            self.raise_name(st, "TypeError", node, f"{fn.qual}() got an unexpected keyword argument '{next(iter(kw_extra))}'")
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in slots:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.raise_name(st, "TypeError", node, f"{fn.qual}() missing argument '{n}'")
                slots[n] = fn.defaults[j]
        for n in kwonly:
            if n not in slots:
                if n not in fn.kwdefaults:
                    self.raise_name(st, "TypeError", node, f"{fn.qual}() missing keyword-only argument '{n}'")
                slots[n] = fn.kwdefaults[n]
        return {k: self.bindable(v, st) for k, v in slots.items()}

    def call_func(self, f, args, kwargs, st, node, run_ctx=False):
        fn = self.funcs[f.args[0]]
        if fn.kind == "ctx" and not run_ctx:
            return mk("ctx", f, tuple(args), tuple(kwargs.items()))
        slots = self.bind_args(fn, args, kwargs, st, node)
        if self.depth > MAX_DEPTH:
            raise Undecided("call depth bound at " + fn.qual)
        n = fn.node
        frame = new_id()
        first = None
        pos = [x.arg for x in n.args.posonlyargs + n.args.args]
        if fn.cls is not None and pos:
            first = slots[pos[0]]
        elif fn.cls is not None and n.args.vararg:
            t = slots[n.args.vararg.arg]
            first = t.args[0] if t.args else None
        cl = st.heap.get(fn.closure)
        ex = {"parent": fn.closure, "module": fn.module, "func": fn, "locals": E.local_names(n), "super_cls": fn.cls, "self": first,
              "def_class": fn.cls or (cl.extra.get("def_class") if cl is not None else None), "qual": fn.qual}
        if fn.cls is None and cl is not None and cl.extra.get("super_cls") is not None:
            ex["super_cls"], ex["self"] = cl.extra["super_cls"], cl.extra.get("self")
        st.heap[frame] = HObj("frame", slots, extra=ex)
        self.stats["funcs"].add(f"{fn.module.path}:{fn.qual}")
        saved = st.frame
        st.frame = frame
        self.depth += 1
        self.loc.append((fn.module.path, fn.qual, n.lineno))
        gen = fn.is_gen and not run_ctx
        try:
            if isinstance(n, ast.Lambda):
                v = self.eval(n.body, st)
                st.frame = saved
                return v
            if gen:
                st.heap[frame].d["__yield__"] = st.alloc(HObj("list", []))
            guard0 = st.guard
            o = self.exec_block(n.body, st)
            rets = list(o.rets)
            if o.normal is not None:
                rets.append((o.normal, NONE))
            if not rets:
                raise Dead()
            rs, rv = self.merge_many(rets) if len(rets) > 1 else rets[0]
            if rs is not st:
                st.become(rs)
            if len(rets) == 1:
                pass
            if gen:
                rv = st.heap[frame].d["__yield__"]
                ob = st.w(rv)
                ob.kind = "generator"
            st.frame = saved
            fr = st.heap.get(frame)
            if fr is not None and not fr.extra.get("captured"):
                del st.heap[frame]
            return rv
        finally:
            self.depth -= 1
            self.loc.pop()

    def instantiate(self, c, args, kwargs, st, node):
        if self.is_exc_class(c, st):
            return mk("exc", c, tuple(self.freeze(a, st) for a in args))
        o = self._class_obj(c, st)
        ref = st.alloc(HObj("inst", {}, cls=c, extra={"args": tuple(args), "kwargs": tuple(kwargs.items())}))
        init = self.class_lookup(c, "__init__", st)
        if init is None or init.op == "extattr":
            dc = next((m for m in self.mro(c, st) if m.op == "class" and self._class_obj(m, st).extra.get("dataclass")), None)
            if dc is not None:
                self._dataclass_init(ref, self._class_obj(dc, st), args, kwargs, st, node)
                pi = self.class_lookup(c, "__post_init__", st)
                if pi is not None:
                    self.call(mk("bound", pi, ref), [], {}, st, node)
                return ref
            if args or kwargs:
                self.raise_name(st, "TypeError", node, "takes no arguments")
            return ref
        r = self.call(mk("bound", init, ref), args, kwargs, st, node)
        return ref

    def _dataclass_init(self, ref, o, args, kwargs, st, node):
        fields = [f for f in o.extra["fields"] if f[1]]
        names = [f[0] for f in fields]
        slots = dict(zip(names, args))
        if len(args) > len(names):
            self.raise_name(st, "TypeError", node, "too many arguments")
        for k, v in kwargs.items():
            if k not in names:
                self.raise_name(st, "TypeError", node, f"unexpected keyword argument '{k}'")
            if k in slots:
                self.raise_name(st, "TypeError", node, f"multiple values for '{k}'")
            slots[k] = v
        w = st.w(ref)
        for n, _, d in fields:
            if n not in slots:
                if d is None:
                    self.raise_name(st, "TypeError", node, f"missing argument '{n}'")
                slots[n] = d
        for n in names:
            v = slots[n]
            if v.op == "factory":
                v = self.call(v.args[0], [], {}, st, node)
                w = st.w(ref)
            w.d[n] = self.bindable(v, st)

    def call_ext(self, name, args, kwargs, st, node=None):
        self.stats["ext"].add(name)
        return E.call(self, name, args, kwargs, st, node)


def contains_absent(v):
    if v is ABSENT:
        return True
    return v.op == "phi" and (contains_absent(v.args[1]) or contains_absent(v.args[2]))
