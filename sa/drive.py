"""Scenarios: which public entry point is analysed, on which abstract inputs.

An abstract input is a symbolic parameter together with typing facts (array rank, numeric lower bound,
finite set of string values ...).  Nothing here names a private helper of the analysed package; the
entry points are the classes of the public registries, the functional API, Config and DiscreteData.
"""
from __future__ import annotations
import ast
import sys
import threading
from .terms import *
from .state import *
from .loader import Project
from .models import Facts
from .interp import Interp
from . import ext as E

PKG = "infomeasure"
REG = PKG + ".estimators.functional"
REGS = {"entropy": "entropy_estimators", "mi": "mi_estimators", "cmi": "cmi_estimators",
        "te": "te_estimators", "cte": "cte_estimators"}


def P(name):
    return mk("param", name)


# typing facts of keyword parameters, by public keyword name
PARAM_FACTS = {
    "k": dict(kind="int", lower=1),
    "K": dict(kind="int", lower=1, notnone=True),
    "alpha": dict(kind="float", lower=0, ne=(1, 0), notnone=True),
    "q": dict(kind="float", lower=0, ne=(1, 0), notnone=True),
    "noise_level": dict(kind="float", lower=0, ne=(0,)),
    "minkowski_p": dict(kind="float", lower=1),
    "bandwidth": dict(kind="float", lower=0, ne=(0,), notnone=True),
    "embedding_dim": dict(kind="int", lower=2),
    "undersampled": dict(kind="float", lower=0),
    "workers": dict(kind="int", lower=1),
    "step_size": dict(kind="int", lower=1),
    "prop_time": dict(kind="int"),
    "offset": dict(kind="int"),
    "src_hist_len": dict(kind="int", lower=1),
    "dest_hist_len": dict(kind="int", lower=1),
    "cond_hist_len": dict(kind="int", lower=1),
    "seed": dict(kind="int", lower=0),
    "stable": dict(kind="bool"),
    "normalize": dict(kind="bool"),
    "base": dict(kind="float", lower=0, ne=(2, "e", 10, 0), notnone=True),
}
REQUIRED = ("kernel", "bandwidth", "embedding_dim", "alpha", "q")


class Session:
    """one abstract run: facts + state + helper calls"""

    def __init__(self, project, opaque=False, local_fails=False, skip=None, implicit=False):
        self.facts = Facts()
        self.I = Interp(project, self.facts, opaque_entropy=opaque, implicit=implicit)
        self.I.opaque_local_fails = local_fails
        self.I.opaque_skip = skip
        self.I.load(PKG)
        for m in sorted(project.modules):
            self.I.load(m)
        self.st = self.I.fresh_state()
        self.obj = None
        self.exits = []

    # -------------------------------------------------------------- values
    def arr(self, name, ndim=1, length=None, dtype=None, owner=True, cols=None):
        t = P(name)
        n = length if length is not None else P("N")
        if n.op == "param" and n not in self.facts.meta:
            self.facts.declare(n, kind="int", lower=2)
        m = dict(kind="ndarray", ndim=ndim, owner=owner, notnone=True)
        if ndim == 1:
            m["len"] = n
            m["shape"] = (n,)
        else:
            d = cols if cols is not None else P("d_" + name)
            if d.op == "param":
                self.facts.declare(d, kind="int", lower=2)
            m["len"] = n
            m["shape"] = (n, d)
        if dtype:
            m["dtype"] = dtype
        self.facts.declare(t, **m)
        return t

    def num(self, name, **m):
        t = P(name)
        base = dict(PARAM_FACTS.get(name, {}))
        base.update(m)
        self.facts.declare(t, **base)
        return t

    # -------------------------------------------------------------- calls
    def module(self, name):
        return self.I.modrefs[name]

    def cls(self, qualname):
        mod, name = qualname.rsplit(".", 1)
        return self.I.getattr(self.I.load(mod, self.st), name, self.st)

    def pub(self, name, mod=PKG):
        return self.I.getattr(self.I.load(mod, self.st), name, self.st)

    def registry(self, measure):
        m = self.I.modrefs[REG]
        r = self.st.obj(m).d.get(REGS[measure])
        if r is None or r.op != "ref":
            raise Undecided("registry " + REGS[measure] + " is not a literal mapping")
        out = {}
        for k, v in self.st.obj(r).d.items():
            if k.op != "const" or v.op != "const":
                raise Undecided("registry entry is not a literal")
            out[cval(k)] = cval(v)
        return out

    def attempt(self, fn):
        """run fn(); returns (value or None when no path returns normally, list of exceptional exits)"""
        self.I.collectors.append([])
        try:
            try:
                v = fn()
            except Dead:
                v = None
        finally:
            ex = self.I.collectors.pop()
        return v, ex

    def call(self, f, *args, **kwargs):
        return self.attempt(lambda: self.I.call(f, list(args), kwargs, self.st, None))

    def new(self, c, *args, **kwargs):
        r, ex = self.attempt(lambda: self.I.instantiate(c, list(args), kwargs, self.st, None))
        return r, ex

    def method(self, obj, name, *args, **kwargs):
        return self.attempt(lambda: self.I.call(self.I.getattr(obj, name, self.st), list(args), kwargs, self.st, None))

    def frz(self, v):
        return None if v is None else self.I.freeze(v, self.st)


def init_params(interp, c, st):
    """keyword names accepted by the constructor chain of class term c (explicit ones), with default flag"""
    out = {}
    for m in interp.mro(c, st):
        if m.op != "class":
            continue
        raw = interp._class_obj(m, st).d.get("__init__")
        if raw is None or raw.op != "func":
            continue
        fn = interp.funcs[raw.args[0]][0] if isinstance(interp.funcs[raw.args[0]], tuple) else interp.funcs[raw.args[0]]
        node = getattr(fn, "node", fn)
        a = node.args
        pos = list(a.posonlyargs) + list(a.args)
        nd = len(pos) - len(a.defaults)
        for i, x in enumerate(pos):
            if i == 0:
                continue
            out.setdefault(x.arg, i >= nd)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            out.setdefault(x.arg, d is not None)
        if a.kwarg is None:
            break
    return out


def big(fn, *args):
    """run fn in a thread with a deep stack"""
    box = {}

    def go():
        try:
            box["v"] = fn(*args)
        except BaseException as e:   # noqa
            box["e"] = e
    old = threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    threading.stack_size(old)
    if "e" in box:
        raise box["e"]
    return box["v"]


# ---------------------------------------------------------------- scenarios
HIST = ("src_hist_len", "dest_hist_len", "cond_hist_len")


def joint_names(k):
    return (["x", "y", "z", "w", "v", "u"] + [f"x{i}" for i in range(6, k)])[:k]


class Sc:
    """one scenario: measure, approach, options.  Options not given take the analysed package's default."""

    def __init__(self, measure, approach, qual, **o):
        self.measure, self.approach, self.qual, self.o = measure, approach, qual, o

    def __repr__(self):
        return f"{self.measure}/{self.approach}" + (" [" + ", ".join(f"{k}={v}" for k, v in sorted(self.o.items())) + "]" if self.o else "")

    def session(self, project, **kw):
        s = Session(project, **kw)
        s.sc = self
        return s

    def inputs(self, s):
        """(args, kwargs) of the constructor / functional call"""
        o = self.o
        nd = o.get("ndim", 1)
        nv = o.get("nvars", 2)
        dts = o.get("dtype")
        lens = o.get("lens") or {}

        def A(n):
            ln = (lens[n] if isinstance(lens[n], T) else P(lens[n])) if n in lens else None
            if o.get("lists"):
                t = P(n)
                L = ln or P("N")
                if L not in s.facts.meta:
                    s.facts.declare(L, kind="int", lower=2)
                s.facts.declare(t, kind="list", len=L, owner=True, notnone=True, elem="float")
                return t
            d = nd.get(n, 1) if isinstance(nd, dict) else nd
            return s.arr(n, ndim=d, length=ln, dtype=dts.get(n) if isinstance(dts, dict) else dts)
        if self.measure == "entropy":
            if o.get("joint"):
                args = [mk("tuple", *[A(joint_names(o["joint"])[i]) for i in range(o["joint"])])]
            elif o.get("cross"):
                args = [A("x"), A("y")]
                if o.get("lens") is None and o["cross"] != "same":
                    td = dts if isinstance(dts, dict) else {"x": dts, "y": dts}
                    args = [s.arr("x", ndim=nd, dtype=td.get("x")), s.arr("y", ndim=nd, length=P("M"), dtype=td.get("y"))]
            else:
                args = [A("x")]
        elif self.measure in ("mi", "cmi"):
            args = [A("xywvu"[i]) for i in range(nv)]
        else:
            args = [A("x"), A("y")]
        kw = {}
        c = s.cls(self.qual)
        names = init_params(s.I, c, s.st)
        if self.measure in ("cmi", "cte"):
            kw["cond"] = A("z")
        for n in names:
            if n in o:
                v = o[n]
                if v == "sym":
                    kw[n] = s.num(n)
                elif isinstance(v, tuple) and v and v[0] == "sym":
                    kw[n] = s.num(n, **v[1])
                elif isinstance(v, T):
                    kw[n] = v
                else:
                    kw[n] = const(v)
            elif n in REQUIRED or (n in ("k",) and "k" not in o):
                if n == "kernel":
                    kw[n] = const("box")
                else:
                    kw[n] = s.num(n)
            elif n in HIST and self.measure in ("te", "cte"):
                kw[n] = s.num(n)
            elif n == "step_size" and (self.measure in ("te", "cte") or "ordinal" in self.qual):
                kw[n] = s.num(n)
        b = o.get("base", "b")
        if b == "b":
            kw["base"] = s.num("base")
        elif b is not None:
            kw["base"] = const(b)
        if o.get("seed") is not None and self.accepts_seed(s, c):
            kw["seed"] = s.num("seed")
        return args, kw

    def accepts_seed(self, s, c):
        return any(m.op == "class" and m.args[0].endswith("RandomGeneratorMixin") for m in s.I.mro(c, s.st)) or "seed" in init_params(s.I, c, s.st)

    def make(self, s):
        args, kw = self.inputs(s)
        s.args, s.kwargs = args, kw
        c = s.cls(self.qual)
        s.obj, ex = s.new(c, *args, **kw)
        s.init_exits = ex
        return s.obj, ex


def approaches(project):
    """{measure: {qualname: [approach aliases]}} read from the registries of the analysed source"""
    s = Session(project)
    out = {}
    for m in REGS:
        d = {}
        for a, q in s.registry(m).items():
            d.setdefault(q, []).append(a)
        out[m] = d
    return out
