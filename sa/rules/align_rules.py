"""P05: which observations are combined (delays, shifts, histories)."""
from .util import *
from .. import spaces
from ..spaces import Form, Unknown, Wrong, name, names, time_index, owners, unconv
from itertools import product

HISTS = {"x": "src_hist_len", "y": "dest_hist_len", "z": "cond_hist_len"}


class NoVal(Exception):
    pass


def ieval(t, env):
    """integer value of an index expression under a valuation of the parameters"""
    if t in env:
        return env[t]
    if t.op == "const":
        v = cval(t)
        if isinstance(v, (int, float)):
            return v
        raise NoVal(show(t, 3))
    if t.op == "lin":
        s = 0
        for m, c in t.args[0]:
            s += c * (1 if m is None else ieval(m, env))
        return s
    if t.op == "mono":
        s = 1
        for b, e in t.args[0]:
            s *= ieval(b, env) ** e
        return s
    if t.op == "phi":
        return ieval(t.args[1] if bval(t.args[0], env) else t.args[2], env)
    n = callee(t)
    if n in ("builtins.max", "builtins.min", "numpy.max", "numpy.min", "numpy.maximum", "numpy.minimum", "numpy.amax"):
        xs = []
        for x in t.args[1]:
            xs += list(x.args) if x.op in ("tuple", "list") else [x]
        vs = [ieval(x, env) for x in xs]
        return max(vs) if "max" in n else min(vs)
    if n in ("builtins.int", "builtins.abs", "numpy.abs", "builtins.float", "astype"):
        v = ieval(t.args[1][0], env)
        return abs(v) if "abs" in n else int(v) if n.endswith("int") else v
    if n in ("floordiv", "operator.floordiv"):
        return ieval(t.args[1][0], env) // ieval(t.args[1][1], env)
    if t.op in ("floordiv", "mod"):
        a, b = (ieval(x, env) for x in t.args[:2])
        return a // b if t.op == "floordiv" else a % b
    raise NoVal(show(t, 3))


def bval(c, env):
    if c.op == "cmp":
        a, b = ieval(c.args[1], env), ieval(c.args[2], env)
        return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[c.args[0]]
    if c.op == "not":
        return not bval(c.args[0], env)
    if c.op == "truth":
        return bool(ieval(c.args[0], env))
    if c.op in ("and", "or"):
        xs = [bval(x, env) for y in c.args for x in (y if isinstance(y, tuple) else (y,))]
        return all(xs) if c.op == "and" else any(xs)
    raise NoVal(show(c, 3))


def params_of(*ts):
    return sorted({x for t in ts for x in walk(t) if x.op == "param"}, key=lambda p: p.args[0])


def equal(a, b, facts, extra=()):
    """True / witness dict / None (not comparable): polynomial identity of two index expressions"""
    if a is b:
        return True
    ps = params_of(a, b)
    dom = []
    for p in ps:
        nm = p.args[0]
        m = facts.meta.get(p, {})
        if nm in ("N", "M") or nm.startswith("N"):
            dom.append((40, 41))
        elif nm in HISTS.values() or nm == "step_size":
            dom.append((1, 2, 3))
        elif m.get("upper") is not None and m["upper"] < 0:
            dom.append((-1, -2))
        elif m.get("kind") == "int":
            dom.append((2, 3))
        else:
            return None
    for vals in product(*dom):
        env = dict(zip(ps, vals))
        try:
            x, y = ieval(a, env), ieval(b, env)
        except NoVal:
            return None
        if x != y:
            return {p.args[0]: v for p, v in env.items()} | {"found": int(x) if x == int(x) else float(x), "required": int(y)}
    return True


def shift_of(t, owner, facts):
    """(offset, length) of the window of the owner's samples a block is computed from"""
    wins = set()

    def go(x, seen):
        if x in seen:
            return
        seen.add(x)
        if x is owner:
            wins.add(None)
            return
        if x.op == "index" and _core(x.args[0]) is owner and x.args[1].op == "slice":
            wins.add(x.args[1])
            return
        if x.op == "index" and x.args[1].op == "tuple" and x.args[1].args and _core(x.args[0]) is owner and x.args[1].args[0].op == "slice":
            wins.add(x.args[1].args[0])
            return
        if x.op in ("len",) or (x.op == "attr" and x.args[1] in ("shape", "size", "ndim", "dtype", "strides")):
            return
        for y in children(x):
            go(y, seen)
    go(t, set())
    if len(wins) != 1:
        raise Unknown(f"windows of {owner.args[0]}: " + ", ".join("all" if w is None else show(w, 3) for w in wins))
    w = next(iter(wins))
    n = facts.meta[owner]["len"]
    if w is None:
        return const(0), n
    a, b, st = w.args
    if st is not NONE and st is not const(1):
        raise Unknown("strided window")
    lo = const(0) if a is NONE else _abs(a, n, facts)
    hi = n if b is NONE else _abs(b, n, facts)
    return lo, sub(hi, lo)


def _core(x):
    x = unconv(x)
    while x.op == "call" and callee(x) in ("numpy.asarray", "astype", "numpy.copy"):
        x = unconv(x.args[1][0])
    return x


def _abs(v, n, facts):
    """absolute position of a slice bound"""
    neg = facts.is_negative(v) if hasattr(facts, "is_negative") else None
    if neg is None:
        if is_num(v):
            neg = cval(v) < 0
        else:
            ps = params_of(v)
            signs = set()
            for vals in product(*[((1, 2, 3) if not (facts.meta.get(p, {}).get("upper") is not None and facts.meta[p]["upper"] < 0) else (-1, -2)) if p.args[0] not in ("N", "M") else (40,) for p in ps]):
                signs.add(ieval(v, dict(zip(ps, vals))) < 0)
            if len(signs) != 1:
                raise Unknown("sign of " + show(v, 3))
            neg = signs.pop()
    if v.op == "phi":
        raise Unknown("slice bound " + show(v, 3))
    return add(n, v) if neg else v


def says(c, key, w, what, got, want, facts):
    r = equal(got, want, facts)
    if r is True:
        c.ok(f"{key}:{what}", show(want, 4)[:120])
    elif r is None:
        c.und(f"{key}:{what}", f"{show(got, 5)[:150]} compared with {show(want, 4)[:100]}", w)
    else:
        c.bad(f"{key}:{what}", w, f"{what} is {show(got, 5)[:160]}, required {show(want, 4)[:120]}; e.g. {r}")


def p05_te(c, sc, opaque):
    s = sc.session(project(), opaque=opaque)
    o, _ = sc.make(s)
    if o is None:
        c.na(str(sc))
        return
    w = where_method(s, sc.qual, "_calculate", "calculate")
    K = s.kwargs
    step = K.get("step_size", const(1))
    hl = {v: K[h] for v, h in HISTS.items() if h in K and (v != "z" or sc.measure == "cte")}
    mx = list(hl.values())
    mxs = mx[0] if len(mx) == 1 else mk("call", "builtins.max", tuple(mx), ())
    if all(is_num(x) for x in mx):
        mxs = const(max(cval(x) for x in mx))
    u = K.get("prop_time", const(0))
    for meth in ("global_val", "local_vals"):
        v, ex = s.method(o, meth)
        if v is None:
            c.na(f"{sc}:{meth}")
            continue
        key = f"{sc}:{meth}"
        f = Form(s.I, sc.measure, K.get("base"))
        try:
            f.value(renorm(s, strip_copies(s.frz(v), s.facts)))
        except (Unknown, Wrong) as e:
            # which terms are combined is P04's subject; the blocks seen so far are still examined
            c.und(key + ":form", str(e), w)
        roles = {}
        for r, bs in f.blocks.items():
            for b in bs:
                roles.setdefault(r, []).append(b)
        fut = roles.get(("y", "now"), [])
        if len(fut) != 1:
            c.und(key + ":future", f"{len(fut)} target futures", w)
            continue
        try:
            fb, _ = time_index(fut[0].args[1])
            own = {p.args[0]: p for p in owners(fut[0].args[0], s.facts)}
            foff, flen = shift_of(fut[0].args[0], P("y"), s.facts)
        except Unknown as e:
            c.und(key + ":future", str(e), w)
            continue
        L = E.length(s.I, fut[0].args[0])
        says(c, key, w, "first target time", fb[0], mul(step, mxs), s.facts)
        says(c, key, w, "spacing of the target times", fb[1], step, s.facts)
        if L is not None:
            says(c, key, w, "end of the target times", add(fb[0], mul(fb[2], fb[1])), L, s.facts)
        else:
            c.und(key + ":end", "length of " + show(fut[0].args[0], 3), w)
        want = {("x", "past"), ("y", "past")} | ({("z", "past")} if sc.measure == "cte" else set())
        for r in sorted(want):
            bs = roles.get(r, [])
            if len(bs) != 1:
                c.und(f"{key}:{name(r)}", f"{len(bs)} blocks", w)
                continue
            b = bs[0]
            try:
                bb, lag = time_index(b.args[1])
                off, ln = shift_of(b.args[0], P(r[0]), s.facts)
            except Unknown as e:
                c.und(f"{key}:{name(r)}", str(e), w)
                continue
            nm = name(r)
            for i, lab in ((0, "first"), (1, "spacing"), (2, "count")):
                if bb[i] is not fb[i]:
                    says(c, key, w, f"{nm} {lab} of the reference times", bb[i], fb[i], s.facts)
            says(c, key, w, f"{nm} number of past values", lag[2], hl[r[0]], s.facts)
            says(c, key, w, f"{nm} spacing of past values", lag[1], step, s.facts)
            # lag relative to the target future, in samples of the caller's series
            shift = mul(u, step) if r[0] == "x" else const(0)
            says(c, key, w, f"{nm} shortest delay", add(lag[0], sub(foff, off)), add(step, shift), s.facts)
        extra = [r for r in roles if r not in want and r != ("y", "now")]
        for r in extra:
            c.bad(f"{key}:{name(r)}", w, f"the transfer entropy uses {name(r)}, which the definition does not contain")
    note_session(s)


def p05_mi(c, sc, opaque):
    s = sc.session(project(), opaque=opaque)
    o, _ = sc.make(s)
    if o is None:
        c.na(str(sc))
        return
    w = where_method(s, sc.qual, "__init__")
    u = s.kwargs.get("offset", const(0))
    neg = s.facts.meta.get(u, {}).get("upper") is not None
    for meth in ("global_val", "local_vals"):
        v, ex = s.method(o, meth)
        if v is None:
            c.na(f"{sc}:{meth}")
            continue
        key = f"{sc}:{meth}"
        f = Form(s.I, sc.measure, s.kwargs.get("base"))
        try:
            f.value(renorm(s, strip_copies(s.frz(v), s.facts)))
        except (Unknown, Wrong) as e:
            c.und(key + ":form", str(e), w)
        win = {}
        try:
            for r, bs in f.blocks.items():
                for b in bs:
                    win.setdefault(r[0], set()).add(shift_of(b, P(r[0]), s.facts))
        except Unknown as e:
            c.und(key, str(e), w)
            continue
        if any(len(x) != 1 for x in win.values()) or not {"x", "y"} <= set(win):
            c.und(key, "windows " + str({k: len(v) for k, v in win.items()}), w)
            continue
        (xo, xl), (yo, yl) = next(iter(win["x"])), next(iter(win["y"]))
        says(c, key, w, "y is paired with x shifted by", sub(yo, xo), u, s.facts)
        n = s.facts.meta[P("x")]["len"]
        full = add(n, u) if neg else sub(n, u)
        says(c, key, w, "number of pairs from x", xl, full, s.facts)
        says(c, key, w, "number of pairs from y", yl, full, s.facts)
        for z in sorted(set(win) - {"x", "y"}):
            zo, zl = next(iter(win[z]))
            says(c, key, w, f"{z} is not shifted", zo, const(0), s.facts)
    note_session(s)


def quiet(q, v):
    return dict(v, noise_level=0) if any(is_(q, n) for n in NOISY) else v


@rule("P05", floor=300,
      rule="for each block of the value graph: time index = reference times - lags with lags step, 2 step, ..., L step for exactly the variable's own history length; target times step*max(L) .. end; the source additionally delayed by prop_time*step; MI pairs x[i] with y[i+offset]",
      explain="time-index decoding of the arrays that enter every joint space; index expressions compared as polynomials/max-forms over the parameters")
def p05(tier):
    jobs = []
    for m, a, q in each_class(("te", "cte")):
        for v in variants(m, a, q)[: (None if tier == "thorough" else 1)]:
            v = quiet(q, v)
            scs = [v, dict(v, ndim=2)]
            if m == "te":
                scs += [dict(v, prop_time=("sym", dict(lower=1))), dict(v, prop_time=("sym", dict(upper=-1)))]
            scs += [dict(v, step_size=2, src_hist_len=2, dest_hist_len=3, **({"cond_hist_len": 1} if m == "cte" else {})),
                    dict(v, step_size=3, src_hist_len=3, dest_hist_len=1, **({"cond_hist_len": 2} if m == "cte" else {}))]
            if m == "cte":
                scs.append(dict(v, step_size=2, src_hist_len=1, dest_hist_len=2, cond_hist_len=3))
            for x in scs:
                sc = Sc(m, a, q, **x)
                jobs.append((f"P05 {sc}", p05_te, (sc, True)))
    for m, a, q in each_class(("mi",)):
        v = quiet(q, variants(m, a, q)[0])
        for x in (dict(v, offset=("sym", dict(lower=1))), dict(v, offset=("sym", dict(upper=-1))), dict(v, offset=0)):
            sc = Sc(m, a, q, **x)
            jobs.append((f"P05 {sc}", p05_mi, (sc, True)))
    return jobs
