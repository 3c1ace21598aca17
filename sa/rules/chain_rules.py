"""P04 chain rules of the composite measures."""
from .util import *
from .. import spaces
from ..spaces import Form, Unknown, Wrong, names, name
from fractions import Fraction as Fr


def chain(measure, nv):
    """documented coefficients of the joint entropies"""
    if measure in ("mi", "cmi"):
        xs = [("xywvu"[i], "") for i in range(nv)]
        z = [("z", "")] if measure == "cmi" else []
        h = {frozenset([x] + z): Fr(1) for x in xs}
        h[frozenset(xs + z)] = Fr(-1)
        if z:
            h[frozenset(z)] = Fr(-1)
        return h, frozenset(xs + z)
    f, yp, xp = ("y", "now"), ("y", "past"), ("x", "past")
    z = [("z", "past")] if measure == "cte" else []
    h = {frozenset([f, yp] + z): Fr(1), frozenset([xp, yp] + z): Fr(1), frozenset([f, xp, yp] + z): Fr(-1), frozenset([yp] + z): Fr(-1)}
    return h, frozenset([f, xp, yp] + z)


def compare(form, measure, nv, what):
    """list of contradictions between a recognised form and the documented chain rule"""
    h, full = chain(measure, nv)
    kinds = {k for k, _ in form.coef}
    tot = sum(h.values())
    out = []

    def cmpk(kind, exp):
        got = {S: c for (k, S), c in form.coef.items() if k == kind}
        for S in sorted(set(got) | set(exp), key=str):
            if got.get(S, Fr(0)) != exp.get(S, Fr(0)):
                out.append(f"{what}: the term of {names(S) if isinstance(S, frozenset) else S} has coefficient {got.get(S, 0)}, the chain rule requires {exp.get(S, 0)} ({kind})")
    if "H" in kinds:
        cmpk("H", h)
    elif "logn" in kinds:
        e = {S: -c for S, c in h.items()}
        if tot:
            e[frozenset()] = tot
        cmpk("logn", e)
        if form.npow:
            # log N written with len(): equivalent to the total count
            pass
    elif "logp" in kinds:
        cmpk("logp", {S: -c for S, c in h.items()})
    elif "psi" in kinds:
        e = {S: -c for S, c in h.items() if S != full}
        got = {S: c for (k, S), c in form.coef.items() if k == "psi"}
        ks = [S for S in got if isinstance(S, tuple)]
        if len(ks) != 1 or got[ks[0]] != 1:
            out.append(f"{what}: psi of the number of neighbours must enter once with +1, found {[(k, str(got[k])) for k in ks]}")
        n = got.get("N", Fr(0))
        if n != tot and not (measure == "cmi" and nv > 2 and n == 0):
            out.append(f"{what}: psi of the number of observations has coefficient {n}, the chain rule requires {tot}")
        for S in sorted(set(x for x in got if isinstance(x, frozenset)) | set(e), key=str):
            if got.get(S, Fr(0)) != e.get(S, Fr(0)):
                out.append(f"{what}: psi of the neighbours in {names(S)} has coefficient {got.get(S, 0)}, the chain rule requires {e.get(S, 0)}")
    else:
        raise Unknown("no recognised terms")
    if len(kinds & {"H", "logn", "logp", "psi"}) > 1:
        raise Unknown("mixed terms")
    if "K" in kinds:
        e = {S: c / 2 for S, c in h.items()}
        if tot:
            e[()] = -tot / 2
        got = {S: c for (k, S), c in form.coef.items() if k == "K"}
        got[()] = got.get((), Fr(0)) + form.coef.get(("N^-1", ()), Fr(0))
        for S in sorted(set(got) | set(e), key=str):
            if got.get(S, Fr(0)) != e.get(S, Fr(0)):
                out.append(f"{what}: the bias correction of {names(S) if S else 'the constant'} is {got.get(S, 0)}/N times the cells, the corrected entropies require {e.get(S, 0)}/N")
    for r, bs in form.blocks.items():
        if len(bs) > 1:
            out.append(f"{what}: two different versions of {name(r)} are combined: " + " / ".join(show(b, 4)[:120] for b in sorted(bs)[:2]))
    for k, vs in form.settings.items():
        if len(vs) > 1:
            out.append(f"{what}: the terms use different {k}: " + " / ".join(show(v, 4)[:100] if isinstance(v, T) else ", ".join(f"{a}={show(b, 2)}" for a, b in v)[:120] for v in list(vs)[:2]))
    return out


def lengths(s, form):
    """every averaging length is the number of observations of the blocks"""
    ls = {E.length(s.I, b) for bs in form.blocks.values() for b in bs}
    return [o for o in form.obs if o not in ls and o.op == "param"]


def varying(t):
    """the axes S whose joint table has more than one cell, if t states that"""
    if t.op == "cmp":
        op, a, b = t.args
        for x, y, flip in ((a, b, False), (b, a, True)):
            if is_num(x):
                z = y
                if z.op == "len" or (z.op == "attr" and z.args[1] == "size"):
                    m = spaces.margin(z.args[0])
                    if m is not None:
                        return m, op, cval(x), not flip
    return None


def early_ok(form, cond):
    """None if unrecognised, else a list of contradictions: an early zero must imply that at most one variable varies"""
    if cond.op == "cmp" and cond.args[0] == "==" and any(is_num(x) and cval(x) == 0 for x in cond.args[1:]) and any(x.op == "len" for x in cond.args[1:]):
        return []
    atoms = {}
    for x in walk(cond):
        v = varying(x)
        if v is not None:
            tb, keep = v[0]
            S = frozenset(r for i in keep for r in form.space(tb.axes[i]))
            atoms.setdefault(S, []).append((x, v))
    if not atoms:
        return None
    Ss = sorted(atoms, key=str)
    for bits in range(1 << len(Ss)):
        varies = {S: bool(bits >> i & 1) for i, S in enumerate(Ss)}
        env = {}
        for S in Ss:
            size = 2 if varies[S] else 1
            for x, (m, op, k, const_left) in atoms[S]:
                l, r = (k, size) if const_left else (size, k)
                env[x] = {"==": l == r, "!=": l != r, "<": l < r, "<=": l <= r}[op]
        v = truthval(cond, env)
        if v is None:
            return None
        if v and sum(varies.values()) >= 2:
            return [f"the calculation is skipped (zero returned) although {' and '.join(names(S) for S in Ss if varies[S])} vary"]
    return []


def truthval(t, env):
    if t in env:
        return int(env[t])
    if t.op == "const":
        return cval(t)
    if t.op == "not":
        v = truthval(t.args[0], env)
        return None if v is None else int(not v)
    if t.op in ("and", "or"):
        vs = [truthval(x, env) for x in t.args]
        if None in vs:
            return None
        return int(all(vs) if t.op == "and" else any(vs))
    if t.op == "lin":
        tot = 0
        for m, k in t.args[0]:
            v = 1 if m is None else truthval(m, env)
            if v is None:
                return None
            tot += k * v
        return tot
    if t.op == "cmp":
        a, b = truthval(t.args[1], env), truthval(t.args[2], env)
        if a is None or b is None:
            return None
        return int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b}.get(t.args[0], False))
    if t.op == "phi":
        v = truthval(t.args[0], env)
        return None if v is None else truthval(t.args[1] if v else t.args[2], env)
    if t.op == "call" and callee(t) in ("astype", "builtins.int", "builtins.bool", "builtins.float") or t.op == "truth":
        return truthval(t.args[1][0] if t.op == "call" else t.args[0], env)
    return None


def p04_job(c, sc, opaque):
    m, nv = sc.measure, sc.o.get("nvars", 2)
    for lf in ((False, True) if opaque else (False,)):
        s = sc.session(project(), opaque=opaque, local_fails=lf)
        o, _ = sc.make(s)
        if o is None:
            c.na(str(sc))
            return
        w = where_method(s, sc.qual, "_calculate", "calculate")
        for meth in ("global_val", "local_vals"):
            v, ex = s.method(o, meth)
            if v is None:
                c.na(f"{sc}:{meth}")
                continue
            g = renorm(s, strip_copies(s.frz(v), s.facts))
            key = f"{sc}:{meth}" + (":entropies without locals" if lf else "")
            f = Form(s.I, m, s.kwargs.get("base"))
            try:
                f.value(g)
                bad = compare(f, m, nv, "global value" if meth == "global_val" else "local values")
                for cond, _ in f.early:
                    r = early_ok(f, cond)
                    if r is None:
                        c.und(key + ":early", "condition of the early zero: " + show(cond, 5)[:200], w)
                    else:
                        bad += r
                wl = lengths(s, f)
                if wl:
                    bad.append(f"averaged over {show(wl[0], 3)} instead of the number of observations")
                if bad:
                    for i, b in enumerate(bad[:4]):
                        c.bad(f"{key}:{i}", w, b)
                else:
                    c.ok(key, "; ".join(f"{'' if co > 0 else '-'}{abs(co) if abs(co) != 1 else ''}{k}{names(S) if isinstance(S, frozenset) else S}" for (k, S), co in sorted(f.coef.items(), key=str))[:220])
            except Wrong as e:
                c.bad(key, w, str(e))
            except Unknown as e:
                from .oracle import refute
                r = refute(sc, meth)
                if r:
                    c.bad(key, w, "not the documented combination of the entropies of the joint observations: " + r)
                else:
                    c.und(key, str(e), w)
        note_session(s)


def p04_scs(tier):
    out = []
    for m, a, q in each_class(("mi", "cmi", "te", "cte")):
        for v in variants(m, a, q):
            if any(is_(q, n) for n in NOISY):
                v = dict(v, noise_level=0)
            vs = [v]
            if m in ("mi", "cmi"):
                vs.append(dict(v, nvars=3))
                vs.append(dict(v, nvars=4))
                if tier == "thorough":
                    vs.append(dict(v, nvars=5))
            vs.append(dict(v, ndim=2))
            if "noise_level" in v:
                vs.append({k: x for k, x in v.items() if k != "noise_level"})
            for x in vs:
                out.append(Sc(m, a, q, **x))
    return out


@rule("P04", floor=150,
      rule="the coefficient of every joint space (entropy object, contingency count, neighbour count, density) in the value graph equals the coefficient of the documented chain rule; every space is built from the same blocks and parameters",
      explain="linear-form extraction from the value graph of global_val() and local_vals() of every registered MI/CMI/TE/CTE class; spaces are decoded from the arrays actually passed to the entropy estimator, table, tree or density")
def p04(tier):
    return [(f"P04 {sc}", p04_job, (sc, True)) for sc in p04_scs(tier)]
