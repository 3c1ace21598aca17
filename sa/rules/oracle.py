"""Documented values of the composite measures at a valuation: chain rule of the entropies of the joint observations.

Used only to refute: a value graph that differs from this at a valuation is not the documented combination.
The entropies are those of the analysed entropy class (its value graph at the joint observations), the neighbour
counts of the nearest-neighbour measures are counted from the definition."""
import math
from .util import *
from .chain_rules import chain
from .. import val

MEM = {}


def entropies(a, opts):
    """value graphs of the entropy of rows: {method: graph}"""
    key = (a, str(sorted(opts.items(), key=str)))
    if key not in MEM:
        out = None
        for m, b, q in each_class(("entropy",)):
            if b == a or a.startswith(b) and not out:
                from .prep_rules import value
                try:
                    s, o, out = value(Sc("entropy", a, q, ndim=2, **opts))
                except Undecided:
                    out = None
        MEM[key] = out
    return MEM[key]


def histories(env, m):
    """columns (name, when) -> list of rows"""
    g = lambda n, d=1: env.get(P(n), d)
    wrap = lambda v: [r if isinstance(r, list) else [r] for r in v]
    x, y = wrap(env[P("x")]), wrap(env[P("y")])
    z = wrap(env[P("z")]) if m == "cte" else None
    st = g("step_size")
    p = g("prop_time", 0) * st
    if p < 0:
        return None
    if p:
        x, y = x[:len(x) - p], y[p:]
        z = z[p:] if z else z
    h = {"x": g("src_hist_len"), "y": g("dest_hist_len"), "z": g("cond_hist_len") if m == "cte" else 1}
    d = max(h.values()) * st if m == "cte" else max(h["x"], h["y"]) * st
    ts = range(d, len(y), st)
    past = lambda v, n: [[c for j in range(h[n], 0, -1) for c in v[t - j * st]] for t in ts]
    out = {("y", "now"): [y[t] for t in ts], ("y", "past"): past(y, "y"), ("x", "past"): past(x, "x")}
    if z:
        out[("z", "past")] = past(z, "z")
    return out


def columns(env, sc):
    m, nv = sc.measure, sc.o.get("nvars", 2)
    if m in ("te", "cte"):
        return histories(env, m)
    wrap = lambda v: [r if isinstance(r, list) else [r] for r in v]
    out = {(n, ""): wrap(env[P(n)]) for n in "xywvu"[:nv]}
    if m == "cmi":
        out[("z", "")] = wrap(env[P("z")])
    return out


def join(cols, S):
    ks = sorted(S)
    return [[c for k in ks for c in cols[k][i]] for i in range(len(cols[ks[0]]))]


def ksg(sc, env, cols):
    h, full = chain(sc.measure, sc.o.get("nvars", 2))
    k, p = env[P("k")], env.get(P("minkowski_p"), math.inf) if sc.o.get("minkowski_p") == "sym" else sc.o.get("minkowski_p", math.inf)
    J = join(cols, full)
    n = len(J)
    if k >= n:
        return None
    D = {S: None for S in h}
    def dm(S):
        R = join(cols, S)
        return [[val.dist(a, b, p) for b in R] for a in R]
    dj = dm(full)
    eps = [sorted(r)[k] for r in dj]
    if any(e == 0 for e in eps):
        return None
    typ = sc.o.get("ksg_id", 1)
    loc = [val.digamma(k) - (1 / k if typ == 2 else 0)] * n
    tot = sum(h.values())
    if tot and not (sc.measure == "cmi" and sc.o.get("nvars", 2) > 2):
        loc = [v + float(tot) * val.digamma(n) for v in loc]
    for S, c in h.items():
        if S == full:
            continue
        d = dm(S)
        for i in range(n):
            cnt = sum(1 for j in range(n) if j != i and (d[i][j] < eps[i] if typ == 1 else d[i][j] <= eps[i])) + 1
            loc[i] -= float(c) * val.digamma(cnt)
    b = env.get(P("base"))
    loc = [v / math.log(b) if b else v for v in loc]
    return {"global_val": sum(loc) / n, "local_vals": loc}


def patterns(v, d, st):
    """the order of every window of d observations, st apart"""
    return [tuple(sorted(range(d), key=lambda j: v[i + j * st])) for i in range(len(v) - (d - 1) * st)]


def plug_in(rows, b):
    """entropy of the relative frequencies of the rows, and its local values"""
    n, cnt = len(rows), {}
    for r in rows:
        cnt[r] = cnt.get(r, 0) + 1
    loc = [-math.log(cnt[r] / n) / math.log(b) for r in rows]
    return sum(loc) / n, loc


def ordinal(sc, env):
    """the discrete measure of the order patterns"""
    opt = lambda n, d: (lambda v: env.get(P(n), d) if isinstance(v, (str, tuple, T)) else v)(sc.o.get(n, "sym"))
    d, st, b = opt("embedding_dim", None), opt("step_size", 1), env[P("base")]
    m = sc.measure
    if m == "entropy" and sc.o.get("cross"):
        p, q = ([patterns(env[P(n)], d, st) for n in "xy"])
        fr = lambda r, k: r.count(k) / len(r)
        both = set(p) & set(q)
        return {"global_val": -sum(fr(p, k) * math.log(fr(q, k)) for k in both) / math.log(b)} if both else None
    names = (["x", "y", "z", "w"] if m == "entropy" else ["x", "y", "w", "v"])[:int(sc.o.get("joint", 0)) or (1 if m == "entropy" else 2 if m in ("te", "cte") else sc.o.get("nvars", 2))] + (["z"] if m in ("cmi", "cte") else [])
    if sc.o.get("joint") is True:
        names = ["x", "y"]
    if any(len(env[P(n)]) < (d - 1) * st + 1 for n in names):
        return None
    sym = {n: patterns(env[P(n)], d, st) for n in names}
    if m == "entropy":
        g, loc = plug_in(list(zip(*sym.values())), b)
        return {"global_val": g, "local_vals": loc}
    if m in ("te", "cte"):
        if opt("prop_time", 0):
            return None
        cols = histories({**env, **{P(n): [[r] for r in v] for n, v in sym.items()}, P("prop_time"): 0, P("step_size"): st}, m)
    else:
        cols = {(n, ""): [[r] for r in v] for n, v in sym.items()}
    h, full = chain(m, sc.o.get("nvars", 2))
    N = len(next(iter(cols.values())))
    if N < 1:
        return None
    tot, loc = 0.0, [0.0] * N
    for S, k in h.items():
        g, l = plug_in([tuple(r) for r in join(cols, S)], b)
        tot += float(k) * g
        loc = [a + float(k) * y for a, y in zip(loc, l)]
    return {"global_val": tot, "local_vals": loc}


def reference(sc, env, base="sym"):
    """{method: value} or None"""
    if is_(sc.qual, "ordinal"):
        return ordinal(sc, env)
    cols = columns(env, sc)
    if cols is None:
        return None
    if is_(sc.qual, "kraskov"):
        return ksg(sc, env, cols)
    opts = {k: v for k, v in sc.o.items() if k in ("kernel", "alpha", "q", "K", "noise_level", "base", "k", "bandwidth")}
    G = entropies(sc.approach, opts)
    if not G:
        return None
    h, full = chain(sc.measure, sc.o.get("nvars", 2))
    out = {"global_val": 0.0, "local_vals": None}
    vals = {}
    for S in h:
        R = join(cols, S)
        e = dict(env)
        for p in list(e):
            if p.op == "param" and p.args[0] in ("x", "y", "w", "v", "z", "N", "M"):
                del e[p]
        e.update({P("x"): R, P("N"): len(R), P("d_x"): len(R[0])})
        vals[S] = {m: None if g is None else val.Ev(e)(g) for m, g in G.items()}
    n = len(next(iter(cols.values())))
    out["global_val"] = sum(float(c) * vals[S]["global_val"] for S, c in h.items())
    if all(vals[S].get("local_vals") is not None for S in h):
        out["local_vals"] = [sum(float(c) * vals[S]["local_vals"][i] for S, c in h.items()) for i in range(n)]
    return out


DISC = {"x": [1, 2, 2, 3, 1, 2, 3, 1], "y": [0, 1, 1, 0, 0, 1, 1, 0], "w": [2, 2, 1, 1, 2, 1, 1, 2], "v": [1, 1, 0, 0, 1, 0, 0, 0], "u": [0, 0, 2, 0, 2, 2, 0, 2], "z": [0, 0, 1, 1, 1, 0, 1, 1]}
CONT = {k: [((i * i * (7 + j) + 3 * i * j + 5 * j) % 23) / 2 + 0.0625 * i for i in range(9)] for j, k in enumerate("xywvzu")}
SET = {"k": 2, "base": 3.0, "minkowski_p": 3.0, "bandwidth": 2.5, "alpha": 1.75, "q": 1.25, "K": 11, "src_hist_len": 2, "dest_hist_len": 1, "cond_hist_len": 3, "step_size": 1, "prop_time": 0, "offset": 0}


SERIES = {"x": [4, 1, 7, 3, 9, 2, 8, 5, 6, 0.5, 3.5, 11, 10.5, 2.25, 12], "y": [2, 8, 1, 5, 9, 4, 3, 7, 6, 10, 0, 2.5, 11, 0.5, 8.5], "z": [5, 3, 8, 1, 2, 9, 7, 0, 4, 6, 1.5, 12, 3.5, 10, 2.5],
          "w": [1, 6, 2, 9, 5, 7, 0, 8, 3, 4, 13, 2.5, 5.5, 1.5, 4.5], "v": [1, 4, 3, 2, 7, 6, 5, 9, 8, 0, 11, 10, 2.5, 13, 4.5]}


def ordinal_envs(sc):
    out = []
    for d, st, more in ((3, 1, {}), (2, 1, {}), (3, 2, {P("src_hist_len"): 2, P("cond_hist_len"): 2}), (4, 2, {}), (2, 3, {P("dest_hist_len"): 2}), (3, 7, {}), (8, 2, {}), (15, 1, {})):
        e = {P(k): v for k, v in SET.items()}
        e.update({P("src_hist_len"): 1, P("dest_hist_len"): 1, P("cond_hist_len"): 1, P("N"): 15, P("M"): 15, P("embedding_dim"): d, P("step_size"): st, P("stable"): False})
        e.update({P(k): [float(x) for x in v] for k, v in SERIES.items()})
        e.update(more)
        out.append(e)
        if sc.o.get("cross"):
            out.append({**e, P("y"): e[P("y")][:11], P("M"): 11})
    return out


def envs_of(sc):
    if is_(sc.qual, "ordinal"):
        return ordinal_envs(sc)
    D = CONT if any(n in sc.qual for n in ("kernel", "kraskov", "renyi", "tsallis")) else DISC
    n = len(D["x"])
    e = {P(k): v for k, v in SET.items()}
    for k, v in D.items():
        nd = sc.o.get("ndim", 1)
        nd = nd.get(k, 1) if isinstance(nd, dict) else nd
        e[P(k)] = v if nd == 1 else [[a, b] for a, b in zip(v, v[1:] + v[:1])]
        e[P("d_" + k)] = 2
    e[P("N")] = n
    return [e, {**e, P("src_hist_len"): 1, P("dest_hist_len"): 2, P("cond_hist_len"): 1, P("k"): 1}]


def known(ref, meth):
    v = (ref or {}).get(meth)
    if v is None:
        raise val.NoAnswer("no documented value")
    return v


def refute(sc, meth, noise=True):
    """None, or text: the value graph at some valuation is not the documented combination of the entropies"""
    from .prep_rules import value
    from .valid_rules import init_params_of
    o = dict(sc.o)
    if "noise_level" in init_params_of(sc.measure, sc.approach, sc.qual):
        o["noise_level"] = 0
    sc = Sc(sc.measure, sc.approach, sc.qual, **o)
    key = (str(sc), meth)
    if key not in MEM:
        MEM[key] = None
        try:
            s, _, out = value(sc)
            g = out.get(meth)
            if g is not None:
                d = val.separate(g, lambda e: known(reference(sc, e), meth), envs_of(sc), more=True, ties=not is_(sc.qual, "ordinal"))
                if d:
                    r = lambda v: f"{v:.6g}" if isinstance(v, float) else "[" + ", ".join(f"{x:.4g}" for x in v[:4]) + ", ...]" if isinstance(v, list) else str(v)
                    rest = ", ".join(f"{p.args[0]}={v if not isinstance(v, list) else v[:12]}" for p, v in sorted(d[0].items(), key=str) if p.op == "param" and mentions(g, p))
                    MEM[key] = f"{r(d[1])} instead of {r(d[2])} at {rest}"[:600]
        except (val.NoAnswer, Undecided):
            pass
    return MEM[key]
