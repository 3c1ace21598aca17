"""P12 every way of asking for a measure gives the same estimator and the same value."""
from .util import *
from .. import val
from ..spaces import Form, Unknown, Wrong, names
from .formula_rules import XS, CX, CX2, PS

PUBS = dict(entropy=("entropy", "h"), cross=("cross_entropy", "hx", "entropy", "h"), mi=("mutual_information", "mi"),
            cmi=("conditional_mutual_information", "cmi", "mutual_information", "mi"), te=("transfer_entropy", "te"),
            cte=("conditional_transfer_entropy", "cte", "transfer_entropy", "te"))
EST = dict(entropy=("entropy", "h"), cross=("cross_entropy", "hx", "entropy"), mi=("mutual_information", "mi", "Mutual-Information", "mutual information"),
           cmi=("conditional_mutual_information", "cmi", "mi", "mutual_information"), te=("transfer_entropy", "te", "Transfer-Entropy", "transfer entropy"),
           cte=("conditional_transfer_entropy", "cte", "te", "transfer_entropy"))
SETTINGS = ("k", "K", "alpha", "q", "noise_level", "minkowski_p", "bandwidth", "embedding_dim", "undersampled", "workers", "step_size", "prop_time", "offset",
            "src_hist_len", "dest_hist_len", "cond_hist_len", "seed", "stable", "base")


def full(m, q, **more):
    """every setting given, with a symbolic value"""
    o = {n: "sym" for n in SETTINGS if n not in ("base", "seed")}
    o["workers"] = 1
    if m not in ("te", "cte"):      # literal values, as estimator() treats the default specially
        o["step_size"] = 3
    o.update(more)
    if m == "cmi":
        o.pop("offset", None)
    if m == "cte":
        o.pop("offset", None)
        o.pop("prop_time", None)
    if m == "te":
        o.pop("offset", None)
    if m == "mi" and more.get("nvars", 2) > 2:
        o.pop("offset", None)
    return o


def scs(tier):
    for m, a, q in each_class():
        base = [{}]
        if is_(q, "kernel"):
            base = [dict(kernel="box"), dict(kernel="gaussian")]
        if (is_(q, "kraskov") or is_(q, "kozachenko")):
            base = [dict(ksg_id=2)]
        for v in base:
            yield m, a, q, full(m, q, **v)
            if is_(q, "ordinal") and m not in ("te", "cte"):
                yield m, a, q, full(m, q, **v, step_size=1)
                yield m, a, q, full(m, q, **v, step_size=2)
                yield m, a, q, full(m, q, **v, step_size=("sym", dict(kind="int", lower=2)))
                yield m, a, q, full(m, q, **v, step_size=1, joint=2) if m == "entropy" else full(m, q, **v, step_size=1, nvars=3)
            if m == "entropy":
                yield m, a, q, full(m, q, joint=2, **v)
                yield m, a, q, full(m, q, cross=True, **v)
            if m in ("mi", "cmi"):
                yield m, a, q, full(m, q, nvars=3, **v)
                if is_(q, "kernel") or is_(q, "kraskov") or is_(q, "renyi"):
                    yield m, a, q, full(m, q, normalize=True, **v)


def tag(m, a, o):
    keep = {k: v for k, v in o.items() if v != "sym" and k != "workers" and (k, v) != ("step_size", 3)}
    return f"{m}/{a}" + (" " + str(keep) if keep else "")


def ask(sc, how):
    """graph of the global value, asked for in the given way; None when it is rejected"""
    s = sc.session(project(), opaque=sc.measure != "entropy")
    args, kw = sc.inputs(s)
    kind, name, a = how[:3]
    if len(how) > 3:
        kw = dict(kw, **how[3])
    if kind == "class":
        ob, ex = s.new(s.cls(sc.qual), *args, **kw)
        v, ex2 = s.method(ob, "global_val") if ob is not None else (None, [])
    elif kind == "get":
        c, ex = s.call(s.pub("get_estimator_class"), measure=const(name), approach=const(a))
        if c is None:
            return s, None, ex
        ob, ex = s.new(c, *args, **kw)
        v, ex2 = s.method(ob, "result") if ob is not None else (None, [])
    elif kind == "pub":
        v, ex = s.call(s.pub(name), *args, approach=const(a), **kw)
    else:
        ob, ex = s.call(s.pub("estimator"), *args, measure=const(name), approach=const(a), **kw)
        v, ex2 = s.method(ob, "result") if ob is not None else (None, [])
    note_session(s)
    return s, (None if v is None else strip_copies(s.frz(v), s.facts)), ex


def p12_job(c, m, a, q, o, names):
    sc = Sc(m, a, q, **o)
    t = tag(m, a, o)
    s0, ref, _ = ask(sc, ("class", None, None))
    grp = "cross" if o.get("cross") else m
    hows = []
    meas = EST[grp][:1] if m == "entropy" else EST[grp][:2]
    for n in PUBS[grp]:
        hows.append(("pub", n, a))
    for n in EST[grp]:
        hows.append(("estimator", n, a))
    for n in ("entropy", "h") if m == "entropy" else EST[m][:2]:
        hows.append(("get", n, a))
    for al in names:
        if al != a:
            hows.append(("pub", PUBS[grp][0], al))
            hows.append(("estimator", EST[grp][0], al))
    hows.append(("pub", PUBS[grp][0], a.upper()))
    hows.append(("estimator", EST[grp][0], a.title()))
    if m in ("mi", "te"):       # an explicit cond=None is no condition
        for n in PUBS[grp]:
            hows.append(("pub", n, a, {"cond": const(None)}))
        for n in EST[grp][:2]:
            hows.append(("estimator", n, a, {"cond": const(None)}))
    for how in hows:
        key = f"{t}:{how[0]}({how[1]}, {how[2]}{', cond=None' if len(how) > 3 else ''})"
        s, g, ex = ask(sc, how)
        w = "infomeasure/estimators/functional.py " + (how[1] if how[0] == "pub" else "get_estimator_class" if how[0] == "get" else "estimator")
        if ref is None:
            if g is None:
                c.ok(key, "both are rejected")
            else:
                c.bad(key, w, f"a value although the class rejects the request: {show(g, 3)[:150]}")
        elif g is None:
            c.bad(key, w, f"rejected ({sorted({str(exc_name(e.exc)) for e in ex})}) although the class {short(q)} accepts the request")
        elif same(g, ref):
            c.ok(key)
        else:
            verdict(c, key, w, s, sc, g, ref)


def verdict(c, key, w, s, sc, g, ref):
    """differing graphs: name what differs if that is conclusive"""
    pa = {x for x in walk(g) if x.op == "param"}
    pb = {x for x in walk(ref) if x.op == "param"}
    ha = {x.args[1] for x in walk(g) if x.op == "H"}
    hb = {x.args[1] for x in walk(ref) if x.op == "H"}
    if ha != hb:
        c.bad(key, w, f"another entropy estimator is used: {show_diff(g, ref)}")
    elif pa != pb:
        c.bad(key, w, f"settings or data do not arrive: {sorted(x.args[0] for x in pa ^ pb)} ({show_diff(g, ref)})")
    elif any(structural(x, y) for x, y in differing(g, ref)):
        c.bad(key, w, f"the value is not the one of the class: {show_diff(g, ref)}")
    else:
        d = conclusive(s, sc, g, ref)
        if d is True:
            c.ok(key, "equal linear forms over joint spaces")
        elif d:
            c.bad(key, w, d)
        else:
            c.und(key, show_diff(g, ref), w)


def conclusive(s, sc, g, ref):
    """True: the graphs are equal linear forms; text: they are shown to differ; None: not known"""
    if sc.measure == "entropy":
        envs = []
        for i, x in enumerate(XS[:6] + CX):
            y = (XS + CX)[(i * 5 + 3) % 8]
            nd = sc.o.get("ndim", 1)
            for b in (2.0, 3.0):
                e = {P("x"): x, P("y"): y, P("N"): len(x), P("M"): len(y), P("base"): b, P("step_size"): 1, P("embedding_dim"): 2, P("offset"): 0, P("stable"): True,
                     P("minkowski_p"): 3.0, P("noise_level"): 0, P("undersampled"): 0.1}
                for k, v in PS.items():
                    e[P(k)] = v[i % len(v)]
                envs.append(e)
        try:
            d = val.separate(g, ref, envs, more=True)
        except val.NoAnswer:
            return None
        return f"the value is not the one of the class: {show_diff(g, ref)}" if d else None
    fs = []
    for t in (g, ref):
        f = Form(s.I, sc.measure, s.kwargs.get("base") if hasattr(s, "kwargs") else P("base"))
        try:
            f.value(renorm(s, t))
        except Wrong as e:
            return str(e) if t is g else None
        except Unknown:
            return None
        fs.append(f)
    a, b = fs
    co = {k: v for k, v in a.coef.items() if v}, {k: v for k, v in b.coef.items() if v}
    if co[0] != co[1]:
        ks = sorted({str(k) for k in set(co[0]) | set(co[1]) if co[0].get(k) != co[1].get(k)})
        return f"the value is not the one of the class: the terms {ks[:3]} differ"
    if {k: len(v) for k, v in a.settings.items()} == {k: len(v) for k, v in b.settings.items()} and a.settings == b.settings and a.blocks == b.blocks and not a.early and not b.early:
        return True
    return None


def differing(a, b):
    a, b = canon_ids(renum(strip_copies(a))), canon_ids(renum(strip_copies(b)))
    d = first_diff(a, b)
    return [d] if d else []


def structural(x, y):
    """the differing pair is conclusive: two distinct inputs/settings/constants"""
    leaf = ("param", "const", "class", "ext")
    return x.op in leaf and y.op in leaf and x is not y


def errs_job(c):
    """requests that must be rejected with ValueError, whatever the data"""
    s0 = Session(project())

    def data(s, n):
        return [s.arr("xyzw"[i]) for i in range(n)]
    cases = []
    for f in ("entropy", "h"):
        cases.append((f"{f}: unknown approach", f, 1, dict(approach="no such approach")))
        cases.append((f"{f}: no approach", f, 1, dict(approach=None)))
    for f in ("cross_entropy", "hx"):
        cases.append((f"{f}: one data set", f, 1, dict(approach="discrete")))
        cases.append((f"{f}: unknown approach", f, 2, dict(approach="no such approach")))
    for f in ("mutual_information", "mi"):
        cases.append((f"{f}: unknown approach", f, 2, dict(approach="no such approach")))
        cases.append((f"{f}: unknown approach with condition", f, 2, dict(approach="no such approach", cond=1)))
        cases.append((f"{f}: one variable", f, 1, dict(approach="discrete")))
    for f in ("conditional_mutual_information", "cmi"):
        cases.append((f"{f}: no condition", f, 2, dict(approach="discrete")))
        cases.append((f"{f}: one variable", f, 1, dict(approach="discrete", cond=1)))
    for f in ("transfer_entropy", "te"):
        cases.append((f"{f}: unknown approach", f, 2, dict(approach="no such approach")))
        cases.append((f"{f}: one series", f, 1, dict(approach="discrete")))
        cases.append((f"{f}: three series", f, 3, dict(approach="discrete")))
    for f in ("conditional_transfer_entropy", "cte"):
        cases.append((f"{f}: no condition", f, 2, dict(approach="discrete")))
        cases.append((f"{f}: one series", f, 1, dict(approach="discrete", cond=1)))
        cases.append((f"{f}: three series", f, 3, dict(approach="discrete", cond=1)))
    e = "estimator"
    cases += [(f"{e}: no measure", e, 1, dict(approach="discrete")), (f"{e}: unknown measure", e, 1, dict(approach="discrete", measure="no such measure")),
              (f"{e}: no data", e, 0, dict(approach="discrete", measure="entropy")), (f"{e}: three data sets", e, 3, dict(approach="discrete", measure="entropy")),
              (f"{e}: entropy with condition", e, 1, dict(approach="discrete", measure="entropy", cond=1)),
              (f"{e}: cross-entropy of one", e, 1, dict(approach="discrete", measure="cross_entropy")),
              (f"{e}: CMI without condition", e, 2, dict(approach="discrete", measure="cmi")),
              (f"{e}: MI without data", e, 0, dict(approach="discrete", measure="mi")),
              (f"{e}: CTE without condition", e, 2, dict(approach="discrete", measure="cte")),
              (f"{e}: TE of one", e, 1, dict(approach="discrete", measure="te")), (f"{e}: TE of three", e, 3, dict(approach="discrete", measure="te"))]
    for mm in ("entropy", "mi", "cmi", "te", "cte"):
        n = 1 if mm == "entropy" else 2
        for ap in ("no such approach", None):
            d = dict(approach=ap, measure=mm)
            if mm in ("cmi", "cte"):
                d["cond"] = 1
            cases.append((f"{e}: {mm} of approach {ap}", e, n, d))
    g = "get_estimator_class"
    cases += [(f"{g}: no measure", g, 0, dict(approach="discrete")), (f"{g}: unknown measure", g, 0, dict(measure="no such measure", approach="discrete"))]
    for mm in ("entropy", "mi", "cmi", "te", "cte"):
        cases.append((f"{g}: {mm} of unknown approach", g, 0, dict(measure=mm, approach="no such approach")))
    for key, f, n, kw in cases:
        s = Session(project(), opaque=True)
        d = data(s, n)
        kws = {}
        for k, v in kw.items():
            if k == "cond":
                kws[k] = s.arr("c")
            elif v is not None:
                kws[k] = const(v)
        r, ex = s.call(s.pub(f), *d, **kws)
        note_session(s)
        w = f"infomeasure/estimators/functional.py {f}"
        names = sorted({str(exc_name(x.exc)) for x in ex})
        if r is not None:
            c.bad("rejects " + key, w, f"a value is returned: {show(s.frz(r), 3)[:120]}")
        elif names and all(x in ("ValueError",) for x in names):
            c.ok("rejects " + key)
        elif f == "entropy" or "no approach" in key or "approach None" in key:
            c.ok("rejects " + key, str(names))
        else:
            c.bad("rejects " + key, w, f"rejected with {names} instead of ValueError")


def reg_job(c):
    """each name of a registry denotes the same estimator in all measures, and every estimator has a name"""
    s = Session(project())
    r = {m: s.registry(m) for m in REGS}
    note_session(s)
    w = "infomeasure/estimators/functional.py"
    bases = dict(entropy="EntropyEstimator", mi="MutualInformationEstimator", cmi="ConditionalMutualInformationEstimator",
                 te="TransferEntropyEstimator", cte="ConditionalTransferEntropyEstimator")
    for m in REGS:
        for a, q in r[m].items():
            try:
                cl = s.cls(q)
            except (Undecided, Dead):
                cl = None
            if cl is None or cl.op != "class":
                c.bad(f"registry {m}/{a}", w, f"{q} is not a class of the package")
                continue
            fam = [x.args[0].rsplit(".", 1)[-1] for x in s.I.mro(cl, s.st) if x.op == "class"]
            c.put(f"registry {m}/{a}", bases[m] in fam, w, f"the approach {a!r} of {m} is {short(q)}, which is no {bases[m]}")
    ms = ("mi", "cmi", "te", "cte")
    for i, m in enumerate(ms):
        for n in ms[i + 1:]:
            for a in r[m]:
                for b in r[m]:
                    if a < b and a in r[n] and b in r[n]:
                        x, y = r[m][a] == r[m][b], r[n][a] == r[n][b]
                        c.put(f"names {a}/{b} in {m} and {n}", x == y, w, f"{a!r} and {b!r} are the same estimator for one of {m}, {n} only")
    for n in ms:
        for a in r["entropy"]:
            for b in r["entropy"]:
                if a < b and a in r[n] and b in r[n]:
                    x, y = r["entropy"][a] == r["entropy"][b], r[n][a] == r[n][b]
                    c.put(f"names {a}/{b} in entropy and {n}", x == y, w, f"{a!r} and {b!r} are the same estimator for one of entropy, {n} only")


def family_job(c, m, a, q, names, o):
    """a measure computed from entropies uses the entropy estimator of the same name"""
    ent = {al: qq for qq, als in regs()["entropy"].items() for al in als}
    s = Sc(m, a, q, **o).session(project(), opaque=True)
    ob, _ = Sc(m, a, q, **o).make(s) if False else s.sc.make(s)
    if ob is None:
        c.na(tag(m, a, o))
        return
    g, _ = s.method(ob, "global_val")
    note_session(s)
    if g is None:
        c.na(tag(m, a, o))
        return
    hs = {x.args[1] for x in walk(s.frz(g)) if x.op == "H"}
    key = f"{tag(m, a, o)}:estimator"
    want = {ent[al] for al in names if al in ent}
    if not hs:
        c.ok(key, "no entropy estimator is used")
    elif not want:
        c.na(key, "no entropy approach of this name")
    else:
        got = {x.args[0] if isinstance(x, T) else x for x in hs}
        c.put(key, all(any(str(x) == y or str(x).endswith(y) for y in want) for x in got), where_method(s, q, "_calculate"),
              f"{m} of approach {a!r} is computed with {sorted(short(str(x)) for x in got)} instead of {sorted(short(x) for x in want)}")


@rule("P12", floor=600,
      rule="the value graph of every public way of asking for a measure (class, get_estimator_class, estimator() with every measure spelling, functions and their short names, every approach alias, other letter case) equals that of the class with the same symbolic settings; invalid requests have only ValueError exits; composite measures use the entropy class registered under the same name",
      explain="one value graph per (class, option variant, way of asking) with every accepted setting given a symbolic value, compared as hash-consed normal forms")
def p12(tier):
    out = [("P12 errors", errs_job, ()), ("P12 registry", reg_job, ())]
    r = regs()
    for m, a, q, o in scs(tier):
        out.append((f"P12 {tag(m, a, o)}", p12_job, (m, a, q, o, tuple(r[m][q]))))
    for m, a, q in each_class(("mi", "cmi", "te", "cte")):
        for v in variants(m, a, q):
            out.append((f"P12 family {m}/{a} {v}", family_job, (m, a, q, tuple(r[m][q]), v)))
    return out
