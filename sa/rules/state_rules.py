"""P01 caller data, P07 state after tests, P08 seeded randomness, P09 caching, P19 process-global state."""
from .util import *


def life_scenarios(tier):
    """scenarios that exercise every public method of every estimator class"""
    out = []
    for m, a, q in each_class():
        vs = variants(m, a, q)
        for v in vs:
            out.append(Sc(m, a, q, seed=True, **v))
            out.append(Sc(m, a, q, ndim=2, seed=True, **v))
        v = vs[0]
        if m == "entropy":
            out.append(Sc(m, a, q, joint=2, seed=True, **v))
            out.append(Sc(m, a, q, cross=True, seed=True, **v))
        if m in ("mi", "cmi"):
            out.append(Sc(m, a, q, nvars=3, seed=True, **v))
        if is_(q, "kernel") or any(is_(q, n) for n in NOISY):
            if m in ("mi", "cmi"):
                out.append(Sc(m, a, q, normalize=True, seed=True, **v))
        if any(is_(q, n) for n in NOISY) and not (m == "entropy" and not is_(q, "koz")):
            out.append(Sc(m, a, q, noise_level=0, seed=True, **v))
            out.append(Sc(m, a, q, noise_level="sym", seed=True, **v))
        if m == "mi":
            out.append(Sc(m, a, q, offset=("sym", dict(lower=1)), seed=True, **v))
            out.append(Sc(m, a, q, offset=("sym", dict(upper=-1)), seed=True, **v))
        if m == "te":
            out.append(Sc(m, a, q, prop_time=("sym", dict(lower=1)), seed=True, **v))
            out.append(Sc(m, a, q, prop_time=("sym", dict(upper=-1)), seed=True, **v))
        if is_(q, "kernel"):
            out += [Sc(m, a, q, seed=True, **dict(x, workers=-1)) for x in vs]
        if is_(q, ".ordinal"):
            for e in (1, 2, 3):
                out.append(Sc(m, a, q, embedding_dim=e, seed=True))
            out.append(Sc(m, a, q, stable=True, seed=True))
        if tier == "thorough":
            out.append(Sc(m, a, q, lists=True, seed=True, **v))
            out.append(Sc(m, a, q, dtype="int", seed=True, **v))
            out.append(Sc(m, a, q, dtype="float", seed=True, **v))
            if m in ("mi", "cmi"):
                out.append(Sc(m, a, q, ndim={"x": 2}, seed=True, **v))
        else:
            out.append(Sc(m, a, q, dtype="float", seed=True, **v))
    return out


METHODS = (("global_val", {}), ("local_vals", {}), ("result", {}))


def run_life(s, tests=True):
    """construct, then every public method; returns the list of methods that can complete"""
    o, _ = s.sc.make(s)
    done = []
    if o is None:
        return done
    done.append("__init__")
    for n, k in METHODS:
        v, _ = s.method(o, n, **k)
        if v is not None:
            done.append(n)
    if tests and s.sc.measure != "entropy":
        for meth in ("permutation_test", "bootstrap"):
            v, _ = s.method(o, "statistical_test", n_tests=s.num("n_tests", kind="int", lower=2), method=const(meth))
            if v is not None:
                done.append("statistical_test:" + meth)
            if s.sc.measure in ("te", "cte"):
                v, _ = s.method(o, "effective_val", method=const(meth))
                if v is not None:
                    done.append("effective_val:" + meth)
    return done


# ------------------------------------------------------------------ P01
def p01_job(c, sc):
    s = sc.session(project())
    done = run_life(s)
    note_session(s)
    owners = {t for t, m in s.facts.meta.items() if m.get("owner")}
    n = 0
    for e in s.I.events:
        if e["kind"] != "mutate":
            continue
        n += 1
        hit = [r for r in e["roots"] if r in owners]
        if hit:
            c.bad(f"{sc}:{e['where'].split(' ')[-1]}", e["where"],
                  f"{e['how']} writes into memory of the caller's argument {', '.join(r.args[0] for r in hit)} (via {' > '.join(e['stack'][-4:])})")
    if not any(x["status"] == "violation" for x in c):
        c.ok(str(sc), f"{n} in-place writes examined, none reaches a caller array; methods {','.join(done)}")


def p01_api(c):
    """the remaining public callables taking data"""
    for name, call in API_CALLS.items():
        s = Session(project())
        call(s)
        note_session(s)
        owners = {t for t, m in s.facts.meta.items() if m.get("owner")}
        bad = [e for e in s.I.events if e["kind"] == "mutate" and any(r in owners for r in e["roots"])]
        for e in bad:
            c.bad(f"{name}:{e['where'].split(' ')[-1]}", e["where"], f"{e['how']} writes into the caller's argument")
        if not bad:
            c.ok(name, f"{sum(e['kind'] == 'mutate' for e in s.I.events)} in-place writes examined")


def _kld(name, approach, **kws):
    def f(s):
        fn = s.pub(name)
        n = 2
        v, ex = s.call(fn, *[s.arr("pq"[i]) for i in range(n)], approach=const(approach), **{k: (const(v) if not isinstance(v, str) or v not in ("sym",) else s.num(k)) for k, v in kws.items()})
        return v
    return f


def _dd(meth):
    def f(s):
        c = s.pub("DiscreteData", PKG + ".utils.data")
        fn = s.I.getattr(c, meth, s.st)
        if meth == "from_data":
            return s.call(fn, s.arr("x"))[0]
        return s.call(fn, uniq=s.arr("u"), counts=s.arr("n", dtype="int"))[0]
    return f


def _stat(meth, *a):
    def f(s):
        c = s.pub("StatisticalTestResult", PKG + ".utils.data")
        o, _ = s.new(c, p_value=s.num("p", kind="float"), t_score=s.num("t", kind="float"), test_values=s.arr("tv"), observed_value=s.num("ov", kind="float"),
                     null_mean=s.num("nm", kind="float"), null_std=s.num("ns", kind="float"), n_tests=s.num("nt", kind="int"), method=const("bootstrap"))
        return s.method(o, meth, *[s.num(x, kind="float", lower=1, upper=99) for x in a])[0]
    return f


API_CALLS = {
    "kullback_leiber_divergence/discrete": _kld("kullback_leiber_divergence", "discrete"),
    "kullback_leiber_divergence/kernel": _kld("kullback_leiber_divergence", "kernel", bandwidth="sym", kernel="box"),
    "kullback_leiber_divergence/metric": _kld("kullback_leiber_divergence", "metric"),
    "jensen_shannon_divergence/discrete": _kld("jensen_shannon_divergence", "discrete"),
    "jensen_shannon_divergence/kernel": _kld("jensen_shannon_divergence", "kernel", bandwidth="sym", kernel="gaussian"),
    "DiscreteData.from_data": _dd("from_data"),
    "DiscreteData.from_counts": _dd("from_counts"),
    "StatisticalTestResult.percentile": _stat("percentile", "q"),
    "StatisticalTestResult.confidence_interval": _stat("confidence_interval", "cl"),
}


@rule("P01", floor=150,
      rule="no in-place write (augmented assignment, item assignment, out=, shuffle/sort, in-place method) reachable from a public call has a storage root that is a caller argument",
      explain="whole-package abstract interpretation from every public entry point; every recorded in-place write is checked by a may-alias storage analysis (views, slices, reshape/T/ravel, asarray, astype copy=False)")
def p01(tier):
    jobs = [(f"P01 {sc}", p01_job, (sc,)) for sc in life_scenarios(tier)]
    jobs.append(("P01 api", p01_api, ()))
    return jobs


# ------------------------------------------------------------------ P08
def leaves(t):
    """what a conditional value may be"""
    return [y for x in t.args[1:] for y in leaves(x)] if t.op == "phi" else [t]


def p08_job(c, sc):
    s = sc.session(project())
    done = run_life(s)
    note_session(s)
    seed = P("seed")
    gave = seed in s.facts.meta
    n = 0
    drew = False
    for e in s.I.events:
        k = f"{sc}:{e['where'].split(' ')[-1]}"
        if e["kind"] == "nondet":
            c.bad(k, e["where"], f"uses {e['name']}: a source of randomness/nondeterminism not controlled by the seed")
        elif e["kind"] == "rng-create":
            n += 1
            if any(not mentions(x, seed) for x in leaves(e["seed"])):
                if gave:
                    c.bad(k, e["where"], f"creates a random generator from {show(e['seed'])} although a seed was given")
        elif e["kind"] == "draw":
            n += 1
            drew = True
            r = e["rng"]
            if not gave:
                c.bad(k, e["where"], f"draws random numbers but the class does not accept a seed")
            elif not mentions(r, seed) and r.op != "mu":
                if r.op in ("call", "const", "param", "ext"):
                    c.bad(k, e["where"], f"draws from {show(r)} which is not the seeded generator")
                else:
                    c.und(k, "generator " + show(r))
        elif e["kind"] == "ext-effect" and "seed" in e["name"] or (e["kind"] == "ext-effect" and "set_state" in e["name"]):
            c.bad(k, e["where"], f"changes the global random state ({e['name']})")
    if not any(x["status"] != "ok" for x in c):
        c.ok(str(sc), f"{n} generator creations/draws, all derived from the seed; methods {','.join(done)}")


def p08_default(c, sc):
    """without a seed the generator must be freshly created per estimator, never a shared module-level one"""
    s = sc.session(project())
    o, _ = sc.make(s)
    need(o, str(sc))
    if sc.measure == "entropy":
        s.method(o, "global_val")
    else:
        s.method(o, "statistical_test", n_tests=s.num("n_tests", kind="int", lower=2), method=const("bootstrap"))
    note_session(s)
    for e in s.I.events:
        k = f"{sc}:{e['where'].split(' ')[-1]}"
        if e["kind"] == "nondet":
            c.bad(k, e["where"], f"uses {e['name']}")
        if e["kind"] == "rng-create" and e["seed"] is not NONE:
            if is_num(e["seed"]):
                c.bad(k, e["where"], f"creates a generator with the fixed seed {show(e['seed'])} when none was requested")
    if not len(c):
        c.ok(str(sc))


@rule("P08", floor=150,
      rule="effect analysis: every random draw reachable from a public method is made on a generator built from the `seed` argument; no global random state, clock, id/hash or entropy source is consulted",
      explain="generator provenance: the receiver of each draw is a value whose definition contains default_rng(seed); calls to the forbidden sources are recorded as events on every feasible path")
def p08(tier):
    jobs = [(f"P08 {sc}", p08_job, (sc,)) for sc in life_scenarios(tier) if not sc.o.get("lists")]
    for m, a, q in each_class():
        jobs.append((f"P08 noseed {m}/{a}", p08_default, (Sc(m, a, q, **variants(m, a, q)[0]),)))
    return jobs


# ------------------------------------------------------------------ P19
GLOBAL_OK = set()


def p19_job(c, sc):
    s = sc.session(project())
    n0 = len(s.I.events)
    done = run_life(s)
    note_session(s)
    for e in s.I.events[n0:]:
        k = f"{sc}:{e['where'].split(' ')[-1]}"
        if e["kind"] == "global-write":
            c.bad(k, e["where"], f"writes module variable {e['module']}.{e['name']}")
        elif e["kind"] == "class-write":
            c.bad(k, e["where"], f"writes class attribute {e['cls']}.{e['name']}")
        elif e["kind"] in ("ext-effect", "ext-write"):
            c.bad(k, e["where"], f"process-wide effect {e['name']}")
        elif e["kind"] == "nondet" and e["name"].startswith(("numpy.random.", "random.")):
            c.bad(k, e["where"], f"uses and changes the process-wide random state ({e['name']})")
    # module / class objects must be unchanged: containers reachable from module and class namespaces
    ch = changed_globals(s)
    for k2, w in ch:
        c.bad(f"{sc}:{k2}", w, f"the shared object {k2} is modified by using an estimator")
    if not len(c):
        c.ok(str(sc), f"methods {','.join(done)}")


def changed_globals(s):
    """mutable containers of modules and classes whose abstract content differs from import time"""
    out = []
    root = s.I.root
    for i, o in root.heap.items():
        if o.kind in ("module", "class", "dict", "list", "set"):
            n = s.st.heap.get(i)
            if n is None or n is o:
                continue
            if n.kind in ("module", "class"):
                for k in set(o.d) | set(n.d):
                    if o.d.get(k) is not n.d.get(k):
                        nm = o.extra["module"].name if n.kind == "module" else str(o.cls or o.extra.get("qual") or "class")
                        out.append((f"{nm}.{k}", nm))
            elif (n.sym is not None and n.sym is not o.sym) or n.d != o.d:
                out.append((_name_of(root, i), "module level"))
    return out


def _name_of(root, i):
    for o in root.heap.values():
        if o.kind in ("module", "class"):
            for k, v in o.d.items():
                if v.op == "ref" and v.args[0] == i:
                    return (o.extra["module"].name + "." if o.kind == "module" else "") + str(k)
    return f"object {i}"


@rule("P19", floor=150,
      rule="constructing and using estimators writes no module variable, no class attribute, no module/class-level container, no numpy/logging/os/random global setting",
      explain="effect analysis over every feasible path of the public methods; heap comparison of all module- and class-level objects with their import-time content")
def p19(tier):
    return [(f"P19 {sc}", p19_job, (sc,)) for sc in life_scenarios(tier) if not sc.o.get("lists")]


# ------------------------------------------------------------------ P09
def _vals(s, order):
    out = {}
    for n in order:
        v, ex = s.method(s.obj, n)
        out[n] = (None if v is None else s.frz(v), [exc_name(e.exc) for e in ex])
    return out


def p09_job(c, sc):
    s = sc.session(project())
    need(sc.make(s)[0], str(sc))
    w = where_method(s, sc.qual, "global_val")
    g1, _ = s.method(s.obj, "global_val")
    if g1 is None:
        c.na(str(sc), "global value unsupported")
        return
    g1 = s.frz(g1)
    n = len(s.I.events)
    d = s.st.draws
    g2, _ = s.method(s.obj, "global_val")
    g2 = s.frz(need(g2, "second global_val"))
    redo = [e for e in s.I.events[n:] if e["kind"] in ("draw", "H")]
    if g1 is g2 and not redo:
        c.ok(f"{sc}:repeat-global")
    else:
        c.bad(f"{sc}:repeat-global", w, "a second global_val() differs from the first" + (" (recomputed with new random draws)" if redo else "") + ": " + show_diff(g1, g2))
    r, _ = s.method(s.obj, "result")
    r = s.frz(need(r, "result"))
    c.put(f"{sc}:result-is-global", True if r is g1 else False, w, "result() is not the global value: " + show_diff(r, g1))
    l1, ex = s.method(s.obj, "local_vals")
    if l1 is not None:
        l1 = s.frz(l1)
        g3 = s.frz(need(s.method(s.obj, "global_val")[0], "global after local"))
        c.put(f"{sc}:global-after-local", True if g3 is g1 else False, w, "global_val() changes after local_vals(): " + show_diff(g1, g3))
        n = len(s.I.events)
        l2 = s.frz(need(s.method(s.obj, "local_vals")[0], "second local_vals"))
        redo = [e for e in s.I.events[n:] if e["kind"] in ("draw", "H")]
        c.put(f"{sc}:repeat-local", True if (l1 is l2 and not redo) else False, w, "a second local_vals() differs: " + show_diff(l1, l2))
        # order of calls
        s2 = sc.session(project())
        sc.make(s2)
        l3 = s2.method(s2.obj, "local_vals")[0]
        g4 = s2.method(s2.obj, "global_val")[0]
        l3, g4 = s2.frz(need(l3, "local first")), s2.frz(need(g4, "global second"))
        ok = same(l3, l1) and same(g4, g1)
        c.put(f"{sc}:order", ok, w, "values depend on whether local_vals() or global_val() is called first: " + (show_diff(g4, g1) if not same(g4, g1) else show_diff(l3, l1)))
        note_session(s2)
    note_session(s)
    # the test must not replace the stored value
    if sc.measure != "entropy":
        s3 = sc.session(project())
        sc.make(s3)
        g = s3.frz(need(s3.method(s3.obj, "global_val")[0], "g"))
        v, ex = s3.method(s3.obj, "statistical_test", n_tests=s3.num("n_tests", kind="int", lower=2), method=const("bootstrap"))
        if v is not None:
            gg = s3.frz(need(s3.method(s3.obj, "global_val")[0], "g"))
            c.put(f"{sc}:global-after-test", True if g is gg else False, where_method(s3, sc.qual, "statistical_test"),
                  "global_val() changes after statistical_test(): " + show_diff(g, gg))
        note_session(s3)


@rule("P09", floor=200,
      rule="typestate of the result cache: repeated calls return the identical value without recomputation; call order of global_val/local_vals/statistical_test does not change either value",
      explain="value graphs of successive public calls on one abstract object, and of two objects used in a different call order, compared for identity")
def p09(tier):
    jobs = []
    for m, a, q in each_class():
        for v in variants(m, a, q):
            jobs.append((f"P09 {m}/{a}{v}", p09_job, (Sc(m, a, q, seed=True, **v),)))
            if tier == "thorough":
                jobs.append((f"P09 {m}/{a}{v} 2d", p09_job, (Sc(m, a, q, seed=True, ndim=2, **v),)))
        if m in ("mi", "cmi"):
            jobs.append((f"P09 {m}/{a} 3", p09_job, (Sc(m, a, q, seed=True, nvars=3, **variants(m, a, q)[0]),)))
    return jobs


# ------------------------------------------------------------------ P07
def _calc(s, st):
    """the value the estimator would compute now (public, final `calculate`), in state st"""
    s.I.collectors.append([])
    try:
        try:
            s.I.call(s.I.getattr(s.obj, "calculate", st), [], {}, st, None)
        except Dead:
            return None
        g = s.I.getattr(s.obj, "res_global", st)
        return s.I.freeze(g, st)
    finally:
        s.I.collectors.pop()


def p07_job(c, sc, meth):
    ref = sc.session(project())
    need(sc.make(ref)[0], str(sc))
    base = _calc(ref, ref.st)
    if base is None:
        c.na(str(sc), "not computable")
        return
    for implicit in (False, True):
        s = sc.session(project())
        need(sc.make(s)[0], str(sc))
        s.I.implicit = implicit
        calls = [("statistical_test", dict(n_tests=s.num("n_tests", kind="int", lower=2), method=const(meth)))]
        if sc.measure in ("te", "cte"):
            calls.append(("effective_val", dict(method=const(meth))))
        if not implicit:
            calls.append(("statistical_test", dict(n_tests=s.num("n_tests", kind="int", lower=2), method=const("no_such_method"))))
        for name, k in calls:
            st0 = s.st.copy()
            v, ex = s.method(s.obj, name, **k)
            s.I.implicit = False
            w = where_method(s, sc.qual, name)
            tag = f"{sc}:{name}:{cval(k['method'])}"
            if v is not None and not implicit:
                got = _calc(s, s.st.copy())
                if got is None:
                    c.und(tag + ":after", "no value")
                else:
                    c.put(tag + ":after", same(got, base), w, "recomputing after the test gives another value: " + show_diff(got, base))
            n = 0
            seen = set()
            for e in ex:
                if e.exc.op == "exc" and exc_name(e.exc) in ("NameError",):
                    continue
                fr = e.state.copy()
                fr.frame = s.st.frame
                key = (e.where.split(" ")[0],)
                if key in seen:
                    continue
                seen.add(key)
                n += 1
                got = _calc(s, fr)
                if got is None:
                    # the recomputation itself always fails in this state only if the failing guard is assumed
                    continue
                if not same(got, base):
                    gg = resolve(s, got, fr)
                    bb = resolve(s, base, fr)
                    if same(gg, bb):
                        continue
                    c.bad(tag + ":failed-test", e.where, f"a test that fails here ({exc_name(e.exc)}) leaves the estimator altered: a later calculation gives {show_diff(gg, bb)}")
                    break
            else:
                if n:
                    c.ok(tag + (":implicit" if implicit else "") + ":failed-test", f"{n} exceptional exits", n=n)
            s.st = st0
            s.I.implicit = implicit
        note_session(s)


def resolve(s, t, st):
    """apply the conditions known on a path to the choices in a value"""
    def f(x):
        if x.op == "phi":
            tr = s.I.truth(x.args[0], st)
            if tr is not None:
                return x.args[1] if tr else x.args[2]
        return x
    return transform(t, f)


@rule("P07", floor=100,
      rule="state restoration on every exit: after statistical_test/effective_val ends (normally, by a library error, or by any failing external call inside it) recomputing the estimate yields the same value graph as on a fresh object",
      explain="all exits of the tests are enumerated by the interpreter, including one injected exceptional exit per external call site; the recomputation graph in each exit state is compared with the reference graph")
def p07(tier):
    jobs = []
    for m, a, q in each_class(("mi", "cmi", "te", "cte")):
        for v in variants(m, a, q)[: (None if tier == "thorough" else 1)]:
            for meth in ("permutation_test", "bootstrap"):
                jobs.append((f"P07 {m}/{a} {v} {meth}", p07_job, (Sc(m, a, q, seed=True, **v), meth)))
    return jobs
