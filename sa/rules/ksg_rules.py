"""P32 nearest-neighbour MI/TE: which neighbours are counted, and how the counts enter."""
import math
from .util import *
from .chain_rules import chain, compare
from .oracle import refute
from ..spaces import Form, Unknown, Wrong, names
from .. import val

DIST = P("distance")
DS = [0.5, 2.0, 1e-3, 1e6]


def scs(tier):
    for m, a, q in each_class(("mi", "cmi", "te", "cte")):
        if not is_(q, "kraskov"):
            continue
        for i in (1, 2):
            for nv in ((2, 3, 4) + ((5,) if tier == "thorough" else ()) if m in ("mi", "cmi") else (2,)):
                for nd in (1, 2):
                    for noise in (0, "sym"):
                        yield Sc(m, a, q, ksg_id=i, noise_level=noise, nvars=nv, ndim=nd, minkowski_p="sym", k="sym")


def at(t, d):
    try:
        return val.Ev({DIST: d})(t)
    except (val.NoAnswer, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, KeyError):
        return None


def p32_job(c, sc):
    s = sc.session(project())
    o, _ = sc.make(s)
    key = str(sc)
    if o is None:
        c.na(key)
        return
    w = where_method(s, sc.qual, "_calculate")
    v, _ = s.method(o, "local_vals")
    note_session(s)
    if v is None:
        c.na(key)
        return
    f = Form(s.I, sc.measure, s.kwargs.get("base"))
    try:
        f.value(renorm(s, strip_copies(s.frz(v), s.facts)))
    except Wrong as e:
        c.bad(key, w, str(e))
        return
    except Unknown as e:
        r = refute(sc, "local_vals")
        if r:
            c.bad(key, w, "not the documented neighbour counts: " + r)
        else:
            c.und(key, str(e), w)
        return
    typ = sc.o["ksg_id"]
    nv = sc.o["nvars"]
    h, full = chain(sc.measure, nv)
    k = s.kwargs["k"]
    # the radius: distance to the k-th neighbour in the full joint space, the point itself being the first
    rs = list(f.settings.get("radius", ()))
    if not rs:
        c.und(key + ":radius", "no neighbour counts", w)
        return
    qs = set()
    for r in rs:
        qs |= {x for x in walk(r) if x.op == "mcall" and x.args[0] == "query"}
    if len(qs) != 1:
        c.und(key + ":radius", f"{len(qs)} neighbour searches", w)
        return
    q = qs.pop()
    tree, pts = q.args[1], q.args[2][0] if q.args[2] else kw_m(q, "x")
    try:
        A = tree.args[1][0]
        sp, sq = f.space(A), f.space(pts)
        c.put(key + ":joint space", sp == full and sq == full, w, f"the k-th neighbour is searched in the space {names(sp)} for the points of {names(sq)}, not in the joint space {names(full)}")
    except (Unknown, Wrong, IndexError, AttributeError) as e:
        c.und(key + ":joint space", str(e), w)
    kk = kw_m(q, "k", const(1), pos=1)
    cols = {x for r in rs for x in walk(r) if x.op == "index" and contains(x, lambda y: y is q)}
    # last column of the distances of k+1 neighbours, or column k, or the only one asked for
    ds = None
    for x in sorted(cols, key=lambda x: len(str(x))):
        b, ix = x.args
        if b.op == "index" and b.args[0] is q and ix.op == "tuple" and len(ix.args) == 2:
            which = ix.args[1]
            if b.args[1] is not const(0):
                c.bad(key + ":distance", w, "the neighbour indices are used as distances")
                return
            if which.op == "tuple" or which.op == "list":
                continue
            if kk.op in ("list", "tuple", "const") and kk.op != "const":
                continue
            n = kk if which is const(-1) else add(which, const(1)) if not (is_num(which) and cval(which) < 0) else add(kk, add(which, const(1)))
            ds = x, n
    if ds is None:
        c.und(key + ":distance", "column of the distances: " + show(rs[0], 6)[:160], w)
        return
    d, n = ds
    dif = sub(n, k)
    if is_num(dif):
        c.put(key + ":distance", cval(dif) == 1, w, f"the distance is the one to neighbour {show(n, 3)} counting the point itself, not to neighbour k+1")
    else:
        c.und(key + ":distance", "number of the neighbour " + show(n, 4), w)
    repl = lambda t: transform(t, lambda x: DIST if x is d else x)
    for i, r in enumerate(rs):
        g = repl(r)
        vs = [at(g, x) for x in DS + [0.0]]
        if mentions(g, q) or None in vs:
            c.und(f"{key}:radius {i}", show(g, 5)[:160], w)
            continue
        if typ == 1:
            good = all(v2 < x and v2 >= math.nextafter(x, -math.inf) for v2, x in zip(vs, DS + [0.0]))
            c.put(f"{key}:radius {i}", good, w, f"type 1 counts the neighbours within {show(g, 4)}, not those strictly closer than the k-th neighbour (at distance {DS[0]}: {vs[0]!r})")
        else:
            c.put(f"{key}:radius {i}", all(v2 == x for v2, x in zip(vs, DS + [0.0])), w, f"type 2 counts the neighbours within {show(g, 4)}, not up to and including the distance of the k-th neighbour (at distance {DS[0]}: {vs[0]!r})")
    # psi(n + 1) without the point itself (type 1) and psi(n) with it (type 2) have the same argument: the count that includes the point
    for i, r in enumerate(f.settings.get("count correction", ())):
        g = repl(r)
        vs = [at(g, x) for x in DS]
        z = at(g, 0.0)
        if mentions(g, q) or None in vs or z is None:
            c.und(f"{key}:count {i}", show(g, 5)[:160], w)
            continue
        c.put(f"{key}:count {i}", all(x == 0 for x in vs), w, f"the digamma function is applied to the neighbour count {'+' if vs[0] > 0 else '-'} {abs(vs[0])} (the count includes the point itself)")
        if typ == 1:
            neg = [at(repl(r2), 0.0) for r2 in rs]
            if all(x is not None and x < 0 for x in neg):
                c.put(f"{key}:count {i} of duplicates", z == 1, w, f"with zero distance no point is counted, not even the point itself, and the argument of the digamma function is {z}, not 1")
    e = compare(f, sc.measure, nv, "local values")
    k1 = {kx: cx for kx, cx in f.coef.items() if kx[0] == "1/k"}
    want = {("1/k", "k"): Fraction(-1)} if typ == 2 else {}
    if {x: y for x, y in k1.items() if y} != want:
        e.append(f"the term 1/k has coefficient {list(map(str, k1.values())) or 0}, type {typ} requires {-1 if typ == 2 else 0}")
    for i, b in enumerate(e[:4]):
        c.bad(f"{key}:formula {i}", w, b)
    if not e:
        c.ok(f"{key}:formula")


@rule("P32", floor=60,
      rule="radius, neighbour number, search space, self-count and 1/k term decoded from the value graph of every nearest-neighbour MI/CMI/TE/CTE class equal those of the documented type 1 / type 2 formula",
      explain="the distance term of the joint-space search is located in the graph; radius and count correction are read as functions of it; all neighbour counts must use the same")
def p32(tier):
    return [(f"P32 {sc}", p32_job, (sc,)) for sc in scs(tier)]
