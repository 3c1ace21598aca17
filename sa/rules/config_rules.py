"""P10 the configuration: valid settings take effect, invalid ones are rejected without effect."""
from .util import *

UNITS = {2: ("bits", "bit", "shannons", "shannon"), "e": ("nats", "nat", "nit", "nepit"), 10: ("hartleys", "hartley", "bans", "ban", "dits", "dit")}
W = "infomeasure/utils/config.py Config"
BASEK, METHOD, NT = "base", "statistical_test_method", "statistical_test_n_tests"
DEFAULT = {BASEK: "e", METHOD: "permutation_test", NT: 200}
OTHER = {BASEK: 3, METHOD: "bootstrap", NT: 17}


class Cfg:
    def __init__(self):
        self.s = Session(project(), opaque=True)
        self.c = self.s.pub("Config")

    def do(self, name, *args):
        """(value or None, sorted exception names)"""
        v, ex = self.s.method(self.c, name, *[a if isinstance(a, T) else const(a) for a in args])
        return v, sorted({str(exc_name(e.exc)) for e in ex if exc_name(e.exc)})

    def get(self, k):
        v, ex = self.do("get", k)
        if v is None:
            return None
        v = self.s.frz(v)
        return cval(v) if v.op == "const" else v

    def all(self):
        return {k: self.get(k) for k in DEFAULT}


def eq(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return a is b
    return type(a) is type(b) and a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b)


def same_all(a, b):
    return all(eq(a[k], b[k]) for k in DEFAULT)


def job(c):
    x = Cfg()
    d = x.all()
    for k, v in DEFAULT.items():
        c.put(f"default of {k}", eq(d[k], v), W, f"the default of {k!r} is {d[k]!r}, not {v!r}")
    # valid settings take effect and touch nothing else, from any earlier setting
    valid = {BASEK: [2, 10, "e", 2.5, 3, mk("param", "b1")], METHOD: ["bootstrap", "permutation_test"], NT: [1, 50, mk("param", "n1")]}
    for prior in (False, True):
        for k, vs in valid.items():
            for v in vs:
                x = Cfg()
                if isinstance(v, T):
                    x.s.facts.declare(v, kind="float" if k == BASEK else "int", lower=1, notnone=True)
                if prior:
                    for kk, vv in OTHER.items():
                        x.do("set", kk, vv)
                before = x.all()
                r, ex = x.do("set", k, v)
                key = f"set {k}={show(v, 1) if isinstance(v, T) else v!r}" + (" after other settings" if prior else "")
                if r is None:
                    c.bad(key, W + ".set", f"the valid value is rejected: {ex}")
                    continue
                after = x.all()
                c.put(key, eq(after[k], v), W + ".set", f"after setting {k!r} the setting is {after[k]!r}")
                c.put(key + ": others", all(eq(after[o], before[o]) for o in DEFAULT if o != k), W + ".set", f"setting {k!r} changed another setting: {before} -> {after}")
                # reset restores everything, also a second time, and settings work afterwards
                for rnd in (1, 2):
                    x.do("reset")
                    c.put(f"{key}: reset {rnd}", same_all(x.all(), DEFAULT), W + ".reset", f"after reset() the settings are {x.all()}, not {DEFAULT}")
                    x.do("set", k, v)
                    c.put(f"{key}: set after reset {rnd}", eq(x.get(k), v), W + ".set", f"after reset() and set() the setting is {x.get(k)!r}")
    # invalid settings are rejected without effect
    bad = [("no such setting", 1, ["KeyError"]), (BASEK, "2", ["TypeError"]), (BASEK, "bits", ["TypeError"]), (BASEK, None, ["TypeError"]),
           (METHOD, "no such method", ["TypeError"]), (METHOD, 1, ["TypeError"]), (METHOD, None, ["TypeError"]),
           (NT, "many", ["TypeError"]), (NT, 2.5, ["TypeError"]), (NT, None, ["TypeError"])]
    for prior in (False, True):
        for k, v, exc in bad:
            x = Cfg()
            if prior:
                for kk, vv in OTHER.items():
                    x.do("set", kk, vv)
            before = x.all()
            r, ex = x.do("set", k, v)
            key = f"set {k}={v!r}" + (" after other settings" if prior else "")
            if r is not None:
                c.bad(key, W + ".set", f"the invalid value is accepted, the settings are {x.all()}")
            else:
                c.put(key, ex == exc, W + ".set", f"rejected with {ex} instead of {exc}")
            c.put(key + ": unchanged", same_all(x.all(), before), W + ".set", f"a rejected setting changed the configuration: {before} -> {x.all()}")
    x = Cfg()
    r, ex = x.do("get", "no such setting")
    c.put("get of an unknown setting", r is None and ex == ["KeyError"], W + ".get", f"value {r}, exceptions {ex} instead of KeyError")
    r, ex = x.do("set_logarithmic_unit", "no such unit")
    c.put("unknown unit", r is None and ex == ["ValueError"], W + ".set_logarithmic_unit", f"value {r}, exceptions {ex} instead of ValueError")
    ids = {u for us in UNITS.values() for u in us}
    near = sorted({w for u in ids for w in (u + "x", "x" + u, u[:-1], u[1:], u + u, f"{u}/{u}", u + "s", u + "ter", "deci" + u, u.replace("it", "et"), u[::-1])} - ids)
    for u in near:
        y = Cfg()
        r, ex = y.do("set_logarithmic_unit", u)
        c.put(f"unknown unit {u!r}", r is None and ex == ["ValueError"], W + ".set_logarithmic_unit", f"{u!r} is no documented unit, but " + (f"sets the base {y.get(BASEK)!r}" if r is not None else f"raises {ex} instead of ValueError"))
    c.put("unknown unit: unchanged", same_all(x.all(), DEFAULT), W + ".set_logarithmic_unit", f"a rejected unit changed the configuration: {x.all()}")
    # units
    names = {}
    for b, us in UNITS.items():
        for u in us:
            for sp in (u, u.upper(), u.title()):
                for prior in DEFAULT[BASEK], 2, 10, 7:
                    x = Cfg()
                    x.do("set", BASEK, prior)
                    r, ex = x.do("set_logarithmic_unit", sp)
                    c.put(f"unit {sp} from {prior}", r is not None and eq(x.get(BASEK), b), W + ".set_logarithmic_unit", f"the unit {sp!r} sets the base {x.get(BASEK)!r} ({ex}), not {b!r}")
                    rest = x.all()
                    c.put(f"unit {sp} from {prior}: others", all(eq(rest[o], DEFAULT[o]) for o in DEFAULT if o != BASEK), W + ".set_logarithmic_unit", f"other settings changed: {rest}")
            u1, ex = x.do("get_logarithmic_unit")
            u1 = cval(u1) if u1 is not None and u1.op == "const" else u1
            names.setdefault(b, set()).add(u1)
            x2 = Cfg()
            x2.do("set", BASEK, b)
            u2, _ = x2.do("get_logarithmic_unit")
            u2 = cval(u2) if u2 is not None and u2.op == "const" else u2
            c.put(f"name of {u}", isinstance(u1, str) and u1 == u2 and any(w in u1.lower() for w in us), W + ".get_logarithmic_unit",
                  f"the unit set by {u!r} is called {u1!r}; the unit of base {b!r} is called {u2!r}")
            if isinstance(u1, str):
                for part in u1.lower().split("/"):
                    c.put(f"name {part} of {u}", part in us, W + ".get_logarithmic_unit", f"the unit set by {u!r} is called {part!r}, which is the unit of another base")
            d, ex = x.do("get_logarithmic_unit_description")
            c.put(f"description of {u}", d is not None, W + ".get_logarithmic_unit_description", f"no description of the unit {u!r}: {ex}")
    x = Cfg()
    x.do("set", BASEK, 7)
    r, ex = x.do("get_logarithmic_unit_description")
    c.put("description of an unnamed base", r is None and ex == ["ValueError"], W + ".get_logarithmic_unit_description", f"value {r}, exceptions {ex}")
    r, ex = x.do("get_logarithmic_unit")
    c.put("name of an unnamed base", r is not None and not (r.op == "const" and cval(r) in [n for v in names.values() for n in v]), W + ".get_logarithmic_unit", f"the base 7 is called {r}")
    note_session(x.s)


def level_job(c):
    """the log level set is the named one; what is no level raises ValueError and sets nothing"""
    w = W + ".set_log_level"

    def levels(x, n):
        return [e["args"][0] for e in x.s.I.events[n:] if e["kind"] == "ext-effect" and e["name"] == "logger.setLevel"]
    for name, n in (("DEBUG", 10), ("INFO", 20), ("WARNING", 30), ("ERROR", 40), ("CRITICAL", 50)):
        for v in (name, name.lower(), name.title(), n):
            x = Cfg()
            before, n0 = x.all(), len(x.s.I.events)
            r, ex = x.do("set_log_level", v)
            got = levels(x, n0)
            key = f"log level {v!r}"
            if r is None:
                c.bad(key, w, f"the valid level is rejected: {ex}")
            elif len(got) != 1 or got[0].op != "const":
                c.und(key, f"levels set: {got}", w)
            else:
                c.put(key, cval(got[0]) == n, w, f"sets the level {cval(got[0])!r}, not {n}")
            c.put(key + ": others", same_all(x.all(), before), w, f"setting the log level changed the configuration: {before} -> {x.all()}")
    for v in ("no such level", "getLogger", "loud", "Logger", "basicconfig", ""):
        x = Cfg()
        n0 = len(x.s.I.events)
        r, ex = x.do("set_log_level", v)
        c.put(f"unknown log level {v!r}", r is None and ex == ["ValueError"] and not levels(x, n0), w, f"{v!r} is no level, but " + (f"is accepted" if r is not None else f"raises {ex} instead of ValueError"))


def base_job(c, m, a, q, o):
    """the base configured at construction is the one used, also if it is changed before the calculation"""
    t = f"{m}/{a}" + (f" {o}" if o else "")
    sc = Sc(m, a, q, base=None, **o)
    ref = {}
    for b in (2, 7):
        s = Sc(m, a, q, base=b, **o).session(project(), opaque=m != "entropy")
        ob, _ = s.sc.make(s)
        ref[b] = None
        if ob is not None:
            v, _ = s.method(ob, "global_val")
            ref[b] = s.frz(v) if v is not None else None
    for b in (2, 7):
        for later in (None, 10, "e"):
            s = sc.session(project(), opaque=m != "entropy")
            cfg = s.pub("Config")
            s.method(cfg, "set", const("base"), const(b))
            ob, _ = sc.make(s)
            v = None
            if ob is not None:
                if later is not None:
                    s.method(cfg, "set", const("base"), const(later))
                v, _ = s.method(ob, "global_val")
            note_session(s)
            w = where_method(s, q, "__init__")
            key = f"{t}: configured base {b}" + (f", changed to {later} after construction" if later is not None else "")
            if ref[b] is None or v is None:
                c.put(key, ref[b] is None and v is None, w, "a value is returned only with or only without an explicit base")
                continue
            g = renorm(s, s.frz(v))
            r = renorm(s, ref[b])
            if same(g, r):
                c.ok(key)
                continue
            s2 = Sc(m, a, q, base=later if later is not None else "e", **o)
            ss = s2.session(project(), opaque=m != "entropy")
            ob2, _ = s2.make(ss)
            v2, _ = ss.method(ob2, "global_val")
            if v2 is not None and same(g, renorm(s, ss.frz(v2))):
                c.bad(key, w, f"the value is the one for base {later if later is not None else 'e'}")
            else:
                mixed(c, key, w, g, r)


def mixed(c, key, w, g, r):
    """only the base differs between the two graphs"""
    d = first_diff(canon_ids(renum(strip_copies(g))), canon_ids(renum(strip_copies(r))))
    if d and all(x.op in ("const", "param") for x in d):
        c.bad(key, w, f"another base is used: {show_diff(g, r)}")
    else:
        hb = {dict(x.args[3]).get("base") for x in walk(r) if x.op == "H"}
        ha = {dict(x.args[3]).get("base") for x in walk(g) if x.op == "H"}
        if ha != hb:
            c.bad(key, w, f"the entropies are asked for in another base: {show_diff(g, r)}")
        else:
            c.und(key, show_diff(g, r), w)


@rule("P10", floor=300,
      rule="configuration as a transition system: the stored settings after every sequence set/reset/set_logarithmic_unit of valid and invalid values, from default and non-default settings, are those of the documented table; exits of invalid requests are KeyError/TypeError/ValueError with the settings unchanged; estimators without an explicit base use the configured base at their construction",
      explain="abstract interpretation of the Config methods on the settings store (class-level heap); value graphs of every estimator class with the base configured and with the same base given explicitly")
def p10(tier):
    out = [("P10 settings", job, ()), ("P10 log level", level_job, ())]
    for m, a, q in each_class():
        for v in variants(m, a, q)[:1] + ([dict(kernel="gaussian")] if is_(q, "kernel") else []):
            out.append((f"P10 {m}/{a} {v}", base_job, (m, a, q, v)))
    return out
