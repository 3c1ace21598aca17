"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

E = "infomeasure/estimators/"
BASE = E + "base.py"
MIX = E + "mixins.py"
FUN = E + "functional.py"
ALL = [BASE, MIX, FUN, E + "entropy", E + "mutual_information", E + "transfer_entropy", E + "utils"]
SA = "abstract interpretation of the package source to value graphs"

PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, observe=observe))


COMMON = ("Decided statically: no code of the package is imported or run. Trusted: the signatures given to external library calls "
          "(numpy, scipy, sparse) and the abstract scenarios listed in DESIGN.md. A construct outside the modelled Python subset is "
          "reported as undecided in the evidence and never as a violation; on the present tree nothing is undecided. ")

prop("P01", "Analyses never modify the caller's arrays",
     "Whatever is done with data through the public interface (constructing any estimator, computing global or local values, running tests, "
     "the functional API, divergences, the discrete-data helpers), the arrays the caller passed in hold exactly the same contents afterwards.",
     ["inputs", "configurations", "histories"],
     "every estimator class and approach, every input rank and dtype, every sequence of public calls",
     "Tests compare results, not the inputs afterwards; aliasing appears only for particular dtypes, ranks and options (no copy made), which tests do not sweep.",
     [BASE, MIX, E + "utils", E + "entropy", E + "mutual_information", E + "transfer_entropy"],
     [("arrays are copied or re-created before normalising, adding noise or shuffling", MIX), ("constructor conversion", BASE)],
     "alias/effect analysis of all in-place writes reachable from public calls (" + SA + ")",
     "Every in-place write reachable from a public entry point is shown to have no caller argument among its storage roots, for all inputs of each scenario (rank, declared dtype, option set).")

prop("P02", "Changing the logarithm base only rescales results",
     "For every estimator and approach, global and local values computed with base b equal the natural-log values divided by ln(b), for the symbolic bases and special-cased "
     "bases (2, 10, 'e') alike; no term of the result is in another unit. Tsallis values with q != 1 do not depend on the base.",
     ["inputs", "configurations"],
     "every data set and every base, including the bases the code special-cases",
     "Tests compare a few bases on a few data sets for a few estimators; a term that forgets the base cancels or is small on those.",
     [E + "utils", E + "entropy", E + "mutual_information", E + "transfer_entropy", BASE],
     [("logarithm helper with special cases", MIX + " / " + BASE), ("division by log(base) in the KSG/KL estimators", E)],
     "unit (dimension) inference on value graphs plus structural equality of the base-specific graphs",
     "Log(base) is given a unit and propagated through each value graph; the graphs for 'e', 2 and 10 are compared with the instance of the general one.")

prop("P04", "Composite measures follow the documented chain rules",
     "MI, conditional MI, TE and conditional TE, global and local, of any number of variables combine their entropies, counts, neighbour counts or densities with exactly the signs and "
     "multiplicities of the documented chain rule; each joint space contains exactly the variables it names; all terms use the same data version, estimator and parameters.",
     ["inputs", "configurations"],
     "every registered class and approach, 2 to 4 variables, univariate and multivariate data, noise on and off, estimators with and without local values",
     "Tests pin values on small samples, mostly with two univariate variables; a wrong marginal in the multivariate or n-variable case changes nothing they look at.",
     [E + "mutual_information", E + "transfer_entropy", E + "utils", MIX, BASE],
     [("generic MI/CMI/TE/CTE from entropies", BASE), ("slicing helpers", E + "utils/te_slicing.py"), ("contingency counts and neighbour counts", E)],
     "linear-form extraction over joint spaces from value graphs",
     "The coefficient of each joint space is read off the value graph and compared with the documented chain rule, for all data.")

prop("P07", "Statistical tests leave the estimator as it was",
     "After a permutation or bootstrap test, or an effective-value computation, whether it finishes or fails at any point inside, calculating the estimate again on the same object "
     "gives the same value as on an object that was never tested.",
     ["histories", "fault_sequences", "configurations"],
     "every MI/CMI/TE/CTE class, both methods, every external call inside the test as a point of failure",
     "Tests check the value of a test, never the object afterwards, and no test injects a failure in the middle of the resampling loop.",
     [BASE, MIX, E + "mutual_information", E + "transfer_entropy"],
     [("original data/settings restored in finally", BASE), ("swap of the resampling flags", E + "transfer_entropy")],
     "typestate/exit-state analysis: value graph recomputed in every normal and exceptional exit state",
     "All exits, including one exceptional exit per external call, are enumerated and the recomputation graph compared with that of an untouched object.")

prop("P08", "Random draws come only from the given seed",
     "Every random number used by an estimator or a test comes from a generator created from the caller's seed; without a seed the generator is fresh. "
     "Nothing that affects results reads the global random state, the clock, object identities or hash order.",
     ["inputs", "configurations", "histories"],
     "every class, approach and method that draws random numbers",
     "Tests seed numpy globally or use one seed once; a draw from the global generator looks the same in them.",
     [BASE, MIX, E + "entropy", E + "mutual_information", E + "transfer_entropy"],
     [("RandomGeneratorMixin", MIX), ("noise added by the nearest-neighbour estimators", E)],
     "effect/provenance analysis of random generators over the call graph",
     "The receiver of each draw is traced to default_rng(seed); forbidden sources are recorded as events.")

prop("P09", "Values are computed once and do not depend on call order",
     "Asking an estimator repeatedly for its global or local values returns the same values without recomputing or drawing new noise, and it does not matter whether the global values, "
     "the local values or a statistical test are requested first.",
     ["histories", "configurations"],
     "every class and approach, every order of the public calls",
     "Tests construct, ask once, and discard; orders such as local-global-test-global are not exercised.",
     [BASE, E + "entropy", E + "mutual_information", E + "transfer_entropy"],
     [("result cache and final calculate()", BASE)],
     "typestate analysis of the result cache by comparing value graphs of successive calls",
     "The graph of a second call is identical to the first and no draw or entropy evaluation happens in between; call orders are compared structurally.")

prop("P19", "Using estimators changes no process-wide state",
     "Constructing estimators and calling their methods changes no module-level or class-level object of the package, no global numpy, logging, warnings, os or random setting; "
     "only the configuration interface changes configuration.",
     ["histories", "configurations"],
     "every class, approach and public method",
     "A leak through a class attribute or global setting shows only in a later, unrelated call in the same process.",
     ALL, [("per-instance attributes", BASE)],
     "effect analysis of module/class/global writes over the call graph",
     "Every write event and the module- and class-level heap are compared with their import-time content.")


def load_more():
    import importlib
    import glob
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "props_*.py"))):
        src = open(f).read()
        exec(compile(src, f, "exec"), globals())


def main():
    load_more()
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            fh.write(json.dumps(d) + "\n")
    man = dict(version=1, setup_cmd="python3 -m compileall -q sa && mkdir -p evidence", checks=[], not_applicable=[])
    for p in PROPS:
        if p["na"]:
            man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        else:
            man["checks"].append(dict(property=p["id"], quick_cmd=f"python3 -m sa {p['id']}", thorough_cmd=f"python3 -m sa {p['id']} --thorough",
                                      technique="static analysis: " + p["technique"], level="other", level_note=((p["note"] or "") + " " + COMMON).strip()))
    man["notes"] = "See DESIGN.md; known findings and repaired defects are in KNOWN_FINDINGS.txt."
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not applicable")


if __name__ == "__main__":
    main()
