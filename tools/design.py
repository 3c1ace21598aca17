"""Write DESIGN.md from tools/DESIGN.in, filling the property, exclusion, repair and planted-bug sections from
properties.jsonl, MANIFEST.json, evidence/ (run the checks first), KNOWN_FINDINGS.txt and seeded/.  Used by no check."""
import glob
import json
import os
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def wrap(s, ind=""):
    return textwrap.fill(s, 118, initial_indent=ind, subsequent_indent=" " * len(ind), break_long_words=False)


def main():
    t = open(f"{V}/tools/DESIGN.in").read()
    props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
    man = json.load(open(f"{V}/MANIFEST.json"))
    checks = {c["property"]: c for c in man["checks"]}
    out = []
    for p in props:
        c = checks.get(p["id"])
        if not c:
            continue
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(wrap(c["technique"][0].upper() + c["technique"][1:] + ".", "* **Decided by** "))
        f = f"{V}/evidence/{p['id']}.json"
        if os.path.exists(f):
            e = json.load(open(f))
            cov = e["coverage"]
            out.append(wrap(cov["rule"] + ".", "* **Rule / oracle:** "))
            out.append(wrap(cov["explanation"] + ".", "* **Analysed:** "))
            out.append(wrap(f"{cov['obligations']} obligations in {cov.get('scenarios', '?')} scenarios, {e['wall_s']:.0f} s.", "* **Extent (quick):** "))
            extra = [a for a in e.get("assumptions", []) if a and "external libraries" not in a and "abstract inputs" not in a]
            if extra:
                out.append(wrap("; ".join(extra) + ".", "* **Assumes:** "))
        out.append(wrap(c["level_note"].split(" Decided statically:")[0], "* **Scope:** "))
        out.append(wrap(p["why_tests_cant"], "* **Beyond tests:** "))
        out.append("")
    t = t.replace("@@PROPS@@", "\n".join(out))
    t = t.replace("@@NA@@", "\n".join(wrap(f"{n['reason']}.", f"* **{n['property']}** ") for n in man["not_applicable"]))
    kf = [l.strip() for l in open(f"{V}/KNOWN_FINDINGS.txt") if l.startswith("fixed:")]
    t = t.replace("@@FIXED@@", "\n".join(wrap(l[len("fixed: property="):], "* ") for l in kf))
    caught = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}
    bugs = []
    for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        i = d.split("/")[-2]
        m = json.load(open(d))
        bugs.append(wrap(f"({m['property']}) {m['what_it_breaks']}. Needs: {m['needs']}. Caught by: {', '.join(caught.get(i, ['?']))}.", f"* **{i}** "))
    t = t.replace("@@BUGS@@", "\n".join(bugs))
    rf = f"{V}/tools/refactorings.txt"
    t = t.replace("@@RF@@", open(rf).read() if os.path.exists(rf) else "")
    open(f"{V}/DESIGN.md", "w").write(t.rstrip() + "\n")


main()
