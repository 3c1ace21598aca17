"""Verify planted bugs in scratch copies: python3 tools/plant.py ID...   (not used by any check)

For each seeded/ID: copy /repo to /tmp/plant/ID, check the demo passes, apply the patch, check the demo fails,
run the stable tests there, run all checks on the patched copy; print a line per bug; remove the copy."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, env=ENV, timeout=1800):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)


def main(ids, tests=True, checks=True):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
    for i in ids:
        d = os.path.join(V, "seeded", i)
        w = f"/tmp/plant/{os.getpid()}/{i}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(os.path.dirname(w), exist_ok=True)
        sh(f"cp -a /repo {w}", "/")
        env = dict(ENV, PYTHONPATH=w)
        sh("git checkout -q -- . && git reset -q --hard", w)
        d0 = sh(f"bash {d}/demo.sh", w, env)
        ap = sh(f"git apply {d}/patch.diff", w)
        d1 = sh(f"bash {d}/demo.sh", w, env)
        msg = [f"demo clean={d0.returncode} patched={d1.returncode} apply={ap.returncode}"]
        if d0.returncode or not d1.returncode:
            msg.append((d0.stderr or d0.stdout)[-600:] + (d1.stderr or d1.stdout)[-300:])
        if tests:
            t = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --tb=no --timeout=300 -n 6 -o junit_family=xunit2 --junitxml={w}/j.xml", w, env)
            sh(f"/opt/venv/bin/python /opt/vp/results.py {w}/o.json junit:{w}/j.xml", w)
            o = json.load(open(f"{w}/o.json"))
            passed = set(o if isinstance(o, list) else o.get("passed"))
            lost = [x for x in stable if x not in passed]
            msg.append(f"tests lost={len(lost)} {lost[:3]}")
        if checks:
            meta = json.load(open(d + "/meta.json"))
            man = json.load(open(V + "/MANIFEST.json"))
            got = []
            for c in man["checks"]:
                if checks == "own" and c["property"] != meta["property"]:
                    continue
                r = sh(f"python3 -m sa {c['property']}", V, dict(env, VERIF_REPO=w))
                if r.returncode:
                    got.append(f"{c['property']}({r.returncode})")
                if c["property"] == meta["property"] and r.returncode == 1:
                    msg.append(next((l for l in r.stdout.splitlines() if l.startswith("  [")), "")[:260])
            if checks != "own":
                f = V + "/tools/caught.json"
                c = json.load(open(f)) if os.path.exists(f) else {}
                c[i] = [g.split("(")[0] for g in got if g.endswith("(1)")]
                json.dump(c, open(f, "w"), indent=1, sort_keys=True)
            msg.append(f"property {meta['property']} caught by: {' '.join(got) or 'NONE'}")
        print(i, "|", " | ".join(msg), flush=True)
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    main(a, tests="--notests" not in sys.argv, checks="own" if "--own" in sys.argv else "--nochecks" not in sys.argv)
