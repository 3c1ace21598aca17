"""Check runner: jobs -> clauses -> verdict, evidence file, known findings."""
from __future__ import annotations
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import Counter
from .terms import *
from .state import *
from .loader import Project
from . import drive
from .drive import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


class Anchor(Exception):
    """something the property is stated about is gone: the analysis cannot answer"""


class Clauses(list):
    """results of one job"""

    def ok(self, key, note="", n=1):
        self.append(dict(key=key, status="ok", note=note, n=n))

    def bad(self, key, where, msg, note=""):
        self.append(dict(key=key, status="violation", where=where, msg=msg, note=note, n=1))

    def und(self, key, msg, where=""):
        self.append(dict(key=key, status="undecided", msg=msg, where=where, n=1))

    def na(self, key, msg=""):
        self.append(dict(key=key, status="na", msg=msg, n=0))

    def put(self, key, verdict, where="", msg="", note=""):
        """verdict True / False / None"""
        if verdict is True:
            self.ok(key, note or msg)
        elif verdict is False:
            self.bad(key, where, msg, note)
        else:
            self.und(key, msg or "form not recognised", where)


RULES = {}


def rule(pid, **meta):
    def deco(f):
        RULES[pid] = (f, meta)
        return f
    return deco


_P = None


def project():
    global _P
    if _P is None:
        _P = Project(REPO)
    return _P


_AP = None


def regs():
    global _AP
    if _AP is None:
        _AP = big(approaches, project())
        for m in REGS:
            if not _AP[m]:
                raise Anchor("empty registry " + m)
    return _AP


def _run(job):
    key, fn, args = job
    c = Clauses()
    st = {}
    t = time.time()

    def go():
        try:
            fn(c, *args)
        except Undecided as e:
            c.und(key, "construct not modelled: " + str(e))
        except Anchor as e:
            c.append(dict(key=key, status="anchor", msg=str(e), n=0))
        except RecursionError:
            c.und(key, "recursion bound")
        except Exception as e:      # an engine limit never becomes an alarm
            tb = traceback.extract_tb(e.__traceback__)
            c.und(key, f"engine: {type(e).__name__}: {e} at {[(f.name, f.lineno) for f in tb][-4:]}")
    big(go)
    used = dict(STATS)
    STATS.clear()
    return key, list(c), used, time.time() - t


STATS = {}


def note_session(s):
    """accumulate what was analysed in this session"""
    I = s.I
    STATS["runs"] = STATS.get("runs", 0) + 1
    STATS["sites"] = STATS.get("sites", 0) + I.stats["sites"]
    STATS.setdefault("funcs", set()).update(I.stats["funcs"])
    STATS.setdefault("ext", set()).update(I.stats["ext"])
    STATS["events"] = STATS.get("events", 0) + len(I.events)


def known():
    k = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property="):
                rest = line[len("KNOWN-FINDING: property="):]
                pid, rest = rest.split(" ", 1)
                ckey, _, txt = rest.partition(" :: ")
                k[(pid, ckey.strip())] = txt.strip()
    return k


def main(pid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    f, meta = RULES[pid]
    try:
        regs()
        jobs = big(f, tier)
    except Anchor as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    except Undecided as e:
        print(f"ANALYSIS-BROKEN property={pid} entry points cannot be read: {e}")
        return 2
    if not jobs:
        print(f"ANALYSIS-BROKEN property={pid} no instances")
        return 2
    # heavy jobs first is irrelevant at this size; small chunks keep the pool busy
    nproc = min(8, os.cpu_count() or 1, len(jobs))
    if os.environ.get("VERIF_SERIAL"):
        res = [_run(j) for j in jobs]
    else:
        global _JOBS
        _JOBS = jobs
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            res = list(pool.imap_unordered(_run_i, range(len(jobs)), chunksize=1))
    res.sort(key=lambda r: r[0])
    clauses = [c for r in res for c in r[1]]
    cnt = Counter(c["status"] for c in clauses)
    funcs, ext = set(), set()
    runs = sites = events = 0
    for _, _, u, _ in res:
        funcs |= u.get("funcs", set())
        ext |= u.get("ext", set())
        runs += u.get("runs", 0)
        sites += u.get("sites", 0)
        events += u.get("events", 0)
    anchors = [c for c in clauses if c["status"] == "anchor"]
    if anchors:
        for c in anchors:
            print(f"ANALYSIS-BROKEN property={pid} {c['key']}: {c['msg']}")
        return 2
    decided = cnt["ok"] + cnt["violation"] + cnt["undecided"]
    floor = meta.get("floor", 1)
    if decided < floor:
        print(f"ANALYSIS-BROKEN property={pid} only {decided} instances found, expected at least {floor}")
        return 2
    kn = known()
    bad, kfound = [], []
    for c in clauses:
        if c["status"] == "violation":
            txt = kn.get((pid, c["key"]))
            if txt is not None:
                kfound.append((c, txt))
            else:
                bad.append(c)
    ev = dict(property=pid, tier=tier, seed=seed, level="other",
              coverage=dict(
                  explanation=meta["explain"],
                  rule=meta["rule"],
                  obligations=decided, discharged=cnt["ok"], undecided_clauses=cnt["undecided"],
                  violated=len(bad), known_findings=len(kfound), not_applicable_clauses=cnt["na"],
                  scenarios=len(jobs), abstract_runs=runs, functions_analysed=len(funcs), call_sites_evaluated=sites,
                  recorded_events=events, external_functions_modelled=len(ext),
                  functions=sorted(funcs)[:400],
                  samples=[c["key"] + ((" -- " + c["note"]) if c.get("note") else "") for c in clauses if c["status"] == "ok"][:40],
                  undecided=[c["key"] + ": " + c["msg"][:200] for c in clauses if c["status"] == "undecided"][:60],
              ),
              assumptions=meta.get("assume", []) + [
                  "external libraries (numpy, scipy, sparse) behave as their signatures in sa/models.py and sa/ext.py say",
                  "the abstract inputs of the scenarios (ranks, lower bounds, declared alternatives) are the ones stated in DESIGN.md"],
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", pid + ".json")
    if bad or kfound:
        ev["coverage"]["violations"] = [{k: c[k] for k in ("key", "where", "msg", "note")} for c in bad][:60]
        ev["coverage"]["known"] = [c["key"] for c, _ in kfound]
    with open(evp, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    seen = set()
    for c, txt in kfound:
        print(f"KNOWN-FINDING: property={pid} {c['key']} {txt}")
    if cnt["undecided"]:
        print(f"note: {cnt['undecided']} clause(s) undecided, see {os.path.relpath(evp, HERE)}")
        if os.environ.get("VERIF_DEBUG"):
            for c in clauses:
                if c["status"] == "undecided":
                    print("   undecided", c["key"], c["msg"][:400])
    if bad:
        rp = os.path.join(HERE, "evidence", pid + "-violations.txt")
        with open(rp, "w") as fh:
            for c in bad:
                fh.write(f"{c['key']}\n  at {c['where']}\n  {c['msg']}\n  {c['note']}\n\n")
        for c in bad[:8]:
            print(f"  [{c['key']}] at {c['where']}: {c['msg'][:600]}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(rp, HERE)}")
        return 1
    print(f"OK property={pid} obligations={decided} discharged={cnt['ok']} undecided={cnt['undecided']} known={len(kfound)} "
          f"functions={len(funcs)} sites={sites} wall={time.time() - t0:.1f}s")
    return 0


_JOBS = []


def _run_i(i):
    return _run(_JOBS[i])
