import os
import sys
if os.environ.get("PYTHONHASHSEED") is None or os.environ["PYTHONHASHSEED"] == "random":
    # one fixed iteration order of sets of names: the same source gives the same analysis
    os.execve(sys.executable, [sys.executable, "-m", "sa", *sys.argv[1:]], dict(os.environ, PYTHONHASHSEED="0"))
sys.setrecursionlimit(100000)
from . import core, rules   # noqa

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv else None
    if a == ["all"]:
        a = sorted(core.RULES)
    rc = 0
    for p in a:
        try:
            r = core.main(p, tier)
        except SystemExit:
            raise
        except BaseException as e:   # noqa
            import traceback
            traceback.print_exc()
            print(f"ANALYSIS-BROKEN property={p} {type(e).__name__}: {e}")
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    sys.exit(rc)
