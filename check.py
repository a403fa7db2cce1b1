#!/opt/venv/bin/python
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--only PATTERN] [-v]"""
import argparse
import fnmatch
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0" or sys.flags.hash_randomization:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, *sys.argv])
    from sa import harness

    m = importlib.import_module(f"sa.props.{a.pid.lower()}")
    sc = m.scenarios(a.tier)
    if a.only:
        sc = [s for s in sc if fnmatch.fnmatchcase(s.name, a.only)]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return harness.run_check(a.pid, sc, m.EXPLANATION, m.RULES, a.tier, jobs=a.jobs, seed=seed, verbose=a.v,
                             static=getattr(m, "static", None))


if __name__ == "__main__":
    sys.exit(main())
