#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
   check.py <property id> --replay FILE
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") is None or not sys.dont_write_bytecode or \
        os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["LC_ALL"] = "C.UTF-8"
    os.execv(PY, [PY, "-B", "-W", "ignore"] + sys.argv)

import argparse
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dst import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true",
                    help="load the package under test and every check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests", action="store_true",
                    help="print one event-log digest per run (determinism self-test)")
    a = ap.parse_args()
    sys.setrecursionlimit(3000)
    try:
        core.import_jsgf()
    except BaseException as e:   # the tree does not even import
        import traceback
        traceback.print_exc()
        print("cannot import the package under test: %r" % e, file=sys.stderr)
        return 2
    if a.selftest:
        names = sorted(n[:-3] for n in os.listdir(os.path.join(HERE, "dst", "checks"))
                       if n[0] == "c" and n.endswith(".py"))
        for n in names:
            importlib.import_module("dst.checks.%s" % n)
        print("loaded %d checks against %s" % (len(names), core.REPO))
        return 0
    check = importlib.import_module("dst.checks.%s" % a.prop.lower())
    if a.replay:
        return core.replay(check, os.path.abspath(a.replay))
    if a.digests:
        return core.digests(check, a.tier, a.seed, a.runs, a.workers)
    return core.run_check(check, a.tier, a.seed, a.runs, a.workers)


if __name__ == "__main__":
    sys.exit(main())
