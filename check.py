#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. 2: error."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import runner
import drive
import plan


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rep = runner.Report(pid, tier, seed)
    try:
        drive.build_compiler()
    except RuntimeError as e:
        rep.errors.append(str(e))
        sys.exit(rep.finish())
    plan.run(rep, pid, tier, seed)
    sys.exit(rep.finish())


if __name__ == '__main__':
    main()
