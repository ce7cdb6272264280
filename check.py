#!/usr/bin/env python3
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    if sys.argv[1:] == ["--setup"]:
        from vlib import build
        build.setup()
        return 0
    from vlib import checks
    from vlib.build import BuildError
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return checks.run(pid, tier, seed)
    except BuildError as e:
        print("BUILD-ERROR: %s" % str(e)[:3000])
        return 2


if __name__ == "__main__":
    sys.exit(main())
