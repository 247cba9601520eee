import os
import sys


def main(argv):
    if not argv:
        print(__doc__ or "usage: pbt <property id> | replay FILE | setup")
        return 2
    from . import runner
    if argv[0] == "replay":
        return runner.replay(argv[1])
    if argv[0] == "setup":
        import json
        import hypothesis
        import scipy
        from . import lib
        with open(os.path.join(runner.HERE, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                runner.load(c["property"]).cases("quick")
        runner.known_findings()
        print("hypothesis %s, scipy %s, padasip from %s" % (hypothesis.__version__, scipy.__version__, lib.REPO))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.run_check(argv[0].upper(), seed, "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
