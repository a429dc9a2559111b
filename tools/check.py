"""check.py ID: decides a property on the current tree of /repo.
Exit 0 (held on everything explored), 1 (VIOLATION), 2 (error of the machinery)."""
import sys
import traceback

import judge
import checks


def main(pid):
    try:
        run = judge.Run(pid)
        try:
            getattr(checks, pid.lower())(run)
        except judge.Enough:
            pass
        return run.finish()
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
