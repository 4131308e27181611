"""python3 -m pv.run ID [--only SCENARIO] [-v] [--keep]"""
import glob
import importlib
import os
import re
import sys


def main():
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    for p in sorted(glob.glob(here + "/checks/*.py")):
        if re.search(rf"(?m)^ID = \"{pid}\"", open(p).read()):
            mod = importlib.import_module("checks." + os.path.basename(p)[:-3])
            from pv import check
            sys.exit(check.run(mod, only))
    print("no check for " + pid, file=sys.stderr)
    sys.exit(2)


main()
