#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property on /repo's current tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
if __name__ == "__main__":
    m = importlib.import_module(sys.argv[1].lower())
    c = m.check()
    if len(sys.argv) > 2:   # development: only jobs matching a pattern
        import fnmatch
        c.jobs = [j for j in c.jobs if fnmatch.fnmatch(j.id, sys.argv[2])]
    sys.stdout.flush()
    sys.exit(c.run())
