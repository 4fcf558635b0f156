#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness natively from /repo and replays a recorded counterexample."""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from concurrent.futures import ThreadPoolExecutor
def main():
    fn = os.path.abspath(sys.argv[1])
    name = next(l.split()[1] for l in open(fn) if l.startswith('case '))
    cases, harness = check.scan()
    c = next(c for c in cases if c.name == name)
    out = os.path.join(check.HERE, 'build', 'replay.%d' % os.getpid())
    try:
        mod, exe = check.build_harness(c.hfile, harness[c.hfile], [x.name for x in cases if x.hfile == c.hfile], out, ThreadPoolExecutor(8))
        r = check.native(exe, [fn])[fn]
        print('%s: %s %s' % (name, r[0], r[1]))
        return 1 if r[0] in ('assert', 'crash', 'timeout') else 0
    finally:
        shutil.rmtree(out, ignore_errors=True)
sys.exit(main())
