#!/usr/bin/env python
"""run.py Cxx [--tier quick|thorough] [--replay FILE]"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
sys.dont_write_bytecode = True
for p in (REPO, HERE):
    if p in sys.path:
        sys.path.remove(p)
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(10000)
import argparse
import importlib
import warnings
warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    a = ap.parse_args()
    from mc import core
    import blosc
    blosc.set_nthreads(1)
    mod = importlib.import_module('checks.' + a.prop)
    import bloscpack
    if not os.path.abspath(bloscpack.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print('bloscpack comes from %s, not %s' % (bloscpack.__file__, REPO), file=sys.stderr)
        return 2
    if a.replay:
        return core.replay(mod, os.path.abspath(a.replay))
    return core.explore(mod, a.tier, a.workers)


if __name__ == '__main__':
    sys.exit(main())
