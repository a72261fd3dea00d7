#!/usr/bin/env python3
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from load import Prog
import engine, pp, models, anchors
def load(D='/tmp/md'):
    p = Prog()
    for f in ('hydra-Rlib.json', 'hydra_websockets-Rlib.json'): p.load(os.path.join(D, f))
    return p
if __name__ == '__main__':
    p = load(os.environ.get('MD', '/tmp/md'))
    op = os.environ.get('OPAQUE', '').split()
    for k in sys.argv[1:]:
        for b in p.find(k):
            E = engine.Engine(p, opaque=anchors.opaque()|set(op), held='HELD' in os.environ)
            t = time.time()
            rows = E.entry(b)
            print('==', b, len(rows), 'paths %.2fs' % (time.time() - t), E.steps)
            print(pp.table(rows, E.loops))
            if 'UN' in os.environ: print(E.unmodelled)
