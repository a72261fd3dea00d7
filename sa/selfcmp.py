#!/usr/bin/env python3
"""compare two dumps on every function: selfcmp.py REFDIR CURDIR [key...]"""
import sys, time, core, anchors, decide
ref = core.load(sys.argv[1]); cur, ren = core.current(ref, sys.argv[2])
if any(ren.values()): print('renamed', ren)
C = core.Compare(ref, cur)
ks = sys.argv[3:] or sorted(C.rk) + sorted(decide.pseudo(ref))
t = time.time(); bad = 0
for k in ks:
    if any(x in k for x in ('Visitor>',)) : continue
    t1 = time.time()
    if k not in C.rk:
        for v in decide.PSEUDO[k.split()[0]](C, k.split(' ', 1)[1]):
            bad += 1; print('VIOLATION', v['key']); print('\n'.join('    ' + l[:220] for l in v['text'].split('\n')[:40]))
        continue
    for d in C.check(k):
        bad += 1
        print('VIOLATION', k, d['why'], d.get('callers')); print('\n'.join('    ' + l[:220] for l in d['text'].split('\n')[:40]))
    if time.time() - t1 > 2: print(k, '%.1fs' % (time.time() - t1))
print(len(ks), 'functions', bad, 'bad %.1fs' % (time.time() - t), C.stats, 'static', C.static_ren)
