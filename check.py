#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's current source (see DESIGN.md)."""
import os, sys, json, time, traceback
T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import core, props

def main(P):
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        D = core.extract()
    except core.Fail as e:
        print('ERROR ' + str(e)); return 2
    import decide
    res = decide.decide(P, D, tier)
    known = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('known: property=%s ' % P):
            known.append(l.split(' ', 2)[2])
    viol = []
    for v in res['violations']:
        k = [x for x in known if x.split(' -- ')[0].strip() == v['key']]
        if k: print('KNOWN-FINDING: property=%s %s' % (P, k[0]))
        else: viol.append(v)
    rep = os.path.join(HERE, 'evidence', P + '.report.txt')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, 'w') as f:
        for v in viol: f.write('== %s\n%s\n\n' % (v['key'], v['text']))
        if not viol: f.write('no violation\n')
    ev = dict(property=P, tier=tier, seed=seed, level='other', wall_s=round(time.time() - T0, 2), coverage=res['coverage'])
    with open(os.path.join(HERE, 'evidence', P + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if viol:
        for v in viol[:20]: print('  ' + v['key'])
        print('VIOLATION property=%s replay=%s' % (P, rep))
        return 1
    print('OK property=%s obligations=%d' % (P, res['coverage']['obligations']))
    return 0

if __name__ == '__main__':
    try: rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
