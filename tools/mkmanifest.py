#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, os.path.join(V, 'sa'))
import mkprops, props
NA = {
 'C30': 'A statistical statement about the distribution of 64-bit hashes over arbitrary key and node sets; no property of the source short of evaluating the hash bounds it.',
}
TECH = 'static path-sensitive dataflow over rustc MIR (Herbrand decision tables, loop fixpoints, no solver), compared row by row with reviewed tables'
NOTE = ('Every path of every function carrying the property is covered, for all inputs; helpers are looked through, so edits that keep the behaviour keep the verdict. '
        'Assumes the reviewed tables state the property (DESIGN.md), that library calls (tokio, dashmap, flume, arc-swap, bincode, serde) mean what the models say, and rustc\'s MIR.')
SPECIAL = {
 'C24': ('static lock-order, guard-liveness and call-graph effect analysis over rustc MIR',
         'Covers every acquisition, every await and every callback in both crates on all paths; guard lifetimes come from MIR drops. Assumes table guards are the only blocking locks (dashmap, std mutex) and the callee models for library calls.'),
}
checks = []; na = []
for x in mkprops.P:
    p = x['id']
    if p in NA or p not in props.PROPS or (p in SPECIAL and not os.path.exists(os.path.join(V, 'sa', 'locks.py'))):
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet'))); continue
    t, n = SPECIAL.get(p, (TECH, NOTE))
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s thorough' % p, evidence_file='evidence/%s.json' % p, technique=t, level='other', level_note=n))
m = dict(version=1, setup_cmd='python3 sa/setup.py', checks=checks, not_applicable=na,
         notes='No hooks: the checks read the compiler\'s MIR of /repo\'s working tree, copied to /verif/.build; nothing of /repo is executed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
