"""Per-property decision: which obligations a property has and how each is discharged on the current tree."""
import os, core, props, anchors, engine, pp, shapes, guards, locks

def decide(P, dump, tier):
    viol, cov = one(P, os.path.join(core.VERIF, 'ref'), dump, tier)
    mini = os.path.join(dump, 'min')
    if os.path.isdir(mini):
        if os.path.exists(os.path.join(mini, 'failed')):
            cov['without_features'] = 'not analysed: the tree does not compile without its default features'
        else:
            v2, c2 = one(P, os.path.join(core.VERIF, 'ref', 'min'), mini, tier)
            seen = {v['key'] for v in viol}
            viol += [dict(v, text='[built without features]\n' + v['text']) for v in v2 if v['key'] not in seen]
            cov['without_features'] = {k: c2[k] for k in ('obligations', 'rows_compared', 'row_pairs', 'calls_resolved', 'bodies_in_tree')}
    cov['discharged'] = cov['obligations'] - len({v['key'].split(':')[0] for v in viol})
    return dict(violations=viol, coverage=cov)

def one(P, refdir, dump, tier):
    ref = core.load(refdir)
    cur, ren = core.current(ref, dump)
    C = core.Compare(ref, cur)
    viol = []; ob = []; 
    names = set(C.rk) | set(pseudo(ref))
    keys = props.keys_of(P, names)
    if len(keys) < FLOOR.get(P, 1): viol.append(dict(key='anchors', text='only %d functions carry this property in the reference' % len(keys)))
    named = len(keys)
    keys = closure(C, keys, 1 if tier == 'quick' else 99)
    for k in keys:
        ob.append(k)
        if k in C.rk:
            for d in C.check(k):
                viol.append(dict(key='%s: %s' % (d['body'], d['why']), text=d['text'] + ('\nalso visible through: %s' % (d['callers'],) if d.get('callers') else '')))
        else:
            for d in PSEUDO[k.split()[0]](C, k.split(' ', 1)[1]): viol.append(d)
    cov = dict(explanation='Every listed function of the current source was turned into its decision table (all paths: conditions, effects in order, result, final state; '
               'loops by fixpoint, helpers looked through) and compared row by row with the reviewed table of the same function; every jointly satisfiable pair of rows must agree. '
               'An obligation is one function (or static, derived implementation, guard or lock rule): %d carry this property, the others are what they call.' % named,
               obligations=len(ob), functions=ob, rows_compared=C.stats['rows'], row_pairs=C.stats['pairs'],
               calls_resolved=C.stats['calls'], bodies_in_tree=len(cur.bodies), samples=sample(C, ob))
    if hasattr(C, 'L'):
        cov.update(call_sites=C.L.sites, program_points=C.L.points, acquisitions=C.L.acqs, nestings=sorted('%s -> %s' % (C.L.name(a), C.L.name(b)) for a, b in C.L.edges))
    return viol, cov

FLOOR = {}
PSEUDO = dict(derive=shapes.derive, static=shapes.static, guard=guards.guard, locks=locks.locks)
def pseudo(ref): return shapes.names(ref) + guards.names(ref) + locks.names(ref)

def sample(C, ob):
    out = []
    for k in ob[:400]:
        for side, bid, _ in list(C.cache):
            if side == 1 and C.cur.bodies[bid].key == k:
                rows, E, err = C.cache[(side, bid, None)] if (side, bid, None) in C.cache else (None, None, None)
                if rows:
                    out.append(dict(function=bid, rows=len(rows), first=pp.table(rows[:1], E.loops)[:600].split('\n')))
        if len(out) >= 2: break
    return out

def closure(C, keys, depth):
    """with what those functions call, directly (quick) or transitively (thorough)"""
    callees = {}
    for c, fs in C.callers_ref.items():
        for f in fs: callees.setdefault(C.ref.bodies[f].key, set()).add(C.ref.bodies[c].key)
    out = set(keys); work = list(keys)
    while work and depth:
        depth -= 1
        nxt = [c for k in work for c in callees.get(k, ()) if c not in out and c in C.rk]
        out.update(nxt); work = set(nxt)
    return sorted(out)
