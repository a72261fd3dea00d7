"""Guarded-by rules: steps that must happen while a particular lock is held.
The reviewed tree says which guards cover which step; a step of the current tree with fewer guards is a violation."""
import core, engine

# steps where the guard is what makes a check and the act that follows it one step
RING = {('call', 'ArcSwapAny::store'): '.ring_lock', ('read', '.ring'): '.ring_lock'}
RULES = {
 'process_exists_lock': {('call', '<callback>'): 'PROCESS_REGISTRY'},
 'link_create': {('sadd', 'LINKS'): 'PROCESS_REGISTRY'},
 'monitor_install': {('call', 'monitor_create'): 'PROCESS_REGISTRY'},
 'process_register': {('set', 'PROCESS_REGISTRY'): 'PROCESS_NAMES', ('put', 'PROCESS_NAMES'): 'PROCESS_NAMES'},
 'HashRing::add_node': RING, 'HashRing::add_nodes': RING, 'HashRing::remove_node': RING,
 'HashRing::set_nodes': {('call', 'ArcSwapAny::store'): '.ring_lock'},
 'HashRing::clear': {('call', 'ArcSwapAny::store'): '.ring_lock', ('clear', '.overrides'): '.ring_lock'},
 'node_accept': {('put', 'NODE_REGISTRATIONS'): 'NODE_MAP', ('put', 'NODE_MAP'): 'NODE_MAP', ('set', 'NODE_REGISTRATIONS'): 'NODE_MAP'},
 'node_disconnect': {('del', 'NODE_PENDING_MESSAGES'): 'NODE_REGISTRATIONS'},
 'node_local_start': {('call', 'Process::spawn'): 'NODE_MAP', ('put', 'NODE_REGISTRATIONS'): 'NODE_MAP'},
 'node_register': {('call', 'Process::spawn'): 'NODE_MAP', ('put', 'NODE_REGISTRATIONS'): 'NODE_MAP', ('set', 'NODE_REGISTRATIONS'): 'NODE_MAP'},
 'node_register_workers': {('del', 'NODE_PENDING_MESSAGES'): 'NODE_REGISTRATIONS', ('call', 'process_send'): 'NODE_REGISTRATIONS'},
 'node_remote_supervisor_down': {('del', 'NODE_LINKS'): 'NODE_REGISTRATIONS', ('del', 'NODE_MONITORS'): 'NODE_REGISTRATIONS', ('del', 'NODE_PENDING_MESSAGES'): 'NODE_REGISTRATIONS'},
 'node_send_frame': {('push', 'NODE_PENDING_MESSAGES'): 'NODE_REGISTRATIONS', ('call', 'process_send'): 'NODE_REGISTRATIONS'},
}

def root(t):
    if isinstance(t, tuple) and t:
        if t[0] == 'static': return t[1]
        if t[0] == 'f' and isinstance(t[2], str) and t[2].startswith('.') and t[1][0] in ('arg', 'upv', 'f'): 
            r = root(t[1])
            return r or t[2]
        for x in t:
            r = root(x)
            if r: return r
    return None

def steps(rows, E):
    """{step: [(conditions, held)]}"""
    out = {}
    def walk(t, g, seen):
        if isinstance(t, tuple):
            if id(t) in seen: return
            seen.add(id(t))
            if len(t) > 2 and isinstance(t[-1], tuple) and len(t[-1]) == 2 and t[-1][0] == 'held':
                k = (t[0], t[1] if isinstance(t[1], str) else root(t[1]))
                out.setdefault(k, []).append((g, frozenset(root(x) for x in t[-1][1])))
        if isinstance(t, (tuple, list, frozenset)):
            for x in t: walk(x, g, seen)
        elif isinstance(t, dict):
            for x in t.values(): walk(x, g, seen)
    for r in rows: walk(r[1:], r[0], set())
    seen = set()
    for l in E.loops.values(): walk(l if isinstance(l, (list, tuple, dict)) else getattr(l, '__dict__', ()), {}, seen)
    return out

def compatible(g, h):
    return not any(a in h and engine.gempty(engine.gmeet(v, h[a])) for a, v in g.items())

def names(ref): return ['guard ' + k for k in RULES]

def guard(C, name):
    if not hasattr(C, 'H'):
        C.H = core.Compare(C.ref, C.cur, held=True)
    H = C.H; out = []
    if name not in H.rk: return [dict(key='guard %s: missing' % name, text='no such function in the reference')]
    for rb, cb in H.pair(name):
        if cb is None: continue
        r1, E1, e1 = H.rows(0, rb, H.opaque); r2, E2, e2 = H.rows(1, cb, H.opaque)
        if r1 is None or r2 is None:
            out.append(dict(key='guard %s: not analysable' % name, text=e1 or e2)); continue
        a, b = steps(r1, E1), steps(r2, E2)
        for k, need in RULES[name].items():
            req = a.get(k, [])
            if not any(need in h for _, h in req):
                out.append(dict(key='guard %s: rule without a subject' % name, text='%s %s is nowhere under %s in the reviewed tree' % (k + (need,)))); continue
            for g, h in b.get(k, ()):
                h = {H.static_ren.get(('static', x), ('', x))[1] for x in h}
                # an entry that is not there cannot be held
                if any(c[0] == 'is' and c[1][0] == 'get' and v == ('+', frozenset({'None'})) and H.static_ren.get(('static', root(c[1])), ('', root(c[1])))[1] == need for c, v in g.items()): continue
                if need in h or any(need not in hr and compatible(g, gr) for gr, hr in req): continue
                out.append(dict(key='guard %s: %s %s without %s' % (name, k[0], k[1], need),
                                text='%s performs %s %s without holding its entry of %s; in the reviewed tree that step happens under the guard, so that no other task can come between the check and the act\nconditions: %s' % (name, k[0], k[1], need, g)))
                break
    return out
