"""Readable form of terms, guards and rows."""
def P(t):
    if isinstance(t, frozenset): return DEFS.name('break', t) if DEFS is not None else brk(t)
    if not isinstance(t, tuple): return repr(t) if isinstance(t, str) else str(t)
    if not t: return '()'
    if isinstance(t, frozenset): return DEFS.name('break', t) if DEFS is not None else brk(t)
    k = t[0]
    if not isinstance(k, str): return '(' + ', '.join(P(x) for x in t) + ')'
    if k == 'int': return str(t[1])
    if k == 'bool': return 'true' if t[1] else 'false'
    if k == 'str': return '"%s"' % t[1]
    if k == 'adt':
        n = t[1].split('::')[-1]
        head = t[2] if t[2] == n else (n + '.' + t[2] if n not in ('Option', 'Result', 'Poll') else t[2])
        if not t[3]: return head
        if all(f.isdigit() for f, _ in t[3]): return head + '(' + ', '.join(P(v) for _, v in t[3]) + ')'
        return head + '{' + ', '.join(f.lstrip('.') + ': ' + P(v) for f, v in t[3]) + '}'
    if k == 'tup': return '(' + ', '.join(P(x) for x in t[1]) + ')'
    if k == 'arr': return '[' + ', '.join(P(x) for x in t[1]) + ']'
    if k == 'arg': return 'a%s' % t[1]
    if k == 'p': return 'p%s' % t[1]
    if k == 'static': return t[1]
    if k == 'f': return P(t[1]) + '.' + t[2].lstrip('.')
    if k == 'as': return P(t[1]) + '!' + t[2]
    if k == 'idx': return P(t[1]) + '[' + P(t[2]) + ']'
    if k == 'key': return P(t[1]) + '[' + P(t[2]) + ']'
    if k == 'get': return 'get(' + P(t[1]) + ', ' + P(t[2]) + ')' + ('#%s' % (t[3] if isinstance(t[3], int) else P(t[3])) if len(t) > 3 else '')
    if k == 'mapval': return P(t[1]) + '[' + P(t[2]) + ']'
    if k == 'not': return '!' + P(t[1])
    if k == 'eq': return '(' + P(t[1]) + ' == ' + P(t[2]) + ')'
    if k == 'lt': return '(' + P(t[1]) + ' < ' + P(t[2]) + ')'
    if k == 'bin': return '(' + P(t[2]) + ' ' + t[1] + ' ' + P(t[3]) + ')'
    if k in ('ret', 'call', 'fut') : 
        return ('' if k != 'ret' else 'ret:') + str(t[1]) + '(' + ', '.join(P(x) for x in t[2:]) + ')'
    if DEFS is not None:
        if k in ('loop', 'async', 'fn|'): return DEFS.name(k, t)
        if k == 'post' and t[1] in DEFS.loops: return 'after[' + P(t[2]) + ' in ' + DEFS.name('loop', DEFS.loops[t[1]]) + ']'
        if k in ('hit', 'hitidx'): return '%s(%s, %s)' % (k, P(t[1]), DEFS.name('break', t[2]))
    if k == 'loop': return 'for %s%s {%s}' % (P(t[1]), (' with ' + ', '.join('%s=%s' % (P(a), P(b)) for a, b in t[2])) if t[2] else '', rows(t[3]))
    if k == 'async': return 'async {%s}' % rows(t[1])
    if k == 'fn|': return '|%d| {%s}' % (t[1], rows(t[2]))
    if k == 'phi': return 'v%s<%s>' % (t[1], ','.join(x if isinstance(x, str) else P(x) for x in t[2:]))
    if k == 'post': return 'after[' + P(t[2]) + ' in ' + str(t[1]) + ']'
    if k == 'upd': return P(t[1]) + '{' + ', '.join(''.join(('.' if e[0] == 'f' else '!') + str(e[1]).lstrip('.') if e[0] in 'fv' else '[' + P(e[1]) + ']' for e in p) + '=' + P(v) for p, v in t[2]) + '}'
    return k + '(' + ', '.join(P(x) for x in t[1:]) + ')'

def G(a, v):
    if a[0] == 'exit':
        s = 'exit(' + P(a[1]) + ', ' + P(a[2]) + ')'
    else: s = P(a[1]) if a[0] in ('is', 'v') else P(a)
    def pv(x):
        return str(x)
    vs = '|'.join(sorted(pv(x) for x in v[1]))
    return s + (' is ' if v[0] == '+' else ' not ') + vs

def rowlines(rs, ind):
    out = []
    for r in rs:
        g, e, x = r[0], r[1], r[2]
        gs = g.items() if isinstance(g, dict) else g
        L = [ind + 'WHEN ' + ('; '.join(sorted(G(a, v) for a, v in gs)) or 'always')]
        L += [ind + '   DO ' + P(y) for y in e]
        if x and x[0] in ('ret', 'panic') and isinstance(x[0], str):
            L.append(ind + ('   RETURN ' + P(x[1]) if x[0] == 'ret' else '   PANIC'))
            sets = x[2] if len(x) > 2 else (r[3] if len(r) > 3 else ())
        elif x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], tuple): sets = x
        else:
            sets = ()
            if x: L.append(ind + '   -> ' + P(x))
        for loc, v in sets: L.append(ind + '   SET ' + P(loc) + ' := ' + P(v))
        out.append('\n'.join(L))
    return sorted(out)

class Defs:
    def __init__(self, loops): self.loops = loops; self.d = {}; self.todo = []
    def name(self, pre, t):
        key = (pre, t)
        if key not in self.d:
            self.d[key] = '%s#%d' % (pre, len(self.d) + 1); self.todo.append(key)
        return self.d[key]
DEFS = None

def rows(rs):
    return ' // '.join(' '.join(x.split()) for x in rowlines(rs, ''))

def brk(sig):
    if not isinstance(sig, frozenset): return str(sig)
    return ' or '.join('{' + '; '.join(sorted(G(*y) for y in x) if isinstance(x, frozenset) else [str(x)]) + '}' for x in sorted(sig, key=repr))

def table(rs, loops=None):
    global DEFS
    DEFS = Defs(loops or {})
    try:
        out = rowlines(rs, '')
        while DEFS.todo:
            todo, DEFS.todo = DEFS.todo, []
            for key in todo:
                pre, t = key
                if pre == 'break': out.append('%s: %s' % (DEFS.d[key], brk(t))); continue
                if pre == 'loop': head = 'for ' + P(t[1]) + (' with ' + ', '.join('%s=%s' % (P(a), P(b)) for a, b in t[2]) if t[2] else '') + (' until ' + P(t[4]) if t[4] else ''); body = t[3]
                elif pre == 'async': head = ''; body = t[1]
                else: head = '|%d args|' % t[1]; body = t[2]
                out.append('%s: %s\n%s' % (DEFS.d[key], head, '\n'.join(rowlines(body, '     '))))
        return '\n'.join(out)
    finally: DEFS = None
