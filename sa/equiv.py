"""Semantic comparison of two decision tables (paths of a function as computed by the engine).

spec = reviewed table, impl = table of the code under analysis.  Every pair of rows whose conditions are jointly
satisfiable must agree on outcome, returned value, final state and effect sequence, modulo what the joint conditions
imply.  Tables are total and deterministic, so this is complete for the modelled domain.  No solver is used: joint
conditions are per-atom set intersections plus a few closed rules (order, equality classes)."""
import itertools
from engine import *
import engine, pp

# these only compute something: what matters is where the result goes
PURE = ('Reference::new', 'now', 'serialize_value', 'Hello::validate')
WAITS = ('Process::receive', 'Process::sleep')
SPAWN = ('Process::spawn', 'Process::spawn_link')
# each only takes one entry out of a table, if it is there
REMOVE = ('link_destroy', 'node_link_destroy', 'node_process_link_destroy', 'monitor_destroy', 'monitor_destroy_all', 'alias_destroy', 'alias_destroy_all',
          'node_process_monitor_destroy', 'node_process_monitor_cleanup')
SYM = ('eq',)

def mapterm(t, f, memo):
    """bottom-up rewrite with f applied to every rebuilt subterm"""
    if not isinstance(t, (tuple, frozenset)): return t
    r = memo.get(t)
    if r is not None: return r
    if isinstance(t, frozenset):
        n = frozenset(mapterm(x, f, memo) for x in t)
    else:
        n = tuple(mapterm(x, f, memo) for x in t)
        if n != t: n = resimp(n)
    n = f(n)
    memo[t] = n
    return n

def collect(t, out, seen):
    """all post/hit/exit subterms and break conditions"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, (tuple, frozenset)) or x in seen: continue
        seen.add(x)
        if isinstance(x, tuple) and x and x[0] in ('post', 'hit', 'hitidx', 'exit'): out.add(x)
        st.extend(x)

class Mismatch(Exception): pass

class Cmp:
    def __init__(self, E1, E2, ren=None):
        self.E1 = E1; self.E2 = E2
        self.dropping = False
        self.loops1 = dict(E1.loops); self.loops2 = dict(E2.loops)
        self.memo = {}; self.busy = set(); self.steps = 0
        self.ren = ren            # rename applied to the impl terms (statics, fields)

    # ---- heads under guards
    def head(self, t, g):
        for _ in range(20):
            if not isinstance(t, tuple) or not t or not isinstance(t[0], str): return t
            n = self.head1(t, g)
            if n is t or n == t: return t
            t = n
        return t
    def head1(self, t, g):
        k = t[0]
        if k in ('bool', 'int', 'str', 'adt', 'tup'): return t
        if k == 'not':
            x = self.head(t[1], g)
            return mk_not(x)
        if k == 'and':
            a = self.head(t[1], g); b = self.head(t[2], g)
            if a == FALSE or b == FALSE: return FALSE
            if a == TRUE: return b
            if b == TRUE: return a
        if k == 'or':
            a = self.head(t[1], g); b = self.head(t[2], g)
            if a == TRUE or b == TRUE: return TRUE
            if a == FALSE: return b
            if b == FALSE: return a
        if k == 'isvar':
            x = self.head(t[1], g)
            if x[0] == 'adt': return ('bool', x[2] == t[2])
            v = g.get(('is', t[1]))
            if v is not None:
                m = gmeet(v, ('+', frozenset((t[2],))))
                if gempty(m): return FALSE
                if v[0] == '+' and v[1] == frozenset((t[2],)): return TRUE
            return t
        if k == 'post' and g and len(t) == 3:
            L = self.loops1.get(t[1]) or self.loops2.get(t[1])
            if L and self.nothing(L[1], g):
                i = dict(L[2]).get(t[2])
                if i is not None: return i
        if g:
            v = g.get(t)
            if v is not None and v[0] == '+' and len(v[1]) == 1:
                x = next(iter(v[1]))
                if x is True or x is False: return ('bool', x)
            v = g.get(('v', t))
            if v is not None and v[0] == '+' and len(v[1]) == 1:
                x = next(iter(v[1]))
                return ('str', x) if isinstance(x, str) else ('int', x)
            v = g.get(('is', t))
            if v is not None and v[0] == '+' and len(v[1]) == 1:
                x = self.expand(t, next(iter(v[1])))
                if x is not None: return x
        if k == 'eq':
            a = self.head(t[1], g); b = self.head(t[2], g)
            if a == b: return TRUE
            if a[0] == 'adt' and b[0] == 'adt':
                if a[2] != b[2]: return FALSE
                if not a[3]: return TRUE
            for x, y in ((a, b), (b, a)):
                if x[0] in ('int', 'str') and gexcl(g.get(('v', y)) if g else None, x[1]): return FALSE
                if x[0] == 'adt' and gexcl(g.get(('is', y)) if g else None, x[2]): return FALSE
            if (a, b) != (t[1], t[2]): return mk_eq(a, b)
            return t
        if k == 'discr':
            return t
        if k == 'upd' and g:
            b = t[1][1] if t[1][0] == 'init' else t[1]
            v = g.get(('is', b))
            if v is not None and v[0] == '+' and len(v[1]) == 1:
                v = next(iter(v[1]))
                x = self.expand(b, v) if all(p and p[0] == ('v', v) for p, _ in t[2]) else None
                if x is not None and x[3]: return x[:3] + (tuple((n, project(project(t, ('v', v)), ('f', n))) for n, _ in x[3]),)
        p = proj_elems(t) if len(t) == 3 else None
        if p is not None:
            b = self.head(p[0], g)
            if b is not p[0]: return project(b, p[1])
        return t
    def expand(self, t, variant):
        u = self.E1.uni_of(frozenset((variant,)))
        for ad in (('core::option::Option', ('Some', 'None')), ('core::result::Result', ('Ok', 'Err'))):
            if variant in ad[1]:
                if variant == 'None': return NONE
                return ('adt', ad[0], variant, (('0', project(project(t, ('v', variant)), ('f', '0'))),))
        c = [(p, a) for p, a in self.E1.p.adts.items() if a['enum'] and a['local'] and variant in a['names']]
        if len(c) != 1: return None
        p, a = c[0]
        fs = a['variants'][variant]['fields']
        b = project(t, ('v', variant))
        return ('adt', p, variant, tuple((n, project(b, ('f', n))) for n, _ in fs))

    # ---- equality of values under guards
    def eqv(self, x, y, g):
        if x == y: return True
        if not isinstance(x, (tuple, frozenset)) or not isinstance(y, (tuple, frozenset)): return False
        key = (x, y)
        if self.memo.get(key): return True
        gk = frozenset(g.items()) if g else None
        if gk is not None:
            r = self.memo.get((x, y, gk))
            if r is not None: return r
        elif key in self.memo: return self.memo[key]
        bk = (x, y, gk)
        if bk in self.busy: return True          # coinductive
        self.busy.add(bk)
        try: r = self.eqv1(x, y, g)
        finally: self.busy.discard(bk)
        if gk is None: self.memo[key] = r
        else: self.memo[bk] = r
        return r

    def eqv1(self, x, y, g):
        self.steps += 1
        if isinstance(x, frozenset) or isinstance(y, frozenset):
            if not (isinstance(x, frozenset) and isinstance(y, frozenset)): return False
            return self.cubes_eq(x, y, g)
        x0, y0 = x, y
        x = self.head(x, g); y = self.head(y, g)
        if x == y: return True
        if g and self.same_class(x, y, g): return True
        if not x or not y: return False
        if not isinstance(x, tuple) or not isinstance(y, tuple): return False
        a, b = x[0], y[0]
        if g:
            for p, q in ((x, y), (y, x)):
                if p == ('arr', ()) and self.nothing(q, g): return True
        if a == b == 'loop': return self.loop_eq(x, y, None, g)
        if a == b == 'post':
            l1 = self.loops1.get(x[1]) or self.loops2.get(x[1]); l2 = self.loops2.get(y[1]) or self.loops1.get(y[1])
            if l1 is None or l2 is None: return False
            if x[1] == y[1]: return x[2] == y[2]
            return self.loop_eq(l1, l2, {x[2]: y[2]}, {})
        if a == b == 'async': return self.nested_eq(x[1], y[1], g)
        if a == b == 'fn|': return x[1] == y[1] and self.nested_eq(x[2], y[2], g)
        if a == b == 'adt':
            if x[2] != y[2] or x[1] != y[1]: return False
            d1, d2 = dict(x[3]), dict(y[3])
            return set(d1) == set(d2) and all(self.eqv(d1[n], d2[n], g) for n in d1)
        if (a == 'adt' or b == 'adt') and not (a in ('bool', 'int', 'str') or b in ('bool', 'int', 'str')):
            s, o, flip = (x, y, False) if a == 'adt' else (y, x, True)
            ad = self.E1.p.adts.get(s[1])
            if ad is not None and ad['enum'] or s[1] in (OPT, RES, POLL, CF):
                # a value known to be of that variant, taken apart and put together again
                if not g or g.get(('is', o)) != ('+', frozenset((s[2],))): return False
                pv = project(o, ('v', s[2]))
                return all(self.eqv(*((project(pv, ('f', n)), v) if flip else (v, project(pv, ('f', n)))), g) for n, v in s[3])
            if ad is None or not s[3]: return False
            if o[0] in ('ret', 'out', 'arg', 'p', 'f', 'as', 'upd', 'elem', 'hit', 'get', 'mapval', 'idx', 'phi', 'post', 'static', 'init', 'after', 'key'):
                def pe(v, w): return self.eqv(w, v, g) if flip else self.eqv(v, w, g)
                return all(pe(v, project(o, ('f', n))) for n, v in s[3])
            return False
        if (a == 'tup') != (b == 'tup'):
            s, o, flip = (x, y, False) if a == 'tup' else (y, x, True)
            if not s[1]: return o[0] in ('f', 'ret', 'out') and (o[0] != 'f' or o[1][0] == 'as')          # the only value of the type
            if o[0] in ('bool', 'int', 'str', 'arr', 'loop', 'async', 'fn|', 'call'): return False
            return all(self.eqv(*((project(o, ('f', str(i))), v) if flip else (v, project(o, ('f', str(i))))), g) for i, v in enumerate(s[1]))
        if a == 'upd' or b == 'upd': return self.upd_eq(x, y, g)
        if a in SYM and a == b:
            return (self.eqv(x[1], y[1], g) and self.eqv(x[2], y[2], g)) or (self.eqv(x[1], y[2], g) and self.eqv(x[2], y[1], g))
        if a == b == 'bin' and x[1] == y[1] and x[1] in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and len(x) == len(y) == 4:
            return (self.eqv(x[2], y[2], g) and self.eqv(x[3], y[3], g)) or (self.eqv(x[2], y[3], g) and self.eqv(x[3], y[2], g))
        if len(x) != len(y): return False
        return all(self.eqv(u, v, g) for u, v in zip(x, y))

    def upd_eq(self, x, y, g):
        bx, ux = (x[1], x[2]) if x[0] == 'upd' else (x, ())
        by, uy = (y[1], y[2]) if y[0] == 'upd' else (y, ())
        if not self.eqv(bx, by, g) and not (bx[0] == 'init' and self.eqv(bx[1], by, g)) and not (by[0] == 'init' and self.eqv(bx, by[1], g)):
            return False
        heads = {p[:1] for p, _ in ux} | {p[:1] for p, _ in uy}
        if any(h[0][0] == 'v' for h in heads):
            paths = {p for p, _ in ux} | {p for p, _ in uy}
        else: paths = heads
        for p in paths:
            a, b = x, y
            for e in p: a, b = project(a, e), project(b, e)
            if not self.eqv(strip(a), strip(b), g): return False
        return True

    def same_class(self, x, y, g):
        """x and y are connected by equalities the guards assert"""
        eqs = [(k[1], k[2]) for k, v in g.items() if k[0] == 'eq' and v == ('+', frozenset((True,)))]
        if not eqs: return False
        cls = {x}
        grew = True
        while grew:
            grew = False
            for a, b in eqs:
                if a in cls and b not in cls: cls.add(b); grew = True
                elif b in cls and a not in cls: cls.add(a); grew = True
        return y in cls

    def cubes_eq(self, b1, b2, g):
        if not (all(isinstance(c, frozenset) for c in b1) and all(isinstance(c, frozenset) for c in b2)):
            # an unordered set of other things
            if len(b1) != len(b2): return False
            rest = list(b2)
            for x in b1:
                for y in rest:
                    if self.eqv(x, y, g): rest.remove(y); break
                else: return False
            return True
        a1 = {a for c in b1 for a, _ in c}; a2 = {a for c in b2 for a, _ in c}
        m = self.match_atoms(a1, a2)
        n2 = frozenset(frozenset((m.get(a, a), v) for a, v in c) for c in b2)
        if n2 == b1: return True
        if self.E1.canon_dnf(b1) == self.E1.canon_dnf(n2): return True
        dom = self.E1.dnf_domains(b1 | n2)
        return all(self.uncovered(dict(c), n2, dom) is None for c in b1 - n2) and all(self.uncovered(dict(c), b1, dom) is None for c in n2 - b1)

    def match_atoms(self, a1, a2):
        m = {}
        only1 = [a for a in a1 if a not in a2]
        for a in a2:
            if a in a1: continue
            for b in only1:
                if b[0] == a[0] and b not in m.values() and self.eqv(b, a, {}):
                    m[a] = b; break
        return m

    def nested_eq(self, t1, t2, g):
        if t1 == t2: return True
        def leaf(r1, r2, j): return self.events_eq(r1[1], r2[1], j) and self.eqv(r1[2], r2[2], j)
        return self.rows_eq([(dict(r[0]),) + tuple(r[1:]) for r in t1], [(dict(r[0]),) + tuple(r[1:]) for r in t2], leaf, g) is None

    def rows_eq(self, R1, R2, leaf, g):
        """None if all compatible pairs agree, else the first pair that does not"""
        a1 = {a for r in R1 for a in r[0]}; a2 = {a for r in R2 for a in r[0]}
        m = self.match_atoms(a1, a2)
        if m:
            memo = {}
            f = lambda t: m.get(t, t)
            R2 = [({m.get(a, a): v for a, v in r[0].items()},) + tuple(mapterm(x, f, memo) for x in r[1:]) for r in R2]
        # what the path decided outside about a name that is decided again inside (an earlier or later iteration, another
        # time the body runs) says nothing about the inside
        g = {a: v for a, v in g.items() if a not in a1 and a not in a2}
        for r1 in R1:
            j1 = self.meet(g, r1[0])
            if j1 is None: continue
            for r2 in R2:
                j = self.meet(j1, r2[0])
                if j is None or not self.feasible(j): continue
                if not leaf(r1, r2, j): return r1, r2, j
        # nothing one side covers is left open by the other
        c1 = {frozenset(r[0].items()) for r in R1}; c2 = {frozenset(r[0].items()) for r in R2}
        if c1 != c2:
            dom = self.E1.dnf_domains(c1 | c2)
            for own, other, flip in ((R1, c2, False), (R2, c1, True)):
                for r in own:
                    if frozenset(r[0].items()) in other: continue
                    j = self.meet(g, r[0])
                    if j is None or not self.feasible(j): continue
                    u = self.uncovered(j, other, dom)
                    if u is not None:
                        self.open = (r, flip)
                        return (r, None, u) if not flip else (None, r, u)
        return None

    def uncovered(self, cube, cubes, dom):
        """a feasible valuation of the cube that satisfies none of the cubes"""
        budget = [50000]
        def go(fixed, cs):
            budget[0] -= 1
            if budget[0] < 0: raise OverflowError
            if any(not c for c in cs): return None
            if not cs: return fixed if self.feasible(fixed) else None
            n = {}
            for c in cs:
                for a, _ in c: n[a] = n.get(a, 0) + 1
            a = max(n, key=lambda t: (t in fixed, n[t]))
            v = fixed.get(a)
            kids = {}
            for x in dom[a]:
                if v is not None and (x in v[1]) != (v[0] == '+'): continue
                out = set()
                for c in cs:
                    c2 = dict(c); w = c2.get(a)
                    if w is not None:
                        if (x in w[1]) != (w[0] == '+'): continue
                        del c2[a]
                    out.add(frozenset(c2.items()))
                kids.setdefault(frozenset(out), []).append(x)
            for out, xs in kids.items():
                f = dict(fixed)
                w = ('-', frozenset(dom[a]) - frozenset(xs) - {'*'}) if '*' in xs else ('+', frozenset(xs))
                f[a] = gmeet(v, w) if v is not None else w
                if gempty(f[a]) or not self.feasible(f): continue
                r = go(f, out)
                if r is not None: return r
            return None
        try: return go({a: v for a, v in cube.items()}, frozenset(cubes))
        except OverflowError:
            self.limits = getattr(self, 'limits', 0) + 1
            return None

    def meet(self, g1, g2):
        if not g1: return dict(g2)
        j = dict(g1)
        for a, v in g2.items():
            o = j.get(a)
            if o is not None:
                v = gmeet(o, v)
                if gempty(v): return None
            j[a] = v
        return j

    def feasible(self, j):
        par = {}
        def find(x):
            while par.get(x, x) != x: x = par[x]
            return x
        T1 = ('+', frozenset((True,))); F1 = ('+', frozenset((False,)))
        eqs = [a for a, v in j.items() if a[0] == 'eq' and v == T1]
        for a in eqs:
            x, y = find(a[1]), find(a[2])
            if x != y: par[x] = y
        for a, v in j.items():
            if a[0] == 'eq' and v == F1 and (eqs or False) and find(a[1]) == find(a[2]): return False
            if a[0] == 'lt':
                if v == T1:
                    if find(a[1]) == find(a[2]): return False
                    if j.get(('lt', a[2], a[1])) == T1: return False
                    if a[1][0] == a[2][0] == 'int' and not a[1][1] < a[2][1]: return False
                else:
                    if j.get(('lt', a[2], a[1])) == F1 and (j.get(('eq', a[1], a[2])) == F1 or j.get(('eq', a[2], a[1])) == F1): return False
        if eqs:
            # classes share variants and values
            seen = {}
            for a, v in j.items():
                if a[0] in ('is', 'v'):
                    k = (a[0], find(a[1]))
                    o = seen.get(k)
                    if o is not None:
                        v = gmeet(o, v)
                        if gempty(v): return False
                    seen[k] = v
                    c = find(a[1])
                    if a[0] == 'v' and c[0] in ('int', 'str') and gempty(gmeet(v, ('+', frozenset((c[1],))))): return False
        # integers: v = n against lt with literals, lower/upper bounds
        lo, hi = {}, {}
        for a, v in j.items():
            if a[0] == 'lt':
                x, y = a[1], a[2]
                if v == T1:
                    if y[0] == 'int': hi[x] = min(hi.get(x, y[1] - 1), y[1] - 1)
                    if x[0] == 'int': lo[y] = max(lo.get(y, x[1] + 1), x[1] + 1)
                elif v == F1:
                    if y[0] == 'int': lo[x] = max(lo.get(x, y[1]), y[1])
                    if x[0] == 'int': hi[y] = min(hi.get(y, x[1]), x[1])
        for x in set(lo) | set(hi):
            if x in lo and x in hi and lo[x] > hi[x]: return False
            v = j.get(('v', x))
            if v is not None and v[0] == '+' and not any((x not in lo or n >= lo[x]) and (x not in hi or n <= hi[x]) for n in v[1] if isinstance(n, int)): return False
        # a break exit implies one of its break conditions is possible; an empty collection has no elements
        return True

    # ---- events
    def events_eq(self, e1, e2, g):
        if e1 == e2: return True
        if g:
            # going over what is known to be empty
            e1, e2 = (tuple(x for x in e if not (x[0] == 'do' and self.nothing(x[1][1], g))) for e in (e1, e2))
        e1, e2 = (tuple(x for x in e if not (x[0] == 'call' and x[1] in PURE and x[1] != 'now')) for e in (e1, e2))
        if len(e1) != len(e2): return False
        rest = list(e2)
        for x in e1:
            for i, y in enumerate(rest):
                if (x[0] == y[0]) and self.eqv(x, y, g):
                    if i and not all(self.commute(y, z) for z in rest[:i]): return False
                    del rest[i]; break
                if not True: break
            else: return False
        return True
    def nothing(self, src, g):
        while src and src[0] in ('rev', 'items'): src = src[1]
        return src == ('arr', ()) or g.get(('v', ('len', src))) == ('+', frozenset((0,)))
    def commute(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and x[1] in PURE: return x[1] != 'now' or y[0] not in ('await', 'within') and not (y[0] == 'call' and y[1] in WAITS)
        if a[0] == b[0] == 'call' and (a[1] in REMOVE and b[1] in REMOVE or a[1] == b[1] == 'link_create' and a[-1] == b[-1] == ('bool', True)): return True
        if a[0] == b[0] == 'call' and a[1] in SPAWN and b[1] in SPAWN: return True       # the two run side by side
        if a[0] == 'fetch_add' or b[0] == 'fetch_add':
            return a[1] != b[1] if a[0] == b[0] else True
        for x, y in ((a, b), (b, a)):
            # a field update and a use of another field of the same table entry, both under its guard
            if x[0] == 'set' and y[0] == 'call' and y[1] == 'JoinHandle::abort' or x[0] == 'set' and y[0] == 'send':
                k = base_get(x[1]); o = y[2] if y[0] == 'call' else y[1]
                if k is not None and o != x[1] and base_get(o) == k and not prefix(x[1], o): return True
        ra, rb = root(a), root(b)
        if ra is None or rb is None: return False
        if ra == rb or prefix(ra, rb) or prefix(rb, ra): return False
        if owned(ra) and owned(rb): return True
        if a[0] == b[0] == 'set' and same_guard(ra, rb): return True
        return False

    # ---- loops
    def phis(self, L): return [nm for nm, _ in L[2]]
    def loop_eq(self, L1, L2, need, g):
        if L1 == L2 and (need is None or all(a == b for a, b in need.items())): return True
        if not self.eqv(L1[1], L2[1], g): return False
        p1, p2 = self.phis(L1), self.phis(L2)
        rows1 = [(dict(r[0]), r[1], r[2]) for r in L1[3]]
        rows2 = [(dict(r[0]), r[1], r[2]) for r in L2[3]]
        need1 = set(need) if need else set(); need2 = set(need.values()) if need else set()
        rel1 = self.relevant(L1, need1); rel2 = self.relevant(L2, need2)
        if len(rel1) != len(rel2): return False
        cands = []
        cls = lambda n: n[:2] + ((n[2],) if len(n) > 2 else ())
        free1 = [n for n in rel1 if not (need and n in need)]
        free2 = [n for n in rel2 if n not in need2]
        same = [n for n in free1 if n in free2]
        rest1 = [n for n in free1 if n not in same]; rest2 = [n for n in free2 if n not in same]
        tries = []
        if len(free1) <= 4:
            for perm in itertools.permutations(free2):
                if all(a == b or isinstance(a, tuple) for a, b in zip(free1, perm)): tries.append(dict(zip(free1, perm)))
            tries.sort(key=lambda m: sum(a != b for a, b in m.items()))
        else:
            tries.append(dict(zip(same, same), **{}) | dict(zip(rest1, rest2)))
        for m in tries:
            mp = dict(m)
            if need: mp.update(need)
            if self.loop_eq1(L1, L2, rows1, rows2, mp, rel1, g): return True
        return False

    def relevant(self, L, need):
        ps = set(self.phis(L))
        rel = set(need)
        def use(t):
            st = [t]; seen = set()
            while st:
                x = st.pop()
                if not isinstance(x, (tuple, frozenset)) or x in seen: continue
                seen.add(x)
                if x in ps: rel.add(x)
                st.extend(x)
        use(L[1]); use(L[4])
        for r in L[3]:
            use(r[0]); use(r[1])
            for nm, v in r[2]:
                if nm[0] == 'at': use(v); use(nm)
        grew = True
        while grew:
            n = len(rel)
            for r in L[3]:
                for nm, v in r[2]:
                    if nm in rel: use(v)
            grew = len(rel) > n
        return rel & ps

    def loop_eq1(self, L1, L2, rows1, rows2, mp, rel1, g):
        inv = {b: a for a, b in mp.items() if a != b}
        if inv:
            memo = {}
            f = lambda t: inv.get(t, t)
            # simultaneous renaming: phi names are atoms, mapterm must not rewrite inside them
            def ren(t):
                if not isinstance(t, (tuple, frozenset)): return t
                if t in inv: return inv[t]
                if isinstance(t, tuple) and t and t[0] == 'phi': return t
                r = memo.get(t)
                if r is None:
                    r = frozenset(ren(x) for x in t) if isinstance(t, frozenset) else tuple(ren(x) for x in t)
                    memo[t] = r
                return r
            rows2 = [({ren(a): v for a, v in r[0].items()}, ren(r[1]), ren(r[2])) for r in rows2]
            L2 = ('loop', ren(L2[1]), tuple((ren(a), b) for a, b in L2[2]), None, ren(L2[4]))
        i1, i2 = dict(L1[2]), dict(L2[2])
        for a in rel1:
            if a not in i2 or not self.eqv(i1[a], i2[a], g): return False
        if not self.cubes_eq(L1[4], L2[4], {}): return False
        def leaf(r1, r2, j):
            if not self.events_eq(r1[1], r2[1], j): return False
            u1, u2 = dict(r1[2]), dict(r2[2])
            for k in set(u1) | set(u2):
                if k[0] != 'at' and k not in rel1: continue
                d = k if k[0] != 'at' else k[1]
                if not self.eqv(u1.get(k, d), u2.get(k, d), j): return False
            return True
        return self.rows_eq(rows1, rows2, leaf, g) is None

    # ---- whole tables
    def align(self, R1, R2):
        """rename loop and break references of the impl to the equal ones of the spec"""
        for _ in range(5):
            o1, o2 = set(), set(); s1, s2 = set(), set()
            for r in R1: collect((tuple(r[0].items()), r[1], r[2]), o1, s1)
            for r in R2: collect((tuple(r[0].items()), r[1], r[2]), o2, s2)
            m = {}
            posts1 = [x for x in o1 if x[0] == 'post']
            bs1 = {x[2] for x in o1 if x[0] in ('hit', 'hitidx', 'exit')}
            for x in sorted((x for x in o2 if x not in o1), key=canon):
                if x[0] == 'post':
                    for y in posts1:
                        if self.eqv(y, x, {}): m[x] = y; break
                elif x[2] not in bs1 and x[2] not in m:
                    for y in bs1:
                        if self.cubes_eq(y, x[2], {}): m[x[2]] = y; break
            if not m: return R2
            memo = {}
            f = lambda t: m.get(t, t)
            R2 = [[{mapterm(a, f, memo): v for a, v in r[0].items()}, mapterm(r[1], f, memo), mapterm(r[2], f, memo)] for r in R2]
        return R2

    def table(self, R1, R2):
        """[] when equal, else [(spec row, impl row, guards, why)]"""
        R1 = [[dict(r[0]), r[1], r[2]] for r in R1]; R2 = [[dict(r[0]), r[1], r[2]] for r in R2]
        if self.ren:
            memo = {}
            R2 = [[{mapterm(a, self.ren, memo): v for a, v in r[0].items()}, mapterm(r[1], self.ren, memo), mapterm(r[2], self.ren, memo)] for r in R2]
            self.loops2 = {k: mapterm(v, self.ren, memo) for k, v in self.loops2.items()}
        k1 = {(frozenset(r[0].items()), r[1], r[2]) for r in R1}; k2 = {(frozenset(r[0].items()), r[1], r[2]) for r in R2}
        if k1 == k2: return []
        R2 = self.align(R1, R2)
        self.why = None
        def leaf(r1, r2, j):
            w = self.outcome_diff(r1, r2, j)
            if w: self.why = w
            return not w
        bad = self.rows_eq(R1, R2, leaf, {})
        if bad is None: return []
        if bad[0] is None or bad[1] is None:
            x = bad[0] or bad[1]
            return [(x, x, bad[2], 'a case only one side has' if bad[1] is None else 'a case the required behaviour excludes')]
        return [bad + (self.why,)]

    def outcome_diff(self, r1, r2, j):
        x1, x2 = r1[2], r2[2]
        if x1[0] != x2[0]: return 'outcome'
        if not self.events_eq(r1[1], r2[1], j):
            # a peer's identifier of 0, or one missing from a frame, cannot be represented: how far the function gets before it panics on one is not observable behaviour
            if x1[0] == 'panic' and any(k[0] in ('v', 'is') and k[1][0] == 'f' and v in (('+', frozenset((0,))), ('+', frozenset(('None',)))) and (k[0] == 'v' or received(k[1])) for k, v in j.items()):
                a, b = sorted((r1[1], r2[1]), key=len)
                if self.events_eq(a, b[:len(a)], j): return None
            return 'effects'
        if x1[0] == 'ret' and not self.eqv(x1[1], x2[1], j): return 'result'
        s1, s2 = dict(x1[2]), dict(x2[2])
        if self.dropping: return None          # nobody sees what a destructor leaves in the value
        for loc in set(s1) | set(s2):
            a, b = self.readloc(s1, loc), self.readloc(s2, loc)
            if not self.eqv(a, b, j): return 'final state of ' + pp.P(loc)
        return None

    def readloc(self, heap, loc):
        st = St(); st.heap = heap
        return strip(self.E1.read_loc(st, loc))

def received(e):
    """a part of what a peer sent"""
    while e[0] in ('f', 'as', 'out'): e = e[1]
    return e[:2] == ('call', 'StreamExt::next')
def gexcl(v, x):
    """guard v rules value x out"""
    return v is not None and ((v[0] == '-' and x in v[1]) or (v[0] == '+' and x not in v[1]))

def root(e):
    """location an effect writes, as a path tuple"""
    if e[0] in ('put', 'del', 'sadd', 'sdel', 'mput', 'mdel', 'set', 'clear', 'retain', 'del_if', 'push', 'drain'): return e[1]
    return None
def prefix(a, b):
    while True:
        if a == b: return True
        if not isinstance(b, tuple) or len(b) < 2 or not isinstance(b[1], tuple): return False
        b = b[1]
def base(t):
    while isinstance(t, tuple) and len(t) > 1 and isinstance(t[1], tuple): t = t[1]
    return t
def owned(t):
    b = base(t)
    if b[0] == 'arg': return True
    return b[0] == 'static' and b[1].split('#')[0] == 'PROCESS'
def same_guard(a, b):
    return a[0] == b[0] == 'f' and a[1] == b[1] or (a[0] == 'f' and b[0] == 'f' and base_get(a) is not None and base_get(a) == base_get(b))
def base_get(t):
    while isinstance(t, tuple) and t[0] in ('f', 'as'):
        t = t[1]
    return t if isinstance(t, tuple) and t[0] in ('get', 'mapval') else None
