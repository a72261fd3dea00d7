"""Path-sensitive abstract interpretation of MIR over uninterpreted (Herbrand) terms.

A path is a set of guards (atom -> set of values), a list of effect events, final values of what the caller can see,
and an outcome.  Nothing is executed and no solver is used: conditions that are not syntactically decided split the
path; loops are brought to a fixpoint in which every changed location is an opaque loop variable; paths that meet and
agree on everything but one exhaustive guard are merged.
"""
import re, sys, copy, hashlib
from load import Prog, Body, strip_modules, succs, rpo, loops, postdom_skip

sys.setrecursionlimit(20000)

UNIT = ('tup', ())
OPT = 'core::option::Option'; RES = 'core::result::Result'; POLL = 'core::task::poll::Poll'; CF = 'core::ops::control_flow::ControlFlow'
TRUE = ('bool', True); FALSE = ('bool', False)
def SOME(v): return ('adt', OPT, 'Some', (('0', v),))
NONE = ('adt', OPT, 'None', ())
def OK(v): return ('adt', RES, 'Ok', (('0', v),))
def ERR(v): return ('adt', RES, 'Err', (('0', v),))
def READY(v): return ('adt', POLL, 'Ready', (('0', v),))
def INT(n): return ('int', n)
def STR(s): return ('str', s)
def TUP(*a): return ('tup', tuple(a))

def canon(t):
    """deterministic text of a term (frozensets sorted)"""
    if isinstance(t, tuple): return '(' + ','.join([canon(x) for x in t]) + ')'
    if isinstance(t, frozenset): return '{' + ','.join(sorted(canon(x) for x in t)) + '}'
    return repr(t)
def digest(t): return hashlib.sha1(canon(t).encode()).hexdigest()[:12]
def small(t, n=60):
    st = [t]; c = 0
    while st:
        x = st.pop(); c += 1
        if c > n: return False
        if isinstance(x, (tuple, frozenset)): st.extend(x)
    return True

def locname(loc):
    import pp
    return 'loc ' + pp.P(loc)

class Unmodelled(Exception):
    pass

class TooBig(Exception):
    pass

# ---------------------------------------------------------------- states
_strip = {}
def strip(t):
    """('init', location) is the value a location had on entry; outside the interpreter it is shown as the location"""
    if isinstance(t, frozenset): return frozenset(strip(x) for x in t)
    if not isinstance(t, tuple) or not t: return t
    r = _strip.get(t)
    if r is None:
        if t[0] == 'init': r = strip(t[1])
        else:
            r = tuple(strip(x) for x in t)
            if r == t: r = t
        if len(_strip) > 400000: _strip.clear()
        _strip[t] = r
    return r

class Guards(dict):
    __slots__ = ()
    def get(self, k, d=None): return dict.get(self, strip(k), d)
    def __getitem__(self, k): return dict.__getitem__(self, strip(k))
    def __setitem__(self, k, v): dict.__setitem__(self, strip(k), v)
    def __contains__(self, k): return dict.__contains__(self, strip(k))

class St:
    __slots__ = ('cells', 'heap', 'g', 'ev', 'ver', 'cnt', 'last', 'rel')
    def __init__(self):
        self.cells = {}; self.heap = {}; self.g = Guards(); self.ev = (); self.ver = {}; self.cnt = {}; self.last = (); self.rel = 0
    def copy(self):
        s = St.__new__(St)
        s.cells = dict(self.cells); s.heap = dict(self.heap); s.g = Guards(self.g); s.ev = self.ev
        s.ver = dict(self.ver); s.cnt = dict(self.cnt); s.last = self.last; s.rel = self.rel
        return s
    def key(self):
        return (frozenset(self.cells.items()), frozenset(self.heap.items()), self.ev, frozenset(self.ver.items()))

def entry_of(t):
    """the table entry a location is a part of"""
    while isinstance(t, tuple) and t[0] in ('f', 'as'): t = t[1]
    return t if isinstance(t, tuple) and t[0] in ('get', 'mapval') else None

class Frame:
    __slots__ = ('id', 'B', 'sub', 'inloop', 'parent', 'header')
    def __init__(self, id, B, sub, parent):
        self.id = id; self.B = B; self.sub = sub; self.inloop = 0; self.parent = parent; self.header = None

# guard values: ('+', frozenset) allowed / ('-', frozenset) excluded
def gmeet(a, b):
    if a[0] == '+' and b[0] == '+': return ('+', a[1] & b[1])
    if a[0] == '+': return ('+', a[1] - b[1])
    if b[0] == '+': return ('+', b[1] - a[1])
    return ('-', a[1] | b[1])
def gjoin(a, b):
    if a[0] == '+' and b[0] == '+': return ('+', a[1] | b[1])
    if a[0] == '+': return ('-', b[1] - a[1])
    if b[0] == '+': return ('-', a[1] - b[1])
    return ('-', a[1] & b[1])
def gempty(a): return a[0] == '+' and not a[1]

BOOLS = frozenset((True, False))

def proj_elems(t):
    """(base, elem) if t is a projection term"""
    if len(t) != 3: return None
    if t[0] == 'f': return t[1], ('f', t[2])
    if t[0] == 'as': return t[1], ('v', t[2])
    if t[0] == 'idx': return t[1], ('i', t[2])
    if t[0] == 'key': return t[1], ('k', t[2])
    return None

def term_proj(b, e):
    if e[0] == 'f':
        if b[0] == 'as' and b[2] in ('Local', 'Remote') and e[1] == '0': return ('id', b[1])
        if b[0] == 'idx' and b[1][0] == 'after' and len(b[1]) == 7 and e[1] not in b[1][6]:
            x = index_term(b[1][4], b[2])
            return project(project(b[1][4], ('i', b[2])) if x[0] == 'idx' else x, e)
        return ('f', b, e[1])
    if e[0] == 'v': return ('as', b, e[1])
    if e[0] == 'i':
        return index_term(b, e[1])
    if e[0] == 'k': return ('key', b, e[1])
    raise Unmodelled('proj %r' % (e,))

def within(l, t):
    """place l is inside place t, elements of containers included"""
    while True:
        p = proj_elems(l)
        l = p[0] if p is not None else l[1] if l[0] in ('elem', 'hit') else None
        if l is None: return False
        if l == t: return True

def strip_inplace(t):
    """the container whose elements alone were changed"""
    while True:
        if t[0] == 'upd': t = t[1]
        elif t[0] == 'after' and len(t) >= 6 and t[5][0] == 'len': t = t[5][1]
        else: return t
def strip_upd(t):
    while t[0] == 'upd': t = t[1]
    return t

def index_term(v, i):
    if i[0] == 'idxof':
        src = i[1]
        if src == v or (src[0] == 'rev' and src[1] == v): return ('elem', src)
    if i[0] == 'iter_i' and i[1] == v: return ('elem', v)
    if i[0] == 'hitidx':
        src = i[1]
        if src == v or (src[0] == 'rev' and src[1] == v): return ('hit', src, i[2])
    if v[0] == 'push' and i == ('len', v[1]): return v[2]
    if v[0] == 'arr' and i[0] == 'int' and 0 <= i[1] < len(v[1]): return v[1][i[1]]
    return ('idx', v, i)

WRITES = frozenset(('put', 'del', 'del_if', 'clear', 'set', 'sadd', 'sdel', 'mput', 'mdel', 'mputnew', 'putnew', 'push', 'pop', 'popped', 'poppedf', 'retain', 'drain', 'append', 'vinsert', 'vrm', 'swaprm',
                    'truncate', 'fetch_add', 'fetch_sub', 'store', 'swap'))
def shared(t):
    """rooted in state shared beyond this call chain (statics, map entries)"""
    while True:
        if t[0] in ('static', 'get', 'mapval', 'ventry'): return True
        p = proj_elems(t)
        if p is None:
            if t[0] == 'elem': t = t[1]; continue
            if t[0] in ('rev', 'items', '@', 'vals', 'keys'): t = t[1]; continue
            return False
        t = p[0]

def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)

def mentions(t, pred):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if pred(x): return True
            st.extend(x)
        elif isinstance(x, frozenset):
            st.extend(x)
    return False

def rewrite(t, m, memo=None):
    """replace subterms by dict m, bottom-up with re-simplification of projections"""
    if memo is None: memo = {}
    if not isinstance(t, (tuple, frozenset)): return t
    r = memo.get(t)
    if r is not None: return r
    if isinstance(t, frozenset):
        r = frozenset(rewrite(x, m, memo) for x in t)
        memo[t] = r
        return r
    if t in m:
        r = m[t]
        memo[t] = r
        return r
    n = tuple(rewrite(x, m, memo) for x in t)
    if n != t:
        n = resimp(n)
        if n in m: n = m[n]
    memo[t] = n
    return n

def resimp(t):
    if not t or not isinstance(t[0], str): return t
    p = proj_elems(t) if len(t) == 3 else None
    if p is not None and isinstance(p[0], tuple):
        return project(p[0], p[1])
    if t[0] == 'eq' and len(t) == 3: return mk_eq(t[1], t[2])
    return t

def project(v, e):
    k = v[0]
    if k == 'adt':
        if e[0] == 'v':
            return v if v[2] == e[1] else ('never',)
        if e[0] == 'f':
            for n, x in v[3]:
                if n == e[1]: return x
            return ('never',)
    elif k == 'tup' and e[0] == 'f':
        i = int(e[1])
        return v[1][i] if i < len(v[1]) else ('never',)
    elif k in ('clo', 'cor') and e[0] == 'f':
        return v[2][int(e[1])]
    elif k == 'arr' and e[0] == 'i':
        return index_term(v, e[1])
    elif k == 'upd':
        # ('upd', base, ((relative path, value)...))
        hits = []
        for path, val in v[2]:
            if path[0] == e:
                if len(path) == 1: return val
                hits.append((path[1:], val))
        b = project(v[1], e)
        return ('upd', b, tuple(hits)) if hits else b
    elif k == 'init':
        p = term_proj(v[1], e)
        return p if p[0] in ('id', 'elem') else ('init', p)
    elif k == 'never':
        return v
    return term_proj(v, e)

def update(v, path, val):
    """functional update of value v at path"""
    if not path: return val
    e = path[0]
    k = v[0]
    if k == 'adt':
        if e[0] == 'v':
            return update(v, path[1:], val) if v[2] == e[1] else v
        if e[0] == 'f':
            fs = []
            hit = False
            for n, x in v[3]:
                if n == e[1]:
                    x = update(x, path[1:], val); hit = True
                fs.append((n, x))
            if not hit: fs.append((e[1], update(('undef',), path[1:], val)))
            return (k, v[1], v[2], tuple(fs))
    if k == 'tup' and e[0] == 'f':
        l = list(v[1]); i = int(e[1])
        while len(l) <= i: l.append(('undef',))
        l[i] = update(l[i], path[1:], val)
        return ('tup', tuple(l))
    if k in ('clo', 'cor') and e[0] == 'f':
        l = list(v[2]); i = int(e[1]); l[i] = update(l[i], path[1:], val)
        return (k, v[1], tuple(l), v[3])
    if k == 'arr' and e[0] == 'i' and e[1][0] == 'int' and e[1][1] < len(v[1]):
        l = list(v[1]); l[e[1][1]] = update(l[e[1][1]], path[1:], val)
        return ('arr', tuple(l))
    if k == 'undef' and e[0] == 'f' and e[1].isdigit():
        l = [('undef',)] * (int(e[1]) + 1)
        l[int(e[1])] = update(('undef',), path[1:], val)
        return ('tup', tuple(l))
    if k == 'push' and e == ('i', ('len', v[1])): return ('push', v[1], update(v[2], path[1:], val))
    # opaque
    base, ups = (v[1], dict(v[2])) if k == 'upd' else (v, {})
    # nearest existing prefix
    for i in range(1, len(path)):
        pre = path[:i]
        if pre in ups:
            ups[pre] = update(ups[pre], path[i:], val)
            return ('upd', base, tuple(sorted(ups.items(), key=repr)))
    for p in list(ups):
        if p[:len(path)] == path: del ups[p]
    ups[path] = val
    return ('upd', base, tuple(sorted(ups.items(), key=repr)))

def is_bs(a, x):
    return a[0] == 'f' and a[2] == '0' and a[1][0] == 'as' and a[1][1][0] == 'binary_search' and a[1][1][1] == x
def mk_eq(a, b):
    if a == b: return TRUE
    la, lb = a[0] in ('int', 'bool', 'str'), b[0] in ('int', 'bool', 'str')
    if la and lb: return ('bool', a == b)
    if a == TRUE: return b
    if b == TRUE: return a
    if a == FALSE: return mk_not(b)
    if b == FALSE: return mk_not(a)
    if b[0] == 'len' and is_bs(a, b[1]) and a[1][2] == 'Ok' or a[0] == 'len' and is_bs(b, a[1]) and b[1][2] == 'Ok': return FALSE
    if repr(b) < repr(a): a, b = b, a
    return ('eq', a, b)

def mk_not(a):
    if a[0] == 'bool': return ('bool', not a[1])
    if a[0] == 'not': return a[1]
    if a[0] == 'isvar' and len(a[3]) == 2 and a[2] in a[3]: return a[:2] + tuple(x for x in sorted(a[3]) if x != a[2]) + a[3:]
    return ('not', a)

# ---------------------------------------------------------------- engine
# results of computations: the entry values in them are those of the moment they were computed
SNAP = frozenset(('ret', 'out', 'bin', 'eq', 'lt', 'not', 'push', 'vrm', 'sadd', 'sdel', 'len', 'after', 'post', 'fmt', 'has', 'get', 'hit', 'hitidx', 'elem', 'idxof', 'display'))
class Engine:
    def __init__(self, prog, opaque=(), held=False, limit=4000):
        self.p = prog
        self.opaque = set(opaque)          # module-less keys reported as events
        self.trackheld = held
        self.fid = 0
        self.stack = []
        self.limit = limit
        self.steps = 0
        self.used = set()                   # bodies inlined
        self.calls = 0
        self.unmodelled = {}
        self.live_memo = {}
        self.depth_loops = 0
        self.task = 0
        self.waits = None    # the waits of the futures run so far
        self.fixed = frozenset()            # plain fields of task-locals in scope: never reassigned
        self.writes = {}                    # opaque function -> statics it may write
        self.mutsig = {}
        self.seen = set()
        self.pure = set()                   # opaque functions that only compute a result from their arguments
        self.reads = {}                     # opaque function -> borrowed argument -> parts of it that may be read
        self.parts = {}                     # opaque function -> argument -> parts of it that may be written
        self.wrote = set(); self.called = set()
        self._rel = {}
        import models
        self.loops = {}
        self.models = models.MODELS
        self.M = models

    # ---------- types
    def sub(self, ty, sub):
        if not sub or ty is None: return ty
        k = ty[0]
        if k == 'param':
            return sub.get(ty[1], ty)
        if k in ('adt', 'closure', 'coroutine', 'fndef', 'alias'):
            a = tuple(self.sub(x, sub) for x in ty[2])
            r = (k, ty[1], a)
            if k == 'alias':
                return self.norm_alias(r)
            return r
        if k in ('ref', 'ptr', 'array'): return (k, self.sub(ty[1], sub), ty[2])
        if k == 'slice': return (k, self.sub(ty[1], sub))
        if k == 'tuple': return (k, tuple(self.sub(x, sub) for x in ty[1]))
        return ty

    def norm_alias(self, ty):
        """<T as Trait>::Name with a local impl"""
        path = ty[1]; tr, _, name = path.rpartition('::')
        im = self.find_impl(tr, ty[2])
        if im:
            rec, b = im
            v = rec['items'].get('type ' + name)
            if v is not None: return self.sub(v, b)
        return ty

    def unify(self, pat, ty, b):
        if pat[0] == 'param':
            if pat[1] in b: return b[pat[1]] == ty
            b[pat[1]] = ty
            return True
        if ty is None or pat[0] != ty[0]: return False
        k = pat[0]
        if k in ('adt', 'closure', 'coroutine', 'fndef', 'alias'):
            return pat[1] == ty[1] and len(pat[2]) == len(ty[2]) and all(self.unify(x, y, b) for x, y in zip(pat[2], ty[2]))
        if k == 'ref': return pat[2] == ty[2] and self.unify(pat[1], ty[1], b)
        if k in ('ptr', 'array', 'slice'): return self.unify(pat[1], ty[1], b)
        if k == 'tuple': return len(pat[1]) == len(ty[1]) and all(self.unify(x, y, b) for x, y in zip(pat[1], ty[1]))
        return pat == ty

    def find_impl(self, trait, args):
        hits = []
        for rec in self.p.impl_by_trait.get(trait, ()):
            b = {}
            if len(rec['args']) <= len(args) and all(self.unify(x, y, b) for x, y in zip(rec['args'], args)):
                hits.append((rec, b))
        if len(hits) == 1: return hits[0]
        if len(hits) > 1:
            hits.sort(key=lambda h: len(h[1]))
            if len(hits[0][1]) < len(hits[1][1]): return hits[0]
        return None

    # ---------- values
    def read_loc(self, st, t):
        h = st.heap
        if not h: return t
        r = h.get(t)
        if r is not None: return r
        p = proj_elems(t)
        if p is not None:
            b = self.read_anc(st, p[0])
            if b is not None:
                return project(b, p[1])
        ups = []
        for loc, v in h.items():
            rel = self.relpath(loc, t)
            if rel: ups.append((rel, v))
        if ups:
            ups.sort(key=repr)
            return ('upd', ('init', t), tuple(ups))
        return t

    def read_anc(self, st, t):
        r = st.heap.get(t)
        if r is not None: return r
        p = proj_elems(t)
        if p is None: return None
        b = self.read_anc(st, p[0])
        if b is None: return None
        return project(b, p[1])

    def relpath(self, loc, anc):
        k = (loc, anc)
        r = self._rel.get(k)
        if r is not None: return r
        path = []
        t = loc
        out = ()
        while True:
            if t == anc:
                out = tuple(reversed(path)); break
            p = proj_elems(t)
            if p is None: break
            path.append(p[1]); t = p[0]
        self._rel[k] = out
        return out

    def write_loc(self, st, t, v, quiet=False):
        v = self.frozen(v, t)
        self.freeze(st, t)
        # nearest ancestor overlay
        path = []
        a = t
        while True:
            p = proj_elems(a)
            if p is None: break
            a = p[0]; path.append(p[1])
            if a in st.heap:
                st.heap[a] = update(st.heap[a], tuple(reversed(path)), v)
                if shared(t) and not quiet: self.event(st, ('set', t, self.val(st, v)))
                return
        for loc in [l for l in st.heap if self.relpath(l, t)]:
            del st.heap[loc]
        if v == t: st.heap.pop(t, None)
        else: st.heap[t] = v
        if shared(t) and not quiet: self.event(st, ('set', t, self.val(st, v)))

    def frozen(self, v, t):
        """entry values inside v of locations that overlap t become explicit entry values"""
        if not isinstance(v, tuple) or not v or v[0] == 'init': return v
        if v[0] in ('arg', 'static', 'get', 'mapval') or len(v) == 3 and v[0] in ('f', 'as', 'idx', 'key'):
            if v == t or self.relpath(v, t) or self.relpath(t, v): return ('init', v)
            if len(v) == 3 and v[0] in ('f', 'as', 'idx', 'key'):
                # a place apart from t stays that place, though it is reached through a common ancestor
                r = v
                while len(r) == 3 and r[0] in ('f', 'as', 'idx', 'key'): r = r[1]
                if r[0] in ('arg', 'static', 'get', 'mapval'): return self.frozen_path(v, t)
        n = tuple(self.frozen(x, t) for x in v)
        return n if n != v else v

    def frozen_path(self, v, t):
        if len(v) != 3 or v[0] not in ('f', 'as', 'idx', 'key'): return v
        b = self.frozen_path(v[1], t)
        k = self.frozen(v[2], t) if v[0] in ('idx', 'key') else v[2]
        return v if b is v[1] and k is v[2] else (v[0], b, k)

    def freeze(self, st, t):
        for l, x in list(st.heap.items()):
            n = self.frozen(x, t)
            if n is not x: st.heap[l] = n
        fr = {F.id: F for F in self.stack}
        for c, x in list(st.cells.items()):
            F = fr.get(c[0])
            if F is None or not F.B.plain(c[1]): continue
            n = self.frozen(x, t)
            if n is not x: st.cells[c] = n

    def resolve(self, st, F, place):
        """-> ('cell', key, path) | ('loc', term)"""
        cur = ('cell', (F.id, place[0]), ())
        for e in place[1]:
            if e == '*':
                v = self.read(st, cur)
                if v[0] == 'ref':
                    cur = ('cell', v[1], v[2])
                elif v[0] in ('adt', 'tup', 'arr', 'clo', 'cor', 'upd', 'undef', 'scoped', 'timeout', 'iter') and cur[0] == 'cell':
                    pass              # Box or snapshot: continue inside the cell
                else:
                    cur = ('loc', v)
                continue
            if e[0] == 'i':
                e = ('i', self.read(st, ('cell', (F.id, e[1]), ())))
            elif e[0] == 'ci':
                e = ('i', ('int', e[1]))
            if cur[0] == 'cell':
                cur = ('cell', cur[1], cur[2] + (e,))
                # collapse when the value there is opaque?  kept lazy
            else:
                cur = ('loc', term_proj(cur[1], e))
        return cur

    def read(self, st, cur):
        if cur[0] == 'loc': return self.read_loc(st, cur[1])
        v = st.cells.get(cur[1], ('undef',))
        loc = False
        for e in cur[2]:
            if v[0] == 'ref':      # auto (coroutine upvar holding refs are handled by explicit *)
                v = self.read(st, ('cell', v[1], v[2]))
            nv = project(v, e)
            v = nv
        if cur[2] and st.heap and v[0] in ('f', 'as', 'idx', 'key'):
            v = self.read_loc(st, v)
        return v

    def deref(self, st, v):
        if v[0] == 'ref': return self.read(st, ('cell', v[1], v[2]))
        if st.heap and v[0] in ('f', 'as', 'idx', 'key') and len(v) == 3: return self.read_loc(st, v)
        return v

    def val(self, st, v, depth=0):
        """resolve mutable references inside a value, for use in terms and events"""
        if not isinstance(v, tuple): return v
        if v and v[0] == 'ref' and len(v) == 3 and isinstance(v[1], tuple) and len(v[1]) == 2 and isinstance(v[1][0], int):
            if depth > 20: return ('cyc',)
            return self.val(st, self.read(st, ('cell', v[1], v[2])), depth + 1)
        if not any(isinstance(x, tuple) for x in v): 
            if st.heap and v and v[0] in ('arg', 'static') : return self.read_loc(st, v)
            return v
        if st.heap and v and v[0] in ('f', 'as', 'idx', 'key'):
            r = self.read_loc(st, v)
            if r != v: return r
            return v
        if v and v[0] in ('init', 'clo'): return v
        if v and v[0] in SNAP and st.heap:
            h = st.heap; st.heap = {}
            try: n = tuple(self.val(st, x, depth) for x in v)
            finally: st.heap = h
        else: n = tuple(self.val(st, x, depth) for x in v)
        return n if n != v else v

    def write(self, st, cur, v):
        if cur[0] == 'loc':
            self.write_loc(st, cur[1], v)
            return
        key, path = cur[1], cur[2]
        if not path:
            st.cells[key] = v
            return
        base = st.cells.get(key, ('undef',))
        # a path that runs through an opaque value holding a location: write to the location
        b = base
        for i, e in enumerate(path):
            if b[0] == 'ref':
                self.write(st, ('cell', b[1], b[2] + path[i:]), v)
                return
            b = project(b, e)
        st.cells[key] = update(base, path, v)

    def mutref(self, st, cur):
        if cur[0] == 'loc': return cur[1]
        # if the cell itself holds a reference along the path it was dereferenced already
        return ('ref', cur[1], cur[2])

    # ---------- guards
    def enum_uni(self, v):
        a = self.p.adts.get(v[1])
        return frozenset(a['names']) if a and a['enum'] else None

    def universe(self, ty):
        if ty is None: return None
        if ty[0] == 'bool': return BOOLS
        if ty[0] == 'adt':
            a = self.p.adts.get(ty[1])
            if a and a['enum']: return frozenset(a['names'])
        return None

    def assume(self, st, atom, val, uni=None):
        """val: guard value; False when contradictory. mutates st"""
        old = st.g.get(atom)
        if val[0] == '-' and uni is not None: val = ('+', uni - val[1])
        if old is not None: val = gmeet(old, val)
        if gempty(val): return False
        if uni is not None and val[0] == '+' and val[1] >= uni:
            return True
        st.g[atom] = val
        return True

    def known(self, st, atom):
        return st.g.get(atom)

    def fork_bool(self, st, c):
        """[(state, bool)] for a boolean term"""
        c = self.deref(st, c)
        if c[0] == 'bool': return [(st, c[1])]
        if c[0] == 'not':
            return [(s, not b) for s, b in self.fork_bool(st, c[1])]
        if c[0] == 'and':
            out = []
            for s, b in self.fork_bool(st, c[1]):
                if b: out += self.fork_bool(s, c[2])
                else: out.append((s, False))
            return out
        if c[0] == 'or':
            out = []
            for s, b in self.fork_bool(st, c[1]):
                if b: out.append((s, True))
                else: out += self.fork_bool(s, c[2])
            return out
        if c[0] == 'eq': return self.fork_eq(st, c[1], c[2])
        if c[0] == 'isvar':
            out = []
            for s, b in self.fork_is(st, c[1], c[2], c[3]): out.append((s, b))
            return out
        if c[0] == 'le':
            return [(s, not b) for s, b in self.fork_bool(st, ('lt', c[2], c[1]))]
        if c[0] == 'lt' and c[1] == INT(0) and self.nonneg_sub(st, c[2]): return self.fork_bool(st, mk_lt(c[2][3], c[2][2]))
        k = st.g.get(c)
        if k is not None:
            vals = [b for b in (True, False) if not gempty(gmeet(k, ('+', frozenset((b,)))))]
            if len(vals) == 1: return [(st, vals[0])]
        a = st; b = st.copy()
        a.g[c] = ('+', frozenset((True,))); b.g[c] = ('+', frozenset((False,)))
        return [(a, True), (b, False)]

    def nonneg_sub(self, st, t):
        """a difference known not to underflow"""
        return t[:2] == ('bin', 'Sub') and st.g.get(('lt', t[2], t[3])) == ('+', frozenset((False,)))

    def fork_is(self, st, t, variant, uni):
        """does t have the variant? [(state, bool)]"""
        if t[0] == 'adt': return [(st, t[2] == variant)]
        atom = ('is', t)
        k = st.g.get(atom)
        one = ('+', frozenset((variant,)))
        if k is not None:
            m = gmeet(k, one)
            if gempty(m): return [(st, False)]
            if k == one: return [(st, True)]
        b = st.copy()
        self.assume(st, atom, one, uni)
        out = [(st, True)]
        if self.assume(b, atom, ('-', frozenset((variant,))), uni): out.append((b, False))
        return out

    def variants(self, st, t, ty=None, only=None):
        """[(state, variant name)] over the possible variants of enum value t"""
        t = self.deref(st, t)
        if t[0] == 'adt': return [(st, t[2])]
        uni = only if only is not None else self.universe(ty)
        if uni is None: raise Unmodelled('variants of %s' % (ty,))
        atom = ('is', t)
        k = st.g.get(atom)
        cands = [v for v in sorted(uni) if k is None or not gempty(gmeet(k, ('+', frozenset((v,)))))]
        out = []
        for i, v in enumerate(cands):
            s = st if i == len(cands) - 1 else st.copy()
            out.append((s, v))
        # assume after copying
        res = []
        for s, v in out:
            if self.assume(s, atom, ('+', frozenset((v,))), frozenset(uni)): res.append((s, v))
        return res

    def payload(self, st, t, variant, field='0'):
        if t[0] == 'ref':
            return ('ref', t[1], t[2] + (('v', variant), ('f', field)))
        r = project(project(t, ('v', variant)), ('f', field))
        if st.heap and r[0] in ('f', 'as', 'idx', 'key'):
            r = self.read_loc(st, r)
        return r

    def fork_eq(self, st, a, b):
        a = self.val(st, a); b = self.val(st, b)
        a = self.norm(st, a); b = self.norm(st, b)
        for x, y in ((a, b), (b, a)):
            if y == INT(0) and self.nonneg_sub(st, x): return self.fork_bool(st, mk_not(mk_lt(x[3], x[2])))
        if a == b: return [(st, True)]
        e = mk_eq(a, b)
        if e[0] == 'bool': return [(st, e[1])]
        if e[0] == 'not' or e[0] not in ('eq',): return self.fork_bool(st, e)
        if a[0] == 'adt' and b[0] == 'adt':
            if a[2] != b[2]: return [(st, False)]
            states = [st]; out = []
            for (n, x), (_, y) in zip(a[3], b[3]):
                nxt = []
                for s in states:
                    for s2, r in self.fork_eq(s, x, y):
                        if r: nxt.append(s2)
                        else: out.append((s2, False))
                states = nxt
            return [(s, True) for s in states] + out
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            states = [st]; out = []
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s in states:
                    for s2, r in self.fork_eq(s, x, y):
                        if r: nxt.append(s2)
                        else: out.append((s2, False))
                states = nxt
            return [(s, True) for s in states] + out
        for x, y in ((a, b), (b, a)):
            if x[0] == 'adt' and y[0] not in ('adt', 'tup'):
                ad = self.p.adts.get(x[1])
                if ad is None or not ad['enum']: break
                uni = frozenset(ad['names'])
                out = []
                for s, r in self.fork_is(st, y, x[2], uni):
                    if not r: out.append((s, False))
                    else:
                        states = [s]
                        for n, fx in x[3]:
                            nxt = []
                            for s1 in states:
                                for s2, r2 in self.fork_eq(s1, fx, self.payload(s1, y, x[2], n)):
                                    if r2: nxt.append(s2)
                                    else: out.append((s2, False))
                            states = nxt
                        out += [(s1, True) for s1 in states]
                return out
        # two opaque values: an integer/str literal becomes a value atom
        for x, y in ((a, b), (b, a)):
            if x[0] in ('int', 'str') and y[0] not in ('int', 'str'):
                atom = ('v', y)
                one = ('+', frozenset((x[1],)))
                k = st.g.get(atom)
                if k is not None:
                    if gempty(gmeet(k, one)): return [(st, False)]
                    if k == one: return [(st, True)]
                s2 = st.copy()
                self.assume(st, atom, one); out = [(st, True)]
                if self.assume(s2, atom, ('-', frozenset((x[1],)))): out.append((s2, False))
                return out
        k = st.g.get(e)
        if k is not None and k[0] == '+' and len(k[1]) == 1: return [(st, next(iter(k[1])))]
        s2 = st.copy()
        st.g[e] = ('+', frozenset((True,))); s2.g[e] = ('+', frozenset((False,)))
        return [(st, True), (s2, False)]

    def norm(self, st, v):
        """rewrite nullary variants known from guards at the top of v"""
        if v[0] in ('f', 'arg', 'get', 'as', 'out', 'ret', 'elem', 'call'):
            k = st.g.get(('is', v))
            if k is not None and k[0] == '+' and len(k[1]) == 1:
                va = next(iter(k[1]))
                if va == 'None': return NONE
        return v

    # ---------- events
    def released(self, st):
        st.rel += 1; st.last = ()

    def event(self, st, ev):
        if self.trackheld:
            ev = ev + (('held', self.held(st)),)
        ev = strip(ev)
        n = len(st.last)
        if not n or st.ev[-n:] != st.last: n = 0; st.last = ()
        X = entry_of(ev[1]) if ev[0] == 'set' else None
        if X is not None and (X[1],) + X[2:3] in self.held(st):
            # a change made to a locked entry shows when the entry is unlocked: what else happens until then comes first,
            # and of two values put in the same place the last one counts
            k = len(st.ev) - n
            st.last = tuple(e for e in st.last if e[1] != ev[1]) + (ev,)
            st.ev = st.ev[:k] + st.last
        elif n and not (ev[0] == 'put' and (ev[1], ev[2]) in self.held(st)) and not (ev[0] in WRITES and any(mentions(e[1], lambda x: x == ev[1]) or mentions(ev[1], lambda x: x == e[1]) for e in st.last)):
            k = len(st.ev) - n
            st.ev = st.ev[:k] + (ev,) + st.last
        else:
            st.ev = st.ev + (ev,); st.last = ()
        if ev[0] in WRITES:
            if not self.task:
                b = ev[1]
                while isinstance(b, tuple) and len(b) > 1 and isinstance(b[1], tuple): b = b[1]
                if b[0] == 'static': self.wrote.add(b)
            # a write inside a map entry is a write of the map
            t = ev[1]
            while isinstance(t, tuple) and len(t) > 1 and isinstance(t[1], tuple):
                if t[0] in ('get', 'mapval', 'ventry'): self.M.bump(self, st, t[1])
                t = t[1]

    GUARD_TYPES = ('dashmap::mapref::', 'std::sync::poison::mutex::MutexGuard', 'core::cell::RefMut', 'core::cell::Ref')
    def has_guard(self, ty):
        if ty is None: return False
        k = ty[0]
        if k == 'adt':
            if ty[1].startswith('dashmap::mapref::') or ty[1].endswith('MutexGuard'): return True
            return any(self.has_guard(x) for x in ty[2])
        if k == 'tuple': return any(self.has_guard(x) for x in ty[1])
        return False

    def held(self, st):
        out = set()
        for F in self.stack:
            B = F.B
            for l, ty in enumerate(B.locals):
                if (F.id, l) in st.cells and self.has_guard(self.sub(ty, F.sub)):
                    v = st.cells[(F.id, l)]
                    if v == NONE or (v[0] == 'adt' and v[2] in ('Err', 'None')): continue
                    k = st.g.get(('is', v))
                    if k is not None and k == ('+', frozenset(('None',))): continue
                    for x in subterms(v):
                        if x and x[0] in ('get', 'ventry', 'lockof', 'mapval'):
                            out.add((x[1],) + ((x[2],) if len(x) > 2 else ()))
                            break
            if F.parent is not None: pass
        out |= set(self.extra_held)
        return tuple(sorted(out, key=repr))
    extra_held = ()

    def count(self, st, key):
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return n

    def effect(self, st, name, args, ret=True):
        """opaque effectful call: event + fresh result"""
        a = tuple(self.val(st, x) for x in args)
        ev = ('call', name) + a
        if name in self.pure: return ('ret', name) + a
        self.event(st, ev)
        if not all(small(x) for x in a): a = ('#',)
        self.seen.add(name)
        if not self.task: self.called.add(name)
        for r in sorted(self.writes.get(name, ())):
            self.M.disturb(self, st, self.task_local(r)); self.wrote.add(r)
        n = self.count(st, ('ret', name) + a)
        return ('ret', name) + a if n == 0 else ('ret', name) + a + (('#', n),)

    # ---------- running
    def run_body(self, st, bid, args, sub, clo=None):
        B = self.p.bodies[bid]
        if len(self.stack) > 60: raise TooBig('depth')
        self.used.add(bid)
        self.fid += 1
        F = Frame(self.fid, B, sub, self.stack[-1] if self.stack else None)
        if B.spread is not None and False:
            pass
        for i, a in enumerate(args):
            st.cells[(F.id, i + 1)] = a
        self.stack.append(F)
        try:
            res = self.run_region(F, None, 0, [st])
        finally:
            self.stack.pop()
        out = []
        for s, v in res.get('ret', ()):
            v = self.detach(s, v, F.id)
            out.append((s, 'ret', v))
        for s, v in res.get('panic', ()):
            out.append((s, 'panic', v))
        for s, k, v in out:
            for c in [c for c in s.cells if c[0] == F.id]: del s.cells[c]
        return self.merge_out(out)

    def detach(self, st, v, fid):
        """references into a dying frame become values"""
        if not isinstance(v, tuple): return v
        if v and v[0] == 'ref' and len(v) == 3 and isinstance(v[1], tuple) and len(v[1]) == 2 and v[1][0] == fid:
            return self.detach(st, self.read(st, ('cell', v[1], v[2])), fid)
        if not any(isinstance(x, tuple) for x in v): return v
        return tuple(self.detach(st, x, fid) for x in v)

    def merge_out(self, out):
        if len(out) < 2: return out
        groups = {}
        for s, k, v in out:
            groups.setdefault((k, v, s.key()), []).append(s)
        res = []
        for (k, v, _), ss in groups.items():
            for s in self.merge_guards(ss): res.append((s, k, v))
        return res

    def merge_guards(self, ss):
        if len(ss) == 1: return ss
        ss = list(ss)
        changed = True
        while changed and len(ss) > 1:
            changed = False
            for i in range(len(ss)):
                for j in range(i + 1, len(ss)):
                    m = self.try_merge(ss[i].g, ss[j].g)
                    if m is not None:
                        ss[i].g = Guards(m)
                        if ss[i].last != ss[j].last or ss[i].rel != ss[j].rel: self.released(ss[i])
                        for k, v in ss[j].cnt.items():
                            if ss[i].cnt.get(k, 0) < v: ss[i].cnt[k] = v
                        del ss[j]
                        changed = True
                        break
                if changed: break
        return ss

    def atom_universe(self, atom, a, b):
        j = gjoin(a, b)
        if j[0] == '-' and not j[1]: return None      # everything
        if atom[0] == 'is':
            vs = j[1] if j[0] == '+' else None
            if vs is not None:
                u = self.uni_of(vs)
                if u is not None and vs >= u: return None
        elif atom[0] not in ('v',):
            if j[0] == '+' and j[1] >= BOOLS: return None
        return j

    def uni_of(self, vs):
        """smallest known enum containing these variant names (used only to detect exhaustiveness)"""
        key = frozenset(vs)
        m = self.__dict__.setdefault('_uni', {})
        if key in m: return m[key]
        best = None
        for a in self.p.adts.values():
            if a['enum']:
                n = frozenset(a['names'])
                if key <= n and (best is None or len(n) > len(best)): best = n
        m[key] = best
        return best

    def try_merge(self, g1, g2):
        if g1 == g2: return g1
        d1 = {k: v for k, v in g1.items() if g2.get(k) != v}
        d2 = {k: v for k, v in g2.items() if g1.get(k) != v}
        if not d1: return g1      # g1 weaker
        if not d2: return g2
        if len(d1) == 1 and len(d2) == 1:
            (k1, v1), = d1.items(); (k2, v2), = d2.items()
            if k1 == k2:
                j = self.atom_universe(k1, v1, v2)
                m = dict(g1)
                if j is None: del m[k1]
                else: m[k1] = j
                return m
        return None

    def liveness(self, B):
        r = self.live_memo.get(B.id)
        if r is not None: return r
        n = len(B.blocks)
        use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
        addr = set()
        def pl(p, i, write=False):
            if write and not p[1]:
                df[i].add(p[0])
            else:
                if p[0] not in df[i]: use[i].add(p[0])
            for e in p[1]:
                if isinstance(e, tuple) and e[0] == 'i' and e[1] not in df[i]: use[i].add(e[1])
        def op(o, i):
            if o[0] != 'k': pl(o[1], i)
        for i, (stm, T, c) in enumerate(B.blocks):
            for s in stm:
                if s[0] == '=':
                    r = s[2]
                    k = r[0]
                    if k == 'ref':
                        pl(r[1], i)
                        if '*' not in r[1][1]: addr.add(r[1][0])
                    elif k == 'discr': pl(r[1], i)
                    elif k in ('use', 'cast', 'repeat'): op(r[1], i)
                    elif k == 'bin': op(r[2], i); op(r[3], i)
                    elif k == 'un': op(r[2], i)
                    elif k == 'agg':
                        for o in r[2]: op(o, i)
                    pl(s[1], i, True)
            k = T['k']
            if k == 'switch': op(T['o'], i)
            elif k == 'drop': pl(T['p'], i)
            elif k == 'call':
                op(T['f'], i)
                for o in T['a']: op(o, i)
                pl(T['d'], i, True)
            elif k == 'assert': op(T['o'], i)
        use0 = use
        inn = [set() for _ in range(n)]
        order, pos = rpo(B)
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for s in succs(B.blocks[b][1]): out |= inn[s]
                x = use0[b] | (out - df[b])
                if B.blocks[b][1]['k'] == 'return': x.add(0)
                if x != inn[b]:
                    inn[b] = x; changed = True
        r = (inn, addr)
        self.live_memo[B.id] = r
        return r

    def merge_at(self, F, b, states):
        if len(states) == 1: return states
        inn, addr = self.liveness(F.B)
        live = inn[b]
        groups = {}
        for s in states:
            for c in [c for c in s.cells if c[0] == F.id and c[1] not in live and c[1] not in addr]:
                del s.cells[c]
            groups.setdefault(s.key(), []).append(s)
        out = []
        for ss in groups.values(): out += self.merge_guards(ss)
        return out

    def run_region(self, F, region, entry, states):
        """returns dict: 'ret' [(st,val)], 'panic' [(st,val)], ('edge', target) [st]"""
        B = F.B
        order, pos = rpo(B)
        L = loops(B)
        res = {}
        pend = {entry: list(states)}
        first = True
        cur_header = entry if region is not None else None
        while pend:
            b = min(pend, key=lambda x: pos.get(x, 1 << 30))
            ss = pend.pop(b)
            ss = self.merge_at(F, b, ss)
            if len(ss) > self.limit: raise TooBig('states')
            def go(target, s):
                if region is not None and (target not in region or target == cur_header):
                    res.setdefault(('edge', target), []).append(s)
                else:
                    pend.setdefault(target, []).append(s)
            if b in L and b != cur_header:
                for s in ss:
                    self.run_loop(F, b, L[b], s, res, go)
                continue
            for s in ss:
                self.step_block(F, b, s, res, go)
        return res

    # ---------- loops
    def run_loop(self, F, h, blocks, s0, res, go):
        inn, addr = self.liveness(F.B)
        live = inn[h]
        for c in [c for c in s0.cells if c[0] == F.id and c[1] not in live and c[1] not in addr]:
            del s0.cells[c]
        def run(s):
            saved = F.header
            F.inloop += 1; F.header = h
            try:
                r = self.run_region(F, blocks, h, [s])
            finally:
                F.inloop -= 1; F.header = saved
            back = r.pop(('edge', h), [])
            exits = []
            for kk, lst in r.items():
                if kk in ('ret', 'panic'):
                    for t, v in lst: exits.append((kk, v, t))
                else:
                    for t in lst: exits.append((kk, None, t))
            return back, exits
        def keep(c):
            return c[0] != F.id or c[1] in live
        # a few known elements: the loop is run element by element
        ks = [c for c, v in s0.cells.items() if c[0] == F.id and v[0] == 'iter' and self.M.unroll(v)]
        found = None
        if ks:
            s = s0.copy()
            for c in ks: s.cells[c] = ('iter', ('seq', s.cells[c][1][1]), s.cells[c][2])
            cur = [s]; found = []
            for _ in range(max(len(s0.cells[c][1][1]) for c in ks) + 1):
                nxt = []
                for t in cur:
                    b, x = run(t); nxt += b; found += x
                cur = nxt
            if cur: found = None
        for kk, v, t in self.loop_core(s0, run, keep, F) if found is None else found:
            if kk in ('ret', 'panic'): res.setdefault(kk, []).append((t, v))
            else: go(kk[1], t)

    def loop_core(self, s0, run, keep, F):
        """fixpoint over one loop; returns the exits [(kind, value, state)]"""
        W = {}          # ('c', cell) / ('h', loc) / ('ver', loc) -> loop variable
        self.depth_loops += 1
        dn = self.depth_loops
        ctr = popk = None; tried = False
        try:
            for it in range(20):
                s = s0.copy(); s.ev = (); s.last = ()
                self.apply_phi(s, W)
                base = s.copy()
                back, exits = run(s)
                new = False
                src = self.loop_src(base, back, exits) if ctr is None else ctr[1]
                def per_elem(loc): return src is not None and self.elem_base(loc, src) is not None
                for t in back:
                    for c, v in base.cells.items():
                        k = ('c', c)
                        if k in W: continue
                        if (c in t.cells and t.cells[c] != v and strip(t.cells[c]) != strip(v)) or (c not in t.cells and keep(c)):
                            W[k] = self.phi_name(F, c, v, W, dn); new = True
                    for loc in sorted(set(t.heap) | set(base.heap), key=repr):
                        k = ('h', loc)
                        if k in W or per_elem(loc): continue
                        if t.heap.get(loc) != base.heap.get(loc):
                            if any(kk[0] == 'h' and self.relpath(loc, kk[1]) for kk in W): continue
                            W[k] = ('phi', dn, locname(loc)); new = True
                    for loc in t.ver:
                        k = ('ver', loc)
                        if k in W or per_elem(loc): continue
                        if t.ver.get(loc) != base.ver.get(loc):
                            W[k] = 'L%d' % dn; new = True
                if not new and src is None and not tried:
                    # a hand-written counter loop is the same traversal as one over a range
                    tried = True
                    ctr = self.counter_loop(s0, base, back, exits, W)
                    if ctr and ctr[1] is None: W = {ctr[0]: ctr[2]}; popk = ctr[0]; ctr = None; continue
                    if ctr: W = {ctr[0]: ctr[2]}; continue
                if not new: break
            else:
                raise Unmodelled('loop does not stabilise in %s' % F.B.id)
        finally:
            self.depth_loops -= 1
        if src is not None and not ctr and not popk:
            stop = self.latch(s0, base, back, exits, W, run, src)
            if stop: return self.loop_core(s0, stop, keep, F)
        if ctr:
            ck, _, el, end, fixed, post_i = ctr[:6]
            lens = {('len', nm) for k, nm in W.items() if k != ck and k[0] in ('c', 'h')} if fixed else set()
            if len(ctr) > 6: isnext = lambda k: k == ctr[6]
            else: isnext = lambda k: k[0] == 'lt' and k[1] == el and (k[2] == end or k[2] in lens)
            over = ('+', frozenset((not ctr[7] if len(ctr) > 6 else False,)))
            ended = lambda k, v: isnext(k) and v == over
            W = {k: v for k, v in W.items() if k != ck}
        else:
            if popk: W = {k: v for k, v in W.items() if k != popk}
            isnext = lambda k: k[0] == 'is' and k[1][0] == 'next'
            ended = lambda k, v: isnext(k) and v == ('+', frozenset(('None',)))
        def delta(t):
            return {k: v for k, v in t.g.items() if base.g.get(k) != v}
        rows = []; touched = set()
        for t in back:
            ups = []
            for loc in t.heap:
                if per_elem(loc) and t.heap[loc] != base.heap.get(loc):
                    ups.append((('at', loc), self.summ(t, t.heap[loc])))
                    touched.add(self.elem_base(loc, src))
            for k, nm in W.items():
                if k[0] == 'c':
                    v = t.cells.get(k[1])
                    if v is None: continue
                    v = self.summ(t, v)
                elif k[0] == 'h': v = self.summ(t, self.read_loc(t, k[1]))
                else: continue
                if v != nm: ups.append((nm, v))
            d = delta(t)
            rows.append([{k: v for k, v in d.items() if not isnext(k)}, t.ev, tuple(sorted(ups, key=repr))])
        inits = []
        for k, nm in W.items():
            if k[0] == 'c': inits.append((nm, self.summ(s0, s0.cells.get(k[1], ('undef',)))))
            elif k[0] == 'h': inits.append((nm, self.read_loc(s0, k[1])))
        rows = self.merge_rows(rows)
        lrows = frozenset((frozenset(g.items()), e, u) for g, e, u in rows)
        def is_done(kk, t):
            d = delta(t)
            return not t.ev and any(ended(k, v) for k, v in d.items())
        breaks = []
        done = []
        for kk, v, t in exits:
            d = frozenset((k, x) for k, x in delta(t).items() if not isnext(k))
            if is_done(kk, t):
                if ctr:
                    if ctr[0][1] in t.cells: t.cells[ctr[0][1]] = ctr[5]
                if popk and popk[1] in t.cells: t.cells[popk[1]] = ('arr', ())
                done.append((kk, v, t, d))
            else: breaks.append((kk, v, t, d))
        lterm = strip(('loop', src or ('forever',), tuple(sorted(inits, key=repr)), lrows, self.canon_dnf([d for _, _, _, d in breaks])))
        lid = digest(lterm)
        self.loops[lid] = lterm
        eff = any(e for g, e, u in lrows)
        bsig = self.canon_dnf([d for _, _, _, d in breaks])
        out = []
        for grp in (done, breaks):
            for kk, v, t, d in grp:
                ng = Guards(s0.g)
                if src is not None and breaks:
                    ng[('exit', src, bsig)] = ('+', frozenset(('end' if grp is done else 'break',)))
                for k, x in d: ng[k] = x
                t.g = ng
                for loc in touched:
                    # elements visited before this exit carry their per-element updates
                    mine = {l: x for l, x in t.heap.items() if per_elem(l) and self.elem_base(l, src) == loc}
                    for l in mine: del t.heap[l]
                    t.heap[loc] = ('post', lid, locname(loc))
                    if grp is breaks: t.heap.update(mine)
                post = {}
                for k, nm in W.items():
                    if k[0] in ('c', 'h'): post[nm] = self.fold(lterm, nm) or ('post', lid, nm)
                if grp is breaks and src is not None:
                    post[('elem', src)] = ('hit', src, bsig)
                    post[('idxof', src)] = ('hitidx', src, bsig)
                    if src[0] == 'range' and src[1] == INT(0) and src[2][0] == 'len':
                        pass
                if post:
                    keepx = {k: x for k, x in t.g.items() if k[0] == 'exit'}
                    for k in keepx: del t.g[k]
                    self.subst_state(t, post)
                    t.g.update(keepx)
                    if isinstance(v, tuple): v = rewrite(v, post)
                do = (('do', lterm),) if eff else ()
                n = len(s0.last)
                if n and s0.ev[-n:] == s0.last and t.rel == s0.rel and not any(mentions((do, t.ev), lambda x: x == e[1]) for e in s0.last):
                    # still locked: what was changed before the loop shows after it
                    k = len(t.last) if t.last and t.ev[-len(t.last):] == t.last else 0
                    t.last = s0.last + t.ev[len(t.ev) - k:]
                    t.ev = s0.ev[:-n] + do + t.ev[:len(t.ev) - k] + t.last
                else: t.ev = s0.ev + do + t.ev
                self.simplify_posts(t)
                if isinstance(v, tuple): v = self.simp_post(v)
                out.append((kk, v, t))
        if not exits:
            t = s0.copy()
            t.ev = s0.ev + (('do', lterm),)
            out.append(('panic', ('diverge',), t))
        return out

    def latch(self, s0, base, back, exits, W, run, src):
        """a traversal that does nothing more once it has set one of its variables leaves there: the same loop, leaving"""
        atom = ('is', ('next', src)); over = ('+', frozenset(('None',)))
        for k, nm in W.items():
            if k[0] != 'c': continue
            v0 = s0.cells.get(k[1])
            if v0 == NONE: at = ('is', nm); off, on = [('+', frozenset((x,))) for x in ('None', 'Some')]; isset = lambda v: v is not None and v[:3] == ('adt', OPT, 'Some')
            elif v0 == FALSE: at = nm; off, on = [('+', frozenset((x,))) for x in (False, True)]; isset = lambda v: v == TRUE
            else: continue
            idle = [t for t in back if t.g.get(at) == on]; busy = [t for t in back if t.g.get(at) == off]
            if not idle or not busy or len(idle) + len(busy) < len(back): continue
            if any(t.ev or t.ver != base.ver or t.heap != base.heap or any(t.cells.get(c[1]) != base.cells.get(c[1]) for c in W if c[0] == 'c') for t in idle): continue
            if any(t.cells.get(k[1]) != nm and not isset(t.cells.get(k[1])) for t in busy): continue
            if any(t.g.get(at) == on and t.g.get(atom) != over for _, _, t in exits): continue
            def stop(s, k=k, v0=v0):
                b, x = run(s)
                nb = []
                for t in b:
                    if t.cells.get(k[1]) == v0: nb.append(t); continue
                    ev = t.ev; g = t.g.get(atom); t.ev = ()
                    for kk, v, u in run(t)[1]:
                        if u.g.get(atom) == over:
                            u.ev = ev + u.ev; u.g[atom] = g
                            x.append((kk, v, u))
                return nb, x
            return stop
        return None

    def fold(self, L, nm):
        """what a loop without early exits leaves in one of its variables, by a loop over only what that depends on; counters are counts"""
        _, src, inits, rows, bs = L
        if bs or src[0] in ('forever', 'seq') or nm[0] != 'phi': return None
        inits = dict(inits); V = {nm}
        if any(mentions(r, lambda x: len(x) > 1 and x[0] in ('post', 'hit', 'hitidx', 'exit', 'loop', 'async', 'fn*')) for r in rows): return None
        while True:
            part = self.merge_rows([[dict(g), (), tuple(u for u in ups if u[0] in V)] for g, e, ups in rows])
            more = {v for v in inits if v not in V and any(mentions((tuple(g.items()), u), lambda x: x == v) for g, e, u in part)}
            if not more: break
            V |= more
        if V == {nm}:
            init = inits[nm]; acc = ('phi', nm[1], 'acc')
            if init[0] == 'adt' and init[3] and nm != acc and not self.p.adts.get(init[1], {}).get('enum', True):
                vals = [dict(u).get(nm) for g, e, u in part]
                if all(v is None or v[0] == 'upd' and v[1] == nm and all(q[0][0] == 'f' for q, _ in v[2]) for v in vals):
                    out = []
                    for f, x in init[3]:
                        fnm = ('f', nm, f); frows = []
                        for (g, e, u), v in zip(part, vals):
                            fu = [(q[1:], y) for q, y in v[2] if q[0][1] == f] if v else []
                            y = None if not fu else fu[0][1] if fu[0][0] == () else ('upd', fnm, tuple(fu))
                            frows.append([dict(g), (), ((fnm, y),) if y is not None else ()])
                        frows = self.merge_rows(frows)
                        frows = rewrite(tuple((tuple(g.items()), e, u) for g, e, u in frows), {fnm: acc})
                        if mentions(frows, lambda t: t == nm): return None
                        out.append((f, self.fold1(src, acc, x, [[dict(g), e, u] for g, e, u in frows])))
                    return ('adt', init[1], init[2], tuple(out))
            part = rewrite(tuple((tuple(g.items()), e, u) for g, e, u in part), {nm: acc})
            return self.fold1(src, acc, init, [[dict(g), e, u] for g, e, u in part])
        if len(V) == len(inits) and not any(e for g, e, u in rows): return None
        L2 = strip(('loop', src, tuple(sorted(((v, inits[v]) for v in V), key=repr)), frozenset((frozenset(g.items()), e, u) for g, e, u in part), bs))
        lid = digest(L2); self.loops[lid] = L2
        return ('post', lid, nm)

    def fold1(self, src, acc, init, rows):
        if not any(u for g, e, u in rows): return init
        if all(u in ((), ((acc, ('bin', 'Add', acc, INT(1))),), ((acc, ('bin', 'Add', INT(1), acc)),)) for g, e, u in rows) and src[0] not in ('range', 'arr'):
            if not any(mentions(tuple(g.items()), lambda x: x == acc) for g, e, u in rows):
                s = src[1] if src[0] == 'rev' else src
                if s != src: rows = [[dict(rewrite(tuple(g.items()), {src: s})), e, u] for g, e, u in rows]
                d = self.canon_dnf([frozenset(g.items()) for g, e, u in rows if u])
                n = ('len', s[1] if s[0] == 'items' else s) if d == frozenset((frozenset(),)) else ('count', s, d)
                return self.bin1('Add', init, n) if init != INT(0) else n
        L = strip(('loop', src, ((acc, init),), frozenset((frozenset(g.items()), e, u) for g, e, u in rows), frozenset()))
        lid = digest(L); self.loops[lid] = L
        return ('post', lid, acc)

    def counter_loop(self, s0, base, back, exits, W):
        """(W key, traversed source, element term, end, whether the end is the length of something changed only in place, final counter) for
        `i = a; while i < b { ..; i += 1 }` where every way round adds one and b does not change"""
        from models import elem_of, src_key
        if not back: return None
        for k, nm in W.items():
            if k[0] != 'c': continue
            for op, rest in (('popped', 'poprest'), ('poppedf', 'popfrest')):
                if all(self.summ(t, t.cells.get(k[1], ('undef',))) == (op, nm) for t in back):
                    init = self.summ(s0, s0.cells.get(k[1], ('undef',)))
                    if init[0] == 'items': init = init[1]
                    return (k, None, (rest, init))
            nxt = (('bin', 'Sub', nm, INT(1)),)
            if all(self.summ(t, t.cells.get(k[1], ('undef',))) in nxt for t in back):
                # `i = b; while a < i { i -= 1; .. }`
                for a in [a for a in back[0].g if (a[0] == 'lt' and a[2] == nm or a == mk_eq(nm, INT(0))) and a not in base.g]:
                    more = a[0] == 'lt'
                    if any(t.g.get(a) != ('+', frozenset((more,))) for t in back): continue
                    if not any(x[2].g.get(a) == ('+', frozenset((not more,))) and not x[2].ev for x in exits): continue
                    lo = a[1] if more else INT(0)
                    if any(mentions(lo, lambda x: x == v) for v in W.values()): continue
                    init = self.summ(s0, s0.cells.get(k[1], ('undef',)))
                    rg = ('rev', ('range', lo, init))
                    el = elem_of(rg); up = self.bin1('Add', el, INT(1))
                    return (k, src_key(rg), up, lo, False, lo if lo == INT(0) else ('rangestart', lo, init), ('lt', lo, up) if more else mk_eq(up, INT(0)), more)
                continue
            nxt = (('bin', 'Add', nm, INT(1)), ('bin', 'Add', INT(1), nm))
            if any(self.summ(t, t.cells.get(k[1], ('undef',))) not in nxt for t in back): continue
            for a in [a for a in back[0].g if a[0] == 'lt' and a[1] == nm and a not in base.g]:
                if any(t.g.get(a) != ('+', frozenset((True,))) for t in back): continue
                if not any(x[2].g.get(a) == ('+', frozenset((False,))) and not x[2].ev for x in exits): continue
                end = a[2]; fixed = False
                if end[0] == 'len' and end[1] in W.values():
                    k2 = [q for q, v in W.items() if v == end[1]][0]
                    cur = lambda t: self.summ(t, t.cells.get(k2[1], ('undef',))) if k2[0] == 'c' else self.summ(t, self.read_loc(t, k2[1]))
                    if any(strip_inplace(cur(t)) != end[1] for t in back): continue
                    end = ('len', self.summ(s0, s0.cells.get(k2[1], ('undef',))) if k2[0] == 'c' else self.read_loc(s0, k2[1])); fixed = True
                vals = set(W.values())
                if any(mentions(end, lambda x: x == v) for v in vals): continue
                init = self.summ(s0, s0.cells.get(k[1], ('undef',)))
                rg = ('range', init, end)
                el = elem_of(rg)
                return (k, src_key(rg), el, end, fixed, end if init == INT(0) and end[0] == 'len' else ('rangeend', init, end))
        return None

    def dnf_domains(self, cubes):
        out = {}
        for c in cubes:
            for a, v in c: out.setdefault(a, set()).update(v[1])
        for a, dom in out.items():
            if a[0] == 'is':
                u = self.uni_of(set(dom))
                if not (u is not None and dom >= u): dom.add('*')
            elif a[0] == 'v': dom.add('*')
            elif a[0] == 'exit': dom |= {'end', 'break'}
            else: dom |= BOOLS
        return out

    def canon_dnf(self, cubes):
        """canonical disjoint cubes of a disjunction of guard sets (ordered decision diagram over its atoms)"""
        cubes = frozenset(cubes)
        if len(cubes) == 1 or any(len(c) == 0 for c in cubes):
            return frozenset((frozenset(),)) if any(not c for c in cubes) else cubes
        atoms = {}
        for c in cubes:
            for a, v in c: atoms.setdefault(a, set()).update(v[1])
        order = sorted(atoms, key=canon)
        if len(order) > 12: return cubes
        def build(i, cs):
            if not cs: return False
            if any(not c for c in cs): return True
            while not any(a == order[i] for c in cs for a, _ in c): i += 1
            a = order[i]
            vals = atoms[a]
            dom = set(vals)
            if a[0] == 'is':
                u = self.uni_of(vals)
                if not (u is not None and vals >= u): dom.add('*')
            elif a[0] == 'v': dom.add('*')
            elif a[0] == 'exit': dom |= {'end', 'break'}
            else: dom |= BOOLS
            kids = {}
            for x in dom:
                ncs = set()
                for c in cs:
                    c2 = dict(c)
                    v = c2.pop(a, None)
                    if v is not None and ((x not in v[1]) if v[0] == '+' else (x in v[1])): continue
                    ncs.add(frozenset(c2.items()))
                kids.setdefault(build(i + 1, frozenset(ncs)) if ncs else False, set()).add(x)
            if len(kids) == 1: return next(iter(kids))
            return (a, tuple(sorted(((frozenset(v), k) for k, v in kids.items()), key=canon)), frozenset(dom))
        out = set()
        def walk(n, path):
            if n is False: return
            if n is True: out.add(frozenset(path)); return
            a, kids, dom = n
            for vs, k in kids:
                gv = ('-', dom - vs) if '*' in vs else ('+', vs)
                walk(k, path + [(a, gv)])
        walk(build(0, cubes), [])
        return frozenset(out)

    def loop_src(self, base, back, exits):
        for t in list(back) + [x[2] for x in exits]:
            for k, v in t.g.items():
                if k[0] == 'is' and k[1][0] == 'next' and base.g.get(k) != v: return k[1][1]
        return None

    def elem_base(self, loc, src):
        while True:
            if loc == ('elem', src): return src[1] if src[0] == 'rev' else src
            if loc[0] == 'idx' and loc[2] == ('idxof', src): return loc[1]
            if loc[0] not in ('f', 'as', 'idx', 'mapval') or not isinstance(loc[1], tuple): return None
            loc = loc[1]

    def merge_rows(self, rows):
        rows = [r for r in rows]
        changed = True
        while changed:
            changed = False
            for i in range(len(rows)):
                for j in range(i + 1, len(rows)):
                    if rows[i][1] == rows[j][1] and rows[i][2] == rows[j][2]:
                        m = self.try_merge(rows[i][0], rows[j][0])
                        if m is not None:
                            rows[i][0] = m; del rows[j]; changed = True; break
                if changed: break
        return rows

    def phi_name(self, F, c, v, W, dn):
        n = 0
        base = ('phi', dn, self.tyclass(F, c))
        while True:
            nm = base if n == 0 else base + (n,)
            if nm not in W.values(): return nm
            n += 1

    def tyclass(self, F, c):
        fr = F
        for f in self.stack:
            if f.id == c[0]: fr = f
        try:
            ty = self.sub(fr.B.locals[c[1]], fr.sub)
        except Exception:
            return 'x'
        return tyname(ty)

    def apply_phi(self, s, W):
        for k, nm in W.items():
            if k[0] == 'c':
                s.cells[k[1]] = nm
            elif k[0] == 'h':
                for loc in [l for l in s.heap if self.relpath(l, k[1])]: del s.heap[loc]
                s.heap[k[1]] = nm
            else: s.ver[k[1]] = nm

    def subst_state(self, t, m, skip_g=False):
        memo = {}
        for c in list(t.cells): t.cells[c] = rewrite(t.cells[c], m, memo)
        for c in list(t.heap): t.heap[c] = rewrite(t.heap[c], m, memo)
        t.ev = tuple(rewrite(e, m, memo) for e in t.ev)
        t.g = Guards((rewrite(k, m, memo), v) for k, v in t.g.items())

    def simplify_posts(self, t):
        for c in list(t.cells):
            v = t.cells[c]
            t.cells[c] = self.simp_post(v)
        for c in list(t.heap): t.heap[c] = self.simp_post(t.heap[c])

    def simp_post(self, v):
        """a loop that only pushes its element unchanged rebuilds its source"""
        m = {}
        if not mentions(v, lambda x: len(x) == 3 and x[0] == 'post'): return v
        for x in list(subterms(v)):
            if x and x[0] == 'post' and len(x) == 3:
                _, lid, nm = x
                if lid not in self.loops: continue
                _l, src, inits, rows, bs = self.loops[lid]
                if bs: continue
                init = dict(inits).get(nm)
                if len(rows) == 1:
                    (g, e, u), = rows
                    if not g and init == ('arr', ()) and (nm, ('push', nm, ('elem', src))) in u:
                        m[x] = src if src[0] in ('call', 'f', 'arg', 'key') else ('items', src)
                    elif not g and init == ('arr', ()):
                        for nm2, val in u:
                            if nm2 == nm and val[0] == 'push' and val[1] == nm:
                                m[x] = ('mapped', src, val[2])
        return rewrite(v, m) if m else v

    # ---------- statements
    def step_block(self, F, b, st, res, go):
        self.steps += 1
        if self.steps > 400000: raise TooBig('steps')
        stm, T, c = F.B.blocks[b]
        for s in stm:
            if s[0] == '=':
                v = self.rvalue(st, F, s[2])
                self.write(st, self.resolve(st, F, s[1]), v)
            elif s[0] == 'dead':
                st.cells.pop((F.id, s[1]), None)
            elif s[0] == 'setd':
                pass
        k = T['k']
        if T['m'] and any(x.startswith(('tracing::', 'tracing_core', 'log::')) for x in T['m']):
            nb = postdom_skip(F.B, b)
            if nb is not None:
                return go(nb, st)
        if k == 'goto': return go(T['b'], st)
        if k == 'return':
            res.setdefault('ret', []).append((st, st.cells.get((F.id, 0), UNIT)))
            return
        if k in ('unreachable', 'resume'): return
        if k == 'yield': return
        if k == 'assert': return go(T['b'], st)
        if k == 'drop':
            self.do_drop(st, F, T)
            return go(T['b'], st)
        if k == 'switch':
            for tgt, s in self.do_switch(st, F, T): go(tgt, s)
            return
        if k == 'call':
            unit = self.sub(T['dt'], F.sub) == ('tuple', ())
            for s, kind, v in self.do_call(st, F, T):
                if kind == 'ret':
                    if unit: v = UNIT
                    if T['b'] is not None:
                        self.write(s, self.resolve(s, F, T['d']), v)
                        go(T['b'], s)
                    else: res.setdefault('panic', []).append((s, ('panic',)))       # never returns
                elif kind == 'skip':
                    res.setdefault(('edge', F.header), []).append(s)
                else:
                    res.setdefault('panic', []).append((s, v))
            return
        raise Unmodelled('terminator ' + k)

    def do_drop(self, st, F, T):
        cur = self.resolve(st, F, T['p'])
        if cur[0] == 'cell' and cur[1] not in st.cells: return
        ty = self.sub(T['ty'], F.sub)
        v = self.read(st, cur) if cur[0] == 'cell' else None
        if v is not None and v[0] not in ('undef', 'moved'):
            if v != NONE and self.has_guard(ty): self.released(st)
            if not mentions(v, lambda x: x and x[0] == 'moved'):
                self.drop_value(st, v, ty)
        if cur[0] == 'cell' and not cur[2]: st.cells.pop(cur[1], None)

    def drop_value(self, st, v, ty):
        if ty is None: return
        if ty[0] == 'adt':
            im = self.find_impl('core::ops::drop::Drop', (ty,)) if ty[1] in self.p.adts and self.p.adts[ty[1]]['local'] else None
            if im:
                self.event(st, ('drop', strip_modules(ty[1]), self.val(st, v)))
                return

    def do_switch(self, st, F, T):
        v = self.operand(st, F, T['o'])
        ty = T['ty']
        out = []
        if v[0] == 'discr':
            t, ety = v[1], v[2]
            ad = self.p.adts.get(ety[1]) if ety and ety[0] == 'adt' else None
            if ad is None:
                raise Unmodelled('discriminant of %s' % (ety,))
            bynum = {str(x['discr']): n for n, x in ad['variants'].items()}
            uni = frozenset(ad['names'])
            named = set()
            if t[0] == 'adt':
                for val, b in T['ts']:
                    if bynum.get(val) == t[2]: return [(b, st)]
                return [(T['else'], st)]
            res = []
            elsevs = set(uni)
            for val, b in T['ts']:
                vn = bynum.get(val)
                if vn is None: continue
                elsevs.discard(vn)
                s = st.copy()
                if self.assume(s, ('is', t), ('+', frozenset((vn,))), uni): res.append((b, s))
            if elsevs:
                s = st.copy()
                if self.assume(s, ('is', t), ('+', frozenset(elsevs)), uni): res.append((T['else'], s))
            return res
        if ty and ty[0] == 'bool':
            f = None; tt = T['else']
            for val, b in T['ts']:
                if val == '0': f = b
                else: tt = b
            for s, bv in self.fork_bool(st, v):
                out.append((tt if bv else f if f is not None else T['else'], s))
            return out
        if v[0] == 'int':
            for val, b in T['ts']:
                if int(val) == v[1]: return [(b, st)]
            return [(T['else'], st)]
        if v[0] == 'bool':
            for val, b in T['ts']:
                if int(val) == int(v[1]): return [(b, st)]
            return [(T['else'], st)]
        atom = ('v', v)
        vals = set()
        for val, b in T['ts']:
            n = int(val); vals.add(n)
            s = st.copy()
            if self.assume(s, atom, ('+', frozenset((n,)))): out.append((b, s))
        s = st.copy()
        if self.assume(s, atom, ('-', frozenset(vals))): out.append((T['else'], s))
        return out

    # ---------- rvalues
    def operand(self, st, F, o):
        if o[0] == 'k': return self.const(st, F, o[1])
        cur = self.resolve(st, F, o[1])
        v = self.read(st, cur)
        if o[0] == 'm':
            if cur[0] == 'cell':
                if not cur[2]: st.cells.pop(cur[1], None)
                else:
                    # partial move out of a structured local
                    base = st.cells.get(cur[1])
                    if base is not None and base[0] in ('adt', 'tup', 'cor', 'clo') and cur[1][0] == F.id:
                        ok = True
                        b = base
                        for e in cur[2]:
                            if b[0] not in ('adt', 'tup', 'cor', 'clo'): ok = False; break
                            b = project(b, e)
                        if ok and b[0] not in ('int', 'bool', 'str', 'ref'):
                            st.cells[cur[1]] = update(base, cur[2], ('moved', b)) if False else base
        return v

    def const(self, st, F, k):
        if isinstance(k, dict):
            if 'ctor' in k: return ('ctor', k['ctor'][0], k['ctor'][1])
            return ('fn', k, tuple(sorted(F.sub.items())) if F.sub else ())
        t = k[0]
        if t == 'int':
            ty = k[2]
            return ('int', int(k[1]))
        if t == 'bool': return ('bool', bool(k[1]) if not isinstance(k[1], str) else k[1] == 'true')
        if t == 'str': return ('str', k[1])
        if t == 'static': return ('static', strip_modules(k[1]))
        if t == 'zst':
            ty = self.sub(k[1], F.sub)
            if ty[0] == 'tuple': return UNIT
            if ty[0] == 'adt':
                ad = self.p.adts.get(ty[1])
                if ad and not ad['enum']:
                    return ('adt', ty[1], ad['names'][0], ())
                return ('adt', ty[1], ty[1].split('::')[-1], ())
            if ty[0] in ('closure',):
                return ('clo', ty[1], (), tuple(sorted(self.closub(ty).items())))
            return ('zst', tyname(ty))
        if t in ('promoted', 'const'):
            if t == 'promoted':
                bid = k[1]
                sub = self.mksub(bid, [self.sub(x, F.sub) for x in k[2]])
            else:
                bid = k[1]; sub = self.mksub(bid, [self.sub(x, F.sub) for x in k[2]])
            if bid in self.p.bodies:
                key = self.p.bodies[bid].key
                try:
                    s = St()
                    rs = self.run_body(s, bid, [], sub)
                    if len(rs) == 1 and rs[0][1] == 'ret' and not rs[0][0].ev:
                        return self.val(rs[0][0], rs[0][2])
                except Unmodelled:
                    pass
                return ('const', key)
            return ('const', strip_modules(bid) if bid.startswith('hydra') else bid)
        if t == 'tyconst':
            if str(k[1])[:1] == '"':
                import ast
                try: return STR(ast.literal_eval(str(k[1])))
                except (ValueError, SyntaxError): pass
            return ('const', str(k[1]))
        if t == 'raw':
            return ('const', str(k[1]), tyname(k[2]))
        return ('const',) + tuple(str(x) for x in k[1:])

    def mksub(self, bid, args):
        B = self.p.bodies.get(bid)
        if B is None or not args: return {}
        gs = [g for g in B.generics]
        return dict(zip(gs, args))

    def closub(self, ty):
        B = self.p.bodies.get(ty[1])
        return dict(zip(B.generics, ty[2])) if B else {}

    def type_of(self, t):
        """the nominal type of an argument of the function under analysis, or of a part of one"""
        path = []
        while proj_elems(t) is not None:
            t, e = proj_elems(t); path.append(e)
        if t[0] != 'arg' or not self.stack or t[1] + 1 >= len(self.stack[0].B.locals): return None
        ty = self.stack[0].B.locals[t[1] + 1]
        while ty[0] == 'ref': ty = ty[1]
        if ty[0] != 'adt' or path: return None
        return ty[1]

    def rebuilt(self, st, a, vals):
        """the value whose parts these are, put together again"""
        ad = self.p.adts.get(a[1])
        if ad is None or not ad['enum'] or len(vals) < 2: return None
        v = [self.val(st, x) for x in vals]
        base = [x[1][1] for x in v if len(x) == 3 and x[0] == 'f' and x[1][0] == 'as' and x[1][2] == a[2]]
        if not base: return None
        t = base[0]
        if self.type_of(t) != a[1]: return None
        if all(project(project(t, ('v', a[2])), ('f', n)) == x for n, x in zip(a[3], v)): return t
        return None

    def rvalue(self, st, F, r):
        k = r[0]
        if k == 'use': return self.operand(st, F, r[1])
        if k == 'ref':
            cur = self.resolve(st, F, r[1])
            if r[2]: return self.mutref(st, cur)
            if cur[0] == 'cell':
                v = self.read(st, cur)
                # shared reference to a local that is itself being built: snapshot
                return v
            if shared(cur[1]): return cur[1]        # the place, not a copy: interior mutability
            return self.read_loc(st, cur[1])
        if k == 'agg':
            a = r[1]
            vals = tuple(self.operand(st, F, o) for o in r[2])
            if a[0] == 'adt':
                b = self.rebuilt(st, a, vals)
                return b if b is not None else ('adt', a[1], a[2], tuple(zip(a[3], vals)))
            if a[0] == 'tuple': return ('tup', vals)
            if a[0] == 'array': return ('arr', vals)
            if a[0] in ('closure', 'coroutine'):
                B = self.p.bodies.get(a[1])
                sub = {}
                if B is not None: sub = dict(zip(B.generics, [self.sub(x, F.sub) for x in a[2]]))
                return ('clo' if a[0] == 'closure' else 'cor', a[1], vals, tuple(sorted(sub.items())))
            if a[0] == 'rawptr': return vals[0]
            return ('agg', a) + vals
        if k == 'discr':
            v = self.read(st, self.resolve(st, F, r[1]))
            v = self.deref(st, v)
            return ('discr', v, self.sub(r[2], F.sub)) if v[0] != 'adt' else ('discr', v, self.sub(r[2], F.sub))
        if k == 'cast':
            v = self.operand(st, F, r[1])
            if v[0] == 'int': return v
            if v[0] == 'discr': return ('cast', v)
            return ('cast', v) + tuple(r[2]) if self.narrows(F, r) else v
        if k == 'bin': return self.binop(st, r[1], self.operand(st, F, r[2]), self.operand(st, F, r[3]))
        if k == 'un':
            v = self.operand(st, F, r[2])
            op = r[1]
            if op == 'Not':
                if v[0] == 'int': return ('bin', 'BitNot', v)
                return mk_not(self.deref(st, v))
            if op == 'PtrMetadata': return self.M.length(self, st, v)
            return ('un', op, self.val(st, v))
        if k == 'repeat': return ('repeat', self.operand(st, F, r[1]), str(r[2]))
        if k == 'tls': return ('static', strip_modules(r[1]))
        raise Unmodelled('rvalue ' + k)

    def binop(self, st, op, a, b):
        a = self.val(st, a); b = self.val(st, b)
        chk = op.endswith('WithOverflow')
        if chk: op = op[:-12]
        op = op.replace('Unchecked', '')
        r = self.bin1(op, a, b)
        return ('tup', (r, FALSE)) if chk else r

    WIDTH = {'8': 8, '16': 16, '32': 32, '64': 64, 'size': 64, '128': 128}
    def narrows(self, F, r):
        """casts that can change the number: to fewer bits, to or from signed, to or from floats"""
        if r[3] not in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'): return False
        if r[3] != 'IntToInt': return True
        def num(t):
            t = self.sub(t, F.sub) if t else None
            if not t or len(t) < 2 or not isinstance(t[1], str): return None
            n = t[1]
            return (n[0], self.WIDTH.get(n[1:])) if n[0] in 'iu' and n[1:] in self.WIDTH else None
        o = r[1]; to = num(r[2])
        fr = num(F.B.locals[o[1][0]]) if o[0] in ('c', 'm') and (len(o[1]) < 2 or not o[1][1]) else ('u', 64)
        if to is None or fr is None: return fr is not None or to is not None
        if fr[0] == to[0]: return to[1] < fr[1]
        return not (fr[0] == 'u' and to[1] > fr[1])
    def bin1(self, op, a, b):
        if a[0] == 'discr' or b[0] == 'discr':
            # comparison of discriminants
            da = a[1] if a[0] == 'discr' else None; db = b[1] if b[0] == 'discr' else None
            if op in ('Eq', 'Ne'):
                if da is not None and db is not None:
                    if da[0] == 'adt' and db[0] == 'adt': t = ('bool', da[2] == db[2])
                    elif db[0] == 'adt': t = ('isvar', da, db[2], self.enum_uni(db))
                    elif da[0] == 'adt': t = ('isvar', db, da[2], self.enum_uni(da))
                    else: t = mk_eq(('discr', da), ('discr', db))
                    return t if op == 'Eq' else mk_not(t)
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                if op == 'Add': return INT(x + y)
                if op == 'Sub': return INT(x - y)
                if op == 'Mul': return INT(x * y)
                if op == 'Div': return INT(x // y)
                if op == 'Rem': return INT(x % y)
                if op == 'BitOr': return INT(x | y)
                if op == 'BitAnd': return INT(x & y)
                if op == 'BitXor': return INT(x ^ y)
                if op == 'Shl': return INT(x << y)
                if op == 'Shr': return INT(x >> y)
                if op == 'Eq': return ('bool', x == y)
                if op == 'Ne': return ('bool', x != y)
                if op == 'Lt': return ('bool', x < y)
                if op == 'Le': return ('bool', x <= y)
                if op == 'Gt': return ('bool', x > y)
                if op == 'Ge': return ('bool', x >= y)
            except ZeroDivisionError:
                pass
        if op == 'Eq': return mk_eq(a, b)
        if op == 'Ne': return mk_not(mk_eq(a, b))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            return cmp_term(op, a, b)
        if op in ('BitAnd', 'BitOr') and (a[0] == 'bool' or b[0] == 'bool'):
            x, y = (a, b) if a[0] == 'bool' else (b, a)
            if op == 'BitAnd': return y if x[1] else FALSE
            return TRUE if x[1] else y
        if op == 'Add' and b == INT(0): return a
        if op == 'Sub' and b == INT(0): return a
        if op == 'Sub' and a[0] == 'bin' and a[1] == 'Add' and b in a[2:]: return a[3] if a[2] == b else a[2]
        if op == 'Sub' and a[0] == 'len' and b[0] == 'count' and a[1] == (b[1][1] if b[1][0] == 'items' else b[1]):
            neg = [frozenset()]
            for c in b[2]:
                lits = [(k, ('+', BOOLS - v[1]) if v[0] == '+' and v[1] <= BOOLS else ('-' if v[0] == '+' else '+', v[1])) for k, v in c]
                neg = [n | {l} for n in neg for l in lits if not any(k == l[0] and x != l[1] for k, x in n)]
            if len(b[2]) == 1 or all(len(c) == 1 for c in b[2]): return ('count', b[1], self.canon_dnf(neg))
        if op == 'Sub' and b == INT(1) and a[0] == 'len' and a[1][0] == 'push': return ('len', a[1][1])
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and repr(b) < repr(a): a, b = b, a
        return ('bin', op, a, b)

    # ---------- calls
    def do_call(self, st, F, T):
        self.calls += 1
        f = T['f']
        fv = None
        if f[0] == 'k' and isinstance(f[1], dict): const = f[1]; sub = F.sub
        else:
            fv = self.operand(st, F, f)
            fv = self.deref(st, fv)
            if fv[0] == 'fn': const = fv[1]; sub = dict(fv[2])
            else: const = None; sub = F.sub
        args = [self.operand(st, F, o) for o in T['a']]
        dt = self.sub(T['dt'], F.sub)
        if const is None:
            return self.call_value(st, fv, args)
        mut = tuple(i for i, o in enumerate(T['a']) if o[0] in ('c', 'm') and (len(o[1]) < 2 or not o[1][1]) and is_mut(F.B.locals[o[1][0]]))
        return self.call_const(st, const, sub, args, dt, F, mut)

    def call_const(self, st, const, sub, args, dt, F, mut=()):
        if 'ctor' in const:
            p, v = const['ctor']
            ad = self.p.adts.get(p)
            names = [n for n, _ in ad['variants'][v]['fields']] if ad else [str(i) for i in range(len(args))]
            return [(st, 'ret', ('adt', p, v, tuple(zip(names, args))))]
        path = const['fn']; targs = tuple(self.sub(x, sub) for x in const['args'])
        rpath, rargs = path, targs
        if 'res' in const:
            rpath = const['res'][0]; rargs = tuple(self.sub(x, sub) for x in const['res'][1])
        c = Call(path, targs, rpath, rargs, args, dt, F, const, mut)
        key = strip_modules(rpath)
        local = rpath in self.p.bodies
        if 'trait' in const and not local:
            im = self.find_impl(const['trait'], targs)
            if im:
                rec, b = im
                name = path.rpartition('::')[2]
                it = rec['items'].get(name)
                if it is not None and it in self.p.bodies:
                    rpath = it; B = self.p.bodies[it]
                    # impl generics first, then method generics
                    nimpl = len(rec['generics']) if rec['generics'] else 0
                    full = [b.get(g, ('param', g)) for g in B.generics[:nimpl]]
                    rest = targs[len(rec['args']):]
                    full += list(rest[len(rest) - (len(B.generics) - nimpl):]) if len(B.generics) > nimpl else []
                    rargs = tuple(full)
                    key = strip_modules(rpath); local = True
                    c.rpath, c.rargs = rpath, rargs
                elif it is None:
                    d = self.p.trait_methods.get((const['trait'], name))
                    if d and d in self.p.bodies:
                        rpath = d; rargs = targs; key = strip_modules(d); local = True
                        c.rpath, c.rargs = rpath, rargs
        if key in self.opaque:
            if c.rpath in self.p.bodies and any(not isinstance(a, tuple) or a[0] != 'ref' for a in c.args): self.converted(st, c)
            return self.opaque_call(st, key, c)
        for p in (rpath, path):
            m = self.models.get(p)
            if m is not None:
                r = m(self, st, c)
                if r is not None: return r
        if local:
            B = self.p.bodies[rpath]
            if B.derived:
                r = self.M.derived(self, st, c, B)
                if r is not None: return r
            if any(fr.B.id == rpath for fr in self.stack) and sum(1 for fr in self.stack if fr.B.id == rpath) >= 2:
                return self.opaque_call(st, key, c)
            return self.inline(st, rpath, rargs, args)
        m = self.M.default(self, st, c)
        return m

    def converted(self, st, c):
        """an argument that the function turns into a given type before anything else is that value, whatever it is given as"""
        to = self.p.conversions(c.rpath)
        if not to: return
        sub = self.mksub(c.rpath, c.rargs)
        args = list(c.args)
        for i, (T, U) in to.items():
            T, U = self.sub(T, sub), self.sub(U, sub)
            if T == U or T[0] in ('param', 'alias') or i >= len(args): continue
            s = st.copy()
            d = copy.copy(c)
            d.args = [args[i]]; d.targs = (T, U)
            rs = self.M.conv(self, s, d, U, T)
            if len(rs) == 1 and rs[0][1] == 'ret' and rs[0][0].ev == st.ev and rs[0][0].g == st.g: args[i] = rs[0][2]
        c.args = args

    def inline(self, st, bid, targs, args):
        sub = self.mksub(bid, targs)
        return self.run_body(st, bid, list(args), sub)

    def is_async(self, bid):
        B = self.p.bodies[bid]
        # async fn: body only builds its coroutine
        for stm, T, c in B.blocks[:3]:
            for s in stm:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'coroutine' and s[1] == (0, ()): return True
        return False

    def opaque_call(self, st, key, c):
        bid = c.rpath if c.rpath in self.p.bodies else None
        mut = c.mut
        if bid:
            B = self.p.bodies[bid]
            mut = tuple(i for i in range(B.argc) if is_mut(B.locals[i + 1]))
        if bid and self.is_async(bid):
            self.mutsig[key] = mut
            return [(st, 'ret', ('fut', key) + tuple(c.args))]
        return [(st, 'ret', self.opaque_effect(st, key, c.args, mut))]

    def opaque_effect(self, st, key, args, mut=()):
        r = self.effect(st, key, [self.unread(key, i, self.summ(st, a)) for i, a in enumerate(args)])
        self.havoc(st, key, args, mut)
        return r

    def havoc(self, st, key, args, mut=()):
        """state reachable through mutable references is unknown afterwards"""
        for i in mut:
            a = args[i] if i < len(args) else ('unit',)
            if a[0] == 'ref' or proj_elems(a) is None and a[0] not in ('arg', 'get', 'mapval') or a == ('ctx',): continue
            n = self.count(st, ('after', key, i))
            for p in self.touches(key, i):
                t = a
                for e in p:
                    if e != '*': t = term_proj(t, e)
                v = self.after(st, key, i, n, p, self.read_loc(st, t))
                for loc in [l for l in st.heap if within(l, t)]: del st.heap[loc]
                self.write_loc(st, t, v, quiet=True)
        for i, a in enumerate(args):
            if a[0] == 'ref':
                old = self.read(st, ('cell', a[1], a[2]))
                if old[0] in ('iter',): continue
                n = self.count(st, ('after', key, i))
                for p in self.touches(key, i):
                    q = p[:-1] if p[-1:] == ('*',) else p
                    self.write(st, ('cell', a[1], a[2] + q), self.after(st, key, i, n, p, self.read(st, ('cell', a[1], a[2] + q))))

    def unread(self, key, i, v):
        """v without changes to parts of it that the opaque function does not look at"""
        r = self.reads.get(key)
        if r is None or v[0] != 'upd': return v
        r = r.get(i, ())
        keep = tuple((p, x) for p, x in v[2] if any(p[:len(q)] == q[:len(p)] for q in r))
        return v if len(keep) == len(v[2]) else ('upd', v[1], keep) if keep else v[1]

    def touches(self, key, i):
        """the parts of its i-th argument an opaque function may write ('*': the elements of a container, not which they are)"""
        w = self.parts.get(key)
        return ((),) if w is None else sorted(w.get(i, ()), key=repr)

    def after(self, st, key, i, n, p, old):
        old = self.val(st, old)
        x = ('after', key, i, n, strip_after(old))
        if p[-1:] != ('*',): return x
        x += (self.M.length(self, st, old),)
        fs = getattr(self.parts, 'fields', {}).get((key, i, p))
        if fs is None or old[0] == 'after' and len(old) < 7: return x
        return x + (tuple(sorted(set(fs) | set(old[6] if old[0] == 'after' else ()))),)

    def call_value(self, st, fv, args):
        """call of a function value; args already a python list"""
        fv = self.deref(st, fv)
        if fv[0] == 'clo': return self.call_closure(st, fv, args)
        if fv[0] == 'ctor':
            ad = self.p.adts.get(fv[1])
            names = [n for n, _ in ad['variants'][fv[2]]['fields']] if ad else [str(i) for i in range(len(args))]
            return [(st, 'ret', ('adt', fv[1], fv[2], tuple(zip(names, args))))]
        if fv[0] == 'fn':
            return self.call_const(st, fv[1], dict(fv[2]), args, None, self.stack[-1] if self.stack else None)
        r = self.opaque_effect(st, '<callback>', [fv] + list(args))
        self.M.disturb(self, st, '*')
        return [(st, 'ret', r)]

    def call_closure(self, st, clo, args):
        bid = clo[1]
        B = self.p.bodies[bid]
        return self.run_body(st, bid, [clo] + list(args), dict(clo[3]))

    def call_closure_ref(self, st, fv, args):
        """closure passed as (mutable) reference"""
        if fv[0] == 'ref':
            v = self.read(st, ('cell', fv[1], fv[2]))
            if v[0] == 'clo':
                B = self.p.bodies[v[1]]
                # FnMut through reference: pass the reference so captures by value update
                return self.run_body(st, v[1], [fv] + list(args), dict(v[3]))
            return self.call_value(st, v, args)
        return self.call_value(st, fv, args)

    # ---------- nested summaries
    def summ(self, st, v):
        """closures/coroutines passed to opaque calls are shown by what they do"""
        v = self.val(st, v)
        return self.summ1(st, v)

    def summ1(self, st, v):
        if not isinstance(v, tuple) or not v: return v
        if v[0] == 'cor':
            return ('async', self.other_task(lambda: self.rows_of(st, lambda s: self.run_body(self.fresh(s), v[1], [v, ('ctx',)], dict(v[3])))))
        if v[0] == 'clo':
            B = self.p.bodies[v[1]]
            params = [('p', i) for i in range(B.argc - 1)]
            return self.fn_rows(st, len(params), lambda s: self.run_body(s, v[1], [v] + params, dict(v[3])))
        if v[0] in ('scoped', 'timeout', 'pollfn'):
            return ('async', self.other_task(lambda: self.rows_of(st, lambda s: self.M.poll_value(self, self.fresh(s), v))))
        if v[0] in ('fn', 'ctor'):
            if v[0] == 'fn':
                res = v[1].get('res', (v[1]['fn'],))[0]
                B = self.p.bodies.get(res)
                if B is None or strip_modules(res) in self.opaque or len(self.stack) > 40: return ('fn', strip_modules(v[1]['fn']))
                n = B.argc
            else:
                ad = self.p.adts.get(v[1])
                if ad is None: return v
                n = len(ad['variants'][v[2]]['fields'])
            return ('fn|', n, self.rows_of(st, lambda s: self.call_value(s, v, [('p', i) for i in range(n)])))
        if not any(isinstance(x, tuple) for x in v): return v
        return tuple(self.summ1(st, x) for x in v)

    def other_task(self, run):
        """a future given away is polled by a task of its own: its task-locals are not the ones of the code creating it"""
        self.task += 1
        try: return run()
        finally: self.task -= 1

    def fresh(self, s):
        """nothing is known of shared state when a task starts"""
        s.ver = {}
        s.ver['*'] = 't%d' % self.task
        for l in list(s.heap):
            if self.M.static_root(l) and l not in self.fixed: s.heap[l] = ('@', l, self.M.ver(self, s, l))
        return s

    def task_local(self, v):
        return ('static', '%s#%d' % (v[1].split('#')[0], self.task)) if v[0] == 'static' and self.task else v

    def fn_rows(self, st, n, run):
        """a closure given away: called any number of times, so what it writes to captured state is a loop of its own"""
        W = {}
        self.depth_loops += 1
        dn = self.depth_loops
        try:
            for it in range(20):
                s = st.copy(); s.ev = ()
                self.apply_phi(s, W)
                base = s.copy()
                outs = run(s)
                new = False
                for t, kind, v in outs:
                    for c, x in base.cells.items():
                        if ('c', c) in W or c not in t.cells or t.cells[c] == x: continue
                        W[('c', c)] = self.phi_name(self.stack[-1] if self.stack else None, c, x, W, dn); new = True
                    for loc in sorted(set(t.heap) & set(base.heap), key=repr):
                        if t.heap[loc] == base.heap[loc] or any(k[0] == 'h' and self.relpath(loc, k[1]) for k in W): continue
                        W[('h', loc)] = ('phi', dn, locname(loc)); new = True
                if not new: break
            else: raise Unmodelled('closure state does not stabilise')
        finally:
            self.depth_loops -= 1
        if not W: return ('fn|', n, self.rows_of(st, run))
        rows = []
        for t, kind, v in outs:
            g = {k: x for k, x in t.g.items() if base.g.get(k) != x}
            ups = [(('at', ('result',)), (kind, self.summ(t, v)))]
            for k, nm in W.items():
                x = self.summ(t, t.cells[k[1]] if k[0] == 'c' else self.read_loc(t, k[1])) if k[0] == 'h' or k[1] in t.cells else nm
                if x != nm: ups.append((nm, x))
            rows.append([g, t.ev, tuple(sorted(ups, key=repr))])
        inits = [(nm, self.summ(st, st.cells[k[1]] if k[0] == 'c' else self.read_loc(st, k[1]))) for k, nm in W.items()]
        rows = self.merge_rows(rows)
        lterm = strip(('loop', ('calls', n), tuple(sorted(inits, key=repr)), frozenset((frozenset(g.items()), e, u) for g, e, u in rows), frozenset()))
        lid = digest(lterm)
        self.loops[lid] = lterm
        self.apply_phi(st, {k: ('post', lid, nm) for k, nm in W.items()})
        return ('fn*', n, lterm)

    def rows_of(self, st, run):
        s = st.copy(); s.ev = ()
        base = dict(s.g)
        h0 = dict(s.heap)
        outs = run(s)
        rows = []
        for t, kind, v in outs:
            g = {k: x for k, x in t.g.items() if base.get(k) != x}
            rows.append([g, t.ev, (kind, self.summ(t, v))])
        rows = self.merge_rows(rows)
        return frozenset((frozenset(g.items()), e, r) for g, e, r in rows)

    # ---------- entry
    def entry(self, bid, argvals=None, sub=None, self_state=None):
        """all paths of a function: list of dict(g, e, r, h)"""
        B = self.p.bodies[bid]
        st = St()
        args = []
        for i in range(B.argc):
            nm = B.names[i + 1]
            if argvals and i in argvals: args.append(argvals[i])
            else: args.append(('arg', i))
        outs = self.run_body(st, bid, args, sub or {})
        # an async function: run its coroutine to completion
        fin = []
        for s, k, v in outs:
            if k == 'ret' and v[0] in ('cor', 'timeout', 'scoped') :
                fin += [(s2, k2, (v2)) for s2, k2, v2 in self.M.poll_value(self, s, v)]
            else: fin.append((s, k, v))
        rows = []
        for s, k, v in fin:
            h = []
            for loc, x in s.heap.items():
                if shared(loc): continue
                h.append((loc, self.summ(s, x)))
            rows.append([s.g, s.ev, strip((k, self.summ(s, v) if k == 'ret' else ('panic',), tuple(sorted(h, key=repr))))])
        rows = self.split_wrap(rows)
        for r in rows: r[1] = self.drop_idle_sets(r[0], r[1])
        rows = self.merge_rows(rows)
        return rows

    def drop_idle_sets(self, g, ev):
        """writing the value the location is known to have already is not a change"""
        n = {}
        for e in ev:
            if e[0] == 'set': n[e[1]] = n.get(e[1], 0) + 1
        def idle(e):
            if e[0] != 'set' or n[e[1]] > 1: return False
            t, v = e[1], e[2]
            if v[0] == 'adt' and not v[3]: k, x = g.get(('is', t)), v[2]
            elif v[0] == 'bool': k, x = g.get(t), v[1]
            else: return False
            return k is not None and k[0] == '+' and k[1] == frozenset((x,))
        return tuple(e for e in ev if not idle(e)) if n else ev

    def split_wrap(self, rows):
        """insertion point % length: zero at the end, the insertion point otherwise"""
        out = []; todo = list(rows)
        while todo:
            g, ev, r = todo.pop(0)
            t = next((x for x in subterms((ev, r)) if x and x[0] == 'bin' and len(x) == 4 and x[1] == 'Rem' and x[3][0] == 'len' and is_bs(x[2], x[3][1])), None)
            if t is None: out.append([g, ev, r]); continue
            c = mk_eq(t[2], t[3])
            for b, v in ((TRUE, INT(0)), (FALSE, t[2])):
                if c in (TRUE, FALSE):
                    if c != b: continue
                    g2 = g
                else:
                    k = g.get(c)
                    if k is not None and gempty(gmeet(k, ('+', frozenset((b[1],))))): continue
                    g2 = dict(g); g2[c] = ('+', frozenset((b[1],)))
                todo.append([g2, rewrite(ev, {t: v}), rewrite(r, {t: v})])
        return out

class Call:
    __slots__ = ('path', 'targs', 'rpath', 'rargs', 'args', 'dt', 'F', 'const', 'mut')
    def __init__(self, path, targs, rpath, rargs, args, dt, F, const, mut=()):
        self.mut = mut
        self.path = path; self.targs = targs; self.rpath = rpath; self.rargs = rargs; self.args = args; self.dt = dt; self.F = F; self.const = const

def is_mut(ty):
    """&mut T, Pin<&mut T>"""
    if not ty: return False
    if ty[0] == 'ref': return bool(ty[2])
    return ty[0] == 'adt' and ty[1] == 'core::pin::Pin' and bool(ty[2]) and is_mut(ty[2][0])

def strip_after(v):
    """base location of a havocked value"""
    while v[0] in ('upd',): v = v[1]
    if v[0] == 'after': return v[4]
    return v

def cmp_term(op, a, b):
    # canonical: lt(x,y) or not lt(y,x)
    if op == 'Lt': return mk_lt(a, b)
    if op == 'Gt': return mk_lt(b, a)
    if op == 'Le': return mk_not(mk_lt(b, a))
    return mk_not(mk_lt(a, b))

def mk_lt(a, b):
    # len(x) > 0  ->  not empty ; x < 1 -> x == 0 for lengths
    if a == INT(0) and b[0] == 'len': return mk_not(mk_eq(b, INT(0)))
    if b == INT(1) and a[0] == 'len': return mk_eq(a, INT(0))
    if a[0] == 'len' and b == INT(0): return FALSE
    if a[0] == 'dur' and b[0] == 'dur': return TRUE if a[1] < b[1] else FALSE
    if b[0] == 'len' and is_bs(a, b[1]):
        # a position found by binary search is inside; an insertion point is at most the length
        return TRUE if a[1][2] == 'Ok' else mk_not(mk_eq(a, b))
    if a[0] == 'len' and is_bs(b, a[1]): return FALSE
    return ('lt', a, b)

def tyname(ty):
    if ty is None: return '?'
    k = ty[0]
    if k in ('adt', 'alias', 'fndef', 'closure', 'coroutine'):
        n = strip_modules(ty[1]) if '::' in ty[1] else ty[1]
        if k in ('closure', 'coroutine'): return k
        return n + ('<' + ','.join(tyname(x) for x in ty[2]) + '>' if ty[2] else '')
    if k in ('ref', 'ptr'): return '&' + tyname(ty[1])
    if k in ('slice', 'array'): return '[' + tyname(ty[1]) + ']'
    if k == 'tuple': return '(' + ','.join(tyname(x) for x in ty[1]) + ')'
    if k == 'dyn': return 'dyn'
    return str(ty[1]) if len(ty) > 1 else k
