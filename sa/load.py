"""Loads the JSON written by the mirdump driver into one program."""
import gzip, json, os, re

def short(path):
    """crate::module::Type::method -> Type::method ; module names (lower case) dropped."""
    return path

_seg = re.compile(r'[A-Za-z0-9_]+(?:#\d+)?(?:::[A-Za-z0-9_]+(?:#\d+)?)+')

def strip_modules(path):
    """Drop crate and module segments of every path inside `path`: keeps Type::item / item."""
    def one(m):
        segs = m.group(0).split('::')
        # keep from the first CamelCase/ALLCAPS segment, else only the last segment
        for i, s in enumerate(segs):
            if s and (s[0].isupper()):
                return '::'.join(segs[i:])
        return segs[-1]
    return _seg.sub(one, path)

class FnConst(dict):
    __slots__ = ()
    def __hash__(self): return hash(self['fn'])
    def __repr__(self): return 'fn:' + self['fn'] + str(self['args'])

class Body:
    __slots__ = ('id','kind','coroutine','derived','pub','mac','file','line','generics','argc','spread',
                 'upvars','locals','blocks','crate','names','_loops','_skip','key','_rpo','_preds','_plain')

    def plain(self, i):
        """the local cannot hold a borrow"""
        if self._plain is None: self._plain = {}
        r = self._plain.get(i)
        if r is None:
            r = self._plain[i] = not borrows(self.locals[i])
        return r

def borrows(ty):
    if not isinstance(ty, tuple) or not ty: return False
    if ty[0] in ('ref', 'ptr', 'closure', 'coroutine', 'dyn', 'alias'): return True
    if ty[0] == 'adt' and any(x in ty[1] for x in ('iter', 'mapref', 'Guard', 'Entry', 'Drain', '::cell::')): return True
    return any(borrows(x) for x in ty[1:])

class Prog:
    def __init__(self):
        self.bodies = {}
        self.adts = {}
        self.statics = {}
        self.impls = []          # (trait, args, self, items, generics, derived)
        self.impl_by_trait = {}
        self.trait_methods = {}  # (trait, name) -> default body id
        self.crates = []
        self.bykey = {}          # module-less key -> [body ids]

    def conversions(self, bid):
        """argument -> (type parameter, type) for arguments a function takes as anything that converts into the type"""
        m = self.__dict__.setdefault('_conv', {})
        if bid in m: return m[bid]
        B = self.bodies[bid]
        to = {}
        for b, X in self.bodies.items():
            if b != bid and not b.startswith(bid + '::{closure'): continue
            for stm, T, c in X.blocks:
                if T['k'] == 'call' and T['f'][0] == 'k' and isinstance(T['f'][1], dict) and T['f'][1].get('fn') == 'core::convert::Into::into':
                    a = T['f'][1]['args']
                    if len(a) > 1 and a[0][0] == 'param': to.setdefault(a[0], set()).add(a[1])
        m[bid] = {i: (t, next(iter(to[t]))) for i, t in enumerate(B.locals[1:B.argc + 1]) if len(to.get(t, ())) == 1}
        return m[bid]

    def load(self, path, crate_filter=None):
        ren = getattr(self, 'rename', None) or {}
        text = (gzip.open(path, 'rt') if path.endswith('.gz') else open(path)).read()
        for new, old in [*ren.get('types', {}).items(), *ren.get('functions', {}).items()]: text = re.sub(r'(?<![\w:])%s(?!\w)' % re.escape(new), old, text)
        for new, old in ren.get('types', {}).items():
            # its name in the strings of derived code
            a, b = new.rsplit('::', 1)[-1], old.rsplit('::', 1)[-1]
            if a != b: text = re.sub(r'(?<=["` ])%s(?=["` :,.])' % re.escape(a), b, text)
        text = re.sub(r'(?<![\w:])std::sync::(lazy_lock::)?LazyLock(?!\w)', 'once_cell::sync::Lazy', text)
        for (owner, new), old in ren.get('variants', {}).items():
            w = owner.rsplit('::', 1)[-1] + '::'
            text = re.sub(r'(?<![\w])%s(?!\w)' % re.escape(w + new), w + old, text)
        d = json.loads(text)
        rf, rv_ = ren.get('fields', {}), ren.get('variants', {})
        crate = d['crate']
        self.crates.append((crate, d['kind'], tuple(d['features']), len(d['bodies'])))
        raw = d['types']
        memo = {}
        def ty(n):
            if n is None:
                return None
            r = memo.get(n)
            if r is not None:
                return r
            j = raw[n]
            k = j[0]
            if k in ('adt', 'closure', 'coroutine', 'fndef', 'alias'):
                r = (k, j[1], tuple(ty(x) for x in j[2]))
            elif k in ('ref', 'ptr'):
                r = (k, ty(j[1]), j[2])
            elif k == 'tuple':
                r = (k, tuple(ty(x) for x in j[1]))
            elif k == 'slice':
                r = (k, ty(j[1]))
            elif k == 'array':
                r = (k, ty(j[1]), j[2])
            elif k == 'dyn':
                r = (k, tuple(j[1]))
            else:
                r = tuple(j)
            memo[n] = r
            return r
        def fld(n, owner=None):                             # field names never collide with term tags
            n = n if n.isdigit() else '.' + n
            return rf.get((owner, n), n)
        for a in d['adts']:
            if a['path'] in self.adts and not a['local']:
                continue
            vs = {}
            for v in a['variants']:
                v['name'] = rv_.get((a['path'], v['name']), v['name'])
                vs[v['name']] = dict(discr=v['discr'], fields=[(fld(f[0], a['path']), ty(f[1])) for f in v['fields']])
            self.adts[a['path']] = dict(enum=a['enum'], local=a['local'], generics=a['generics'], variants=vs,
                                        names=[v['name'] for v in a['variants']], crate=crate)
        for s_ in d['statics']:
            if s_['local'] or s_['path'] not in self.statics:
                self.statics[s_['path']] = dict(ty=ty(s_['ty']), local=s_['local'], crate=crate)
        for im in d['impls']:
            rec = dict(trait=im['trait'], args=tuple(ty(x) for x in im['args']), self=ty(im['self']),
                       items={k: (ty(v) if k.startswith('type ') else v) for k, v in im['items'].items()},
                       generics=im['generics'], derived=im['derived'], crate=crate)
            self.impls.append(rec)
            self.impl_by_trait.setdefault(rec['trait'], []).append(rec)
        for tr, name, bid in d['traits']:
            self.trait_methods[(tr, name)] = bid
        def fixk(k):
            """constants: resolve type indices"""
            if isinstance(k, dict):
                r = FnConst(fn=k['fn'], args=tuple(ty(x) for x in k['args']), generics=k['generics'])
                if 'trait' in k: r['trait'] = k['trait']
                if 'ctor' in k: r['ctor'] = (k['ctor'][0], rv_.get(tuple(k['ctor']), k['ctor'][1]))
                if 'res' in k: r['res'] = (k['res'][0], tuple(ty(x) for x in k['res'][1]), k['res'][2])
                return r
            t = k[0]
            if t == 'promoted': return (t, k[1], tuple(ty(x) for x in k[2]))
            if t == 'const': return (t, k[1], tuple(ty(x) for x in k[2]), ty(k[3]))
            if t in ('int', 'raw', 'tyconst'): return (t, k[1], ty(k[2]))
            if t in ('zst', 'indirect'): return (t, ty(k[1]))
            return tuple(k)
        def elem(e):
            if not isinstance(e, list): return e
            if e[0] == 'f': return ('f', fld(e[1], e[2] if len(e) > 2 else None))
            if e[0] == 'v': return ('v', rv_.get((e[2], e[1]), e[1]) if len(e) > 2 else e[1])
            return tuple(e)
        def place(p): return (p[0], tuple(elem(e) for e in p[1:]))
        def op(o):
            if o[0] == 'k': return ('k', fixk(o[1]))
            return (o[0], place(o[1]))
        def rv(r):
            k = r[0]
            if k == 'use': return (k, op(r[1]))
            if k == 'repeat': return (k, op(r[1]), r[2])
            if k == 'ref': return (k, place(r[1]), r[2])
            if k == 'tls': return (k, r[1])
            if k == 'cast': return (k, op(r[1]), ty(r[2]), r[3])
            if k == 'bin': return (k, r[1], op(r[2]), op(r[3]))
            if k == 'un': return (k, r[1], op(r[2]))
            if k == 'discr': return (k, place(r[1]), ty(r[2]))
            if k == 'agg':
                a = r[1]
                if a[0] == 'adt': a = ('adt', a[1], rv_.get((a[1], a[2]), a[2]), tuple(fld(x, a[1]) for x in a[3]), tuple(ty(x) for x in a[4]))
                elif a[0] in ('closure', 'coroutine'): a = (a[0], a[1], tuple(ty(x) for x in a[2]))
                else: a = tuple(a)
                ops = tuple(op(o) for o in r[2])
                if a[0] == 'adt' and len(ops) > 1 and len(ops) == len(a[3]) and a[3][0][0] == '.' and a[3][0][1:2].isalpha():
                    # the order in which fields are declared is not behaviour
                    prs = sorted(zip(a[3], ops)); a = a[:3] + (tuple(n for n, _ in prs),) + a[4:]; ops = tuple(o for _, o in prs)
                return (k, a, ops)
            raise ValueError(k)
        for b in d['bodies']:
            if b['derived'] and not any(x in b['id'] for x in ('PartialEq', 'Clone', 'Default')):
                pass
            B = Body()
            B.id = b['id']; B.kind = b['kind']; B.coroutine = b['coroutine']; B.derived = b['derived']; B.pub = b['pub']
            B.mac = tuple(b['mac'] or ()); B.file = b['file']; B.line = b['line']; B.generics = b['generics']
            B.argc = b['args']; B.spread = b['spread']; B.upvars = b['upvars']; B.crate = crate
            B._plain = None
            B.locals = [ty(l[0]) for l in b['locals']]
            B.names = [l[1] if len(l) > 1 else None for l in b['locals']]
            B.blocks = []
            for bb in b['blocks']:
                st = []
                for s_ in bb['s']:
                    if s_[0] == '=': st.append(('=', place(s_[1]), rv(s_[2]), s_[3]))
                    elif s_[0] == 'dead': st.append(('dead', s_[1]))
                    else: st.append(('setd', place(s_[1]), s_[2]))
                t = bb['t']; k = t['k']
                T = dict(k=k, l=t['l'], m=tuple(t.get('m') or ()))
                if k == 'goto': T['b'] = t['b']
                elif k == 'switch':
                    T['o'] = op(t['o']); T['ty'] = ty(t['ty']); T['ts'] = [(v, x) for v, x in t['ts']]; T['else'] = t['else']
                elif k == 'drop':
                    T['p'] = place(t['p']); T['ty'] = ty(t['ty']); T['b'] = t['b']; T['u'] = t['u']
                elif k == 'call':
                    T['f'] = op(t['f']); T['a'] = [op(o) for o in t['a']]; T['d'] = place(t['d']); T['dt'] = ty(t['dt'])
                    T['b'] = t['b']; T['u'] = t['u']; T['fl'] = t['fl']
                elif k == 'assert':
                    T['o'] = op(t['o']); T['e'] = t['e']; T['b'] = t['b']; T['u'] = t['u']; T['msg'] = t['msg']
                elif k == 'yield': T['b'] = t['b']
                B.blocks.append((st, T, bool(bb.get('c'))))
            B._loops = None; B._skip = None; B._rpo = None; B._preds = None
            B.key = strip_modules(B.id)
            self.bodies[B.id] = B
            self.bykey.setdefault(B.key, []).append(B.id)
        return d

    # ---- lookup ----
    def find(self, key, crate=None):
        """bodies whose module-less key is `key`"""
        r = [x for x in self.bykey.get(key, []) if crate is None or self.bodies[x].crate == crate]
        return r

def succs(T):
    k = T['k']
    if k == 'goto': return [T['b']]
    if k == 'switch': return [x for _, x in T['ts']] + [T['else']]
    if k in ('drop', 'assert'): return [T['b']]
    if k == 'call': return [T['b']] if T['b'] is not None else []
    return []   # return, unreachable, yield (suspension: never resumed twice in this model)

def rpo(B):
    if B._rpo is not None:
        return B._rpo
    n = len(B.blocks)
    seen = [False]*n
    order = []
    st = [(0, iter(succs(B.blocks[0][1])))]
    seen[0] = True
    while st:
        b, it = st[-1]
        for x in it:
            if not seen[x]:
                seen[x] = True
                st.append((x, iter(succs(B.blocks[x][1]))))
                break
        else:
            order.append(b); st.pop()
    order.reverse()
    pos = {b: i for i, b in enumerate(order)}
    B._rpo = (order, pos)
    return B._rpo

def loops(B):
    """natural loops: header -> set of blocks (merged per header)"""
    if B._loops is not None:
        return B._loops
    order, pos = rpo(B)
    preds = {b: [] for b in order}
    for b in order:
        for s_ in succs(B.blocks[b][1]):
            preds[s_].append(b)
    # dominators (iterative)
    idom = {order[0]: order[0]}
    changed = True
    def inter(a, b):
        while a != b:
            while pos[a] > pos[b]: a = idom[a]
            while pos[b] > pos[a]: b = idom[b]
        return a
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    new = p if new is None else inter(p, new)
            if new is not None and idom.get(b) != new:
                idom[b] = new; changed = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == order[0]: return False
            b = idom[b]
    L = {}
    for b in order:
        for s_ in succs(B.blocks[b][1]):
            if dom(s_, b):
                body = L.setdefault(s_, {s_})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body: continue
                    body.add(x)
                    work.extend(preds[x])
    B._loops = L
    B._preds = preds
    return L

def postdom_skip(B, b):
    """immediate post-dominator of block b over normal edges (for skipping tracing macros)"""
    order, pos = rpo(B)
    # compute set-based postdominators lazily (bodies are small)
    if B._skip is None:
        exits = [x for x in order if not succs(B.blocks[x][1])]
        rets = [x for x in exits if B.blocks[x][1]['k'] == 'return'] or exits
        allb = set(order)
        pd = {x: set(allb) for x in order}
        for x in exits: pd[x] = {x}
        changed = True
        while changed:
            changed = False
            for x in reversed(order):
                ss = succs(B.blocks[x][1])
                # unreachable/diverging ends do not constrain
                live = [s_ for s_ in ss if not (B.blocks[s_][1]['k'] in ('unreachable',))]
                if not ss: continue
                it = None
                for s_ in (live or ss):
                    it = set(pd[s_]) if it is None else it & pd[s_]
                it = (it or set()) | {x}
                if it != pd[x]:
                    pd[x] = it; changed = True
        B._skip = pd
    pd = B._skip[b] - {b}
    # immediate: the one post-dominated by no other... i.e. closest: has the largest pd set
    best = None
    for x in pd:
        if best is None or len(B._skip[x]) > len(B._skip[best]):
            best = x
    return best
