"""Extraction of the current tree, loading, and comparison of functions against the reviewed reference."""
import os, sys, re, json, gzip, hashlib, shutil, subprocess, fcntl, time, signal
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from load import Prog, strip_modules
import engine, pp, anchors, equiv

REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD') or os.path.join(VERIF, '.build')
CRATES = ('hydra-Rlib.json', 'hydra_websockets-Rlib.json', 'vwitness-Executable-test.json')      # the last: a program expanded through the tree's own attribute macros

class Fail(Exception): pass

# ---------------------------------------------------------------- extraction
def tree_files(repo):
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.github', '.vscode'))
        for f in sorted(fs):
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock', 'config.toml', 'rust-toolchain', 'rust-toolchain.toml', 'README.md'):
                out.append(os.path.relpath(os.path.join(d, f), repo))
    return out

def tree_hash(repo, files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0'); h.update(open(os.path.join(repo, f), 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def driver():
    src = os.path.join(VERIF, 'driver')
    h = hashlib.sha256()
    for f in ('Cargo.toml', 'src/main.rs', 'src/dump.rs', 'src/json.rs', '../witness/src/main.rs', '../witness/Cargo.toml'):
        p = os.path.join(src, f)
        if os.path.exists(p): h.update(open(p, 'rb').read())
    tag = h.hexdigest()[:12]
    exe = os.path.join(BUILD, 'driver-' + tag, 'release', 'mirdump')
    if not os.path.exists(exe):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver-' + tag))
        for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN'): env.pop(k, None)
        r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=src, env=env, capture_output=True, text=True)
        if r.returncode: raise Fail('driver build failed:\n' + r.stderr[-2000:])
    return exe

def extract(repo=REPO):
    """MIR of the current source of `repo` -> directory of JSON files (cached by content)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = driver()
        files = tree_files(repo)
        tag = 'm-' + tree_hash(repo, files) + '-' + os.path.basename(os.path.dirname(os.path.dirname(exe)))[7:]
        out = os.path.join(BUILD, 'dump-' + tag)
        if os.path.exists(os.path.join(out, 'ok')): return out
        for d in os.listdir(BUILD):
            if d.startswith('dump-'): shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        src = os.path.join(BUILD, 'src')
        shutil.rmtree(src, ignore_errors=True)
        for f in files:
            p = os.path.join(src, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copyfile(os.path.join(repo, f), p)        # fresh times: every workspace crate is checked again
        if not os.path.exists(os.path.join(src, 'Cargo.lock')):
            shutil.copyfile(os.path.join(VERIF, 'ref', 'Cargo.lock'), os.path.join(src, 'Cargo.lock'))
        shutil.copytree(os.path.join(VERIF, 'witness'), os.path.join(src, 'vwitness'))
        ws = os.path.join(src, 'Cargo.toml'); text = open(ws).read()
        if not re.search(r'members\s*=\s*\[', text): raise Fail('no workspace members in Cargo.toml')
        open(ws, 'w').write(re.sub(r'members\s*=\s*\[', 'members = ["vwitness", ', text, count=1))
        for f in files:
            if f.endswith('.rs'): os.utime(os.path.join(src, f))
        os.makedirs(out)
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot + '/lib', MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe,
                   CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
        for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN'): env.pop(k, None)
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--workspace', '--all-features'], cwd=src, env=env, capture_output=True, text=True)
        if r.returncode: raise Fail('the tree does not compile:\n' + '\n'.join(re.findall(r'(?m)^error.*(?:\n.+){0,4}', r.stderr)[:3]))
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c)): raise Fail('no MIR for ' + c)
        # the same source without its optional features: the other side of every cfg(feature)
        os.makedirs(os.path.join(out, 'min'))
        env['MIRDUMP_OUT'] = os.path.join(out, 'min')
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-p', 'hydra', '-p', 'hydra-websockets', '--no-default-features'], cwd=src, env=env, capture_output=True, text=True)
        if r.returncode: open(os.path.join(out, 'min', 'failed'), 'w').write(r.stderr[-4000:])
        open(os.path.join(out, 'ok'), 'w').close()
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()

def load(dirname, rename=None):
    p = Prog()
    p.rename = rename or {}
    for c in CRATES[:2] if os.path.basename(dirname.rstrip('/')) == 'min' else CRATES:
        f = os.path.join(dirname, c)
        if not os.path.exists(f): f += '.gz'
        p.load(f)
    return p

def pairs(gone, new):
    """what is gone and what is new, one for one in order, where they are of one type"""
    m = {}
    if len(gone) == len(new):
        for i, (y, t) in enumerate(new):
            c = [n for n, t1 in gone if t1 == t]
            k = [n for n, t2 in new if t2 == t].index(y)
            if k < len(c): m[y] = c[k]
    return m

def current(ref, dirname):
    """the current tree, with the types, variants and fields that only changed their name called as in the reference"""
    ren = dict(types={}, variants={}, fields={}, functions={})
    cur = load(dirname)
    def shape(path, a):
        def sub(t):
            if isinstance(t, tuple): return tuple(sub(x) for x in t)
            return 'self' if t == path else t
        return (a['enum'], str(a['generics']).replace(path, 'self'), tuple((len(v['fields']), tuple(sub(t) for _, t in v['fields'])) for v in a['variants'].values()))
    gone = {k: shape(k, a) for k, a in ref.adts.items() if a['local'] and k not in cur.adts}
    new = {k: shape(k, a) for k, a in cur.adts.items() if a['local'] and k not in ref.adts}
    for n, s in new.items():
        last = lambda k: k.rsplit('::', 1)[-1]
        c = [k for k in gone if last(k) == last(n)] or [k for k in gone if gone[k] == s and sum(x == s for x in new.values()) == 1]
        if len(c) == 1: ren['types'][n] = c[0]
    if ren['types']: cur.rename = None; cur = load(dirname, ren)
    for path, a in ref.adts.items():
        b = cur.adts.get(path)
        if b is None or not a['local']: continue
        sh = lambda x: [(v, str(len(d['fields'])) if len(x['variants']) > 1 else '') for v, d in x['variants'].items()]
        vs = pairs([x for x in sh(a) if x[0] not in b['variants']], [x for x in sh(b) if x[0] not in a['variants']]) if a['enum'] else {list(b['variants'])[0]: list(a['variants'])[0]}
        for v2, d2 in b['variants'].items():
            v1 = vs.get(v2, v2)
            if v1 not in a['variants']: continue
            if v1 != v2: ren['variants'][(path, v2)] = v1
            f1, f2 = a['variants'][v1]['fields'], d2['fields']
            n1 = {n for n, _ in f1}; n2 = {n for n, _ in f2}
            for y, x in pairs([f for f in f1 if f[0] not in n2], [f for f in f2 if f[0] not in n1]).items(): ren['fields'][(path, y)] = x
    if ren['variants'] or ren['fields']: cur = load(dirname, ren)
    # functions that are gone, under a new name that does the same
    a, b = index(ref), index(cur)
    known = set(anchors.known())
    gone = [k for k in a if k not in b and k in known and len(a[k]) == 1 and ' as ' not in k]
    new = [k for k in b if k not in a and len(b[k]) == 1 and ' as ' not in k]
    cands = [(g, n) for g in gone for n in new if types_of(ref, a[g][0]) == types_of(cur, b[n][0])]
    if len({g for g, _ in cands}) == len(cands) == len({n for _, n in cands}): tries = [cands] if cands else []
    else: tries = []
    for t in tries + [[c] for c in cands]:
        t = [(g, n) for g, n in t if g not in ren['functions'].values() and b[n][0] not in ren['functions']]
        r = dict(ren, functions=dict(ren['functions'], **{b[n][0]: a[g][0] for g, n in t}))
        if not t: continue
        c = load(dirname, r)
        C = Compare(ref, c)
        if all(C.one(a[g][0], index(c)[g][0], C.opaque) is None for g, n in t if g in index(c)): cur, ren = c, r
    return cur, ren

def types_of(p, b):
    B = p.bodies[b]
    return B.argc, B.pub, B.locals[:B.argc + 1]

# ---------------------------------------------------------------- comparison
class Compare:
    def __init__(self, ref, cur, held=False):
        self.ref = ref; self.cur = cur
        self.rk = index(ref); self.ck = index(cur)
        both = {k for k in self.rk if k in self.ck}
        self.opaque = {k for k in anchors.opaque() if k in both and sig(ref, self.rk[k]) == sig(cur, self.ck[k])}
        self.held = held
        self.cache = {}
        self.results = {}
        self.callers_ref = callers(ref)
        self.static_ren = self.statics()
        self.stats = dict(rows=0, paths=0, calls=0, pairs=0)
        self.inlined = set()
        self.parts = parts(ref, self.opaque)
        self.reads = {}; self.pure = set(); self.hush = {}
        self.defaults = {p.bodies[b].key for p in (ref, cur) for b in p.trait_methods.values() if b in p.bodies}
        self.writes = writes(ref, self.opaque, self.parts, self.reads, self.pure)

    def statics(self):
        a = {strip_modules(k): v['ty'] for k, v in self.ref.statics.items() if v['local'] and '__CALLSITE' not in k}
        b = {strip_modules(k): v['ty'] for k, v in self.cur.statics.items() if v['local'] and '__CALLSITE' not in k}
        gone = [k for k in a if k not in b]; new = [k for k in b if k not in a]
        m = {}
        for n in new:
            c = [g for g in gone if a[g] == b[n]]
            if len(c) == 1 and c[0] not in m.values(): m[('static', n)] = ('static', c[0])
        return m

    def pair(self, key):
        """[(ref body, cur body or None)]"""
        rb, cb = self.rk.get(key, []), self.ck.get(key, [])
        out = []
        for b in rb:
            if b in cb: out.append((b, b))
            elif len(rb) == len(cb) == 1: out.append((b, cb[0]))
            else: out.append((b, None))
        return out

    def rows(self, side, bid, opaque):
        k = (side, bid, frozenset(opaque) if opaque is not self.opaque else None)
        r = self.cache.get(k)
        if r is None:
            E = engine.Engine(self.ref if side == 0 else self.cur, opaque=opaque, held=self.held)
            E.writes = self.writes; E.parts = self.parts; E.reads = self.reads; E.pure = self.pure
            try:
                with limit(60 if opaque is self.opaque else 20): r = (E.entry(bid), E, None)
            except Timeout: r = (None, E, 'analysis limit reached')
            except Exception as e: r = (None, E, '%s: %s' % (type(e).__name__, e))
            self.cache[k] = r
        return r

    def one(self, rb, cb, opaque):
        """None if equal, else a description"""
        if cb is None: return dict(why='missing', text='the function does not exist in the current tree')
        r1, E1, e1 = self.rows(0, rb, opaque)
        if r1 is None: return dict(why='not analysable (reference)', text=e1)
        r2, E2, e2 = self.rows(1, cb, opaque)
        if r2 is None: return dict(why='not analysable', text=e2)
        self.stats['rows'] += len(r2); self.stats['calls'] += E2.calls; self.stats['pairs'] += len(r1) * len(r2)
        ren = None
        if self.static_ren:
            m = self.static_ren
            ren = lambda t: m.get(t, t)
        C = equiv.Cmp(E1, E2, ren)
        C.dropping = rb.endswith(' as std::ops::Drop>::drop') or rb.endswith(' as core::ops::drop::Drop>::drop')
        try:
            with limit(120): bad = C.table(r1, r2)
        except Timeout: return dict(why='comparison limit reached', text='')
        if not bad: return None
        x, y, j, w = bad[0]
        return dict(why=w, text=describe(x, y, j, w, E1, E2))

    def check(self, key, depth=0):
        """list of violations of one function (empty: same behaviour)"""
        if key in self.results: return self.results[key]
        self.results[key] = []
        out = []
        for rb, cb in self.pair(key):
            d = self.one(rb, cb, self.opaque)
            if d is None: continue
            if self.seen_through(rb, cb): continue
            d.update(fn=key, body=rb, cur=cb)
            if depth < 4 and self.private(rb, key):
                up = self.through_callers(rb, key, depth)
                if up is None: continue
                d['callers'] = up
            out.append(d)
        self.results[key] = out
        return out

    def seen_through(self, rb, cb):
        """whether the two agree once the functions that only one of them calls are looked through"""
        op = self.opaque
        for i in range(3):
            # (what a type may define itself is not known by its default)
            r1, E1, _ = self.rows(0, rb, op); r2, E2, _ = self.rows(1, cb, op)
            if r1 is None or r2 is None: return False
            only = (E1.seen ^ E2.seen) & op - self.defaults
            if not only: only = {k for k in E1.seen & op - self.defaults if self.quiet(k)}
            if not only: return False
            op = op - only
            if self.one(rb, cb, op) is None: return True
        return False

    def quiet(self, key):
        """whether a function only looks at shared state and fills in its arguments, in both trees"""
        if key not in self.hush:
            self.hush[key] = False
            ps = self.pair(key)
            rs = [self.rows(s, b, self.opaque)[0] if b else None for pr in ps for s, b in enumerate(pr)]
            self.hush[key] = bool(ps) and all(r is not None and all(not x[1] for x in r) for r in rs)
        return self.hush[key]

    def private(self, bid, key):
        B = self.ref.bodies[bid]
        if key in self.defaults: return False
        return not B.pub and ' as ' not in bid and bool(self.callers_ref.get(bid)) and key in anchors.opaque() or (not B.pub and bool(self.callers_ref.get(bid)))

    def through_callers(self, bid, key, depth, inl=frozenset()):
        """None when every caller behaves the same with the function looked through, else the callers that do not"""
        inl = inl | {key}
        op = self.opaque - inl
        bad = []
        for c in sorted(self.callers_ref[bid]):
            if c == bid: continue
            ck = self.ref.bodies[c].key
            for rb, cb in self.pair(ck):
                if rb != c: continue
                d = self.one(rb, cb, op)
                if d is None: continue
                if depth + len(inl) < 4 and self.private(rb, ck) and ck not in inl and self.through_callers(rb, ck, depth, inl) is None: continue
                bad.append((ck, d['why']))
                return bad
        return bad or None

class Parts(dict): pass
def parts(p, opaque):
    """unit of analysis -> argument -> parts of it the function may write, from the reference tables (least fixpoint)"""
    todo = {}; defaults = set(p.trait_methods.values())
    for k, bs in index(p).items():
        if k in opaque and len(bs) == 1 and bs[0] not in defaults:
            B = p.bodies[bs[0]]
            m = [i for i in range(B.argc) if engine.is_mut(B.locals[i + 1])]
            if m: todo[k] = bs[0]
    w = Parts({k: {} for k in todo}); w.fields = {}
    for rnd in range(8):
        ch = False
        for k, b in sorted(todo.items()):
            E = engine.Engine(p, opaque=opaque)
            E.parts = w; fields = {}
            try:
                with limit(60): rows = E.entry(b)
            except Exception: rows = None
            new = {}
            if rows is None: new = {i: {()} for i in range(p.bodies[b].argc)}
            for r in rows or ():
                for loc, v in r[2][2]:
                    path, root = [], loc
                    while True:
                        pe = engine.proj_elems(root)
                        if pe is None and root[0] in ('elem', 'hit'): pe = (root[1], '*')
                        if pe is None: break
                        path.append(pe[1]); root = pe[0]
                    if root[0] != 'arg': continue
                    pre = tuple(reversed(path))
                    for q in changed(E, v, loc, 0):
                        t = trunc(pre + q)
                        new.setdefault(root[1], set()).add(t)
                        if t[-1:] == ('*',): fields.setdefault((k, root[1], t), set()).add(next(iter((pre + q)[len(t):]), None))
            for i, ps in new.items():
                # a part within another that is wholly written is not listed
                ps = {q for q in ps if not any(o != q and o[-1:] != ('*',) and q[:len(o)] == o for o in ps)}
                if w[k].get(i) != ps: w[k][i] = ps; ch = True
            for at, fs in fields.items():
                # of the elements of a container: the fields alone that are written
                fs = tuple(sorted(f[1] for f in fs)) if all(f is not None and f[0] == 'f' for f in fs) else None
                if w.fields.get(at, 0) != fs: w.fields[at] = fs; ch = True
        if not ch: break
    return w

def looks(p, b, t):
    """borrowed argument -> the parts of it that a function's table mentions"""
    B = p.bodies[b]
    out = {i: {()} for i in range(B.argc) if B.locals[i + 1][0] != 'ref'}
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, (frozenset, list, dict)): todo.extend(x.items() if isinstance(x, dict) else x); continue
        if not isinstance(x, tuple) or not x or id(x) in seen: continue
        seen.add(id(x))
        path, root = [], x
        while True:
            pe = engine.proj_elems(root) if isinstance(root, tuple) and root else None
            if pe is None: break
            path.append(pe[1]); root = pe[0]
        if isinstance(root, tuple) and len(root) == 2 and root[0] == 'arg': out.setdefault(root[1], set()).add(tuple(reversed(path)))
        else: todo.extend(x)
        for e in path: todo.append(e[1:])
    return out

OUTSIDE = ('call', 'get', 'static', 'ctx', 'now', 'mapval', '@', 'after', 'fut', 'async', 'clo', 'cor', 'fn|', 'fn', 'ctor')
def silent(E, rows):
    """whether a function only computes its result from its arguments: no effects, no writes, no panics, no shared state"""
    todo = [rows, list(E.loops.values())]
    if any(r[1] or r[2][0] != 'ret' or r[2][2] for r in rows): return False
    while todo:
        x = todo.pop()
        if isinstance(x, dict): x = list(x.items())
        if isinstance(x, tuple) and len(x) > 1 and x[0] in OUTSIDE: return False
        if isinstance(x, (tuple, frozenset, list)): todo.extend(x)
    return True

def trunc(path):
    out = []
    for e in path:
        if e == '*' or e[0] == 'i': return tuple(out) + ('*',)
        if e[0] not in ('f',): break
        out.append(e)
    return tuple(out)

def changed(E, v, loc, d):
    """paths under loc at which v differs from the value loc had"""
    if v == loc or v == ('init', loc): return set()
    if d > 12: return {()}
    if v[0] == 'upd':
        out = changed(E, v[1], loc, d + 1)
        for p, x in v[2]: out |= {p}
        return out
    if v[0] == 'post' and v[1] in E.loops:
        L = E.loops[v[1]]
        ini = dict(L[2]).get(v[2])
        if ini is None: return {('*',)}
        out = changed(E, ini, loc, d + 1)
        for g, e, ups in L[3]:
            for nm, x in ups:
                if nm == v[2]: out |= changed(E, x, nm, d + 1)
        return out
    if v[0] == 'after' and len(v) >= 6 and v[5][0] == 'len':
        return ({('*', ('f', n)) for n in v[6]} if len(v) == 7 else {('*',)}) | changed(E, v[5][1], loc, d + 1)
    if v[0] == 'adt' and v[3] and loc[0] != 'as':
        out = set()
        for n, x in v[3]:
            out |= {(('f', n),) + q for q in changed(E, x, engine.project(loc, ('f', n)), d + 1)}
        return out
    return {()}

def writes(p, opaque, parts={}, reads=None, pure=None):
    """unit of analysis -> statics it (or what it calls, short of other tasks) may write, from the reference tables;
    each function's own comparison keeps the current tree to them"""
    w, calls, defaults = {}, {}, set(p.trait_methods.values())
    for k, bs in index(p).items():
        if k not in opaque: continue
        for b in bs:
            E = engine.Engine(p, opaque=opaque)
            E.parts = parts
            try:
                with limit(60): rows = E.entry(b)
                if reads is not None and len(bs) == 1 and not any(engine.is_mut(t) for t in p.bodies[b].locals[1:p.bodies[b].argc + 1]):
                    reads[k] = looks(p, b, (rows, list(E.loops.values())))
                    if b not in defaults and ' as ' not in k and not E.is_async(b) and silent(E, rows): pure.add(k)
            except Exception: pass
            w.setdefault(k, set()).update(E.wrote); calls.setdefault(k, set()).update(E.called)
    ch = True
    while ch:
        ch = False
        for k in w:
            for c in calls[k]:
                n = w.get(c, ())
                if not w[k].issuperset(n): w[k].update(n); ch = True
    return {k: tuple(sorted(v)) for k, v in w.items() if v}

def index(p):
    ix = {}
    for b, B in p.bodies.items():
        if B.derived or '{closure' in b or 'promoted[' in b or B.kind not in ('Fn', 'AssocFn'): continue
        if '__CALLSITE' in b: continue
        ix.setdefault(B.key, []).append(b)
    return ix

def sig(p, bids):
    return sorted((p.bodies[b].argc, tuple(outline(t) for t in p.bodies[b].locals[:p.bodies[b].argc + 1])) for b in bids)
def outline(t):
    """a type as a caller sees it: which types it is made of, however they are borrowed"""
    while t[0] in ('ref', 'ptr') and len(t) > 1:
        t = next((x for x in t[1:] if isinstance(x, tuple)), ('?',))
    if t[0] == 'adt':
        if t[1] in ('alloc::boxed::Box', 'alloc::rcs::arc::Arc', 'alloc::vec::Vec', 'alloc::borrow::Cow') and t[2]: return outline(t[2][0])
        if t[1] == 'alloc::string::String': return 'str'
        return (t[1].split('::')[-1],) + tuple(outline(x) for x in t[2] if isinstance(x, tuple))
    if t[0] == 'tuple': return ('tuple',) + tuple(outline(x) for x in t[1])
    if t[0] in ('slice', 'array') and len(t) > 1 and isinstance(t[1], tuple): return outline(t[1])
    return t[0]

def owner(p, b):
    """function a closure body belongs to"""
    i = b.find('::{closure')
    while i >= 0:
        o = b[:i]
        if o in p.bodies: 
            b = o
        i = b.find('::{closure')
        if o not in p.bodies: break
    j = b.find('::promoted[')
    return b[:j] if j >= 0 else b

def callers(p):
    out = {}
    def visit(o, f):
        if o[0] == 'k' and isinstance(o[1], dict):
            t = o[1].get('res', (o[1]['fn'],))[0]
            for x in (t, o[1]['fn']):
                if x in p.bodies: out.setdefault(x, set()).add(f)
    for b, B in p.bodies.items():
        f = owner(p, b)
        if f not in p.bodies or p.bodies[f].derived: continue
        for stm, T, c in B.blocks:
            for s in stm:
                if s[0] == '=':
                    r = s[2]
                    if r[0] in ('use', 'cast', 'repeat'): visit(r[1], f)
                    elif r[0] == 'agg':
                        for o in r[2]: visit(o, f)
            if T['k'] == 'call':
                visit(T['f'], f)
                for o in T['a']: visit(o, f)
    return out

def describe(x, y, j, w, E1, E2):
    L = {}
    L.update(E1.loops); L.update(E2.loops)
    only = {a: v for a, v in j.items()}
    t = ['differs in: %s' % w, 'under the conditions:']
    t += ['   ' + s for s in sorted(pp.G(a, v) for a, v in only.items())] or ['   always']
    t += ['required (reviewed table):'] + pp.table([x], L).split('\n')
    t += ['found:'] + pp.table([y], L).split('\n')
    return '\n'.join(s[:2000] for s in t)

class Timeout(Exception): pass
class limit:
    def __init__(self, n): self.n = n
    def __enter__(self):
        def h(*a): raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h); self.prev = signal.alarm(self.n)
    def __exit__(self, *a):
        signal.alarm(0); signal.signal(signal.SIGALRM, self.old)
        return False
