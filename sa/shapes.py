"""Derived implementations of the tree's own types, and the values its statics and constants start with."""
import re
from load import strip_modules

SKIP = ('visit_bytes', 'visit_str', 'visit_map', 'expecting', 'fmt', 'visit_borrowed_bytes', 'visit_borrowed_str')
NEEDED = ('Serialize', 'Deserialize', 'PartialEq', 'Hash', 'Default', 'Ord', 'PartialOrd')

def subject(key):
    return re.split(r' as |<|::', key.lstrip('<'))[0]

def derived(p):
    """{type: {key: [body ids]}} of the derived implementations that decide something"""
    out = {}
    for b, B in p.bodies.items():
        if not B.derived or '{closure' in b or 'promoted[' in b or B.kind not in ('Fn', 'AssocFn') or B.key.split('::')[-1] in SKIP: continue
        out.setdefault(subject(B.key), {}).setdefault(B.key, []).append(b)
    return out

def statics(p):
    out = {}
    for b, B in p.bodies.items():
        if not (B.kind.startswith('Static') or B.kind in ('Const', 'AssocConst')) or '__' in b or '{' in b or 'promoted[' in b: continue
        n = B.key.split('::')[-1]
        if n.startswith('_') or n in ('FIELDS', 'VARIANTS') or 'bitflags' in b: continue
        out[B.key] = b
    return out

def names(p):
    return ['derive ' + t for t in derived(p)] + ['static ' + s for s in statics(p)]

def schema(p, name):
    return sorted([(v, [(n, strip_modules(repr(t))) for n, t in d['fields']]) for v, d in a['variants'].items()]
                  for path, a in p.adts.items() if a['local'] and strip_modules(path).split('::')[-1] == name)

def cur_derived(C):
    if not hasattr(C, 'cur_bykey'):
        C.cur_bykey = {}
        for b, B in C.cur.bodies.items():
            if '{closure' in b or 'promoted[' in b or B.kind not in ('Fn', 'AssocFn'): continue
            C.cur_bykey.setdefault(B.key, []).append(b)
        C.ref_derived = derived(C.ref)
    return C.ref_derived

def derive(C, name):
    out = []
    same = schema(C.ref, name) == schema(C.cur, name)
    for key, rbs in sorted(cur_derived(C)[name].items()):
        cbs = C.cur_bykey.get(key, [])
        for i, rb in enumerate(sorted(rbs)):
            cb = rb if rb in cbs else sorted(cbs)[i] if len(cbs) == len(rbs) else None
            if cb is None:
                if same and any(' as %s>' % t in key or ' as %s<' % t in key for t in NEEDED) and not key.startswith('<<'):
                    out.append(dict(key='derive %s: missing' % name, text='%s is no longer implemented' % key))
                continue
            if not same and C.cur.bodies[cb].derived: continue      # the type itself changed: its derived code follows
            d = C.one(rb, cb, C.opaque)
            if d: out.append(dict(key='derive %s: %s' % (name, d['why']), text=key + '\n' + d['text']))
    return out

def static(C, name):
    if not hasattr(C, 'st_ref'): C.st_ref, C.st_cur = statics(C.ref), statics(C.cur)
    cb = C.st_cur.get(name)
    if cb is None:
        back = {v[1]: k[1] for k, v in C.static_ren.items()}
        cb = C.st_cur.get(back.get(strip_modules(C.st_ref[name])))
    if cb is None: return []                                        # gone: the functions that used it tell
    d = C.one(C.st_ref[name], cb, C.opaque)
    return [dict(key='static %s: %s' % (name, d['why']), text=d['text'])] if d else []
