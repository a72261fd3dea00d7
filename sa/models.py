"""Meaning of library calls in terms of the engine's values."""
from load import strip_modules
import re
from engine import *
import engine as en

MODELS = {}
def model(*paths):
    def d(f):
        for p in paths: MODELS[p] = f
        return f
    return d

OPTU = frozenset(('Some', 'None')); RESU = frozenset(('Ok', 'Err'))
def R(st, v): return [(st, 'ret', v)]

def ident(E, st, c): return R(st, c.args[0])
def ident_val(E, st, c):
    return R(st, E.val(st, c.args[0]))
for p in ('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::pin::Pin::new_unchecked', 'core::pin::Pin::new',
          'core::pin::Pin::as_mut', 'core::pin::Pin::get_mut', 'core::pin::Pin::get_unchecked_mut', 'core::pin::Pin::into_inner', 'core::pin::Pin::as_ref',
          'alloc::boxed::Box::new', 'alloc::boxed::Box::pin', 'alloc::rcs::arc::Arc::new', 'core::cell::RefCell::new', 'std::sync::poison::mutex::Mutex::new',
          'core::sync::atomic::Atomic::new', 'once_cell::sync::Lazy::new', 'core::hint::must_use', 'core::future::into_future::IntoFuture::into_future',
          'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'alloc::string::String::into_bytes', 'core::str::as_bytes', '<str>::as_bytes',
          '<str>::to_string', '<str>::to_owned', '<[T]>::to_vec', 'alloc::borrow::Cow::into_owned', 'alloc::vec::Vec::into_boxed_slice',
          'alloc::vec::Vec::as_slice', 'core::cell::RefCell::borrow', 'core::cell::RefCell::borrow_mut', 'core::cell::RefCell::get_mut', 'core::cell::RefCell::into_inner',
          'core::option::Option::as_ref', 'core::option::Option::as_deref', 'core::option::Option::cloned', 'core::option::Option::copied',
          'core::result::Result::as_ref', 'core::mem::manually_drop::ManuallyDrop::new', 'core::panic::unwind_safe::AssertUnwindSafe',
          'core::num::nonzero::NonZero::get', 'bytes::bytes::Bytes::from_static', 'generic_array::GenericArray::as_slice',
          'alloc::boxed::Box::into_pin', 'alloc::string::String::into_boxed_str', 'arc_swap::ArcSwapAny::new', 'arc_swap::ArcSwapAny::from_pointee',
          'core::iter::traits::iterator::Iterator::by_ref', 'core::slice::as_slice', 'core::any::Any::type_id_ref', 
          '<[T]>::into_vec', 'alloc::slice::into_vec', 'core::task::wake::Context::waker', 'smallvec::SmallVec::as_slice', 'digest::mac::CtOutput::into_bytes',
          'core::mem::maybe_uninit::MaybeUninit::assume_init', 'alloc::borrow::Cow::as_ref', 'core::result::Result::copied', 'core::result::Result::cloned'):
    MODELS[p] = ident

@model('alloc::boxed::Box::new_uninit')
def box_uninit(E, st, c):
    key = acc_key(E)
    md = ('adt', 'core::mem::manually_drop::ManuallyDrop', 'ManuallyDrop', (('.value', ('undef',)),))
    st.cells[key] = ('adt', 'core::mem::maybe_uninit::MaybeUninit', 'MaybeUninit', (('.value', md),))
    return R(st, ('ref', key, ()))
@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(E, st, c):
    b = c.args[0]
    if b[0] != 'ref': return R(st, E.val(st, b))
    return R(st, E.val(st, E.read(st, ('cell', b[1], b[2] + (('f', '.value'), ('f', '.value'))))))

@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned')
def clone(E, st, c):
    if c.rpath in E.p.bodies and not E.p.bodies[c.rpath].derived: return None
    return R(st, E.val(st, c.args[0]))

@model('core::clone::Clone::clone_from')
def clone_from(E, st, c):
    E.write(st, tgt(c.args[0]), E.val(st, c.args[1]))
    return R(st, UNIT)

def tgt(v):
    """location a mutable reference value denotes"""
    if v[0] == 'ref': return ('cell', v[1], v[2])
    return ('loc', v)

@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def deref(E, st, c):
    if c.rpath in E.p.bodies: return None
    v = c.args[0]
    if v[0] == 'ref':
        inner = E.read(st, ('cell', v[1], v[2]))
        if inner[0] == 'ref': return R(st, inner)
        if inner[0] == 'lockof': return R(st, inner[1])
        if inner[0] in ('f', 'as', 'idx', 'key', 'get', 'mapval', 'static', 'elem', 'arg', 'mref'):
            # guard or box held in a local: what it points to is the location it denotes
            ty = c.targs[0] if c.targs else None
            if ty and ty[0] == 'adt' and ty[1] not in ('alloc::vec::Vec', 'alloc::string::String', 'alloc::boxed::Box', 'core::pin::Pin', 'bytes::bytes_mut::BytesMut'):
                return R(st, inner)
        return R(st, v)
    if v[0] == 'lockof': return R(st, v[1])
    if v[0] == 'multi': return R(st, v[2])
    return R(st, v)

@model('dashmap::mapref::one::Ref::value', 'dashmap::mapref::one::RefMut::value', 'dashmap::mapref::one::RefMut::value_mut')
def ref_value(E, st, c):
    v = c.args[0]
    if v[0] == 'ref':
        inner = E.read(st, ('cell', v[1], v[2]))
        if inner[0] in ('ref', 'f', 'as', 'idx', 'key', 'get', 'mapval', 'static', 'elem', 'arg', 'mref'): return R(st, inner)
    return R(st, v)

@model('std::sync::poison::mutex::Mutex::lock', 'std::sync::mutex::Mutex::lock')
def lock(E, st, c):
    S = E.deref(st, c.args[0])
    if static_root(S) and S not in st.heap and ver(E, st, S): st.heap[S] = ('@', S, ver(E, st, S))
    return R(st, OK(('lockof', c.args[0])))

@model('std::sync::poison::mutex::Mutex::try_lock')
def trylock(E, st, c): return None

# ---- comparison
@model('core::cmp::PartialEq::eq')
def eq(E, st, c):
    if c.rpath in E.p.bodies and not E.p.bodies[c.rpath].derived: return None
    own = own_eq(E, st, c)
    if own is not None: return own
    return R(st, mk_eq(E.val(st, c.args[0]), E.val(st, c.args[1])))
def own_eq(E, st, c):
    """an equality the types define themselves, compared through references or by `ne`"""
    ts, args = list(c.targs or ())[:2], list(c.args)
    while len(ts) == 2 and all(t and t[0] == 'ref' for t in ts):
        ts = [t[1] for t in ts]
        args = [E.read(st, tgt(a)) if a[0] == 'ref' else a for a in args]
    im = E.find_impl('core::cmp::PartialEq', tuple(ts))
    it = im and im[0]['items'].get('eq')
    return E.inline(st, it, (), args) if it in E.p.bodies and not E.p.bodies[it].derived else None
@model('core::cmp::PartialEq::ne')
def ne(E, st, c):
    # default method: negation of the type's eq
    own = own_eq(E, st, c)
    if own is not None: return [(s, k, mk_not(v) if k == 'ret' else v) for s, k, v in own]
    return R(st, mk_not(mk_eq(E.val(st, c.args[0]), E.val(st, c.args[1]))))
def _cmp(op):
    def f(E, st, c):
        if c.rpath in E.p.bodies and not E.p.bodies[c.rpath].derived: return None
        return R(st, cmp_term(op, E.val(st, c.args[0]), E.val(st, c.args[1])))
    return f
for o, n in (('Lt', 'lt'), ('Le', 'le'), ('Gt', 'gt'), ('Ge', 'ge')):
    MODELS['core::cmp::PartialOrd::' + n] = _cmp(o)
@model('core::cmp::Ord::cmp')
def ordcmp(E, st, c):
    if c.rpath in E.p.bodies and not E.p.bodies[c.rpath].derived: return None
    return R(st, ('cmp', E.val(st, c.args[0]), E.val(st, c.args[1])))
@model('core::cmp::Ord::min', 'core::cmp::Ord::max')
def ordmin(E, st, c):
    if c.rpath in E.p.bodies: return None
    a, b = E.val(st, c.args[0]), E.val(st, c.args[1])
    ty = c.targs[0] if c.targs else None
    if not ty or ty[0] not in ('int', 'uint') and not (ty[0] == 'adt' and ty[1] in ('core::time::Duration', 'std::time::Instant')): return R(st, (c.path[-3:], a, b))
    return [(s, 'ret', (a if x else b) if c.path.endswith('min') else (b if x else a)) for s, x in E.fork_bool(st, cmp_term('Lt', a, b))]
@model('core::cmp::Ord::clamp')
def ordclamp(E, st, c):
    if c.rpath in E.p.bodies: return None
    x, lo, hi = (E.val(st, a) for a in c.args)
    ty = c.targs[0] if c.targs else None
    if not ty or ty[0] not in ('int', 'uint') and not (ty[0] == 'adt' and ty[1] == 'core::time::Duration'): return None
    if lo[0] != hi[0] or lo[0] not in ('int', 'dur') or lo[1] > hi[1]: return None
    out = []
    for s, low in E.fork_bool(st, cmp_term('Lt', x, lo)):
        if low: out.append((s, 'ret', lo)); continue
        out += [(s2, 'ret', x if y else hi) for s2, y in E.fork_bool(s, cmp_term('Lt', x, hi))]
    return out
def _wssetter(name):
    # setters of a library builder that keep their argument in a field of their own: the last one of a kind counts, their order does not
    def f(E, st, c):
        base, sets = E.val(st, c.args[0]), {}
        while base[0] == 'call' and len(base) == 4 and base[1].startswith('WebSocketConfig::'):
            sets.setdefault(base[1], base[3]); base = base[2]
        sets['WebSocketConfig::' + name] = E.val(st, c.args[1])
        for k in sorted(sets, reverse=True): base = ('call', k, base, sets[k])
        return R(st, base)
    return f
for n in ('max_message_size', 'max_frame_size', 'read_buffer_size', 'write_buffer_size', 'max_write_buffer_size', 'accept_unmasked_frames'):
    MODELS['tungstenite::protocol::WebSocketConfig::' + n] = _wssetter(n)
@model('core::cmp::PartialOrd::partial_cmp')
def pcmp(E, st, c):
    if c.rpath in E.p.bodies and not E.p.bodies[c.rpath].derived: return None
    return R(st, SOME(('cmp', E.val(st, c.args[0]), E.val(st, c.args[1]))))

for tr in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
    def _f(E, st, c, tr=tr):
        if c.rpath in E.p.bodies: return None
        if tr == 'Sub' and c.targs and len(c.targs) > 1 and all(t and t[0] == 'adt' and t[1] == 'std::time::Instant' for t in c.targs[:2]): return instant_diff(E, st, E.val(st, c.args[0]), E.val(st, c.args[1]))
        return R(st, E.bin1(tr, E.val(st, c.args[0]), E.val(st, c.args[1])))
    MODELS['core::ops::arith::%s::%s' % (tr, tr.lower())] = _f
    MODELS['core::ops::bit::%s::%s' % (tr, tr.lower())] = _f
    def _g(E, st, c, tr=tr):
        if c.rpath in E.p.bodies: return None
        t = tgt(c.args[0])
        E.write(st, t, E.bin1(tr, E.val(st, E.read(st, t)), E.val(st, c.args[1])))
        return R(st, UNIT)
    MODELS['core::ops::arith::%sAssign::%s_assign' % (tr, tr.lower())] = _g
@model('core::ops::bit::Not::not')
def bnot(E, st, c):
    if c.rpath in E.p.bodies: return None
    return R(st, mk_not(E.val(st, c.args[0])))

# ---- conversions
@model('core::convert::Into::into')
def into(E, st, c):
    T, U = c.targs[0], c.targs[1]
    return conv(E, st, c, U, T)
def conv(E, st, c, U, T):
    im = E.find_impl('core::convert::From', (U, T))
    if im:
        rec, b = im
        it = rec['items'].get('from')
        if it in E.p.bodies:
            if strip_modules(it) in E.opaque: return E.opaque_call(st, strip_modules(it), c)
            B = E.p.bodies[it]
            return E.run_body(st, it, list(c.args), {k: v for k, v in b.items()})
    im = E.find_impl('core::convert::Into', (T, U))
    if im and im[0]['items'].get('into') in E.p.bodies:
        return E.run_body(st, im[0]['items']['into'], list(c.args), im[1])
    return R(st, E.val(st, c.args[0]) if c.args[0][0] != 'ref' else c.args[0])
@model('core::convert::From::from')
def from_(E, st, c):
    if c.rpath in E.p.bodies: return None
    if len(c.targs) >= 2: return conv(E, st, c, c.targs[0], c.targs[1])
    return ident(E, st, c)
@model('alloc::string::ToString::to_string')
def to_string(E, st, c):
    v = E.val(st, c.args[0])
    ty = c.targs[0] if c.targs else None
    while ty and ty[0] == 'ref': ty = ty[1]
    if v[0] == 'str' or (ty and (ty[0] == 'str' or (ty[0] == 'adt' and (ty[1].endswith('String') or ty[1].endswith('borrow::Cow') or ty[1].endswith('boxed::Box'))))): return R(st, v)
    return R(st, ('fmt', ('display', v)))

# ---- formatting
@model('core::fmt::rt::Argument::new_debug')
def fa(E, st, c): return R(st, ('debug', E.val(st, c.args[0])))
@model('core::fmt::rt::Argument::new_display')
def fb(E, st, c): return R(st, ('display', E.val(st, c.args[0])))
@model('core::fmt::Arguments::new')
def fc(E, st, c):
    return R(st, ('fmt',) + tuple(E.val(st, a) for a in c.args))
@model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'alloc::fmt::format')
def fd(E, st, c): return R(st, E.val(st, c.args[0]))

# ---- panics
def panics(E, st, c): return [(st, 'panic', ('panic',))]
for p in ('core::panicking::panic_fmt', 'core::panicking::unreachable_default_msg', 'core::panicking::panic', 'core::panicking::unreachable_display', 'std::panicking::begin_panic',
          'core::panicking::assert_failed', 'core::panicking::panic_display', 'core::panicking::panic_explicit', 'core::option::unwrap_failed', 'core::panicking::panic_nounwind',
          'std::panic::panic_any', 'std::panic::resume_unwind', 'core::panicking::panic_str_2015', 'std::rt::begin_panic'):
    MODELS[p] = panics

# ---- Option / Result
def enum_of(c, i=0):
    """which enum the receiver is: from the callee path"""
    return OPT if '::option::Option' in c.path else CF if '::ControlFlow' in c.path else RES

def forkv(E, st, v, path):
    """[(st, variant, payload)] for Option / Result values (or references to them)"""
    names = OPTU if path == OPT else UNIVERSES[2] if path == CF else RESU
    out = []
    base = v
    t = E.deref(st, v)
    for s, va in E.variants(st, t, None, only=names):
        if va != 'None':
            if v[0] == 'ref': pl = ('ref', v[1], v[2] + (('v', va), ('f', '0')))
            else: pl = E.payload(s, t, va)
        else: pl = None
        out.append((s, va, pl))
    return out

def infallible(v):
    """results we never branch on: channel sends and lock acquisition (poisoning / closed channels)"""
    return v[0] == 'ret' and v[1] in ('send', 'oneshot.send')

def unwrap(E, st, c):
    p = enum_of(c)
    v = E.deref(st, c.args[0]) if c.args[0][0] != 'ref' else c.args[0]
    if infallible(v): return R(st, UNIT)
    out = []
    for s, va, pl in forkv(E, st, v, p):
        if va in ('Some', 'Ok'): out.append((s, 'ret', pl))
        else: out.append((s, 'panic', ('panic',)))
    return out
for p in ('core::option::Option::unwrap', 'core::option::Option::expect', 'core::result::Result::unwrap', 'core::result::Result::expect'):
    MODELS[p] = unwrap
@model('core::result::Result::unwrap_err', 'core::result::Result::expect_err')
def unwrap_err(E, st, c):
    return [(s, 'ret' if va == 'Err' else 'panic', pl if va == 'Err' else ('panic',)) for s, va, pl in forkv(E, st, c.args[0], RES)]

UNIVERSES = (OPTU, RESU, frozenset(('Continue', 'Break')), frozenset(('Ready', 'Pending')))
def isv(variant):
    def f(E, st, c):
        v = E.deref(st, c.args[0])
        if v[0] == 'adt': return R(st, ('bool', v[2] == variant))
        if infallible(v): return R(st, ('bool', variant == 'Ok'))
        return R(st, ('isvar', v, variant, next(u for u in UNIVERSES if variant in u)))
    return f
WSM = frozenset(('Text', 'Binary', 'Ping', 'Pong', 'Close', 'Frame'))
for w in WSM:
    if w != 'Frame': MODELS['tungstenite::protocol::message::Message::is_' + w.lower()] = isv(w)
UNIVERSES += (WSM,)
MODELS['core::option::Option::is_some'] = isv('Some'); MODELS['core::option::Option::is_none'] = isv('None')
MODELS[CF+'::is_break'] = isv('Break'); MODELS[CF+'::is_continue'] = isv('Continue')
MODELS[POLL+'::is_ready'] = isv('Ready'); MODELS[POLL+'::is_pending'] = isv('Pending')
MODELS['core::result::Result::is_ok'] = isv('Ok'); MODELS['core::result::Result::is_err'] = isv('Err')

def callf(E, st, f, args): return E.call_closure_ref(st, f, args)

def opt_comb(handlers):
    """handlers: variant -> fn(E, s, payload, c) -> results"""
    def m(E, st, c):
        out = []
        for s, va, pl in forkv(E, st, c.args[0], enum_of(c)):
            out += handlers[va](E, s, pl, c)
        return out
    return m
def wrapres(res, w): return [(s, k, w(v) if k == 'ret' else v) for s, k, v in res]
keepNone = lambda E, s, p, c: R(s, NONE)
keepErr = lambda E, s, p, c: R(s, ERR(p))
keepOk = lambda E, s, p, c: R(s, OK(p))
keepSome = lambda E, s, p, c: R(s, SOME(p))
O = 'core::option::Option::'; RS = 'core::result::Result::'
MODELS[O+'map'] = opt_comb({'None': keepNone, 'Some': lambda E, s, p, c: wrapres(callf(E, s, c.args[1], [p]), SOME)})
MODELS[O+'and_then'] = opt_comb({'None': keepNone, 'Some': lambda E, s, p, c: callf(E, s, c.args[1], [p])})
MODELS[O+'unwrap_or'] = opt_comb({'None': lambda E, s, p, c: R(s, c.args[1]), 'Some': lambda E, s, p, c: R(s, p)})
MODELS[O+'unwrap_or_else'] = opt_comb({'None': lambda E, s, p, c: callf(E, s, c.args[1], []), 'Some': lambda E, s, p, c: R(s, p)})
MODELS[O+'unwrap_or_default'] = opt_comb({'None': lambda E, s, p, c: default_of(E, s, c.dt, c), 'Some': lambda E, s, p, c: R(s, p)})
MODELS[O+'map_or'] = opt_comb({'None': lambda E, s, p, c: R(s, c.args[1]), 'Some': lambda E, s, p, c: callf(E, s, c.args[2], [p])})
MODELS[O+'map_or_else'] = opt_comb({'None': lambda E, s, p, c: callf(E, s, c.args[1], []), 'Some': lambda E, s, p, c: callf(E, s, c.args[2], [p])})
MODELS[O+'is_some_and'] = opt_comb({'None': lambda E, s, p, c: R(s, FALSE), 'Some': lambda E, s, p, c: callf(E, s, c.args[1], [p])})
MODELS[O+'is_none_or'] = opt_comb({'None': lambda E, s, p, c: R(s, TRUE), 'Some': lambda E, s, p, c: callf(E, s, c.args[1], [p])})
MODELS[O+'ok_or'] = opt_comb({'None': lambda E, s, p, c: R(s, ERR(c.args[1])), 'Some': lambda E, s, p, c: R(s, OK(p))})
MODELS[O+'ok_or_else'] = opt_comb({'None': lambda E, s, p, c: wrapres(callf(E, s, c.args[1], []), ERR), 'Some': lambda E, s, p, c: R(s, OK(p))})
MODELS[O+'or'] = opt_comb({'None': lambda E, s, p, c: R(s, c.args[1]), 'Some': keepSome})
MODELS[O+'or_else'] = opt_comb({'None': lambda E, s, p, c: callf(E, s, c.args[1], []), 'Some': keepSome})
MODELS[O+'and'] = opt_comb({'None': keepNone, 'Some': lambda E, s, p, c: R(s, c.args[1])})
def _filter(E, s, p, c):
    out = []
    for s2, k, v in callf(E, s, c.args[1], [p]):
        if k != 'ret': out.append((s2, k, v)); continue
        for s3, b in E.fork_bool(s2, v): out.append((s3, 'ret', SOME(p) if b else NONE))
    return out
MODELS[O+'filter'] = opt_comb({'None': keepNone, 'Some': _filter})
MODELS[O+'inspect'] = opt_comb({'None': keepNone, 'Some': lambda E, s, p, c: [(s2, k, SOME(p) if k == 'ret' else v) for s2, k, v in callf(E, s, c.args[1], [p])]})
MODELS[O+'flatten'] = opt_comb({'None': keepNone, 'Some': lambda E, s, p, c: R(s, p)})
MODELS[RS+'map'] = opt_comb({'Err': keepErr, 'Ok': lambda E, s, p, c: wrapres(callf(E, s, c.args[1], [p]), OK)})
MODELS[CF+'::break_value'] = opt_comb({'Continue': lambda E, s, p, c: R(s, NONE), 'Break': lambda E, s, p, c: R(s, SOME(p))})
MODELS[CF+'::continue_value'] = opt_comb({'Break': lambda E, s, p, c: R(s, NONE), 'Continue': lambda E, s, p, c: R(s, SOME(p))})
MODELS[RS+'map_or_else'] = opt_comb({'Err': lambda E, s, p, c: callf(E, s, c.args[1], [p]), 'Ok': lambda E, s, p, c: callf(E, s, c.args[2], [p])})
MODELS[RS+'and'] = opt_comb({'Err': keepErr, 'Ok': lambda E, s, p, c: R(s, c.args[1])})
MODELS[RS+'or'] = opt_comb({'Err': lambda E, s, p, c: R(s, c.args[1]), 'Ok': keepOk})
MODELS[RS+'inspect'] = opt_comb({'Err': keepErr, 'Ok': lambda E, s, p, c: [(s2, k, OK(p) if k == 'ret' else v) for s2, k, v in callf(E, s, c.args[1], [p])]})
MODELS[RS+'inspect_err'] = opt_comb({'Ok': keepOk, 'Err': lambda E, s, p, c: [(s2, k, ERR(p) if k == 'ret' else v) for s2, k, v in callf(E, s, c.args[1], [p])]})
MODELS[RS+'map_err'] = opt_comb({'Ok': keepOk, 'Err': lambda E, s, p, c: wrapres(callf(E, s, c.args[1], [p]), ERR)})
MODELS[RS+'and_then'] = opt_comb({'Err': keepErr, 'Ok': lambda E, s, p, c: callf(E, s, c.args[1], [p])})
MODELS[RS+'or_else'] = opt_comb({'Ok': keepOk, 'Err': lambda E, s, p, c: callf(E, s, c.args[1], [p])})
MODELS[RS+'unwrap_or'] = opt_comb({'Err': lambda E, s, p, c: R(s, c.args[1]), 'Ok': lambda E, s, p, c: R(s, p)})
MODELS[RS+'unwrap_or_else'] = opt_comb({'Err': lambda E, s, p, c: callf(E, s, c.args[1], [p]), 'Ok': lambda E, s, p, c: R(s, p)})
MODELS[RS+'unwrap_or_default'] = opt_comb({'Err': lambda E, s, p, c: default_of(E, s, c.dt, c), 'Ok': lambda E, s, p, c: R(s, p)})
MODELS[RS+'ok'] = opt_comb({'Err': lambda E, s, p, c: R(s, NONE), 'Ok': lambda E, s, p, c: R(s, SOME(p))})
MODELS[RS+'err'] = opt_comb({'Ok': lambda E, s, p, c: R(s, NONE), 'Err': lambda E, s, p, c: R(s, SOME(p))})
MODELS[RS+'is_ok_and'] = opt_comb({'Err': lambda E, s, p, c: R(s, FALSE), 'Ok': lambda E, s, p, c: callf(E, s, c.args[1], [p])})
MODELS[RS+'is_err_and'] = opt_comb({'Ok': lambda E, s, p, c: R(s, FALSE), 'Err': lambda E, s, p, c: callf(E, s, c.args[1], [p])})
MODELS[RS+'map_or'] = opt_comb({'Err': lambda E, s, p, c: R(s, c.args[1]), 'Ok': lambda E, s, p, c: callf(E, s, c.args[2], [p])})

@model(O+'as_mut', RS+'as_mut', O+'as_deref_mut')
def as_mut(E, st, c):
    v = c.args[0]
    out = []
    for s, va, pl in forkv(E, st, v, enum_of(c)):
        if pl is not None and v[0] != 'ref':
            pl = term_loc(v, va)
        out.append((s, 'ret', {'Some': SOME, 'Ok': OK, 'Err': ERR}[va](pl) if va != 'None' else NONE))
    return out
def term_loc(v, va): return ('f', ('as', v, va), '0')

def snap(v):
    """the value itself, not the place it was read from"""
    if not isinstance(v, tuple) or not v or v[0] in ('init', 'ref') or v[0] in SNAP: return v
    if v[0] in ('arg', 'static', 'get', 'mapval') or len(v) == 3 and v[0] in ('f', 'as', 'idx', 'key'): return ('init', v)
    n = tuple(snap(x) for x in v)
    return n if n != v else v

@model(O+'take')
def opt_take(E, st, c):
    t = tgt(c.args[0])
    v = snap(E.read(st, t))
    E.write(st, t, NONE)
    return R(st, v)
@model(O+'replace')
def opt_replace(E, st, c):
    t = tgt(c.args[0]); v = snap(E.read(st, t))
    E.write(st, t, SOME(c.args[1]))
    return R(st, v)
@model(O+'insert')
def opt_insert(E, st, c):
    t = tgt(c.args[0])
    E.write(st, t, SOME(c.args[1]))
    return R(st, E.payload(st, c.args[0], 'Some') if c.args[0][0] == 'ref' else term_loc(c.args[0], 'Some'))
@model(O+'get_or_insert_with', O+'get_or_insert')
def opt_goi(E, st, c):
    v = c.args[0]
    out = []
    for s, va, pl in forkv(E, st, v, OPT):
        place = ('ref', v[1], v[2] + (('v', 'Some'), ('f', '0'))) if v[0] == 'ref' else term_loc(v, 'Some')
        if va == 'Some': out.append((s, 'ret', place)); continue
        res = callf(E, s, c.args[1], []) if c.path.endswith('with') else [(s, 'ret', c.args[1])]
        for s2, k, x in res:
            if k == 'ret': E.write(s2, tgt(v), SOME(x)); out.append((s2, 'ret', place))
            else: out.append((s2, k, x))
    return out
MODELS[O+'xor'] = opt_comb({'None': lambda E, s, p, c: R(s, c.args[1]), 'Some': lambda E, s, p, c: [(s2, 'ret', NONE if va == 'Some' else SOME(p)) for s2, va, _ in forkv(E, s, c.args[1], OPT)]})
MODELS[O+'zip'] = opt_comb({'None': keepNone, 'Some': lambda E, s, p, c: [(s2, 'ret', SOME(TUP(p, q)) if va == 'Some' else NONE) for s2, va, q in forkv(E, s, c.args[1], OPT)]})
MODELS[O+'transpose'] = opt_comb({'None': lambda E, s, p, c: R(s, OK(NONE)), 'Some': lambda E, s, p, c: [(s2, 'ret', OK(SOME(q)) if va == 'Ok' else ERR(q)) for s2, va, q in forkv(E, s, p, RES)]})
MODELS[RS+'transpose'] = opt_comb({'Err': lambda E, s, p, c: R(s, SOME(ERR(p))), 'Ok': lambda E, s, p, c: [(s2, 'ret', SOME(OK(q)) if va == 'Some' else NONE) for s2, va, q in forkv(E, s, p, OPT)]})
@model(O+'take_if')
def opt_take_if(E, st, c):
    out = []
    for s, va, pl in forkv(E, st, c.args[0], OPT):
        if va == 'None': out.append((s, 'ret', NONE)); continue
        for s2, k, b in callf(E, s, c.args[1], [pl]):
            if k != 'ret': out.append((s2, k, b)); continue
            for s3, y in E.fork_bool(s2, b):
                if y:
                    t = tgt(c.args[0]); v = snap(E.read(s3, t)); E.write(s3, t, NONE)
                    out.append((s3, 'ret', v))
                else: out.append((s3, 'ret', NONE))
    return out
@model('core::mem::replace')
def mem_replace(E, st, c):
    t = tgt(c.args[0]); v = snap(E.read(st, t))
    E.write(st, t, c.args[1])
    return R(st, v)
@model('core::mem::take')
def mem_take(E, st, c):
    t = tgt(c.args[0]); v = snap(E.read(st, t))
    if t[0] == 'loc' and v == ('init', t[1]) and shared(t[1]): v = vloc(E, st, t[1])
    out = []
    for s, k, d in default_of(E, st, c.dt, c):
        E.write(s, t, d)
        if t[0] == 'loc' and shared(t[1]): pass
        out.append((s, 'ret', v))
    return out
@model('core::mem::swap')
def mem_swap(E, st, c):
    a, b = tgt(c.args[0]), tgt(c.args[1])
    x, y = snap(E.read(st, a)), snap(E.read(st, b))
    E.write(st, a, y); E.write(st, b, x)
    return R(st, UNIT)
@model('core::mem::drop', 'core::mem::forget')
def mem_drop(E, st, c):
    E.released(st)
    if c.path.endswith('drop'): E.drop_value(st, c.args[0], c.targs[0] if c.targs else None)
    else: E.event(st, ('forget', E.val(st, c.args[0])))
    return R(st, UNIT)
@model('<bool>::then_some')
def then_some(E, st, c):
    return [(s, 'ret', SOME(c.args[1]) if b else NONE) for s, b in E.fork_bool(st, c.args[0])]
@model('<bool>::then')
def then(E, st, c):
    out = []
    for s, b in E.fork_bool(st, c.args[0]):
        if b: out += wrapres(callf(E, s, c.args[1], []), SOME)
        else: out.append((s, 'ret', NONE))
    return out

# `?`
@model('core::ops::try_trait::Try::branch')
def branch(E, st, c):
    v = c.args[0]
    ty = c.targs[0] if c.targs else None
    if ty and ty[0] == 'adt' and ty[1] == POLL:
        # Poll<Result<..>>: always ready here
        if v[0] == 'adt' and v[2] == 'Ready':
            out = []
            for s, va, pl in forkv(E, st, v[3][0][1], RES):
                out.append((s, 'ret', ('adt', CF, 'Continue', (('0', READY(pl)),)) if va == 'Ok' else ('adt', CF, 'Break', (('0', ERR(pl)),))))
            return out
        return None
    p = ty[1] if ty and ty[0] == 'adt' else RES
    out = []
    for s, va, pl in forkv(E, st, v, OPT if p == OPT else RES):
        if va in ('Some', 'Ok'): out.append((s, 'ret', ('adt', CF, 'Continue', (('0', pl),))))
        elif va == 'None': out.append((s, 'ret', ('adt', CF, 'Break', (('0', NONE),))))
        else: out.append((s, 'ret', ('adt', CF, 'Break', (('0', ERR(pl)),))))
    return out
@model('core::ops::try_trait::FromResidual::from_residual')
def from_residual(E, st, c):
    v = c.args[0]
    to, fr = c.targs[0], c.targs[1] if len(c.targs) > 1 else None
    if v[0] == 'adt' and v[2] == 'Err':
        e = v[3][0][1]
        if to and to[0] == 'adt' and to[1] == POLL:
            return R(st, READY(ERR(e)))
        if to and fr and to[0] == 'adt' and fr[0] == 'adt' and len(to[2]) > 1 and len(fr[2]) > 1:
            U, T = to[2][1], fr[2][1]
            c2 = Call(c.path, c.targs, c.rpath, c.rargs, [e], None, c.F, c.const)
            if U != T: return wrapres(conv(E, st, c2, U, T), ERR)
        return R(st, ERR(e))
    return R(st, v)
@model('core::ops::try_trait::Try::from_output')
def from_output(E, st, c):
    ty = c.targs[0]
    return R(st, SOME(c.args[0]) if ty[1] == OPT else OK(c.args[0]))
@model('core::task::poll::Poll::map')
def poll_map(E, st, c):
    v = c.args[0]
    if v[0] == 'adt' and v[2] == 'Ready': return wrapres(callf(E, st, c.args[1], [v[3][0][1]]), READY)
    return None
@model('core::task::poll::Poll::map_err')
def poll_map_err(E, st, c):
    v = c.args[0]
    out = []
    if v[0] == 'adt' and v[2] == 'Ready':
        for s, va, pl in forkv(E, st, v[3][0][1], RES):
            if va == 'Ok': out.append((s, 'ret', READY(OK(pl))))
            else: out += wrapres(callf(E, s, c.args[1], [pl]), lambda x: READY(ERR(x)))
        return out
    return None

# ---- Default
def default_of(E, st, ty, c=None):
    if ty is None: return R(st, ('default',))
    k = ty[0]
    if k == 'bool': return R(st, FALSE)
    if k == 'int': return R(st, INT(0))
    if k == 'tuple': 
        vs = []
        for t in ty[1]:
            r = default_of(E, st, t)
            vs.append(r[0][2])
        return R(st, ('tup', tuple(vs)))
    if k == 'adt':
        n = ty[1]
        if n == OPT: return R(st, NONE)
        if n in ('alloc::vec::Vec', 'alloc::collections::btree::set::BTreeSet', 'alloc::collections::btree::map::BTreeMap', 'std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet', 'alloc::collections::vec_deque::VecDeque'):
            return R(st, ('arr', ()))
        if n == 'alloc::string::String': return R(st, STR(''))
        if n == 'dashmap::DashMap': return R(st, ('newmap', E.count(st, ('newmap',))))
        im = E.find_impl('core::default::Default', (ty,))
        if im and im[0]['items'].get('default') in E.p.bodies:
            return E.run_body(st, im[0]['items']['default'], [], im[1])
    return R(st, ('default', tyname(ty)))
@model('core::default::Default::default')
def default_(E, st, c):
    if c.rpath in E.p.bodies: return None
    return default_of(E, st, c.targs[0] if c.targs else c.dt, c)

def derived(E, st, c, B):
    i = B.id
    if 'core::clone::Clone' in i: return R(st, E.val(st, c.args[0]))
    if 'core::cmp::PartialEq' in i:
        return R(st, mk_eq(E.val(st, c.args[0]), E.val(st, c.args[1])))
    if 'core::cmp::PartialOrd' in i or 'core::cmp::Ord' in i:
        n = i.rpartition('::')[2]
        m = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}.get(n)
        if m: return R(st, cmp_term(m, E.val(st, c.args[0]), E.val(st, c.args[1])))
        return R(st, ('cmp', E.val(st, c.args[0]), E.val(st, c.args[1])))
    if 'core::default::Default' in i: return None
    if 'core::fmt::Debug' in i: return R(st, ('debugfmt',))
    if 'core::hash::Hash' in i: return R(st, UNIT)
    return None

# ---- functions as values
@model('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
def fncall(E, st, c):
    a = c.args[1]
    args = list(a[1]) if a[0] == 'tup' else [a]
    f = c.args[0]
    if f[0] == 'ref':
        fv = E.read(st, ('cell', f[1], f[2]))
        if fv[0] == 'ref': f = fv
    return callf(E, st, f, args)

# ---- collections
def vloc(E, st, t):
    """reading a shared container: the version it has on this path"""
    if not isinstance(t, tuple) or not t: return t
    if not (t[0] in ('f', 'as', 'idx', 'key', 'static', 'get', 'mapval', 'elem', 'ventry') and shared(t)): return t
    n = ver(E, st, t)
    return t if not n else ('@', t, n)
def bump(E, st, t):
    n = st.ver.get(t, 0)
    st.ver[t] = n + 1 if isinstance(n, int) else n + "'"
def static_root(t):
    while t[0] in ('f', 'as', 'idx', 'key'): t = t[1]
    return t if t[0] == 'static' else None
def ver(E, st, S):
    """which of its states on this path shared place S is in: own writes, opaque calls that may write it, and suspensions (other tasks run)"""
    a = st.ver.get(S, 0)
    r = static_root(S)
    if r is None: return a
    b = st.ver.get(r, 0) if r != S else 0
    c = st.ver.get('*', 0)
    return a if not b and not c else ('v', a, b, c)
def disturb(E, st, r):
    """static r ('*': every static) may have been changed by something else"""
    bump(E, st, r)
    for l in list(st.heap):
        q = static_root(l)
        if q is None or r != '*' and q != r or l in E.fixed: continue
        st.heap[l] = ('@', l, ver(E, st, l))

def content(E, st, v):
    """the container value behind a receiver (value, reference or location)"""
    if v[0] == 'ref':
        x = E.read(st, ('cell', v[1], v[2]))
        return content(E, st, x)
    if v[0] == 'lockof': return content(E, st, v[1])
    if v[0] in ('f', 'as', 'idx', 'key', 'arg'):
        x = E.read_loc(st, v)
        if x != v: return x
    return vloc(E, st, v)

def recv_loc(E, st, v):
    """('cell',..)|('loc',t): where the container lives"""
    if v[0] == 'ref':
        x = E.read(st, ('cell', v[1], v[2]))
        if x[0] == 'ref': return recv_loc(E, st, x)
        if x[0] == 'lockof': return recv_loc(E, st, x[1])
        if x[0] in ('f', 'as', 'idx', 'key', 'get', 'mapval', 'static', 'elem') and shared(x): return ('loc', x)
        return ('cell', v[1], v[2])
    if v[0] == 'lockof': return recv_loc(E, st, v[1])
    return ('loc', v)

def mutate(E, st, recv, op, args, functional):
    """container mutation: event on shared state, functional update otherwise"""
    loc = recv_loc(E, st, recv)
    args = tuple(E.summ(st, a) for a in args)
    if loc[0] == 'cell':
        # a copy of a shared place as it was on entry still names the place
        x = E.read(st, loc)
        if x[0] == 'upd': x = x[1]
        if x[0] == 'init' and shared(x[1]): loc = ('loc', x[1])
    if loc[0] == 'loc' and shared(loc[1]) and loc[1] not in st.heap:
        E.event(st, (op, loc[1]) + args)
        bump(E, st, loc[1])
    else:
        cur = E.read(st, loc)
        E.write(st, loc, functional(E.val(st, cur), *args))

def length(E, st, v):
    v = content(E, st, v)
    v = E.val(st, v)
    if v[0] == 'arr': return INT(len(v[1]))
    if v[0] == 'str': return INT(len(v[1]))
    if v[0] == 'items': v = v[1]
    while True:
        if v[0] == 'upd' and all(p[0][0] == 'i' for p, _ in v[2]): v = v[1]
        elif v[0] == 'after' and len(v) >= 6: return v[5]
        else: break
    return ('len', v)

for p in ('alloc::vec::Vec::len', '<[T]>::len', 'alloc::collections::btree::map::BTreeMap::len', 'alloc::collections::btree::set::BTreeSet::len',
          'dashmap::DashMap::len', 'alloc::string::String::len', '<str>::len', 'bytes::bytes_mut::BytesMut::len', 'bytes::bytes::Bytes::len', 'std::collections::hash::map::HashMap::len'):
    MODELS[p] = lambda E, st, c: R(st, length(E, st, c.args[0]))
    MODELS[p[:-3] + 'is_empty'] = lambda E, st, c: R(st, mk_eq(length(E, st, c.args[0]), INT(0)))

def empty(E, st, c): return R(st, ('arr', ()))
for p in ('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::collections::btree::map::BTreeMap::new', 'alloc::collections::btree::set::BTreeSet::new',
          'smallvec::SmallVec::new', 'std::collections::hash::map::HashMap::new', 'std::collections::hash::set::HashSet::new', 'smallvec::SmallVec::with_capacity', 'alloc::collections::vec_deque::VecDeque::new'):
    MODELS[p] = empty
@model('alloc::string::String::new')
def newstr(E, st, c): return R(st, STR(''))
@model('dashmap::DashMap::new', 'dashmap::DashMap::with_capacity')
def newmap(E, st, c): return R(st, ('newmap', E.count(st, ('newmap',))))

def f_push(v, a):
    if v[0] == 'arr': return ('arr', v[1] + (a,))
    return ('push', v, a)
@model('alloc::vec::Vec::push', 'smallvec::SmallVec::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def push(E, st, c):
    mutate(E, st, c.args[0], 'push', c.args[1:2], f_push)
    return R(st, UNIT)
@model('alloc::vec::Vec::insert', 'smallvec::SmallVec::insert')
def vinsert(E, st, c):
    mutate(E, st, c.args[0], 'vinsert', c.args[1:3], lambda v, i, a: ('vinsert', v, i, a) if not (i == ('len', v)) else ('push', v, a))
    return R(st, UNIT)
@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove', 'smallvec::SmallVec::remove')
def vremove(E, st, c):
    op = 'swaprm' if 'swap' in c.path else 'vrm'
    v = E.val(st, content(E, st, c.args[0])); i = E.val(st, c.args[1])
    r = snap(index_term(v, i) if v[0] != 'upd' else project(v, ('i', i)))
    mutate(E, st, c.args[0], op, [i], lambda v, i: v[1] if v[0] == 'push' and i == ('len', v[1]) else (op, v, i))
    return R(st, r)
BV = ('alloc::collections::btree::map::BTreeMap::', 'alloc::collections::btree::set::BTreeSet::')
@model('alloc::vec::Vec::pop', 'smallvec::SmallVec::pop', 'alloc::collections::vec_deque::VecDeque::pop_back', 'alloc::collections::vec_deque::VecDeque::pop_front',
       *(p + n for p in BV for n in ('pop_first', 'pop_last')))
def vpop(E, st, c):
    front = c.path.endswith(('pop_front', 'pop_first'))
    cur = E.val(st, content(E, st, c.args[0]))
    if cur[0] == ('popfrest' if front else 'poprest'):
        it = over(cur[1])
        if not front: it = rev_iter(it)
        return [(s, 'ret', SOME(v)) if k == 'item' else (s, 'ret', NONE) if k == 'end' else (s, k, v) for s, k, v in fork_next(E, st, it)]
    if cur[0] == 'arr':
        if not cur[1]: return R(st, NONE)
        mutate(E, st, c.args[0], 'pop', [], lambda v: ('arr', cur[1][1:] if front else cur[1][:-1]))
        return R(st, SOME(cur[1][0 if front else -1]))
    v = snap(cur)
    mutate(E, st, c.args[0], 'pop', [], lambda v: ('poppedf' if front else 'popped', v))
    return R(st, ('head' if front else 'last', v))
@model('alloc::vec::Vec::truncate', 'alloc::vec::Vec::clear', 'alloc::collections::btree::map::BTreeMap::clear', 'alloc::collections::btree::set::BTreeSet::clear', 'alloc::vec::Vec::reverse', '<[T]>::reverse', '<[T]>::sort', '<[T]>::sort_by', '<[T]>::sort_by_key', '<[T]>::sort_unstable_by_key', '<[T]>::sort_unstable', 'alloc::vec::Vec::dedup_by_key', '<[T]>::sort_unstable_by')
def vmisc(E, st, c):
    n = c.path.rpartition('::')[2]
    n = n.replace('_unstable', '')
    if n == 'truncate' and E.val(st, c.args[1]) == INT(0): n = 'clear'
    if n == 'clear': mutate(E, st, c.args[0], 'clear', [], lambda v: ('arr', ()))
    else: mutate(E, st, c.args[0], n, c.args[1:], lambda v, *a: (n, v) + a)
    return R(st, UNIT)
@model('alloc::vec::Vec::append')
def vappend(E, st, c):
    o = E.val(st, content(E, st, c.args[1]))
    mutate(E, st, c.args[0], 'append', [o], lambda v, a: ('append', v, a))
    E.write(st, tgt(c.args[1]), ('arr', ()))
    return R(st, UNIT)

def mkrange(a, b): return ('adt', 'core::ops::range::Range', 'Range', (('.end', b), ('.start', a)))
def subrange(E, st, outer, i):
    """a range counted from the start of the whole; outer is the range it is taken of, if any"""
    if i[0] != 'adt': return i
    f = dict(i[3]); n = i[1].rpartition('::')[2]; base = INT(0); end = None
    if outer is not None and outer[0] == 'adt':
        o = dict(outer[3]); base = o.get('.start', INT(0)); end = o.get('.end')
    def at(x): return x if base == INT(0) else E.bin1('Add', base, x)
    if n == 'Range': return mkrange(at(f['.start']), at(f['.end']))
    if n == 'RangeTo': return mkrange(base, at(f['.end']))
    if n == 'RangeFrom': return mkrange(at(f['.start']), end) if end is not None else ('adt', i[1], i[2], (('.start', at(f['.start'])),))
    if n == 'RangeFull': return outer
    return i
def range_len(E, r):
    """the constant length of a range, if it has one"""
    if r is None or r[0] != 'adt' or not r[1].endswith('::Range'): return None
    f = dict(r[3]); d = E.bin1('Sub', f['.end'], f['.start'])
    return d[1] if d[0] == 'int' else None
def slice_of(E, st, x, i):
    outer = None
    if x[0] == 'slice' and x[2][0] == 'adt' and x[2][1].endswith(('::Range', '::RangeFrom')): outer, whole = x[2], x[1]
    else: whole = x
    r = subrange(E, st, outer, i)
    return whole if r is None else ('slice', whole, r)
def array_len(v):
    return int(v[2]) if v[0] == 'repeat' and str(v[2]).isdigit() else len(v[1]) if v[0] == 'arr' else range_len_of(v[1]) if v[0] == 'bytes' else None
def range_len_of(s):
    f = dict(s[2][3]); return None if f['.end'][0] != 'int' or f['.start'][0] != 'int' else f['.end'][1] - f['.start'][1]
@model('<[T]>::copy_from_slice', '<[T]>::clone_from_slice')
def copy_slice(E, st, c):
    loc = recv_loc(E, st, c.args[0])
    src = E.val(st, content(E, st, c.args[1]))
    if loc[0] == 'cell' and not (loc[2] and loc[2][-1][0] == 'i'):
        v = E.val(st, E.read(st, loc)); n = array_len(v)
        if n is not None and src[0] == 'slice' and range_len(E, src[2]) == n:
            E.write(st, loc, ('bytes', src)); return R(st, UNIT)
        if n is not None and array_len(src) == n and src[0] != 'repeat':
            E.write(st, loc, src); return R(st, UNIT)
    return default(E, st, c)
@model('<u32>::from_le_bytes', '<u32>::from_be_bytes', '<u32>::from_ne_bytes', '<u64>::from_le_bytes', '<u16>::from_le_bytes')
def from_bytes(E, st, c):
    v = E.val(st, content(E, st, c.args[0]))
    if v[0] == 'arr' and v[1] and all(x[0] == 'idx' and x[2][0] == 'int' for x in v[1]) and [x[2][1] for x in v[1]] == list(range(v[1][0][2][1], v[1][0][2][1] + len(v[1]))) and len({x[1] for x in v[1]}) == 1:
        a = v[1][0][2][1]; v = ('bytes', ('slice', v[1][0][1], mkrange(INT(a), INT(a + len(v[1])))))
    return R(st, ('call', '<' + c.path[1:].partition('>')[0] + '>::' + c.path.rpartition('::')[2], v))
GETN = dict(u8=1, u16=2, u32=4, u64=8)
def get_num(E, st, c):
    m = re.match(r'get_(u\d+)(_le|_be|_ne|)$', c.path.rpartition('::')[2])
    loc = recv_loc(E, st, c.args[0])
    if loc[0] == 'cell':
        v = E.val(st, E.read(st, loc))
        while v[0] == 'ref': v = E.val(st, E.deref(st, v))
        if v[0] == 'slice' or c.targs and c.targs[0][0] == 'ref':
            n = GETN[m[1]]
            r = ('call', '<%s>::from%s_bytes' % (m[1], m[2] or '_be'), ('bytes', slice_of(E, st, v, mkrange(INT(0), INT(n)))))
            E.write(st, loc, slice_of(E, st, v, ('adt', 'core::ops::range::RangeFrom', 'RangeFrom', (('.start', INT(n)),))))
            return R(st, r)
    return default(E, st, c)
for n in ('get_u16_le', 'get_u32_le', 'get_u64_le', 'get_u16', 'get_u32', 'get_u64'): MODELS['bytes::buf::buf_impl::Buf::' + n] = get_num
@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut', '<[T]>::get_unchecked')
def vindex(E, st, c):
    v, i = c.args[0], E.val(st, c.args[1])
    if c.path.endswith('index_mut'):
        loc = recv_loc(E, st, v)
        if i[0] == 'adt':
            outer = loc[2][-1][1] if loc[0] == 'cell' and loc[2] and loc[2][-1][0] == 'i' and loc[2][-1][1][0] == 'adt' else None
            i = subrange(E, st, outer, i)
            if loc[0] == 'cell' and (i is None or outer is not None): loc = ('cell', loc[1], loc[2] if i is None else loc[2][:-1])
            if i is None: return R(st, ('ref', loc[1], loc[2]) if loc[0] == 'cell' else loc[1])
        if loc[0] == 'cell': return R(st, ('ref', loc[1], loc[2] + (('i', i),)))
        return R(st, index_term(loc[1], i))
    x = content(E, st, v)
    x = E.val(st, x)
    if i[0] == 'adt': return R(st, slice_of(E, st, x, i))
    r = project(x, ('i', i)) if x[0] in ('upd', 'arr') else index_term(x, i)
    return R(st, r)
@model('core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from')
def to_array(E, st, c):
    """a slice of known length as an array"""
    v = E.val(st, content(E, st, c.args[0])); t = c.dt
    if v[0] == 'slice' and t and t[0] == 'adt' and t[1].endswith('Result') and t[2] and t[2][0][0] == 'array' and range_len(E, v[2]) is not None and str(range_len(E, v[2])) == str(t[2][0][2]):
        return R(st, OK(('bytes', v)))
    src = c.targs[0 if c.path.endswith('into') else 1] if len(c.targs or ()) > 1 else ('?',)
    if t and t[0] == 'adt' and t[1].endswith('Result') and t[2] and t[2][0][0] == 'adt' and t[2][0][1].endswith('nonzero::NonZero') and src[0] == 'int':
        return [(s, 'ret', ERR(('zero',)) if b else OK(v)) for s, b in E.fork_bool(st, mk_eq(v, INT(0)))]
    to = t[2][0] if t and t[0] == 'adt' and t[1].endswith('Result') and t[2] else ('?',)
    if src[0] == to[0] == 'int' and src[1][0] == to[1][0] == 'u' and WIDTH.get(src[1], 99) <= WIDTH.get(to[1], 0): return R(st, OK(v))
    return default(E, st, c)
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
@model('core::fmt::Formatter::write_str', 'core::fmt::Write::write_str')
def write_str(E, st, c):
    '''as write_fmt of that text'''
    x = E.val(st, c.args[1])
    c.args = (c.args[0], x if x[0] == 'str' else ('fmt', ('display', x))); c.path = c.path.replace('write_str', 'write_fmt')
    return default(E, st, c)
@model('<[T]>::split_at')
def split_at(E, st, c):
    v = E.val(st, content(E, st, c.args[0])); n = E.val(st, c.args[1])
    return R(st, ('tup', (slice_of(E, st, v, mkrange(INT(0), n)), slice_of(E, st, v, ('adt', 'core::ops::range::RangeFrom', 'RangeFrom', (('.start', n),))))))
@model('<[T]>::get')
def vget(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); i = E.val(st, c.args[1])
    if i[0] == 'adt' and i[1].rpartition('::')[2] in ('Range', 'RangeTo', 'RangeFrom'):
        f = dict(i[3]); e = f.get('.end', f.get('.start'))
        return [(s, 'ret', NONE if b else SOME(slice_of(E, st, x, i))) for s, b in E.fork_bool(st, cmp_term('Lt', length(E, st, x), e))]
    out = []
    for s, b in E.fork_bool(st, cmp_term('Lt', i, length(E, st, x))):
        out.append((s, 'ret', SOME(index_term(x, i)) if b else NONE))
    return out
@model('<[T]>::first')
def vfirst(E, st, c):
    x = E.val(st, content(E, st, c.args[0]))
    out = []
    for s, b in E.fork_bool(st, mk_eq(length(E, st, x), INT(0))):
        out.append((s, 'ret', NONE if b else SOME(index_term(x, INT(0)))))
    return out
@model('<[T]>::binary_search_by', '<[T]>::binary_search_by_key', '<[T]>::binary_search', '<[T]>::partition_point')
def bsearch(E, st, c):
    x = E.val(st, content(E, st, c.args[0]))
    rest = list(c.args[1:])
    f = rest[-1]
    e = ('elem', x)
    name = c.path.rpartition('::')[2]
    if name in ('binary_search_by_key', 'binary_search'):
        # searching by a key is searching with the comparison of its key
        k = E.val(st, rest[0])
        def order(s):
            if name == 'binary_search': return R(s, ('cmp', e, k))
            return [(s2, kd, ('cmp', E.val(s2, v), k) if kd == 'ret' else v) for s2, kd, v in callf(E, s, f, [e])]
        return R(st, ('binary_search', x, ('by', E.rows_of(st, order))))
    if f[0] in ('clo', 'ref'):
        rows = E.rows_of(st, lambda s: callf(E, s, f, [e]))
        rest[-1] = ('by', rows)
    return R(st, (name.split('_by')[0], x) + tuple(E.val(st, r) for r in rest))
@model('<[T]>::contains', 'alloc::vec::Vec::contains')
def vcontains(E, st, c):
    x = content(E, st, c.args[0]); k = E.val(st, c.args[1])
    return consume_any(E, st, ('iter', x, ()), lambda s, el: R(s, mk_eq(E.val(s, el), k)), TRUE, FALSE)

# sets
def f_sadd(v, k): return ('sadd', v, k)
def f_sdel(v, k): return ('sdel', v, k)
@model('alloc::collections::btree::set::BTreeSet::insert', 'std::collections::hash::set::HashSet::insert')
def sinsert(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); k = E.val(st, c.args[1])
    mutate(E, st, c.args[0], 'sadd', [k], f_sadd)
    return R(st, mk_not(('has', x, k)))
@model('alloc::collections::btree::set::BTreeSet::remove', 'std::collections::hash::set::HashSet::remove')
def sremove(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); k = E.val(st, c.args[1])
    mutate(E, st, c.args[0], 'sdel', [k], f_sdel)
    return R(st, ('has', x, k))
@model('alloc::collections::btree::set::BTreeSet::contains', 'std::collections::hash::set::HashSet::contains')
def scontains(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); k = E.val(st, c.args[1])
    return R(st, ('has', x, k) if x != ('arr', ()) else FALSE)
# maps
BM = 'alloc::collections::btree::map::BTreeMap::'; HM = 'std::collections::hash::map::HashMap::'
@model(BM+'insert', HM+'insert')
def minsert(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); k = E.val(st, c.args[1])
    mutate(E, st, c.args[0], 'mput', [k, c.args[2]], lambda v, k, a: ('mput', v, k, a))
    return R(st, ('mget', x, k))
@model(BM+'remove', HM+'remove')
def mremove(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); k = E.val(st, c.args[1])
    mutate(E, st, c.args[0], 'mdel', [k], lambda v, k: ('mdel', v, k))
    return R(st, ('mget', x, k))
@model(BM+'get', HM+'get')
def mget(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); k = E.val(st, c.args[1])
    return R(st, ('mget', x, k))
@model(BM+'contains_key', HM+'contains_key')
def mhas(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); k = E.val(st, c.args[1])
    return R(st, ('isvar', ('mget', x, k), 'Some', OPTU))
@model(BM+'get_mut', HM+'get_mut')
def mgetmut(E, st, c):
    x = E.val(st, content(E, st, c.args[0])); k = E.val(st, c.args[1])
    loc = recv_loc(E, st, c.args[0])
    out = []
    for s, b in E.fork_is(st, ('mget', x, k), 'Some', OPTU):
        if not b: out.append((s, 'ret', NONE)); continue
        out.append((s, 'ret', SOME(('ref', loc[1], loc[2] + (('k', k),)) if loc[0] == 'cell' else ('key', loc[1], k))))
    return out
@model(BM+'entry', HM+'entry')
def mentry(E, st, c):
    return R(st, ('mentry', c.args[0], E.val(st, c.args[1])))
def entry_loc(E, st, e):
    loc = recv_loc(E, st, e[1])
    return ('ref', loc[1], loc[2] + (('k', e[2]),)) if loc[0] == 'cell' else ('key', loc[1], e[2])
@model('alloc::collections::btree::map::entry::Entry::or_insert', 'alloc::collections::btree::map::entry::Entry::or_default', 'alloc::collections::btree::map::entry::Entry::or_insert_with')
def m_or_insert(E, st, c):
    e = c.args[0]
    n = c.path.rpartition('::')[2]
    if n == 'or_default':
        ty = c.targs[1] if len(c.targs) > 1 else None
        d = default_of(E, st, ty)[0][2] if ty and ty[0] in ('int', 'uint', 'bool', 'adt') and (ty[0] != 'adt' or ty[1] in (OPT, 'alloc::string::String')) else ('arr', ())
    elif n == 'or_insert': d = E.val(st, c.args[1])
    else:
        r = callf(E, st, c.args[1], [])
        if len(r) != 1: return None
        st, _, d = r[0]
    if d == ('arr', ()):      # creating an empty container is not observable: unify with or_default
        return R(st, entry_loc(E, st, e))
    mutate(E, st, e[1], 'mputnew', [e[2], d], lambda v, k, a: ('mputnew', v, k, a))
    return R(st, entry_loc(E, st, e))

# ---- DashMap
DM = 'dashmap::DashMap::'
def smap(E, st, v):
    v = E.deref(st, v)
    if v[0] == 'lockof': v = v[1]
    return E.val(st, v) if v[0] not in ('static',) else v
def getterm(E, st, S, k):
    v = ver(E, st, S)
    n = E.count(st, ('get', S, k, v) if v else ('get', S, k))
    return ('get', S, k, ('#', v, n)) if v else ('get', S, k) if n == 0 else ('get', S, k, n)
@model(DM+'get', DM+'get_mut', DM+'view')
def dget(E, st, c):
    S = smap(E, st, c.args[0]); k = E.val(st, c.args[1])
    g = getterm(E, st, S, k)
    if c.path.endswith('view'):
        out = []
        for s, b in E.fork_is(st, g, 'Some', OPTU):
            if b: out += wrapres(callf(E, s, c.args[2], [k, E.payload(s, g, 'Some')]), SOME)
            else: out.append((s, 'ret', NONE))
        return out
    return R(st, g)
@model('dashmap::mapref::one::Ref::key', 'dashmap::mapref::one::RefMut::key')
def dkey(E, st, c):
    v = E.deref(st, c.args[0])
    for x in subterms(v):
        if x and x[0] == 'get': return R(st, x[2])
    return R(st, ('keyof', v))
@model('dashmap::mapref::one::Ref::pair', 'dashmap::mapref::one::RefMut::pair', 'dashmap::mapref::one::RefMut::pair_mut')
def dpair(E, st, c): return R(st, TUP(dkey(E, st, c)[0][2], ref_value(E, st, c)[0][2]))
@model(DM+'contains_key')
def dhas(E, st, c):
    S = smap(E, st, c.args[0]); k = E.val(st, c.args[1])
    return R(st, ('isvar', getterm(E, st, S, k), 'Some', OPTU))
@model(DM+'insert')
def dput(E, st, c):
    S = smap(E, st, c.args[0]); k = E.val(st, c.args[1])
    E.event(st, ('put', S, k, E.summ(st, c.args[2])))
    bump(E, st, S)
    n = E.count(st, ('old', S, k))
    return R(st, ('old', S, k, n))
@model(DM+'remove')
def ddel(E, st, c):
    S = smap(E, st, c.args[0]); k = E.val(st, c.args[1])
    E.event(st, ('del', S, k)); bump(E, st, S)
    n = E.count(st, ('removed', S, k))
    t = ('removed', S, k) if n == 0 else ('removed', S, k, n)
    return R(st, t)
@model(DM+'remove_if', DM+'remove_if_mut')
def delif(E, st, c):
    S = smap(E, st, c.args[0]); k = E.val(st, c.args[1])
    g = getterm(E, st, S, k)
    out = []
    for s, b in E.fork_is(st, g, 'Some', OPTU):
        if not b: out.append((s, 'ret', NONE)); continue
        v = E.payload(s, g, 'Some')
        for s2, kk, r in callf(E, s, c.args[2], [k, v]):
            if kk != 'ret': out.append((s2, kk, r)); continue
            for s3, bb in E.fork_bool(s2, r):
                if bb:
                    E.event(s3, ('del_if', S, k)); bump(E, s3, S)
                    out.append((s3, 'ret', SOME(TUP(k, v))))
                else: out.append((s3, 'ret', NONE))
    return out
@model(DM+'alter')
def alter(E, st, c):
    S = smap(E, st, c.args[0]); k = E.val(st, c.args[1])
    g = getterm(E, st, S, k)
    out = []
    for s, b in E.fork_is(st, g, 'Some', OPTU):
        if not b: out.append((s, 'ret', UNIT)); continue
        v = E.payload(s, g, 'Some')
        E.extra_held = E.extra_held + ((S, k),)
        try:
            rs = callf(E, s, c.args[2], [k, v])
        finally:
            E.extra_held = E.extra_held[:-1]
        for s2, kk, r in rs:
            if kk != 'ret': out.append((s2, kk, r)); continue
            r = E.val(s2, r)
            put_changes(E, s2, S, k, v, r)
            out.append((s2, 'ret', UNIT))
    return out
def put_changes(E, st, S, k, v, r):
    if r == v: return
    if strip_fn(r) == v:
        fs = fn_ops(r)
        for op in fs: E.event(st, op)
        bump(E, st, v)
        return
    if r[0] == 'upd' and r[1] == v:
        for path, x in r[2]:
            t = v
            for e in path: t = term_proj(t, e)
            if strip_fn(x) == t:
                for op in fn_ops(x): E.event(st, op)
                bump(E, st, t)
            else:
                E.event(st, ('set', t, E.summ(st, x)))
                st.heap[t] = x
        return
    E.event(st, ('put', S, k, E.summ(st, r))); bump(E, st, S)
FN = {'push': 2, 'sadd': 2, 'sdel': 2, 'mput': 3, 'mdel': 2, 'vinsert': 3, 'vrm': 2, 'mputnew': 3}
def strip_fn(v):
    while v and v[0] in FN and len(v) == FN[v[0]] + 1: v = v[1]
    return v
def fn_ops(v):
    out = []
    while v and v[0] in FN and len(v) == FN[v[0]] + 1:
        out.append((v[0], strip_fn(v)) + v[2:]); v = v[1]
    return list(reversed(out))
@model(DM+'entry')
def dentry(E, st, c):
    S = smap(E, st, c.args[0]); k = E.val(st, c.args[1])
    n = E.count(st, ('ventry', S, k))
    return R(st, ('ventry', S, k) if n == 0 else ('ventry', S, k, n))
@model('dashmap::mapref::entry::Entry::or_default', 'dashmap::mapref::entry::Entry::or_insert', 'dashmap::mapref::entry::Entry::or_insert_with')
def d_or(E, st, c):
    e = c.args[0]; n = c.path.rpartition('::')[2]
    if n == 'or_insert':
        d = E.val(st, c.args[1])
    elif n == 'or_insert_with':
        r = callf(E, st, c.args[1], [])
        if len(r) != 1: return None
        st, _, d = r[0]
    else: d = ('arr', ())
    k = st.g.get(('is', e))
    if k == ('+', frozenset(('Occupied',))): pass
    elif k == ('+', frozenset(('Vacant',))) and built(E, st, e, d, c.targs[1] if len(c.targs) > 1 else None): pass
    elif d != ('arr', ()): E.event(st, ('putnew', e[1], e[2], d))
    return R(st, ('mapval', e[1], e[2]))
ADDOP = {'alloc::collections::btree::set::BTreeSet': 'sadd', 'std::collections::hash::set::HashSet': 'sadd', 'alloc::vec::Vec': 'push'}
def built(E, st, e, d, ty):
    """a container stored under a key that was vacant: an empty one (which counts as absent) that receives its elements"""
    op = ADDOP.get(ty[1]) if ty and ty[0] == 'adt' else None
    if not op: return False
    els = []
    while d and d[0] == op and len(d) == 3: els.append(d[2]); d = d[1]
    if d[0] != 'arr': return False
    els += list(reversed(d[1]))
    for x in reversed(els): E.event(st, (op, ('mapval', e[1], e[2]), x))
    if els: bump(E, st, e[1])
    return True
@model('dashmap::mapref::entry::OccupiedEntry::get', 'dashmap::mapref::entry::OccupiedEntry::get_mut', 'dashmap::mapref::entry::OccupiedEntry::into_ref')
def occ_get(E, st, c):
    e = base_entry(E.deref(st, c.args[0]))
    return R(st, ('mapval', e[1], e[2]))
@model('dashmap::mapref::entry::VacantEntry::insert', 'dashmap::mapref::entry::OccupiedEntry::insert', 'dashmap::mapref::entry::OccupiedEntry::replace_entry')
def vac_insert(E, st, c):
    e = base_entry(E.deref(st, c.args[0]))
    h = E.extra_held; E.extra_held = h + ((e[1], e[2]),)        # the entry itself keeps the key locked up to and including the write
    v = E.summ(st, c.args[1])
    if not (c.path.endswith('VacantEntry::insert') and built(E, st, e, v, c.targs[1] if len(c.targs) > 1 else None)):
        E.event(st, ('put', e[1], e[2], v)); bump(E, st, e[1])
        if c.path.endswith('VacantEntry::insert'): st.heap[('mapval', e[1], e[2])] = v
    E.extra_held = h
    return R(st, ('mapval', e[1], e[2]))
@model('dashmap::mapref::entry::Entry::insert', 'dashmap::mapref::entry::Entry::insert_entry')
def ent_insert(E, st, c): return vac_insert(E, st, c)
@model('dashmap::mapref::entry::Entry::and_modify')
def ent_modify(E, st, c):
    e = base_entry(E.deref(st, c.args[0]))
    out = []
    for s, v in E.variants(st, e, None, frozenset(('Occupied', 'Vacant'))):
        if v == 'Vacant': out.append((s, 'ret', c.args[0])); continue
        for s2, k, r in callf(E, s, c.args[1], [('mapval', e[1], e[2])]): out.append((s2, k, c.args[0] if k == 'ret' else r))
    return out
@model('dashmap::mapref::entry::OccupiedEntry::remove', 'dashmap::mapref::entry::OccupiedEntry::remove_entry')
def occ_remove(E, st, c):
    e = base_entry(E.deref(st, c.args[0]))
    E.event(st, ('del', e[1], e[2])); bump(E, st, e[1])
    return R(st, ('mapval', e[1], e[2]))
@model('dashmap::mapref::entry::OccupiedEntry::key', 'dashmap::mapref::entry::VacantEntry::key', 'dashmap::mapref::entry::Entry::key')
def ent_key(E, st, c): return R(st, base_entry(E.deref(st, c.args[0]))[2])
def base_entry(v):
    for x in subterms(v):
        if x and x[0] == 'ventry': return x
    raise Unmodelled('map entry %r' % (v,))
@model(DM+'clear')
def dclear(E, st, c):
    S = smap(E, st, c.args[0]); E.event(st, ('clear', S)); bump(E, st, S)
    return R(st, UNIT)
@model(DM+'iter', DM+'iter_mut')
def diter(E, st, c):
    S = smap(E, st, c.args[0])
    n = ver(E, st, S)
    return R(st, ('iter', S if not n else ('@', S, n), ()))
for a, b in (('key', '0'), ('value', '1'), ('value_mut', '1')):
    for r in ('RefMulti', 'RefMutMulti'):
        MODELS['dashmap::mapref::multiple::%s::%s' % (r, a)] = lambda E, st, c, b=b: R(st, project(E.deref(st, c.args[0]), ('f', b)))
@model('dashmap::mapref::multiple::RefMulti::pair')
def rpair(E, st, c): return R(st, c.args[0])

# ---- iterators
def of_element(t, src):
    """t is put together from the element of src (or its index) alone: going over the collected values is going over src"""
    if t in (('elem', src), ('idxof', src)): return True
    if t[0] == 'tup': return all(of_element(x, src) for x in t[1])
    if t[0] == 'f': return of_element(t[1], src)
    return t[0] == 'int'
def over(x):
    if x[0] == 'items': x = x[1]
    if x[0] == 'mapped' and of_element(x[2], x[1]): return ('iter', x[1], (('term', x[2]),))
    if x[0] == 'reverse': return rev_iter(over(x[1]))
    return ('iter', x, ())
def rev_iter(it):
    x = it[1]; y = x[1] if x[0] == 'rev' else ('rev', x)
    return ('iter', y, tuple(('term', rewrite(s[1], {('elem', x): ('elem', y), ('idxof', x): ('idxof', y)})) if s[0] == 'term' else s for s in it[2]))
def mkiter(E, st, c):
    """into_iter / iter / iter_mut"""
    v = c.args[0]
    if v[0] == 'iter': return R(st, v)
    if v[0] == 'ref':
        x = E.read(st, ('cell', v[1], v[2]))
        if x[0] == 'iter': return R(st, v)
        ty = c.targs[0] if c.targs else None
        if c.path.endswith('iter_mut') or (ty and ty[0] == 'ref' and ty[2]):
            loc = recv_loc(E, st, v)
            return R(st, ('iter', E.val(st, content(E, st, v)), (('mut', loc),)))
    if v[0] in ('f', 'idx', 'as', 'key', 'static', 'mapval', 'get', 'elem') and (c.path.endswith('iter_mut') or (c.targs and c.targs[0] and c.targs[0][0] == 'ref' and c.targs[0][2])):
        return R(st, ('iter', content(E, st, v), (('mut', ('loc', v)),)))
    x = E.val(st, content(E, st, v))
    if x[0] == 'adt' and x[1].endswith('range::Range'):
        d = dict(x[3]); x = ('range', d['.start'], d['.end'])
    if x[0] == 'items': x = x[1]
    if x[0] == 'reverse' or x[0] == 'mapped' and of_element(x[2], x[1]): return R(st, over(x))
    if c.path.startswith('core::iter::traits::collect::IntoIterator') and c.rpath in E.p.bodies: return None
    ty = c.targs[0] if c.targs else None
    if ty and ty[0] == 'ref': ty = ty[1]
    if ty and ty[0] == 'adt' and ty[1] == OPT:
        return [(s, 'ret', ('iter', ('arr', (pl,) if va == 'Some' else ()), ())) for s, va, pl in forkv(E, st, x, OPT)]
    return R(st, ('iter', x, ()))
def unroll(it):
    return it[0] == 'iter' and it[1][0] == 'arr' and 0 < len(it[1][1]) <= 4 and all(sg[0] in ('map', 'inspect', 'filter', 'take_while', 'filter_map', 'cloned') for sg in it[2])
for p in ('<[T]>::iter', '<[T]>::iter_mut', 'core::iter::traits::collect::IntoIterator::into_iter', BM+'iter', BM+'iter_mut', BM+'into_iter', HM+'iter',
          'alloc::collections::btree::set::BTreeSet::iter', 'flume::Receiver::drain', 'alloc::vec::Vec::drain', 'std::collections::hash::set::HashSet::iter'):
    MODELS[p] = mkiter
@model('futures_util::stream::iter::iter')
def stream_iter(E, st, c):
    out = []
    for s, k, it in mkiter(E, st, c):
        if k != 'ret' or it[0] != 'iter' or not it[2]: out.append((s, k, it)); continue
        key = acc_key(E); s.cells[key] = ('arr', ())
        out += [(s2, k2, ('iter', v, ()) if k2 == 'ret' else v) for s2, k2, v in collect_into(E, s, it, key, f_push)]
    return out
@model('flume::Receiver::drain')
def fdrain(E, st, c):
    r = E.val(st, c.args[0])
    E.event(st, ('drain', r))
    n = E.count(st, ('drained', r))
    return R(st, ('iter', ('drained', r) if n == 0 else ('drained', r, n), ()))
@model('flume::Receiver::try_iter')
def ftry(E, st, c): return fdrain(E, st, c)
@model('alloc::vec::Vec::drain')
def vdrain(E, st, c):
    v = E.val(st, content(E, st, c.args[0]))
    rng = c.args[1] if len(c.args) > 1 else None
    if rng and rng[0] == 'adt' and rng[1].endswith('RangeFull'):
        mutate(E, st, c.args[0], 'clear', [], lambda v: ('arr', ()))
        return R(st, ('iter', v, ()))
    mutate(E, st, c.args[0], 'drain', [rng], lambda v, r: ('drainrest', v, r))
    return R(st, ('iter', ('slice', v, rng), ()))
def stage(name):
    def f(E, st, c):
        it = as_iter(E, st, c.args[0])
        if it is None: return None
        if name == 'rev':
            if any(s[0] not in ('term', 'mut', 'cloned', 'map', 'filter', 'filter_map', 'proj', 'inspect') and s != ('enumerate', 'idx') for s in it[2]):
                raise Unmodelled('rev after ' + str([s[0] for s in it[2]]))
            return R(st, rev_iter(it))
        if name in ('skip', 'take', 'step_by') and all(s[0] in ('cloned', 'proj') for s in it[2]):
            return R(st, ('iter', (name, it[1], E.val(st, c.args[1])), it[2]))
        if name == 'enumerate':
            kind = 'idx'
            if it[1][0] == 'rev': kind = 'rcount'
            elif any(s[0] in ('filter', 'filter_map', 'skip_while') for s in it[2]): kind = 'count'
            return R(st, ('iter', it[1], it[2] + (('enumerate', kind),)))
        return R(st, ('iter', it[1], it[2] + ((name,) + tuple(c.args[1:]),)))
    return f
def as_iter(E, st, v):
    if v[0] == 'ref': v = E.read(st, ('cell', v[1], v[2]))
    if v[0] == 'adt' and v[1].endswith('range::Range'):
        d = dict(v[3]); return ('iter', ('range', E.val(st, d['.start']), E.val(st, d['.end'])), ())
    return v if v[0] == 'iter' else None
IT = 'core::iter::traits::iterator::Iterator::'
for n in ('map', 'filter', 'filter_map', 'enumerate', 'rev', 'inspect', 'take_while', 'skip_while', 'flat_map', 'zip', 'chain', 'skip', 'take', 'peekable', 'step_by'):
    MODELS[IT + n] = stage(n)
@model(O+'iter')
def opt_iter(E, st, c):
    return [(s, 'ret', ('iter', ('arr', (pl,) if va == 'Some' else ()), ())) for s, va, pl in forkv(E, st, E.val(st, content(E, st, c.args[0])), OPT)]
@model(IT+'flatten')
def it_flatten(E, st, c):
    # of an option's iterator: what it holds
    it = as_iter(E, st, c.args[0])
    if it is None or it[1][0] != 'arr' or it[2] or len(it[1][1]) > 1: return None
    if not it[1][1]: return R(st, it)
    x = it[1][1][0]
    if x[0] == 'iter': return R(st, x)
    x = E.val(st, content(E, st, x))
    return R(st, x if x[0] == 'iter' else ('iter', x, ()))
MODELS[IT+'cloned'] = MODELS[IT+'copied'] = lambda E, st, c: R(st, E.deref(st, c.args[0]))
MODELS['core::iter::traits::double_ended::DoubleEndedIterator::rev'] = stage('rev')
@model(BM+'keys', BM+'into_keys', HM+'keys')
def mkeys(E, st, c):
    return R(st, ('iter', E.val(st, content(E, st, c.args[0])), (('proj', '0'),)))
@model(BM+'values', BM+'into_values', HM+'values')
def mvals(E, st, c):
    return R(st, ('iter', E.val(st, content(E, st, c.args[0])), (('proj', '1'),)))

def elem_of(src):
    s = src; rev = False
    if s[0] == 'rev': s = s[1]; rev = True
    if s[0] == 'range' and s[1] == INT(0) and s[2][0] == 'len':
        return ('idxof', ('rev', s[2][1]) if rev else s[2][1])
    return ('elem', src)
def idx_of(src):
    e = elem_of(src)
    return e if e[0] == 'idxof' else ('idxof', src)
def src_key(src):
    """name of the traversal in guards: ranges over a container's length are traversals of the container"""
    e = elem_of(src)
    return e[1]

def run_stages(E, st, it):
    """[(st, 'item'|'skip'|'panic', value)] for one element"""
    src = it[1]
    cur = [(st, src[1][0] if src[0] == 'seq' else elem_of(src))]
    out = []
    for sg in it[2]:
        n = sg[0]; nxt = []
        for s, v in cur:
            if n == 'mut':
                loc = sg[1]
                if loc[0] == 'cell': nxt.append((s, ('ref', loc[1], loc[2] + (('i', ('idxof', src)),))))
                else: nxt.append((s, ('elem', loc[1]) if src == loc[1] else ('idx', loc[1], ('idxof', src))))
            elif n == 'map':
                for s2, k, r in callf(E, s, sg[1], [v]):
                    if k == 'ret': nxt.append((s2, r))
                    else: out.append((s2, 'panic', r))
            elif n == 'inspect':
                for s2, k, r in callf(E, s, sg[1], [v]):
                    if k == 'ret': nxt.append((s2, v))
                    else: out.append((s2, 'panic', r))
            elif n in ('filter', 'take_while', 'skip_while'):
                for s2, k, r in callf(E, s, sg[1], [v]):
                    if k != 'ret': out.append((s2, 'panic', r)); continue
                    for s3, b in E.fork_bool(s2, r):
                        if n == 'skip_while': raise Unmodelled('skip_while')
                        if b: nxt.append((s3, v))
                        else: out.append((s3, 'skip' if n == 'filter' else 'end', None))
            elif n == 'filter_map':
                for s2, k, r in callf(E, s, sg[1], [v]):
                    if k != 'ret': out.append((s2, 'panic', r)); continue
                    for s3, va, pl in forkv(E, s2, r, OPT):
                        if va == 'Some': nxt.append((s3, pl))
                        else: out.append((s3, 'skip', None))
            elif n == 'enumerate': nxt.append((s, TUP(idx_of(src) if sg[1] == 'idx' else (sg[1], src), v)))
            elif n == 'proj': nxt.append((s, project(v, ('f', sg[1]))))
            elif n == 'term': nxt.append((s, sg[1]))
            elif n in ('cloned', 'peekable'): nxt.append((s, v))
            else: raise Unmodelled('iterator adaptor ' + n)
        cur = nxt
    return [(s, 'item', v) for s, v in cur] + out

def fork_next(E, st, it):
    """[(st,'end'|'item'|'skip'|'panic', v)]"""
    if it[1][0] == 'seq': return run_stages(E, st, it) if it[1][1] else [(st, 'end', None)]
    atom = ('is', ('next', src_key(it[1])))
    a = st; b = st.copy()
    a.g[atom] = ('+', frozenset(('None',)))
    b.g[atom] = ('+', frozenset(('Some',)))
    out = [(a, 'end', None)]
    s = it[1]
    while s[0] in ('rev', 'items'): s = s[1]
    if s == ('arr', ()) or b.g.get(('v', ('len', s))) == ('+', frozenset((0,))): return out
    return out + run_stages(E, b, it)

@model(IT+'next')
def it_next(E, st, c):
    if c.rpath in E.p.bodies: return None
    it = as_iter(E, st, c.args[0])
    if it is None: return None
    out = []
    if it[1][0] == 'seq' and it[1][1]:
        t = tgt(c.args[0]); E.write(st, t, ('iter', ('seq', it[1][1][1:]), it[2]))
    for s, k, v in fork_next(E, st, it):
        if k == 'end': out.append((s, 'ret', NONE))
        elif k == 'item': out.append((s, 'ret', SOME(v)))
        elif k == 'skip': out.append((s, 'skip', None))
        else: out.append((s, 'panic', v))
    return out

_acc = [0]
def consume(E, st, it, body, fin):
    """synthetic loop. body(st, item) -> [(st, 'cont'|'brk'|'panic', value)]; fin(st) -> [(st, value)]"""
    F = E.stack[-1]
    def run(s, it=it):
        back, exits = [], []
        for t, k, v in fork_next(E, s, it):
            if k == 'end': exits.append(('end', None, t))
            elif k == 'skip': back.append(t)
            elif k == 'panic': exits.append(('panic', v, t))
            else:
                for t2, k2, v2 in body(t, v):
                    if k2 == 'cont': back.append(t2)
                    elif k2 == 'brk': exits.append(('brk', v2, t2))
                    else: exits.append(('panic', v2, t2))
        return back, exits
    out = []
    if unroll(it):
        cur = [st]; res = []
        for i in range(len(it[1][1]) + 1):
            nxt = []
            for s in cur:
                b, x = run(s, ('iter', ('seq', it[1][1][i:]), it[2])); nxt += b; res += x
            cur = nxt
    else: res = E.loop_core(st, run, lambda c: True, F)
    for kk, v, t in res:
        if kk == 'end': out += [(t2, 'ret', v2) for t2, v2 in fin(t)]
        elif kk == 'brk': out.append((t, 'ret', v))
        else: out.append((t, 'panic', v))
    return out

def consume_any(E, st, it, pred, hit, miss):
    def body(s, v):
        out = []
        for s2, k, r in pred(s, v):
            if k != 'ret': out.append((s2, 'panic', r)); continue
            for s3, b in E.fork_bool(s2, r):
                out.append((s3, 'brk', hit(v) if callable(hit) else hit) if b else (s3, 'cont', None))
        return out
    return consume(E, st, it, body, lambda s: [(s, miss)])

@model(IT+'any')
def it_any(E, st, c):
    it = as_iter(E, st, c.args[0])
    return it and consume_any(E, st, it, lambda s, v: callf(E, s, c.args[1], [v]), TRUE, FALSE)
@model(IT+'all')
def it_all(E, st, c):
    it = as_iter(E, st, c.args[0])
    return it and consume_any(E, st, it, lambda s, v: [(s2, k, mk_not(r) if k == 'ret' else r) for s2, k, r in callf(E, s, c.args[1], [v])], FALSE, TRUE)
@model(IT+'position')
def it_pos(E, st, c):
    it = as_iter(E, st, c.args[0])
    return it and consume_any(E, st, it, lambda s, v: callf(E, s, c.args[1], [v]), SOME(idx_of(it[1])), NONE)
@model(IT+'find')
def it_find(E, st, c):
    it = as_iter(E, st, c.args[0])
    return it and consume_any(E, st, it, lambda s, v: callf(E, s, c.args[1], [v]), SOME, NONE)
@model(IT+'find_map')
def it_find_map(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it is None: return None
    def body(s, v):
        out = []
        for s2, k, r in callf(E, s, c.args[1], [v]):
            if k != 'ret': out.append((s2, 'panic', r)); continue
            for s3, va, pl in forkv(E, s2, r, OPT):
                out.append((s3, 'brk', SOME(pl)) if va == 'Some' else (s3, 'cont', None))
        return out
    return consume(E, st, it, body, lambda s: [(s, NONE)])
@model(IT+'for_each')
def it_for_each(E, st, c):
    it = as_iter(E, st, c.args[0])
    return it and consume(E, st, it, lambda s, v: [(s2, 'cont' if k == 'ret' else 'panic', r) for s2, k, r in callf(E, s, c.args[1], [v])], lambda s: [(s, UNIT)])

def collect_into(E, st, it, key, addf):
    def body(s, v):
        s.cells[key] = addf(s.cells[key], E.summ(s, v))
        return [(s, 'cont', None)]
    return consume(E, st, it, body, lambda s: [(s, s.cells.pop(key))])
def acc_key(E):
    E.fid += 1
    return (E.fid, 'acc')
@model(IT+'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def it_collect(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it is None: return None
    ty = c.dt
    if c.rpath in E.p.bodies: return None
    im = E.find_impl('core::iter::traits::collect::FromIterator', (ty,)) if ty and ty[0] == 'adt' else None
    if im and im[0]['items'].get('from_iter') in E.p.bodies: return E.run_body(st, im[0]['items']['from_iter'], [it], im[1])
    key = acc_key(E)
    st.cells[key] = ('arr', ())
    if ty and ty[0] == 'adt' and ty[1] in (OPT, RES):
        # stops at the first None/Err, which is the result
        add = adder(ty[2][0])
        def body(s, v):
            out = []
            for s2, va, pl in forkv(E, s, v, ty[1]):
                if va in ('Ok', 'Some'):
                    s2.cells[key] = add(s2.cells[key], E.summ(s2, pl)); out.append((s2, 'cont', None))
                else: out.append((s2, 'brk', NONE if va == 'None' else ERR(pl)))
            return out
        wrap = SOME if ty[1] == OPT else OK
        return consume(E, st, it, body, lambda s: [(s, wrap(s.cells.pop(key)))])
    return collect_into(E, st, it, key, adder(ty))
def adder(ty):
    n = ty[1] if ty and ty[0] == 'adt' else None
    if n in ('alloc::collections::btree::set::BTreeSet', 'std::collections::hash::set::HashSet'): return lambda a, v: ('sadd', a, v)
    if n in ('alloc::collections::btree::map::BTreeMap', 'std::collections::hash::map::HashMap', 'dashmap::DashMap'):
        return lambda a, v: ('mput', a, project(v, ('f', '0')), project(v, ('f', '1')))
    return f_push
@model('core::iter::traits::collect::Extend::extend')
def it_extend(E, st, c):
    src = c.args[1]
    if src[0] != 'iter':
        x = E.val(st, content(E, st, src))
        src = ('iter', x, ())
    dst = c.args[0]
    ty = c.targs[0] if c.targs else None
    add = adder(ty)
    n = add(('arr', ()), TUP(('p', 0), ('p', 1)))[0]
    def body(s, v):
        if n == 'mput': mutate(E, s, dst, 'mput', [project(v, ('f', '0')), project(v, ('f', '1'))], lambda a, k, x: ('mput', a, k, x))
        elif n == 'sadd': mutate(E, s, dst, 'sadd', [v], f_sadd)
        else: mutate(E, s, dst, 'push', [v], f_push)
        return [(s, 'cont', None)]
    return consume(E, st, src, body, lambda s: [(s, UNIT)])
@model(IT+'fold')
def it_fold(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it is None: return None
    key = acc_key(E); st.cells[key] = c.args[1]
    def body(s, v):
        out = []
        for s2, k, r in callf(E, s, c.args[2], [s.cells[key], v]):
            if k == 'ret':
                s2.cells[key] = r; out.append((s2, 'cont', None))
            else: out.append((s2, 'panic', r))
        return out
    return consume(E, st, it, body, lambda s: [(s, s.cells.pop(key))])
@model(IT+'sum', IT+'product')
def it_sum(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it is None or not c.dt or c.dt[0] not in ('int', 'uint'): return None
    op = 'Add' if c.path.endswith('sum') else 'Mul'
    key = acc_key(E); st.cells[key] = INT(0 if op == 'Add' else 1)
    def body(s, v):
        s.cells[key] = E.bin1(op, s.cells[key], E.val(s, v))
        return [(s, 'cont', None)]
    return consume(E, st, it, body, lambda s: [(s, s.cells.pop(key))])
@model(IT+'partition')
def it_partition(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it is None or not c.dt or c.dt[0] not in ('tup', 'tuple'): return None
    k1, k2 = acc_key(E), acc_key(E)
    st.cells[k1] = ('arr', ()); st.cells[k2] = ('arr', ())
    add = adder(c.dt[1][0])
    def body(s, v):
        out = []
        for s2, k, r in callf(E, s, c.args[1], [v]):
            if k != 'ret': out.append((s2, 'panic', r)); continue
            for s3, b in E.fork_bool(s2, r):
                kk = k1 if b else k2
                s3.cells[kk] = add(s3.cells[kk], E.summ(s3, v)); out.append((s3, 'cont', None))
        return out
    def fin(s):
        a = s.cells.pop(k1); b = s.cells.pop(k2)
        return [(s, TUP(a, b))]
    return consume(E, st, it, body, fin)
@model(IT+'try_for_each')
def it_try(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it is None or not c.dt or c.dt[0] != 'adt' or c.dt[1] not in (OPT, RES): return None
    def body(s, v):
        out = []
        for s2, k, r in callf(E, s, c.args[1], [v]):
            if k != 'ret': out.append((s2, 'panic', r)); continue
            for s3, va, pl in forkv(E, s2, r, c.dt[1]):
                out.append((s3, 'cont', None) if va in ('Ok', 'Some') else (s3, 'brk', NONE if va == 'None' else ERR(pl)))
        return out
    return consume(E, st, it, body, lambda s: [(s, (OK if c.dt[1] == RES else SOME)(UNIT))])
@model(IT+'try_fold')
def it_tryfold(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it is None or not c.dt or c.dt[0] != 'adt' or c.dt[1] not in (OPT, RES): return None
    key = acc_key(E); st.cells[key] = c.args[1]
    def body(s, v):
        out = []
        for s2, k, r in callf(E, s, c.args[2], [s.cells[key], v]):
            if k != 'ret': out.append((s2, 'panic', r)); continue
            for s3, va, pl in forkv(E, s2, r, c.dt[1]):
                if va in ('Ok', 'Some'): s3.cells[key] = pl; out.append((s3, 'cont', None))
                else: out.append((s3, 'brk', NONE if va == 'None' else ERR(pl)))
        return out
    return consume(E, st, it, body, lambda s: [(s, (OK if c.dt[1] == RES else SOME)(s.cells.pop(key)))])
@model('alloc::vec::Vec::extend_from_slice', 'smallvec::SmallVec::extend_from_slice')
def ext_slice(E, st, c):
    x = E.val(st, content(E, st, c.args[1]))
    return consume(E, st, ('iter', x, ()), lambda s, v: (mutate(E, s, c.args[0], 'push', [v], f_push), [(s, 'cont', None)])[1], lambda s: [(s, UNIT)])
for ity in ('u8', 'u16', 'u32', 'u64', 'usize', 'u128'):
    def _cs(E, st, c):
        a, b = E.val(st, c.args[0]), E.val(st, c.args[1])
        return [(s, 'ret', NONE if x else SOME(E.bin1('Sub', a, b))) for s, x in E.fork_bool(st, cmp_term('Lt', a, b))]
    def _ss(E, st, c):
        a, b = E.val(st, c.args[0]), E.val(st, c.args[1])
        return [(s, 'ret', INT(0) if x else E.bin1('Sub', a, b)) for s, x in E.fork_bool(st, cmp_term('Lt', a, b))]
    MODELS['<%s>::checked_sub' % ity] = _cs; MODELS['<%s>::saturating_sub' % ity] = _ss
@model(IT+'count')
def it_count(E, st, c):
    it = as_iter(E, st, c.args[0])
    if it is None: return None
    if not it[2]: return R(st, length(E, st, it[1]))
    key = acc_key(E); st.cells[key] = INT(0)
    def body(s, v):
        s.cells[key] = E.bin1('Add', s.cells[key], INT(1))
        return [(s, 'cont', None)]
    return consume(E, st, it, body, lambda s: [(s, s.cells.pop(key))])

@model('alloc::vec::Vec::retain', 'alloc::vec::Vec::retain_mut', BM+'retain', 'alloc::collections::btree::set::BTreeSet::retain', DM+'retain', 'smallvec::SmallVec::retain')
def retain(E, st, c):
    v = E.val(st, content(E, st, c.args[0])) if not c.path.startswith(DM) else smap(E, st, c.args[0])
    key = acc_key(E); st.cells[key] = ('arr', ())
    two = c.path.startswith(BM) or c.path.startswith(DM)
    def body(s, x):
        a = [project(x, ('f', '0')), project(x, ('f', '1'))] if two else [x]
        out = []
        for s2, k, r in callf(E, s, c.args[1], a):
            if k != 'ret': out.append((s2, 'panic', r)); continue
            for s3, b in E.fork_bool(s2, r):
                if b: s3.cells[key] = ('push', s3.cells[key], x)
                out.append((s3, 'cont', None))
        return out
    def fin(s):
        kept = s.cells.pop(key)
        mutate(E, s, c.args[0], 'retain', [kept], lambda v, k: k)
        return [(s, UNIT)]
    return consume(E, st, ('iter', v, ()), body, fin)

# ---- task-locals, tasks, futures
@model('tokio::task::task_local::LocalKey::with', 'std::thread::local::LocalKey::with')
def lk_with(E, st, c): return callf(E, st, c.args[1], [E.task_local(E.deref(st, c.args[0]))])
@model('tokio::task::task_local::LocalKey::try_with', 'std::thread::local::LocalKey::try_with')
def lk_try(E, st, c):
    out = []
    k = E.task_local(E.deref(st, c.args[0]))
    for s, b in E.fork_bool(st, ('in_scope', k)):
        if b: out += wrapres(callf(E, s, c.args[1], [k]), OK)
        else: out.append((s, 'ret', ERR(('access_error',))))
    return out
@model('tokio::task::task_local::LocalKey::scope')
def lk_scope(E, st, c): return R(st, ('scoped', E.deref(st, c.args[0]), c.args[1], c.args[2]))
@model('pingora_timeout::fast_timeout::fast_timeout', 'tokio::time::timeout::timeout', 'pingora_timeout::timeout')
def timeout(E, st, c): return R(st, ('timeout', E.val(st, c.args[0]), c.args[1]))
@model('core::future::poll_fn::poll_fn')
def poll_fn(E, st, c): return R(st, ('pollfn', c.args[0]))
@model('core::future::get_context')
def getctx(E, st, c): return R(st, ('ctx',))
@model('futures_util::future::future::FutureExt::poll_unpin')
def poll_unpin(E, st, c): return poll(E, st, c)
@model('core::future::future::Future::poll')
def poll(E, st, c):
    v = c.args[0]
    if c.rpath in E.p.bodies and E.p.bodies[c.rpath].key.endswith('::poll'):
        # hand-written Future
        r = E.inline(st, c.rpath, c.rargs, c.args)
        return r
    fv = E.deref(st, v)
    while fv[0] == 'ref': fv = E.deref(st, fv)
    return wrapres(poll_value(E, st, fv), READY)

def poll_value(E, st, f):
    """run a future to completion: [(st, kind, value)]"""
    f = E.deref(st, f)
    if f[0] == 'cor': return E.run_body(st, f[1], [f, ('ctx',)], dict(f[3]))
    if f[0] == 'fut':
        waiting(E, st, f)
        r = E.opaque_effect(st, f[1], list(f[2:]), E.mutsig.get(f[1], ()))
        disturb(E, st, '*')
        return R(st, r)
    if f[0] == 'scoped':
        E.task += 1
        loc = E.task_local(f[1])
        pv = E.val(st, f[2])
        E.event(st, ('enter', loc, pv))
        out = []
        # plain fields of the scoped value are known inside the scope (cells may be changed by anyone in it)
        own = {}
        if pv[0] == 'adt' and pv[1] in E.p.adts:
            for n, ty in E.p.adts[pv[1]]['variants'][pv[2]]['fields'] if pv[2] in E.p.adts[pv[1]]['variants'] else ():
                if 'Cell' not in repr(ty): own[('f', loc, n)] = dict(pv[3]).get(n)
        own = {k: v for k, v in own.items() if v is not None}
        saved = {k: st.heap.get(k) for k in own}
        st.heap.update(own)
        fixed = E.fixed; E.fixed = fixed | set(own)
        try: res = poll_value(E, st, f[3])
        finally: E.task -= 1; E.fixed = fixed
        for s, k, v in res:
            for l in own:
                if saved[l] is None: s.heap.pop(l, None)
                else: s.heap[l] = saved[l]
            E.event(s, ('leave', loc))
            out.append((s, k, v))
        return out
    if f[0] == 'timeout':
        inner = E.summ(st, awaited(E, st, f[2]))
        waiting(E, st, None)
        n = E.count(st, ('timeout', f[1], inner))
        t = ('timer', f[1], inner) if n == 0 else ('timer', f[1], inner, n)
        out = []
        a = st; b = st.copy()
        a.g[('elapsed', t)] = ('+', frozenset((False,))); b.g[('elapsed', t)] = ('+', frozenset((True,)))
        E.event(a, ('within', f[1]))
        out += wrapres(poll_value(E, a, f[2]), OK)
        E.event(b, ('timedout', f[1], inner)); disturb(E, b, '*')
        out.append((b, 'ret', ERR(('elapsed',))))
        return out
    if f[0] == 'pollfn': return select(E, st, f[1])
    if f[0] == 'adt':
        im = E.find_impl('core::future::future::Future', (('adt', f[1], ()),)) or next(((r, {}) for r in E.p.impl_by_trait.get('core::future::future::Future', ()) if r['self'][0] == 'adt' and r['self'][1] == f[1]), None)
        if im and im[0]['items'].get('poll') in E.p.bodies:
            E.fid += 1
            key = (E.fid, 'fut')
            st.cells[key] = f
            out = []
            for s, k, v in E.run_body(st, im[0]['items']['poll'], [('ref', key, ()), ('ctx',)], im[1]):
                s.cells.pop(key, None)
                if k == 'ret' and v[0] == 'adt' and v[2] == 'Ready': out.append((s, k, v[3][0][1]))
                elif k == 'panic': out.append((s, k, v))
            return out
    fv = E.summ(st, f)
    waiting(E, st, f)
    E.event(st, ('await', fv)); disturb(E, st, '*')
    n = E.count(st, ('out', fv))
    return R(st, ('out', fv) if n == 0 else ('out', fv, n))

def waiting(E, st, f):
    if E.waits is not None: E.waits.append(f and (tuple(st.ev), dict(st.g), f))

def awaited(E, st, f):
    """a future that does nothing before its only wait is, for whoever gives up on it, what it waits for"""
    if E.deref(st, f)[0] != 'cor': return f
    keep, E.waits = E.waits, []
    s = st.copy(); before = tuple(s.ev), dict(s.g)
    try:
        poll_value(E, s, f)
        w = E.waits
    finally: E.waits = keep
    return w[0][2] if len(w) == 1 and w[0] and w[0][:2] == before and w[0][2][0] == 'fut' and not mentions_cell(w[0][2]) else f

def mentions_cell(t):
    return isinstance(t, tuple) and (t[:1] in (('ref',), ('cell',)) or any(mentions_cell(x) for x in t))

def select(E, st, clo):
    """tokio::select!: any branch may complete first"""
    waiting(E, st, None)
    if clo[0] != 'clo': raise Unmodelled('poll_fn')
    B = E.p.bodies[clo[1]]
    futs = None; key = None
    for up in clo[2]:
        x = E.val(st, up)
        if x[0] == 'tup' and len(x[1]) >= 1 and all(y[0] in ('cor', 'fut', 'call', 'timeout', 'scoped', 'ret', 'arg', 'f') for y in x[1]):
            futs = up; tup = E.deref(st, up)
            tup = tup if tup[0] == 'tup' else x
    if futs is None: raise Unmodelled('select! shape')
    n = len(tup[1])
    # the output enum of this select!
    out = []
    c = E.count(st, ('select',))
    if not any('thread_rng_n' in repr(T) for _, T, _ in B.blocks): E.event(st, ('biased',))    # the first branches can starve the others
    for i in range(n):
        s = st.copy()
        s.g[('is', ('select', c))] = ('+', frozenset((i,))); disturb(E, s, '*')
        for s2, k, v in poll_value(E, s, tup[1][i]):
            out.append((s2, k, ('adt', 'Out', '_%d' % i, (('0', v),)) if k == 'ret' else v))
    return out

@model('tokio::task::spawn::spawn', 'tokio::task::spawn_local', 'tokio::runtime::handle::Handle::spawn')
def spawn(E, st, c):
    t = E.summ(st, c.args[-1])
    E.event(st, ('spawn', t))
    n = E.count(st, ('task',))
    return R(st, ('task', n))
@model('tokio::task::blocking::spawn_blocking')
def spawnb(E, st, c):
    t = E.summ(st, c.args[-1])
    E.event(st, ('spawn_blocking', t))
    n = E.count(st, ('task',))
    return R(st, ('task', n))
@model('tokio::runtime::runtime::Runtime::block_on', 'tokio::runtime::handle::Handle::block_on')
def block_on(E, st, c):
    E.event(st, ('block_on',))
    return poll_value(E, st, c.args[1])
@model('std::panic::catch_unwind')
def catch_unwind(E, st, c):
    f = c.args[0]
    if f[0] == 'adt': f = f[3][0][1]
    n = E.count(st, ('unwind',))
    out = []
    for s, k, v in callf(E, st, f, []):
        if k == 'panic':
            out.append((s, 'ret', ERR(('payload', n))))
        else:
            s2 = s.copy()
            s.g[('panicked', n)] = ('+', frozenset((False,))); s2.g[('panicked', n)] = ('+', frozenset((True,)))
            out.append((s, 'ret', OK(v)))
            out.append((s2, 'ret', ERR(('payload', n))))
    return out

# ---- channels
@model('flume::Sender::send')
def fsend(E, st, c):
    ch = E.val(st, c.args[0]); m = E.summ(st, c.args[1])
    E.event(st, ('send', ch, m))
    return R(st, ('ret', 'send', ch, m))
@model('tokio::sync::oneshot::Sender::send')
def osend(E, st, c):
    ch = E.val(st, c.args[0]); m = E.summ(st, c.args[1])
    E.event(st, ('oneshot', ch, m))
    return R(st, ('ret', 'oneshot.send', ch, m))
@model('flume::unbounded', 'flume::bounded', 'tokio::sync::oneshot::channel')
def chan(E, st, c):
    kind = 'oneshot' if 'oneshot' in c.path else 'chan'
    n = E.count(st, (kind,))
    a = tuple(E.val(st, x) for x in c.args)
    return R(st, TUP(('tx', kind, n) + a, ('rx', kind, n) + a))

# ---- clocks, ids, numbers
def now_term(E, st):
    v = st.ver.get('*', 0)
    n = E.count(st, ('now', v))
    return ('now', n, v) if v else ('now', n)
@model('std::time::Instant::now')
def now(E, st, c):
    return R(st, now_term(E, st))
@model('std::time::Instant::elapsed')
def elapsed(E, st, c):
    return R(st, ('bin', 'Sub', now_term(E, st), E.val(st, c.args[0])))
@model('std::time::Instant::duration_since', 'std::time::Instant::saturating_duration_since')
def dsince(E, st, c): return instant_diff(E, st, E.val(st, c.args[0]), E.val(st, c.args[1]))
def instant_diff(E, st, a, b):
    if a[0] == 'now': return R(st, ('bin', 'Sub', a, b))
    return [(s, 'ret', ('bin', 'Sub', a, b) if x else ('dur', 0)) for s, x in E.fork_bool(st, cmp_term('Lt', b, a))]
@model('core::time::Duration::from_secs')
def fsecs(E, st, c):
    v = c.args[0]
    return R(st, ('dur', v[1] * 1000) if v[0] == 'int' else ('secs', E.val(st, v)))
@model('core::time::Duration::from_millis')
def fms(E, st, c):
    v = c.args[0]
    return R(st, ('dur', v[1]) if v[0] == 'int' else ('millis', E.val(st, v)))
@model('core::num::nonzero::NonZero::new')
def nz(E, st, c):
    v = E.val(st, c.args[0])
    return [(s, 'ret', NONE if b else SOME(v)) for s, b in E.fork_bool(st, mk_eq(v, INT(0)))]
@model('core::sync::atomic::Atomic::fetch_add', 'core::sync::atomic::Atomic::fetch_sub', 'core::sync::atomic::Atomic::store', 'core::sync::atomic::Atomic::swap')
def fadd(E, st, c):
    n = c.path.rpartition('::')[2]
    a = (E.val(st, c.args[0]), E.val(st, c.args[1]))
    E.event(st, (n,) + a)
    k = E.count(st, (n,) + a)
    v = ver(E, st, a[0]); bump(E, st, a[0])
    return R(st, (n,) + a + (k,) + ((v,) if v else ()))
@model('core::sync::atomic::Atomic::load')
def aload(E, st, c):
    S = E.val(st, c.args[0]); v = ver(E, st, S)
    return R(st, ('load', S) + ((v,) if v else ()))

# ---- everything else
EFFECT = ('tokio::runtime::task::join::JoinHandle::abort', 'std::panicking::set_hook', 'std::panicking::take_hook', 'std::sync::once::Once::call_once',
          'arc_swap::ArcSwapAny::store', 'arc_swap::ArcSwapAny::swap', 'arc_swap::ArcSwapAny::rcu', 'std::process::exit', 'tokio::net::tcp::stream::TcpStream::set_nodelay',
          'core::fmt::Formatter::write_fmt', 'core::fmt::Formatter::write_str', 'core::fmt::Write::write_fmt', 'core::fmt::Write::write_str', 'bytes::buf::buf_mut::BufMut::put_u32_le', 'bytes::buf::buf_impl::Buf::advance', 'bytes::bytes_mut::BytesMut::reserve',
          'bytes::bytes_mut::BytesMut::resize', 'bytes::bytes_mut::BytesMut::truncate', 'bytes::bytes_mut::BytesMut::split_to',
          '<[T]>::copy_from_slice', 'digest::mac::Mac::update', 'bincode::features::impl_std::encode_into_std_write',
          'tokio::sync::semaphore::Semaphore::add_permits', 'tokio::sync::semaphore::Semaphore::close', 'tokio::sync::semaphore::SemaphorePermit::forget', 'tokio::sync::semaphore::OwnedSemaphorePermit::forget',
          'flume::Sender::try_send', 'flume::Receiver::try_recv', 'tokio::sync::semaphore::Semaphore::try_acquire', 'tokio::sync::semaphore::Semaphore::try_acquire_many', 'tokio::sync::semaphore::Semaphore::try_acquire_owned', 'tokio::sync::semaphore::Semaphore::try_acquire_many_owned')

ACTS = ('tokio::', 'flume::', 'dashmap::', 'std::sync::', 'arc_swap::', 'std::process::', 'std::fs::', 'std::net::', 'std::io::', 'std::env::', 'std::thread::', 'core::cell::', 'core::sync::', 'once_cell::', 'futures_util::')
INERT = re.compile(r'(new|const_new|current|try_current|metrics|num_\w+|load\w*|len|count|capacity|is_\w+|has_\w+|accept|bind|connect|recv\w*|acquire\w*|sleep\w*|interval\w*|build|enable_\w+|worker_threads|ctrl_c|signal|terminate|interrupt|available_\w+|local_addr|peer_addr|clone|get|get_ref|with_\w+|from_\w+|as_\w+|into_\w+|key|value|iter|next|split|send|send_all|send_async|id|map|filter|kind|elapsed|subsec_\w+|ready|pending|join\w*|notified|changed|closed|yield_now|reason)$')
def acts(c):
    """unknown calls taken to have an effect: nothing comes back from them, or they belong to the runtime, channel and lock crates and do not merely make or read a value"""
    p = c.path
    if p.startswith(('tracing::', 'tracing_core::', 'core::hint', 'core::panicking', 'core::intrinsics')): return False
    if c.dt in (('tup', ()), ('tuple', ())): return True
    q = p.lstrip('<&')
    return q.startswith(ACTS) and not INERT.match(p.rpartition('::')[2])

def default(E, st, c):
    name = c.path
    n = strip_modules(name) if '::' in name else name
    if n.startswith('<'): n = name
    E.unmodelled[name] = E.unmodelled.get(name, 0) + 1
    tr = c.const.get('trait') if c.const else None
    if tr and tr.startswith(('hydra::', 'hydra_websockets::')):
        # a user-supplied implementation
        key = strip_modules(name)
        if c.dt and c.dt[0] == 'alias': return R(st, ('fut', key) + tuple(c.args))
        return R(st, E.opaque_effect(st, key, c.args, c.mut))
    if name in EFFECT or acts(c) or any(c.args[i][0] in ('arg', 'f', 'as', 'idx', 'key', 'get', 'mapval') for i in c.mut) or (any(a[0] == 'ref' and E.read(st, ('cell', a[1], a[2]))[0] not in ('call', 'out', 'f', 'arg', 'ret', 'as', 'rx', 'tx', 'after', 'iter') for a in c.args)):
        r = E.effect(st, n, [E.summ(st, a) for a in c.args])
        if n.startswith('ArcSwapAny::'): bump(E, st, E.val(st, c.args[0]))
        E.havoc(st, n, c.args, c.mut)
        return R(st, r)
    if E.trackheld and n == 'ArcSwapAny::load': E.event(st, ('read', E.summ(st, c.args[0])))
    if n.startswith('ArcSwapAny::load'):
        S = E.val(st, c.args[0]); v = ver(E, st, S)
        return R(st, ('call', n, E.summ(st, c.args[0])) + ((('#', v),) if v else ()))
    return R(st, ('call', n) + tuple(E.summ(st, a) for a in c.args))

@model('hydra::pid::Pid::id', 'hydra::reference::Reference::id')
def pid_id(E, st, c):
    v = E.val(st, c.args[0])
    if v[0] == 'adt': return R(st, dict(v[3])['0'])
    return R(st, ('id', v))
