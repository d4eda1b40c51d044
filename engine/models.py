"""Models of the functions outside the crate: what they do to the abstract state and which event they are.

Every model reports what happens to the rules (rules.py), which judge it.
"""
from terms import *
import terms
from mir import tsubst

ORD = ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst']
ACQ = ('Acquire', 'AcqRel', 'SeqCst')
REL = ('Release', 'AcqRel', 'SeqCst')
H = {}


def model(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def lookup(p, rp):
    # the resolved path wins, so that a local implementation is analysed
    if rp is not None and rp in H:
        return H[rp]
    if rp is not None and rp != p and not rp.endswith('{closure}') and rp.startswith(('std::ops::ControlFlow::', 'raw::', 'map::', 'set::', '*ptr::unpack', 'serde_impls::', '<')):
        return None
    return H.get(p)


def ret(v, st):
    return [('return', v, st)]


def ordn(v):
    if v.op == 'agg' and v.a[0] == 'std::sync::atomic::Ordering':
        return ORD[v.a[1]]
    return '?'


def some(v):
    return agg('std::option::Option', 1, v)


NONE = agg('std::option::Option', 0)


def ok(v):
    return agg('std::result::Result', 0, v)


def err(v):
    return agg('std::result::Result', 1, v)


# ------------------------------------------------------------------ pointers

def po(base, off):
    if off is ZERO:
        return base
    if base.op == 'po':
        return po(base.a[0], add(base.a[1], off))
    return mk('po', base, off)


def elem_size(ref):
    l = ref.lay
    if l and l[-1]:
        return l[-1][0]
    return None


@model('*ptr::add', '*ptr::wrapping_add', '*ptr::offset')
def ptr_add(e, fr, st, ref, subs, a):
    sz = elem_size(ref)
    if sz is None:
        # layout depends on a type parameter: size is symbolic
        return ret(po(a[0], mul(a[1], mk('app', 'size_of', mk('kst', str(subs[-1:]))))), st)
    return ret(po(a[0], mul(a[1], I(sz))), st)


@model('*ptr::byte_add')
def ptr_byte_add(e, fr, st, ref, subs, a):
    return ret(po(a[0], a[1]), st)


@model('*ptr::addr', '*ptr::expose_provenance')
def ptr_addr(e, fr, st, ref, subs, a):
    return ret(a[0], st)


@model('*ptr::cast', '*ptr::cast_mut', '*ptr::cast_const', 'std::sync::atomic::Atomic::get_mut', 'std::sync::atomic::Atomic::as_ptr',
       'std::sync::atomic::Atomic::new', 'std::sync::atomic::Atomic::into_inner', 'std::mem::MaybeUninit::new',
       'std::mem::ManuallyDrop::new', 'std::mem::ManuallyDrop::into_inner',
       'std::sync::PoisonError::into_inner', 'std::convert::identity', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut',
       'std::mem::MaybeUninit::as_mut_ptr', 'std::mem::MaybeUninit::as_ptr', 'std::convert::Into::into', 'std::convert::From::from',
       'std::iter::IntoIterator::into_iter', 'std::mem::MaybeUninit::assume_init', 'std::sync::Mutex::new')
def ident(e, fr, st, ref, subs, a):
    return ret(a[0], st)


@model('*ptr::is_null')
def is_null(e, fr, st, ref, subs, a):
    return ret(eq(a[0], ZERO), st)


@model('*ptr::as_ref', '*ptr::as_mut', 'std::ptr::NonNull::new')
def ptr_as_ref(e, fr, st, ref, subs, a):
    v = a[0]
    while v.op == 'box':
        v = v.a[0]
    s2 = st.copy()
    out = []
    if assume(st, eq(v, ZERO), False):
        if ref.name != 'new' and not (ref.p or '').endswith('::new'):
            loc = e.deref(fr, st, v)
            ty = subs[0] if subs else ('other',)
            e.rules.deref(fr, st, {'ty': ty}, loc, 'ref')
        out.append(('return', some(v), st))
    if assume(s2, eq(v, ZERO), True):
        out.append(('return', NONE, s2))
    return out


@model('*ptr::map_addr')
def map_addr(e, fr, st, ref, subs, a):
    return call_value(e, fr, st, a[1], [a[0]])


@model('std::ptr::null_mut', 'std::ptr::null')
def null(e, fr, st, ref, subs, a):
    return ret(ZERO, st)


@model('std::ptr::eq')
def ptr_eq(e, fr, st, ref, subs, a):
    return ret(eq(a[0], a[1]), st)


@model('std::mem::size_of')
def size_of(e, fr, st, ref, subs, a):
    if ref.lay and ref.lay[-1]:
        return ret(I(ref.lay[-1][0]), st)
    return ret(mk('app', 'size_of', mk('kst', str(subs[-1:]))), st)


@model('std::mem::align_of')
def align_of(e, fr, st, ref, subs, a):
    if ref.lay and ref.lay[-1]:
        return ret(I(ref.lay[-1][1]), st)
    return ret(mk('app', 'align_of', mk('kst', str(subs[-1:]))), st)


@model('std::ptr::read', '*ptr::read')
def ptr_read(e, fr, st, ref, subs, a):
    loc = e.deref(fr, st, a[0])
    e.rules.access(fr, st, loc, 'read')
    v = e.read_loc(fr, st, loc)
    e.rules.ptr_read(fr, st, loc, v)
    return ret(v, st)


@model('std::mem::MaybeUninit::assume_init_read')
def assume_init_read(e, fr, st, ref, subs, a):
    loc = e.deref(fr, st, a[0])
    e.rules.access(fr, st, loc, 'read')
    v = e.read_loc(fr, st, loc)
    e.rules.take_init(fr, st, loc, v)
    e.write_loc(fr, st, loc, UNINIT)
    return ret(v, st)


@model('std::ptr::write', '*ptr::write')
def ptr_write(e, fr, st, ref, subs, a):
    loc = e.deref(fr, st, a[0])
    e.rules.access(fr, st, loc, 'write')
    e.write_loc(fr, st, loc, a[1])
    return ret(UNIT, st)


@model('*ptr::write_bytes', 'std::ptr::write_bytes')
def write_bytes(e, fr, st, ref, subs, a):
    e.rules.write_bytes(fr, st, a[0], a[1], mul(a[2], I(elem_size(ref) or 1)))
    return ret(UNIT, st)


@model('std::mem::MaybeUninit::uninit')
def mu_uninit(e, fr, st, ref, subs, a):
    return ret(UNINIT, st)


@model('std::mem::MaybeUninit::write')
def mu_write(e, fr, st, ref, subs, a):
    loc = e.deref(fr, st, a[0])
    e.write_loc(fr, st, loc, a[1])
    return ret(a[0], st)


@model('std::mem::replace', '*ptr::replace')
def mem_replace(e, fr, st, ref, subs, a):
    loc = e.deref(fr, st, a[0])
    v = e.read_loc(fr, st, loc)
    e.write_loc(fr, st, loc, a[1])
    return ret(v, st)


@model('std::mem::swap')
def mem_swap(e, fr, st, ref, subs, a):
    l0, l1 = e.deref(fr, st, a[0]), e.deref(fr, st, a[1])
    v0, v1 = e.read_loc(fr, st, l0), e.read_loc(fr, st, l1)
    e.write_loc(fr, st, l0, v1)
    e.write_loc(fr, st, l1, v0)
    return ret(UNIT, st)


@model('std::mem::drop')
def mem_drop(e, fr, st, ref, subs, a):
    drop_value(e, fr, st, a[0], subs[0] if subs else ('other',))
    return ret(UNIT, st)


@model('std::mem::forget')
def mem_forget(e, fr, st, ref, subs, a):
    e.rules.forgotten(fr, st, a[0], subs[0] if subs else ('other',))
    return ret(UNIT, st)


@model('std::ptr::drop_in_place')
def drop_in_place(e, fr, st, ref, subs, a):
    loc = e.deref(fr, st, a[0])
    e.rules.access(fr, st, loc, 'write')
    e.rules.drop_in_place(fr, st, a[0], subs[0] if subs else ('other',))
    return ret(UNIT, st)


# ------------------------------------------------------------------ boxes and allocations

OWN = mk('pf', '$', 0, 0, '$own')


def own(st, p):
    v = st.mem.get((p, (OWN,)))
    return v.a[0] if v is not None else None


def set_own(st, p, s):
    st.mem[(p, (OWN,))] = mk('tag', s)


@model('std::boxed::Box::new')
def box_new(e, fr, st, ref, subs, a):
    ty = subs[0] if subs else ('other',)
    kind = ty[1] if ty[0] == 'adt' else 'box'
    p = e.fresh(fr, st, 'new', 'box', kind)
    st.mem[(p, ())] = a[0]
    set_own(st, p, 'box')
    return ret(mk('box', p), st)


@model('std::boxed::Box::into_raw', 'std::boxed::Box::leak')
def box_into_raw(e, fr, st, ref, subs, a):
    p = a[0].a[0] if a[0].op == 'box' else a[0]
    e.rules.into_raw(fr, st, p)
    if own(st, p):
        set_own(st, p, 'raw')
    return ret(p, st)


@model('std::boxed::Box::from_raw')
def box_from_raw(e, fr, st, ref, subs, a):
    p = a[0]
    e.rules.from_raw(fr, st, p, subs[0] if subs else ('other',))
    return ret(mk('box', p), st)


@model('std::boxed::Box::drop')
def box_drop(e, fr, st, ref, subs, a):
    loc = e.deref(fr, st, a[0])
    v = e.read_loc(fr, st, loc)
    if v.op == 'box':
        v = v.a[0]
    e.rules.free(fr, st, v, subs[0] if subs else ('other',))
    return ret(UNIT, st)


@model('std::alloc::alloc_zeroed', 'std::alloc::alloc')
def alloc(e, fr, st, ref, subs, a):
    p = e.fresh(fr, st, 'new', 'alloc', 'raw')
    e.rules.allocated(fr, st, p, a[0], ref.name == 'alloc_zeroed')
    return ret(p, st)


@model('std::alloc::dealloc')
def dealloc(e, fr, st, ref, subs, a):
    e.rules.deallocated(fr, st, a[0], a[1])
    return ret(UNIT, st)


@model('std::alloc::Layout::from_size_align')
def layout_new(e, fr, st, ref, subs, a):
    s2 = st.copy()
    return [('return', ok(agg('layout', 0, a[0], a[1])), st),
            ('return', err(mk('kst', 'LayoutError')), s2)]


@model('std::alloc::Layout::from_size_align_unchecked')
def layout_newu(e, fr, st, ref, subs, a):
    return ret(agg('layout', 0, a[0], a[1]), st)


@model('std::alloc::handle_alloc_error', 'std::process::abort')
def noreturn(e, fr, st, ref, subs, a):
    return []


# ------------------------------------------------------------------ integers

@model('usize::checked_add')
def checked_add(e, fr, st, ref, subs, a):
    s2 = st.copy()
    r = add(a[0], a[1])
    o = bapp('ovf', 'add', a[0], a[1])
    out = []
    if assume(st, o, False):
        out.append(('return', some(r), st))
    if assume(s2, o, True):
        out.append(('return', NONE, s2))
    return out


@model('usize::checked_mul')
def checked_mul(e, fr, st, ref, subs, a):
    s2 = st.copy()
    r = mul(a[0], a[1])
    o = bapp('ovf', 'mul', a[0], a[1])
    out = []
    if assume(st, o, False):
        out.append(('return', some(r), st))
    if assume(s2, o, True):
        out.append(('return', NONE, s2))
    return out


@model('usize::checked_sub')
def checked_sub(e, fr, st, ref, subs, a):
    s2 = st.copy()
    out = []
    if assume(st, lt(a[0], a[1]), False):
        out.append(('return', some(sub(a[0], a[1])), st))
    if assume(s2, lt(a[0], a[1]), True):
        out.append(('return', NONE, s2))
    return out


@model('usize::saturating_add', 'usize::saturating_mul')
def saturating(e, fr, st, ref, subs, a):
    if a[0].op == 'int' and a[1].op == 'int':
        return ret(I(min(M64, a[0].a[0] + a[1].a[0] if ref.name.endswith('add') else a[0].a[0] * a[1].a[0])), st)
    return ret(mk('app', 'sat', add(a[0], a[1]) if ref.name.endswith('add') else mul(a[0], a[1])), st)


@model('usize::checked_next_power_of_two')
def cnpow2(e, fr, st, ref, subs, a):
    (k, v, s), = npow2(e, fr, st, ref, subs, a)
    s2 = s.copy()
    o = bapp('ovf', 'npow2', a[0])
    out = []
    if assume(s, o, False):
        out.append(('return', some(v), s))
    if assume(s2, o, True):
        out.append(('return', NONE, s2))
    return out


@model('usize::wrapping_add')
def wrapping_add(e, fr, st, ref, subs, a):
    return ret(add(a[0], a[1]), st)


@model('usize::saturating_sub')
def saturating_sub(e, fr, st, ref, subs, a):
    (k, m, s), = imax(e, fr, st, ref, (), list(a[:2]))
    return ret(sub(m, a[1]), s)


@model('usize::wrapping_sub')
def wrapping_sub(e, fr, st, ref, subs, a):
    return ret(sub(a[0], a[1]), st)


@model('usize::wrapping_mul')
def wrapping_mul(e, fr, st, ref, subs, a):
    return ret(mul(a[0], a[1]), st)


def bapp(*a):
    return mk('bapp', *a)


@model('std::cmp::Ord::max', 'std::cmp::max', 'std::intrinsics::integer_max')
def imax(e, fr, st, ref, subs, a):
    x, y = a
    if subs and subs[0][0] == 'int':
        if x.op == 'int' and y.op == 'int':
            return ret(x if s64(x.a[0]) > s64(y.a[0]) else y, st)
        return ret(mk('app', 'smax', x, y), st)
    if x.op == 'int' and y.op == 'int':
        return ret(I(max(x.a[0], y.a[0])), st)
    if decide(st, lt(x, y)) is True or decide(st, lt(y, x)) is False:
        return ret(y, st)
    if decide(st, lt(x, y)) is False:
        return ret(x, st)
    r = mk('app', 'max', x, y)
    st.facts[mk('lt', r, x)] = False
    st.facts[mk('lt', r, y)] = False
    return ret(r, st)


@model('std::cmp::Ord::min', 'std::cmp::min', 'std::intrinsics::integer_min')
def imin(e, fr, st, ref, subs, a):
    x, y = a
    if x.op == 'int' and y.op == 'int':
        return ret(I(min(x.a[0], y.a[0])), st)
    if decide(st, lt(x, y)) is True or decide(st, lt(y, x)) is False:
        return ret(x, st)
    if decide(st, lt(x, y)) is False:
        return ret(y, st)
    r = mk('app', 'min', x, y)
    st.facts[mk('lt', x, r)] = False
    st.facts[mk('lt', y, r)] = False
    return ret(r, st)


@model('std::cmp::Ord::clamp')
def clamp(e, fr, st, ref, subs, a):
    x, lo, hi = a
    (k, m, s), = imax(e, fr, st, ref, subs, [x, lo])
    return imin(e, fr, s, ref, subs, [m, hi])


@model('usize::is_power_of_two')
def is_pow2(e, fr, st, ref, subs, a):
    if e.rules.pow2(st, a[0]):
        return ret(TRUE, st)
    return ret(bapp('pow2', a[0]), st)


@model('usize::next_power_of_two')
def npow2(e, fr, st, ref, subs, a):
    if a[0].op == 'int':
        v = a[0].a[0]
        return ret(I(1 << max(0, (v - 1).bit_length())), st)
    r = mk('app', 'npow2', a[0])
    st.facts[mk('lt', r, a[0])] = False
    return ret(r, st)


@model('usize::leading_zeros', 'usize::trailing_zeros', 'usize::ilog2', 'usize::count_ones')
def bitfn(e, fr, st, ref, subs, a):
    return ret(mk('app', ref.name, a[0]), st)


# ------------------------------------------------------------------ atomics

@model('std::sync::atomic::Atomic::load')
def a_load(e, fr, st, ref, subs, a):
    o = ordn(a[1])
    return ret(e.rules.load(fr, st, a[0], o, None), st)


@model('seize::Guard::protect')
def g_protect(e, fr, st, ref, subs, a):
    o = ordn(a[2])
    return ret(e.rules.load(fr, st, a[1], o, a[0]), st)


@model('std::sync::atomic::Atomic::store')
def a_store(e, fr, st, ref, subs, a):
    e.rules.store(fr, st, a[0], a[1], ordn(a[2]))
    return ret(UNIT, st)


def rmw(kind):
    def h(e, fr, st, ref, subs, a):
        return ret(e.rules.rmw(fr, st, kind, a[0], a[1], ordn(a[2])), st)
    return h


for k in ('swap', 'fetch_add', 'fetch_sub', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_max', 'fetch_min', 'fetch_nand',
          'fetch_ptr_add', 'fetch_byte_add'):
    H['std::sync::atomic::Atomic::' + k] = rmw(k)


@model('std::sync::atomic::Atomic::compare_exchange', 'std::sync::atomic::Atomic::compare_exchange_weak')
def a_cas(e, fr, st, ref, subs, a):
    return e.rules.cas(fr, st, a[0], a[1], a[2], ordn(a[3]), ordn(a[4]), None, ref.name.endswith('weak'))


@model('seize::Guard::compare_exchange', 'seize::Guard::compare_exchange_weak')
def g_cas(e, fr, st, ref, subs, a):
    return e.rules.cas(fr, st, a[1], a[2], a[3], ordn(a[4]), ordn(a[5]), a[0], ref.name.endswith('weak'))


@model('seize::Guard::swap')
def g_swap(e, fr, st, ref, subs, a):
    return ret(e.rules.rmw(fr, st, 'swap', a[1], a[2], ordn(a[3])), st)


@model('std::sync::atomic::Atomic::fetch_update')
def a_fu(e, fr, st, ref, subs, a):
    if getattr(e.rules, 'updates', False):
        return fetch_update(e, fr, st, a)
    e.rules.opaque_update(fr, st, a[0])
    s2 = st.copy()
    return [('return', ok(e.fresh(fr, st, 'sym', 'fu')), st), ('return', err(e.fresh(fr, s2, 'sym', 'fu')), s2)]


def fetch_update(e, fr, st, a):
    """The value is exchanged for what the closure makes of it, until that succeeds or the closure declines."""
    v = e.rules.load(fr, st, a[0], ordn(a[2]), None)
    r = []
    for k, x, s in call_value(e, fr, st, a[3], [v]):
        if k != 'return':
            r.append((k, x, s))
            continue
        for n in (0, 1):
            s2 = s.copy()
            if not assume(s2, eq(discr(x, OPT), I(n)), True):
                continue
            e.rules.learned(fr, s2)
            if n == 0:
                r.append(('return', err(v), s2))
            else:
                # (a failed exchange only leads to the next attempt)
                r += e.rules.cas(fr, s2, a[0], v, fld(x, 1, 0), ordn(a[1]), ordn(a[2]), None, True)[:1]
    return r


@model('std::sync::atomic::fence', 'std::sync::atomic::compiler_fence')
def fence(e, fr, st, ref, subs, a):
    return ret(UNIT, st)


# ------------------------------------------------------------------ guards and collectors

@model('seize::Guard::collector')
def g_collector(e, fr, st, ref, subs, a):
    return ret(e.rules.collector_of(fr, st, a[0]), st)


@model('seize::Guard::thread_id')
def g_tid(e, fr, st, ref, subs, a):
    return ret(mk('app', 'tid', a[0]), st)


@model('seize::Guard::defer_retire')
def g_retire(e, fr, st, ref, subs, a):
    e.rules.user(fr, st, 'reclamation')
    e.rules.retire(fr, st, a[0], a[1], a[2])
    return ret(UNIT, st)


@model('seize::Guard::flush', 'seize::Guard::refresh')
def g_flush(e, fr, st, ref, subs, a):
    e.rules.user(fr, st, 'reclamation')
    e.rules.flush(fr, st, ref.name, a[0])
    return ret(UNIT, st)


@model('seize::Collector::enter', 'seize::Collector::enter_owned')
def c_enter(e, fr, st, ref, subs, a):
    return ret(agg('guard', 0, a[0]), st)


@model('seize::Collector::new')
def c_new(e, fr, st, ref, subs, a):
    return ret(e.fresh(fr, st, 'sym', 'collector'), st)


@model('seize::Collector::eq', '<seize::Collector as std::cmp::PartialEq>::eq')
def c_eq(e, fr, st, ref, subs, a):
    if a[0] is a[1]:
        return ret(TRUE, st)
    x, y = a
    if x.op == 'ref' or y.op == 'ref':
        lx, ly = e.deref(fr, st, x), e.deref(fr, st, y)
    return ret(bapp('colleq', x, y), st)


@model('seize::Collector::retire')
def c_retire(e, fr, st, ref, subs, a):
    e.rules.user(fr, st, 'reclamation')
    e.rules.collector_retire(fr, st, a[0], a[1], a[2])
    return ret(UNIT, st)


@model('seize::Collector::reclaim_all')
def c_reclaim_all(e, fr, st, ref, subs, a):
    e.rules.user(fr, st, 'reclamation')
    e.rules.reclaim_all(fr, st, a[0])
    return ret(UNIT, st)


# ------------------------------------------------------------------ user code

def user_result(e, fr, st, what, f, args, unwind=True):
    e.rules.user(fr, st, what)
    out = []
    if unwind:
        s2 = st.copy()
        s2.ghost['unw'] = mk('tag', 'user')
        e.rules.user_panics(fr, s2, what)
        out.append(('unwind', None, s2))
    v = e.fresh(fr, st, 'sym', 'uc')
    st.facts[bapp('uc', v, ZERO, *args)] = True
    e.rules.user_called(fr, st, what, f, args, v)
    out.append(('return', v, st))
    return out


def pure_user(e, fr, st, what, v):
    e.rules.user(fr, st, what)
    s2 = st.copy()
    s2.ghost['unw'] = mk('tag', 'user')
    e.rules.user_panics(fr, s2, what)
    return [('unwind', None, s2), ('return', v, st)]


def val(e, fr, st, p):
    """The value a reference points to."""
    loc = e.deref(fr, st, p)
    e.rules.access(fr, st, loc, 'read')
    v = e.read_loc(fr, st, loc)
    return v


@model('std::hash::BuildHasher::hash_one', 'std::hash::BuildHasher::build_hasher')
def hash_one(e, fr, st, ref, subs, a):
    if ref.name == 'build_hasher':
        return pure_user(e, fr, st, 'hasher', mk('app', 'hst', e.rules.hasher_id(st, a[0])))
    k = keyval(e, fr, st, a[1])
    return pure_user(e, fr, st, 'hash', mk('app', 'hash', e.rules.hasher_id(st, a[0]), k))


@model('std::hash::Hash::hash')
def hash_into(e, fr, st, ref, subs, a):
    """One key fed into a fresh hasher is that key's hash; anything else is unknown."""
    k = keyval(e, fr, st, a[0])
    loc = e.deref(fr, st, a[1])
    e.rules.access(fr, st, loc, 'write')
    h = e.read_loc(fr, st, loc)
    if h.op == 'app' and h.a[0] == 'hst' and len(h.a) == 2:
        new = mk('app', 'hst', h.a[1], k)
    else:
        new = e.fresh(fr, st, 'sym', 'hasher')
    e.write_loc(fr, st, loc, new)
    return pure_user(e, fr, st, 'hash', I(0))


@model('std::hash::Hasher::finish')
def hash_finish(e, fr, st, ref, subs, a):
    h = val(e, fr, st, a[0])
    if h.op == 'app' and h.a[0] == 'hst' and len(h.a) == 3:
        return pure_user(e, fr, st, 'hash', mk('app', 'hash', h.a[1], h.a[2]))
    return pure_user(e, fr, st, 'hash', e.fresh(fr, st, 'sym', 'hash'))


def keyval(e, fr, st, p):
    loc = e.deref(fr, st, p)
    e.rules.access(fr, st, loc, 'read')
    v = e.read_loc(fr, st, loc)
    # through nested references
    return v


@model('equivalent::Equivalent::equivalent')
def equivalent(e, fr, st, ref, subs, a):
    return pure_user(e, fr, st, 'eq', bapp('keq', keyval(e, fr, st, a[0]), keyval(e, fr, st, a[1])))


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def peq(e, fr, st, ref, subs, a):
    ty = subs[0] if subs else ('other',)
    x, y = a
    t = ty
    while t[0] == 'ref':
        x, y = val(e, fr, st, x), val(e, fr, st, y)
        t = t[1]
    if t == ('tuple', ()):
        return ret(I(int(ref.name == 'eq')), st)
    if t[0] in ('uint', 'int', 'bool', 'ptr', 'char'):
        r = eq(val(e, fr, st, x), val(e, fr, st, y))
        return ret(r if ref.name == 'eq' else bnot(r), st)
    if t[0] == 'adt' and t[1].split('::')[0] == 'seize':
        r = TRUE if x is y else bapp('colleq', x, y)
        return ret(r if ref.name == 'eq' else bnot(r), st)
    r = bapp('keq', keyval(e, fr, st, x), keyval(e, fr, st, y))
    return pure_user(e, fr, st, 'eq', r if ref.name == 'eq' else bnot(r))


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned')
def clone(e, fr, st, ref, subs, a):
    ty = subs[0] if subs else ('other',)
    v = e.read_loc(fr, st, e.deref(fr, st, a[0]))
    if ty[0] in ('ref', 'ptr', 'uint', 'int', 'bool'):
        return ret(v, st)
    return pure_user(e, fr, st, 'clone', mk('app', 'clone', v))


@model('std::default::Default::default')
def default(e, fr, st, ref, subs, a):
    ty = subs[0] if subs else ('other',)
    if ty[0] == 'param':
        return pure_user(e, fr, st, 'default', e.fresh(fr, st, 'sym', 'default'))
    return ret(e.fresh(fr, st, 'sym', 'default'), st)


CF, OPT, RES = 'std::ops::ControlFlow', 'std::option::Option', 'std::result::Result'


@model('std::ops::Try::branch')
def try_branch(e, fr, st, ref, subs, a):
    ty = subs[0] if subs else ('other',)
    n = ty[1] if ty[0] == 'adt' else None
    go = {CF: 0, OPT: 1, RES: 0}.get(n)
    if go is None:
        return unknown(e, fr, st, ref, subs, a)
    v = a[0]
    r = []
    for k in (0, 1):
        s = st.copy()
        d = discr(v, n)
        c = (d if k else bnot(d)) if isbool(d) else eq(d, I(k))
        if c.op == 'int' and not c.a[0] or c.op != 'int' and not assume(s, c, True):
            continue
        if k == go:
            r.append(('return', agg(CF, 0, fld(v, k, 0)), s))
        else:
            r.append(('return', agg(CF, 1, agg(n, k, *([] if n == OPT else [fld(v, k, 0)]))), s))
    return r


@model('std::ops::Try::from_output')
def try_output(e, fr, st, ref, subs, a):
    ty = subs[0] if subs else ('other',)
    k = {CF: 0, OPT: 1, RES: 0}.get(ty[1] if ty[0] == 'adt' else None)
    if k is None:
        return unknown(e, fr, st, ref, subs, a)
    return ret(agg(ty[1], k, a[0]), st)


@model('std::ops::FromResidual::from_residual')
def try_residual(e, fr, st, ref, subs, a):
    ty = subs[0] if subs else ('other',)
    n = ty[1] if ty[0] == 'adt' else None
    if n == OPT:
        return ret(NONE, st)
    if n == CF:
        return ret(agg(n, 1, fld(a[0], 1, 0)), st)
    if n == RES:
        # the error is converted, which the crate may have defined itself
        to = ty[2][1] if len(ty[2]) > 1 else None
        res = subs[1] if len(subs) > 1 else ('other',)
        of = res[2][1] if res[0] == 'adt' and res[1] == RES and len(res[2]) > 1 else None
        err = fld(a[0], 1, 0)
        if to is None or of is None:
            return ret(agg(n, 1, e.fresh(fr, st, 'sym', 'residual')), st)
        f = e.convert(to, of)
        if f is not None:
            e.cursite = (fr.fn.id, fr.bb, fr.idx)
            return [(x.kind, agg(n, 1, x.ret) if x.kind == 'return' else x.ret, x.st) for x in e.run(f, (), (err,), st)]
        return ret(agg(n, 1, err if to[:2] == of[:2] else e.fresh(fr, st, 'sym', 'residual')), st)
    return unknown(e, fr, st, ref, subs, a)


@model('std::iter::Iterator::size_hint')
def size_hint(e, fr, st, ref, subs, a):
    if ref.res is not None:
        d = e.prog.fns.get(ref.res['d'])
        if d is not None and d.local:
            return [(x.kind, x.ret, x.st) for x in e.run(d, (), tuple(a), st)]
    s2 = st.copy()
    lo = e.fresh(fr, st, 'sym', 'hint')
    return ret(agg('tuple', 0, lo, some(e.fresh(fr, st, 'sym', 'hi'))), st) + ret(agg('tuple', 0, lo, NONE), s2)


@model('std::iter::Iterator::next')
def it_next(e, fr, st, ref, subs, a):
    ty = subs[0] if subs else ('other',)
    if ty[0] == 'adt' and ty[1] == 'std::ops::Range':
        return range_next(e, fr, st, ref, subs, a)
    if ty[0] == 'adt' and ty[1] == 'std::ops::RangeFrom':
        return rangefrom_next(e, fr, st, ref, subs, a)
    if ty[0] == 'adt' and ty[1] == 'std::ops::RangeInclusive':
        return rangeinc_next(e, fr, st, ref, subs, a)
    loc = e.deref(fr, st, a[0])
    v = e.read_loc(fr, st, loc)
    out = []
    for x, s, foreign in pull(e, fr, st, loc, v, a[0]):
        if x is None and foreign:
            e.rules.iter_end(fr, s, a[0])
        out.append(('return', NONE if x is None else x, s))
    return out


def pull(e, fr, st, loc, v, src):
    """The next element of an iterator: [(element or None, state, whether code of the caller was asked)]."""
    if v.op == 'agg' and v.a[0] in ('std::iter::Once', 'std::option::IntoIter'):
        # the one element, or none
        path = list(loc[2])
        w = v
        while w.op == 'agg' and w.a[0] != OPT and len(w.a) == 3:
            path.append(mk('pf', w.a[0], w.a[1], 0, ''))
            w = w.a[2]
        if w.op == 'agg' and w.a[0] == OPT:
            e.write_loc(fr, st, (loc[0], loc[1], path), NONE)
            return [(w if w.a[1] else None, st, False)]
    if v.op == 'agg' and v.a[0] == 'std::iter::Take' and len(v.a) == 4:
        # elements of the inner iterator, until it ends or enough were taken
        inner = (loc[0], loc[1], list(loc[2]) + [mk('pf', v.a[0], v.a[1], 0, '')])
        w = v.a[2]
        if w.op == 'ref':
            inner = e.deref(fr, st, w)
            w = e.read_loc(fr, st, inner)
        s2 = st.copy()
        return pull(e, fr, st, inner, w, src) + [(None, s2, False)]
    if v.op == 'agg' and v.a[0] == 'std::iter::Chain' and len(v.a) == 4 \
            and all(p.op == 'agg' and p.a[0] == OPT for p in v.a[2:]):
        # the first part until it ends, and then the second
        todo, out, foreign = [st], [], False
        for i in (0, 1):
            part = v.a[2 + i]
            if not part.a[1]:
                continue
            at = (loc[0], loc[1], list(loc[2]) + [mk('pf', v.a[0], v.a[1], i, '')])
            inner = (at[0], at[1], at[2] + [mk('pf', OPT, 1, 0, '')])
            rest = []
            for s in todo:
                for x, s2, f in pull(e, fr, s, inner, part.a[2], src):
                    foreign = foreign or f
                    if x is not None:
                        out.append((x, s2, f))
                        continue
                    if i == 0:
                        e.write_loc(fr, s2, at, NONE)
                    rest.append(s2)
            todo = rest
        return out + [(None, s, foreign) for s in todo]
    s2 = st.copy()
    e.rules.user(fr, st, 'iterator')
    x = e.fresh(fr, st, 'sym', 'next')
    e.rules.iter_item(fr, st, src, x)
    return [(some(x), st, True), (None, s2, True)]


def rng(e, fr, st, p):
    loc = e.deref(fr, st, p)
    v = e.read_loc(fr, st, loc)
    return loc, v


@model('std::ops::Range::next', '<std::ops::Range as std::iter::Iterator>::next', 'std::iter::range::next')
def range_next(e, fr, st, ref, subs, a):
    loc, v = rng(e, fr, st, a[0])
    if v.op != 'agg':
        return unknown(e, fr, st, ref, subs, a)
    lo, hi = v.a[2], v.a[3]
    out = []
    s2 = st.copy()
    c = lt(lo, hi)
    # a range that may have been empty (or the wrong way round) from the start is told from one that was begun
    run = v.a[4:] or ((mk('tag', 'run'),) if v.a[0] == 'std::ops::Range' and decide(st, lt(hi, lo)) is None else ())
    if assume(st, c, True):
        e.write_loc(fr, st, loc, mk('agg', v.a[0], v.a[1], add(lo, ONE), hi, *run))
        e.rules.learned(fr, st)
        if run:
            x = lt(hi, add(lo, ONE))
            if x.op == 'lt':
                st.facts[x] = False
        out.append(('return', some(lo), st))
    if assume(s2, c, False):
        e.rules.learned(fr, s2)
        out.append(('return', NONE, s2))
    return out


@model('std::ops::RangeInclusive::new')
def rangeinc_new(e, fr, st, ref, subs, a):
    return ret(mk('agg', 'std::ops::RangeInclusive', 0, a[0], a[1]), st)


@model('std::ops::RangeInclusive::next', '<std::ops::RangeInclusive as std::iter::Iterator>::next')
def rangeinc_next(e, fr, st, ref, subs, a):
    # the last element is not the largest number there is (lengths and limits do not wrap)
    loc, v = rng(e, fr, st, a[0])
    if v.op != 'agg' or v.a[0] != 'std::ops::RangeInclusive' or len(v.a) != 4:
        return unknown(e, fr, st, ref, subs, a)
    lo, hi = v.a[2], v.a[3]
    out = []
    s2 = st.copy()
    c = lt(hi, lo)
    if assume(st, c, False):
        e.write_loc(fr, st, loc, mk('agg', v.a[0], v.a[1], add(lo, ONE), hi))
        e.rules.learned(fr, st)
        out.append(('return', some(lo), st))
    if assume(s2, c, True):
        e.rules.learned(fr, s2)
        out.append(('return', NONE, s2))
    return out


@model('std::ops::RangeFrom::next', '<std::ops::RangeFrom as std::iter::Iterator>::next')
def rangefrom_next(e, fr, st, ref, subs, a):
    loc, v = rng(e, fr, st, a[0])
    if v.op != 'agg':
        return unknown(e, fr, st, ref, subs, a)
    lo = v.a[2]
    e.write_loc(fr, st, loc, mk('agg', v.a[0], v.a[1], add(lo, ONE)))
    return ret(some(lo), st)


@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def call_trait(e, fr, st, ref, subs, a):
    tup = a[1]
    args = list(tup.a[2:]) if tup.op == 'agg' else [fld(tup, 0, i) for i in range(4)]
    f = a[0]
    if ref.name in ('call_mut', 'call'):
        ptr = f
        # the closure behind the reference
        n = 0
        while n < 4:
            v = e.read_loc(fr, st, e.deref(fr, st, ptr))
            if v.op in ('ref', 'pl') or v.op == 'fld' and False:
                ptr = v
                n += 1
                continue
            break
        if v.op == 'agg' and type(v.a[0]) is tuple and v.a[0][0] == 'closure':
            return e.call_closure(fr, st, v, args, 'mut', ptr)
        return call_value(e, fr, st, v, args)
    return call_value(e, fr, st, f, args)


def call_value(e, fr, st, f, args):
    """Call a function value."""
    n = 0
    while f.op in ('ref', 'pl') and n < 4:
        v = e.read_loc(fr, st, e.deref(fr, st, f))
        if v.op == 'agg' and type(v.a[0]) is tuple and v.a[0][0] == 'closure':
            return e.call_closure(fr, st, v, args, 'ref', f)
        f = v
        n += 1
    if f.op == 'fn':
        return e.call_fn(fr, st, f.a[2], f.a[1], args)
    if f.op == 'agg' and type(f.a[0]) is tuple and f.a[0][0] == 'closure':
        return e.call_closure(fr, st, f, args, 'once')
    return user_result(e, fr, st, 'closure', f, args)


def opaque_call(e, fr, st, f, args):
    return user_result(e, fr, st, 'closure', f, args)


# ------------------------------------------------------------------ options and results (library combinators without MIR)

@model('std::panic::catch_unwind')
def catch_unwind(e, fr, st, ref, subs, a):
    out = []
    for k, v, s in call_value(e, fr, st, a[0], []):
        if k == 'return':
            out.append(('return', ok(v), s))
        else:
            s.ghost['unw'] = mk('tag', 'no')
            out.append(('return', err(mk('kst', 'payload')), s))
    return out


# ------------------------------------------------------------------ locks

@model('std::sync::Mutex::try_lock')
def try_lock(e, fr, st, ref, subs, a):
    s2, s3 = st.copy(), st.copy()
    e.rules.lock(fr, st, a[0], False)
    e.rules.lock(fr, s2, a[0], False)
    g = mk('lockg', ('g',), a[0])
    return [('return', ok(g), st),
            ('return', err(agg('std::sync::TryLockError', 0, g)), s2),
            ('return', err(agg('std::sync::TryLockError', 1)), s3)]


@model('std::sync::Mutex::lock')
def lock(e, fr, st, ref, subs, a):
    e.rules.lock(fr, st, a[0], True)
    s2 = st.copy()
    g = mk('lockg', ('g',), a[0])
    return [('return', ok(g), st), ('return', err(g), s2)]


# ------------------------------------------------------------------ panics and waiting

@model('std::hint::spin_loop', 'std::thread::yield_now')
def spin(e, fr, st, ref, subs, a):
    e.rules.wait(fr, st, 'spin')
    return ret(UNIT, st)


@model('std::thread::park', 'std::thread::sleep', 'std::thread::park_timeout')
def tpark(e, fr, st, ref, subs, a):
    e.rules.wait(fr, st, 'park')
    return ret(UNIT, st)


def panic(e, fr, st, ref, subs, a):
    st.ghost['unw'] = mk('tag', 'lib')
    e.rules.panics(fr, st)
    return [('unwind', None, st)]


PANICS = ('core::panicking::', 'std::panicking::', 'std::rt::panic', 'std::rt::begin_panic', 'std::option::unwrap_failed',
          'std::option::expect_failed', 'std::result::unwrap_failed', 'std::panic::resume_unwind', 'core::option::', 'core::result::unwrap_failed')


# ------------------------------------------------------------------ anything else

def unknown(e, fr, st, ref, subs, a):
    n = ref.p
    if n.startswith(PANICS) or fr.retty == ('never',):
        return panic(e, fr, st, ref, subs, a)
    r = e.rules.special(fr, st, n, ref, subs, a)
    if r is not None:
        return r
    if n.startswith(('std::fmt::Arguments::', 'std::fmt::rt::', 'core::fmt::rt::')):
        # the message of a panic
        return ret(e.fresh(fr, st, 'sym', 'x'), st)
    e.unmodelled[n] = e.unmodelled.get(n, 0) + 1
    if e.rules.external(fr, st, n, a):
        return ret(e.fresh(fr, st, 'sym', 'x'), st)
    # a method of a type parameter: the caller's code
    selfty = subs[0] if subs else None
    t = selfty
    while t and t[0] == 'ref':
        t = t[1]
    if ref.trait and t and t[0] in ('param', 'alias'):
        r = e.rules.user_method(fr, st, ref, a)
        if r is not None:
            return r
        return user_result(e, fr, st, 'method ' + ref.name, mk('kst', n), a)
    # references handed out for writing may be written
    if fr.retty == ('bool',):
        return ret(bnot(eq(e.fresh(fr, st, 'sym', 'x'), ZERO)), st)
    return ret(e.fresh(fr, st, 'sym', 'x'), st)


# ------------------------------------------------------------------ drops

def drop_value(e, fr, st, v, ty, depth=0):
    if v.op == 'uninit' or v.op == 'int' or depth > 6:
        return
    k = ty[0]
    if k in ('uint', 'int', 'bool', 'ptr', 'ref', 'fndef', 'never', 'str', 'char', 'float'):
        return
    if v.op == 'lockg':
        e.rules.unlock(fr, st, v)
        return
    if k == 'adt' and ty[1].endswith('::MutexGuard'):
        # written through: no longer the bare guard
        e.rules.unlock(fr, st, v)
        return
    if k == 'adt' and ty[1] in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop'):
        return
    if k == 'adt' and ty[1] == 'std::boxed::Box':
        p = v.a[0] if v.op == 'box' else v
        inner = ty[2][0]
        w = e.read_mem(st, p, ())
        drop_value(e, fr, st, w, inner, depth + 1)
        e.rules.free(fr, st, p, inner)
        return
    if v.op == 'agg' and v.a[0] == 'guard' or k == 'adt' and ty[1] in ('seize::LocalGuard', 'seize::OwnedGuard'):
        e.rules.user(fr, st, 'reclamation')
        e.rules.guard_dropped(fr, st, v)
        return
    if k == 'adt':
        a = e.prog.adts.get(ty[1])
        if a is None:
            if has_param(ty):
                e.rules.user(fr, st, 'drop')
                e.rules.dropped(fr, st, v, ty)
            return
        if v.op == 'agg' and v.a[0] == ty[1]:
            var = a['variants'][v.a[1]]
            for i, f in enumerate(var['fields']):
                if 2 + i < len(v.a):
                    drop_value(e, fr, st, v.a[2 + i], fsubst(a, f[1], ty), depth + 1)
            return
        if has_param(ty):
            e.rules.user(fr, st, 'drop')
            e.rules.dropped(fr, st, v, ty)
        return
    if k == 'tuple':
        for i, t in enumerate(ty[1]):
            drop_value(e, fr, st, fld(v, 0, i), t, depth + 1)
        return
    if k == 'closure':
        if v.op == 'agg':
            return
        return
    e.rules.user(fr, st, 'drop')
    e.rules.dropped(fr, st, v, ty)


def fsubst(a, fty, ty):
    g = a.get('generics') or []
    m = dict(zip(g, ty[2]))
    return tsubst(fty, m)


def has_param(t):
    if t[0] in ('param', 'alias', 'dyn'):
        return True
    if t[0] in ('adt',):
        return any(has_param(x) for x in t[2])
    if t[0] == 'tuple':
        return any(has_param(x) for x in t[1])
    if t[0] in ('slice', 'array'):
        return has_param(t[1])
    return False


def decide(st, t):
    from engine import decide as d
    return d(st, t)


def assume(st, t, v):
    from engine import assume as d
    return d(st, t, v)
