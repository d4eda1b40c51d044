"""The rules: what each event means for the protocol, and what must hold for it to be allowed.

Evidence lives in the state as facts over values (bapp terms), so that it is joined, renamed and forgotten with the
values it is about.  Obligations opened by a committed step live in the ghost part and must be closed on every path.
"""
from terms import *
import terms
from engine import decide, assume, pf, mkpl, as_eqc, State, NeedMore
import models
import layouts
from models import bapp, ACQ, REL, OWN, own, set_own, some, NONE, ok, err, po

TL = 'raw::alloc::TableLayout'
ST = 'raw::State'
EN = 'raw::Entry'
RM = 'raw::HashMap'
TB = 'raw::alloc::Table'


def tag(x):
    return mk('tag', x)


class Rules:
    def __init__(self, prog):
        self.prog = prog
        self.ob = {}          # (prop, key) -> [passed, failed, message, site]
        self.events = {}
        c = prog.consts
        self.c = {}
        for n in ('COPYING', 'COPIED', 'BORROWED', 'MASK'):
            self.c[n] = c.get('raw::Entry::' + n)
        for n in ('PENDING', 'ABORTED', 'PROMOTED'):
            self.c[n] = c.get('raw::State::' + n)
        self.c['EMPTY'] = c.get('raw::meta::EMPTY')
        self.c['TOMB'] = c.get('raw::meta::TOMBSTONE')
        missing = [k for k, v in self.c.items() if v is None]
        if missing:
            raise Exception('constants not found: %s' % missing)
        t = layouts.value(prog, 'raw::Entry::TOMBSTONE')
        self.TOMBSTONE = I(t if t is not None else self.c['COPIED'])
        self.MASKT = I(self.c['MASK'] & M64)
        self.roles = {}
        self.path = {}
        for owner in (TL, ST, EN, RM, TB):
            a = prog.adts[owner]
            for i, f in enumerate(a['variants'][0]['fields']):
                self.path[(owner, f[0])] = pf(owner, 0, i, f[0])
        self.SZ = prog.adts[TL]['lay'][0]
        self.f = lambda o, n: self.path[(o, n)]
        self.p_mask = self.f(TL, 'mask')
        self.p_limit = self.f(TL, 'limit')
        self.p_state = self.f(TL, 'state')
        self.p_key = self.f(EN, 'key')
        self.p_value = self.f(EN, 'value')
        self.p_table = self.f(RM, 'table')
        self.h2pats = {}
        self._cls = {}
        self._dv = {}
        terms.ALIGN[EN] = self.entry_align() - 1
        terms.ALIGN['raw'] = 7
        self.trace = None

    def entry_align(self):
        a = self.prog.adts[EN].get('align') or 1
        return a

    # ------------------------------------------------------------ bookkeeping

    def check(self, prop, key, okay, fr, msg=''):
        """Record an obligation of a property."""
        k = (prop, fr.fn.p + ': ' + key)
        r = self.ob.get(k)
        if r is None:
            r = self.ob[k] = [0, 0, '', '']
        if okay:
            r[0] += 1
        else:
            if self.eng.partial:
                # what is missing may be known to the caller
                raise NeedMore()
            r[1] += 1
            if not r[2]:
                r[2] = msg or key
                r[3] = fr.site()
                if self.trace:
                    self.trace(prop, key, fr, msg)
        return okay

    def event(self, name, fr):
        k = (name, fr.fn.p)
        self.events[k] = self.events.get(k, 0) + 1

    def op(self, st):
        t = st.ghost.get('op')
        return t.a[0] if t is not None else '?'

    def fact(self, st, t, v=True):
        if t.op != 'int':
            st.facts[t] = v

    def has(self, st, t):
        return decide(st, t) is True

    # ------------------------------------------------------------ addresses

    def cls(self, addr):
        r = self._cls.get(addr)
        if r is None:
            r = self._cls[addr] = self._classify(addr)
        return r

    def mask_of(self, T):
        return mk('mem', T, self.p_mask)

    def len_of(self, T):
        return add(self.mask_of(T), ONE)

    def _classify(self, a):
        if a.op == 'po':
            T, off = a.a
            d = sub(off, I(self.SZ))
            m = self.mask_of(T)
            c, parts = lin_parts(d)
            if parts.get(m) == 1:
                rest = dict(parts)
                del rest[m]
                if (c - 1) % 8 == 0 and all(k % 8 == 0 for k in rest.values()):
                    return ('entry', T, lin_make((c - 1) // 8, {t: k // 8 for t, k in rest.items()}))
            return ('meta', T, d)
        if a.op == 'pl':
            last = a.a[-1]
            if last is self.p_table:
                return ('root', mkpl(a.a[0], a.a[1:-1]))
            if len(a.a) >= 3 and a.a[1] is self.p_state and last.op == 'pf' and last.a[0] == ST:
                return ('state', a.a[0], last.a[3])
        if mentions(a, (RM, 'count')):
            return ('count', a)
        return ('other', a)

    def state_addr(self, T, field):
        return mkpl(T, (self.p_state, self.f(ST, field)))

    def entry_addr(self, T, i):
        return po(T, add(add(I(self.SZ), self.len_of(T)), scale(i, 8)))

    def meta_addr(self, T, i):
        return po(T, add(I(self.SZ), i))

    # ------------------------------------------------------------ entry points

    def entry(self, eng, path, op):
        fn = self.prog.fn(path)
        st = State()
        st.ghost['op'] = tag(op)
        st.ghost['unw'] = tag('no')
        args = tuple(mk('sym', ('in', i)) for i in range(fn.body.argc))
        self.entry_fn, self.entry_args = fn, args
        self.setup(fn, st, args)
        exits = eng.execute(fn, {}, args, st)
        return exits

    def setup(self, fn, st, args):
        pass

    # ------------------------------------------------------------ engine interface

    def enter(self, fr, st, args):
        pass

    def leave(self, fr, st, kind, ret, args):
        pass

    def before_call(self, fr, st, fn, args):
        pass

    def aggregate(self, fr, st, d, v):
        if d == TB:
            mi, li, ri = [self.path[(TB, n)].a[2] for n in ('mask', 'limit', 'raw')]
            raw = v.a[2 + ri]
            if raw.op == 'new':
                w = self.eng.read_mem(st, raw, (self.p_mask,))
                l = self.eng.read_mem(st, raw, (self.p_limit,))
                if w is v.a[2 + mi] and l is v.a[2 + li]:
                    a = list(v.a)
                    a[2 + mi] = self.mask_of(raw)
                    a[2 + li] = mk('mem', raw, self.p_limit)
                    # the handle and the header agree
                    return mk('agg', *a)
                self.check('P10', 'table handle agrees with its header', False, fr, 'a table handle is built with a mask or limit other than the ones in the header')
        self.rules_aggregate(fr, st, d, v)
        return v

    def rules_aggregate(self, fr, st, d, v):
        if d in ('map::HashMapRef', 'set::HashSetRef'):
            if len(v.a) == 4:
                # the field that holds the guard, whatever the order
                f = self.prog.adts[d]['variants'][0]['fields']
                k = 1 if f[1][1][0] == 'adt' and f[1][1][1].endswith('MapGuard') or f[1][0] == 'guard' else 0
                g, m = v.a[2 + k], v.a[3 - k]
                P = mkpl(m, (self.field('map::HashMap' if d.startswith('map') else 'set::HashSet', 'raw'),))
                self.check('P04', 'pinned view holds a guard of its own map', self.guard_value_ok(st, g, P), fr,
                           'a pinned view is built from a guard that was not verified against its map')
        if d == 'map::OccupiedError':
            pass

    def field(self, owner, name):
        k = (owner, name)
        r = self.path.get(k)
        if r is None:
            for i, f in enumerate(self.prog.adts[owner]['variants'][0]['fields']):
                self.path[(owner, f[0])] = pf(owner, 0, i, f[0])
            r = self.path[k]
        return r

    def const(self, fr, u):
        p = u['p']
        if u.get('name') == 'MASK' or p.endswith('::MASK'):
            return self.MASKT
        if p.endswith('Entry::TOMBSTONE'):
            return self.TOMBSTONE
        for k, v in self.prog.consts.items():
            if k.split('::')[-1] == p.split('::')[-1] and strip_generics(k) == strip_generics(p):
                return I(v & M64)
        return mk('kst', p)

    def band(self, st, a, b):
        """x & mask(T) is a position on the probe path of x."""
        for x, m in ((a, b), (b, a)):
            if m.op == 'mem' and m.a[-1] is self.p_mask and len(m.a) == 2:
                if x.op == 'pidx':
                    if x.a[1] is m:
                        return x
                if x.op == 'lin':
                    c, d = lin_parts(x)
                    for t, k in d.items():
                        if t.op == 'pidx' and k == 1 and t.a[1] is m:
                            if self.step(lin_add(x, t, -1), t.a[2]):
                                self.advance(st, t)
                                return self.pidx(st, t.a[0], m, add(t.a[2], ONE))
                return self.pidx(st, x, m, ZERO)
        return band(a, b)

    def step(self, d, n):
        """The distance from one position of a probe to the next is a function of the number of steps that were taken."""
        cd, dd = lin_parts(d)
        cn, dn = lin_parts(n)
        if not dn:
            return not dd and cd != 0
        if len(dn) != 1 or set(dn.values()) != {1} or not set(dd) <= set(dn):
            return False
        a = sum(dd.values())
        if (a, cd - a * cn) == (0, 0):
            return False
        self.pat('P21', 'the distance between two positions of a probe', '%d * steps + %d' % (a, cd - a * cn), self.eng.curfr)
        return True

    def pidx(self, st, h, m, n):
        T = m.a[0]
        if n is ZERO:
            self.probe_start(st, T, h)
        return mk('pidx', h, m, n)

    def project(self, v, e):
        return fld(v, e.a[1], e.a[2], (e.a[0], e.a[3]))

    def memdef(self, st, p, path):
        return mk('mem', p, *path)

    def moved(self, fr, st, loc, v):
        pass

    def written(self, fr, st, loc, v):
        p, path = loc[1], loc[2]
        if path and path[0].op == 'pf' and path[0].a[0] == EN and p.op != 'new':
            self.check('P16', 'published entries are immutable', self.op(st) in ('drop', 'reclaim'), fr,
                       'a field of an entry that may be shared is assigned')
        if path and path[0].op == 'pf' and path[0].a[0] == EN and p.op == 'new' and own(st, p) not in ('box', 'raw', None):
            self.check('P16', 'published entries are immutable', False, fr, 'a field of an entry is assigned after it was published')
        c = self.cls(mkpl(p, path)) if path else self.cls(p)
        if c[0] in ('root', 'state', 'entry', 'meta'):
            priv = self.private(st, c[1])
            self.check('P12', 'shared words are written atomically', priv or self.op(st) in ('drop', 'reclaim'), fr,
                       'a shared word is assigned without an atomic operation')

    def private(self, st, T):
        return T.op == 'new' and own(st, T) in ('raw', 'box')

    def deref(self, fr, st, pl, loc, how):
        if loc[0] != 'mem':
            return
        self.access(fr, st, loc, how, pl)

    def access(self, fr, st, loc, how, pl=None):
        if loc[0] != 'mem':
            return
        p, path = loc[1], loc[2]
        o = path[0].a[0] if path and path[0].op == 'pf' else None
        if o is None and pl is not None and not path and pl['ty'][0] == 'adt':
            o = pl['ty'][1]
        if o == TL:
            self.table_access(fr, st, p)
        elif o == EN:
            self.entry_access(fr, st, p)

    # ------------------------------------------------------------ tables

    def table_access(self, fr, st, T):
        opn = self.op(st)
        if T.op == 'new':
            self.check('P05', 'table not freed', own(st, T) != 'freed', fr, 'a table is used after it was freed')
            return
        nn = decide(st, eq(T, ZERO)) is False
        self.check('P05', 'table pointer is non-null', nn, fr, 'a table pointer that may be null is dereferenced')
        if opn in ('drop', 'reclaim'):
            self.check('P09', 'table not used after it was freed', not self.has(st, bapp('freed', T)), fr, 'a table is used after it was freed')
            return
        self.check('P05', 'table pointer was loaded with acquire', self.has(st, bapp('tbl', T)), fr,
                   'a table pointer that was not obtained by an acquire load under the guard is dereferenced: ' + show(T))

    # ------------------------------------------------------------ entries

    def strip(self, p):
        """pointer -> (the loaded word it came from, or itself)"""
        while p.op == 'and' and p.a[1].op == 'int' and p.a[1].a[0] == self.MASKT.a[0]:
            p = p.a[0]
        return p

    def entry_access(self, fr, st, p):
        if p.op == 'new':
            self.check('P05', 'entry not freed', own(st, p) != 'freed', fr, 'an entry is used after it was freed')
            return
        opn = self.op(st)
        nn = decide(st, eq(p, ZERO)) is False
        okp = self.has(st, bapp('ent', self.strip(p)))
        masked = p.op == 'and' and p.a[1].op == 'int' and p.a[1].a[0] & 7 == 0
        if opn in ('drop', 'reclaim'):
            return
        self.check('P05', 'entry pointer is masked', masked, fr, 'an entry pointer is dereferenced with its tag bits: ' + show(p))
        self.check('P05', 'entry pointer is non-null', nn, fr, 'an entry pointer that may be null or a marker is dereferenced: ' + show(p))
        self.check('P05', 'entry pointer is protected', okp, fr,
                   'an entry pointer that was not loaded under the guard with acquire ordering is dereferenced: ' + show(p))

    # ------------------------------------------------------------ guards

    def map_of(self, P):
        return P

    def collector_of(self, fr, st, g):
        v = None
        if g.op == 'ref':
            v = self.eng.read_loc(fr, st, self.eng.deref(fr, st, g))
        if v is not None and v.op == 'agg' and v.a[0] == 'guard':
            return v.a[2]
        return mk('app', 'collector', g)

    def coll_addr(self, P):
        return mkpl(P, (self.f(RM, 'collector'),))

    def verified(self, st, g, P):
        """g: pointer to the guard."""
        if g.op == 'ref':
            v = st.cells.get(g.a[0])
            if v is not None:
                for e in g.a[1:]:
                    v = self.eng.proj(v, e)
                return self.guard_value_ok(st, v, P)
        if self.has(st, bapp('verified', g, P)):
            return True
        c = mk('app', 'collector', g)
        k = self.coll_addr(P)
        return self.has(st, bapp('colleq', c, k)) or self.has(st, bapp('colleq', k, c))

    def guard_value_ok(self, st, v, P):
        return v.op == 'agg' and v.a[0] == 'guard' and v.a[2] is self.coll_addr(P)

    def any_verified(self, st, g):
        if g.op == 'ref':
            v = st.cells.get(g.a[0])
            if v is not None:
                for e in g.a[1:]:
                    v = self.eng.proj(v, e)
                return v.op == 'agg' and v.a[0] == 'guard'
        if self.has(st, bapp('gver', g)):
            return True
        for a, v in st.facts.items():
            if v and a.op == 'bapp':
                if a.a[0] == 'verified' and a.a[1] is g:
                    return True
                if a.a[0] == 'colleq':
                    for x in a.a[1:]:
                        if x.op == 'app' and x.a[0] == 'collector' and x.a[1] is g:
                            return True
        return False

    def check_guard(self, fr, st, g):
        if g is not None:
            self.check('P04', 'guard is verified before use', self.any_verified(st, g), fr,
                       'a guard is used for an access before it was compared with the collector of the map')

    def check_map(self, fr, st, P):
        if self.op(st) in ('drop', 'reclaim', 'new', 'reader0'):
            return
        for a, v in st.facts.items():
            if v and a.op == 'bapp' and a.a[0] in ('verified', 'colleq') and \
                    any(x is P or x is self.coll_addr(P) for x in a.a[1:]):
                self.check('P04', 'guard is verified before the table is touched', True, fr)
                return
        for c in st.cells.values():
            if c.op == 'agg' and c.a[0] == 'guard' and c.a[2] is self.coll_addr(P):
                self.check('P04', 'guard is verified before the table is touched', True, fr)
                return
        self.check('P04', 'guard is verified before the table is touched', False, fr,
                   'the table is accessed before the guard was compared with the collector of the map')

    def no_locks(self, st):
        l = st.ghost.get('locks')
        return l is None or len(l.a) == 2

    # ------------------------------------------------------------ atomics

    def bounds(self, fr, st, T, i):
        okb = i.op == 'pidx' and i.a[1] is self.mask_of(T)
        if not okb and i.op == 'and' and (i.a[0] is self.mask_of(T) or i.a[1] is self.mask_of(T)):
            okb = True
        if not okb:
            okb = decide(st, lt(i, self.len_of(T))) is True
        self.check('P10', 'slot index is in bounds', okb, fr, 'a slot is accessed at an index that was not bounded by the length of its table: %s' % show(i))

    def load(self, fr, st, addr, o, guard):
        c = self.cls(addr)
        self.event('load:' + c[0] + (':' + c[2] if c[0] == 'state' else ''), fr)
        how = ('prot:' if guard is not None else 'plain:') + o
        acq = o in ACQ
        if guard is not None:
            self.check_guard(fr, st, guard)
        if c[0] == 'other' and addr.op == 'ref':
            return self.eng.fresh(fr, st, 'sym', 'ld')
        if c[0] == 'root':
            self.check_map(fr, st, c[1])
        if c[0] in ('entry', 'meta'):
            self.table_access(fr, st, c[1])
            self.bounds(fr, st, c[1], c[2])
            if c[2].op != 'pidx':
                self.visit(fr, st, c[1], c[2])
        v = self.loaded(fr, st, 'ld', addr, how)
        if c[0] == 'root' and guard is not None and acq:
            self.fact(st, bapp('tbl', v))
            self.fact(st, bapp('start', v))
            self.fact(st, bapp('rooted', v))
        elif c[0] == 'state' and c[2] == 'next' and acq:
            self.new_next(st, c[1], v)
        elif c[0] == 'entry' and guard is not None and acq:
            self.fact(st, bapp('ent', v))
        return v

    def loaded(self, fr, st, tg, addr, how):
        """The value read from a shared word."""
        v = self.eng.fresh(fr, st, 'sym', tg)
        c = self.cls(addr)
        if c[0] in ('entry', 'meta', 'state', 'root'):
            st.facts[bapp('at', v, *[x if type(x) is T else mk('kst', x) for x in (mk('kst', c[0]),) + c[1:]], mk('kst', 'acq' if how.split(':')[-1] in ACQ else 'rlx'))] = True
            if how.startswith(('cas', 'fetch')):
                st.facts[bapp('exchanged', v)] = True
        return v

    def new_next(self, st, T, v):
        self.fact(st, bapp('tbl', v))
        self.fact(st, bapp('nextof', T, v))
        if self.has(st, bapp('left', T)):
            self.fact(st, bapp('start', v))
        for a, w in list(st.facts.items()):
            if w and a.op == 'bapp' and a.a[0] == 'chain' and a.a[2] is T:
                self.fact(st, bapp('chain', a.a[1], v))
        self.fact(st, bapp('chain', T, v))

    def wr(self, fr, st, c):
        """A write to a shared word."""
        opn = self.op(st)
        self.check('P14', 'reads do not write', opn not in ('read', 'read0', 'iternext', 'iterclone'), fr, 'a read-only operation writes to the table')

    def store(self, fr, st, addr, v, o):
        c = self.cls(addr)
        k = c[0] + (':' + c[2] if c[0] == 'state' else '')
        self.event('store:' + k, fr)
        if c[0] == 'state' and c[1].op == 'new' and own(st, c[1]) == 'raw':
            # nothing else can reach the table yet
            self.eng.write_loc(fr, st, self.eng.deref(fr, st, addr), v)
            return
        self.wr(fr, st, c)
        if c[0] == 'meta':
            self.table_access(fr, st, c[1])
            self.bounds(fr, st, c[1], c[2])
            self.meta_store(fr, st, c[1], c[2], v, o)
        elif c[0] == 'entry':
            self.table_access(fr, st, c[1])
            self.bounds(fr, st, c[1], c[2])
            self.mark(fr, st, c[1], c[2], v, o)
        elif k == 'state:next':
            self.link_next(fr, st, c[1], v, o)
        elif k == 'state:status':
            self.set_status(fr, st, c[1], v, o)
        elif c[0] in ('root', 'count') or k in ('state:copied', 'state:claim'):
            self.check({'root': 'P17', 'count': 'P20'}.get(c[0], 'P17'), 'plain store to ' + k, False, fr,
                       'a shared word of the protocol is overwritten by a store: ' + k)

    def rmw(self, fr, st, kind, addr, v, o):
        c = self.cls(addr)
        k = c[0] + (':' + c[2] if c[0] == 'state' else '')
        self.event(kind + ':' + k, fr)
        self.wr(fr, st, c)
        r = self.loaded(fr, st, 'rmw', addr, kind + ':' + o)
        if kind == 'swap' and (c[0] == 'meta' or k == 'state:status' or c[0] == 'entry'):
            # a swap is a store that tells what it overwrote
            if c[0] == 'meta':
                self.table_access(fr, st, c[1])
                self.bounds(fr, st, c[1], c[2])
                self.meta_store(fr, st, c[1], c[2], v, o)
            elif c[0] == 'entry':
                self.table_access(fr, st, c[1])
                self.bounds(fr, st, c[1], c[2])
                self.mark(fr, st, c[1], c[2], v, o)
            else:
                self.set_status(fr, st, c[1], v, o)
        elif c[0] == 'count':
            self.count(fr, st, kind, v)
        elif c[0] == 'entry':
            self.table_access(fr, st, c[1])
            self.bounds(fr, st, c[1], c[2])
            self.freeze(fr, st, c[1], c[2], kind, v, o, r)
        elif k == 'state:claim':
            self.claim(fr, st, c[1], kind, v, r)
        elif k == 'state:copied':
            self.copied(fr, st, c[1], kind, v, o, r)
        elif c[0] in ('root', 'meta', 'state'):
            self.check('P16' if c[0] == 'meta' else 'P17', kind + ' on ' + k, False, fr, 'a shared word of the protocol is changed by an unexpected operation: %s %s' % (kind, k))
        return r

    def opaque_update(self, fr, st, addr):
        c = self.cls(addr)
        self.wr(fr, st, c)
        if c[0] != 'other':
            self.check('P16', 'opaque update of ' + c[0], False, fr, 'a shared word of the protocol is changed by a closure')

    def cas(self, fr, st, addr, exp, new, so, fo, guard, weak):
        c = self.cls(addr)
        k = c[0] + (':' + c[2] if c[0] == 'state' else '')
        self.event('cas:' + k, fr)
        self.wr(fr, st, c)
        if guard is not None:
            self.check_guard(fr, st, guard)
        if c[0] == 'root':
            self.check_map(fr, st, c[1])
        if c[0] in ('entry', 'meta'):
            self.table_access(fr, st, c[1])
            self.bounds(fr, st, c[1], c[2])
        s_err = st.copy()
        v = self.loaded(fr, s_err, 'casf', addr, ('casg:' if guard is not None else 'cas:') + fo)
        if not weak:
            x = eq(v, exp)
            if x.op != 'int':
                s_err.facts[x] = False
        if c[0] == 'root':
            if fo in ACQ:
                for n in ('tbl', 'start', 'rooted'):
                    self.fact(s_err, bapp(n, v))
            self.root_cas(fr, st, c[1], exp, new, so)
        elif c[0] == 'entry':
            if fo in ACQ:
                self.fact(s_err, bapp('ent', v))
            self.slot_cas(fr, st, c[1], c[2], exp, new, so)
        elif c[0] == 'meta' and exp is self.EMPTY:
            self.meta_store(fr, st, c[1], c[2], new, so)
            self.meta_lost(fr, s_err, c[1], c[2], weak)
        elif c[0] == 'count':
            self.count(fr, st, 'fetch_add', sub(new, exp))
        elif k == 'state:claim':
            self.claim(fr, st, c[1], 'fetch_add', sub(new, exp), exp)
        elif k == 'state:copied':
            self.copied(fr, st, c[1], 'fetch_add', sub(new, exp), so, exp)
        elif c[0] in ('meta', 'state'):
            self.check('P17', 'exchange on ' + k, False, fr, 'a shared word of the protocol is changed by an unexpected exchange: ' + k)
        self.learned(fr, st)
        self.learned(fr, s_err)
        return [('return', ok(exp), st), ('return', err(v), s_err)]

    # ------------------------------------------------------------ to be refined below
    def probe_start(self, st, T, h): pass
    def advance(self, st, t): pass
    def visit(self, fr, st, T, i): pass
    def meta_store(self, fr, st, T, i, v, o): pass
    def meta_lost(self, fr, st, T, i, weak): pass
    def mark(self, fr, st, T, i, v, o): pass
    def link_next(self, fr, st, T, v, o): pass
    def set_status(self, fr, st, T, v, o): pass
    def count(self, fr, st, kind, v): pass
    def freeze(self, fr, st, T, i, kind, v, o, r): pass
    def claim(self, fr, st, T, kind, v, r): pass
    def copied(self, fr, st, T, kind, v, o, r): pass
    def root_cas(self, fr, st, P, exp, new, so): pass
    def slot_cas(self, fr, st, T, i, exp, new, so): pass
    def learned(self, fr, st): pass
    def unreachable(self, fr, st): pass
    def user(self, fr, st, what): pass
    def user_panics(self, fr, st, what): pass
    def user_called(self, fr, st, what, f, args, v): pass
    def panics(self, fr, st): pass
    def wait(self, fr, st, what): pass
    def lock(self, fr, st, a, blocking): pass
    def unlock(self, fr, st, g): pass
    def retire(self, fr, st, g, p, f): pass
    def flush(self, fr, st, name, g): pass
    def collector_retire(self, fr, st, c, p, f): pass
    def reclaim_all(self, fr, st, c): pass
    def guard_dropped(self, fr, st, v): pass
    def dropped(self, fr, st, v, ty): pass
    def free(self, fr, st, p, ty): pass
    def from_raw(self, fr, st, p, ty): pass
    def into_raw(self, fr, st, p): pass
    def forgotten(self, fr, st, v, ty): pass
    def drop_in_place(self, fr, st, p, ty): pass
    def allocated(self, fr, st, p, layout, zeroed): pass
    def deallocated(self, fr, st, p, layout): pass
    def write_bytes(self, fr, st, p, v, n): pass
    def take_init(self, fr, st, loc, v): pass
    def ptr_read(self, fr, st, loc, v): pass
    def iter_item(self, fr, st, it, v): pass
    def iter_end(self, fr, st, it): pass
    def user_method(self, fr, st, ref, a): return None
    def special(self, fr, st, n, ref, subs, a): return None
    def external(self, fr, st, n, a): return False
    def opaque(self, fr, st, fn, ref, args): return None
    def leaked(self, fr, st, p, v): pass
    def pow2(self, st, x): return False
    def hasher_id(self, st, p): return mk('kst', 'hasher')


def mentions(t, key):
    if type(t) is not T:
        return False
    if t.op == 'pf':
        return t.a[0] == key[0] and t.a[3] == key[1]
    for x in t.a:
        if type(x) is T and mentions(x, key):
            return True
    return False


def strip_generics(p):
    import re
    return re.sub(r'::<[^>]*>', '', p)
