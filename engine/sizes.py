"""Rules about the size, layout and configuration of tables (P10, P28) and about dropping a map (P09)."""
from terms import *
from engine import decide, as_eqc, subst_t
from models import bapp, own, some
from rules import TL, ST, EN, RM, TB, tag

from protocol import Protocol
import protocol

NO = protocol.NO
LAYP = mk('pf', '$', 0, 1, '$lay')
YES = tag('yes')


class Sizes(Protocol):
    LAY = LAYP

    def __init__(self, prog):
        super().__init__(prog)

    # ------------------------------------------------------------ what is known about a number

    def is_len(self, t):
        """t is the length of an existing table."""
        if t.op != 'lin':
            return False
        c, d = lin_parts(t)
        if c != 1 or len(d) != 1:
            return False
        (x, k), = d.items()
        return k == 1 and x.op == 'mem' and len(x.a) == 2 and x.a[1] is self.p_mask

    def is_initial(self, t):
        return t.op == 'mem' and t.a[-1] is self.f(RM, 'initial_capacity')

    def pow2(self, st, t, zero=False):
        """t is a power of two (or zero)."""
        if t.op == 'int':
            v = t.a[0]
            return v > 0 and v & (v - 1) == 0 or zero and v == 0
        if self.is_len(t) or self.is_initial(t):
            return True
        if self.has(st, bapp('p2', t)) or zero and self.has(st, bapp('p2z', t)) or self.has(st, bapp('pow2', t)):
            return True
        if t.op == 'app':
            if t.a[0] == 'npow2':
                return True
            if t.a[0] == 'max':
                x, y = t.a[1:]
                return self.pow2(st, x, True) and self.pow2(st, y, True) and (zero or self.pow2(st, x) or self.pow2(st, y))
            if t.a[0] == 'min':
                return self.pow2(st, t.a[1], zero) and self.pow2(st, t.a[2], zero)
            if t.a[0] == 'shl':
                return self.pow2(st, t.a[1], zero)
        if t.op == 'shr':
            return (zero or decide(st, eq(t, ZERO)) is False) and self.pow2(st, t.a[0], True)
        if t.op == 'lin':
            c, d = lin_parts(t)
            for x, k in d.items():
                # k * (the length of a table)
                if x.op == 'mem' and len(x.a) == 2 and x.a[1] is self.p_mask and len(d) == 1 and c == k and k > 0 and k & (k - 1) == 0:
                    return True
                if len(d) == 1 and c == 0 and k > 0 and k & (k - 1) == 0:
                    return self.pow2(st, x, zero)
        return False

    def geic(self, st, t, depth=0):
        """t is at least the initial capacity of the map."""
        if self.is_len(t) or self.is_initial(t) or self.has(st, bapp('geic', t)):
            return True
        if t.op == 'app' and t.a[0] == 'max' and (self.geic(st, t.a[1], depth + 1) or self.geic(st, t.a[2], depth + 1)):
            return True
        if t.op == 'app' and t.a[0] == 'min' and self.geic(st, t.a[1], depth + 1) and self.geic(st, t.a[2], depth + 1):
            return True
        if t.op == 'app' and t.a[0] in ('shl', 'npow2') and self.geic(st, t.a[1], depth + 1):
            return True
        if t.op == 'lin':
            c, d = lin_parts(t)
            if len(d) == 1:
                (x, k), = d.items()
                if k > 0 and 0 <= s64(c) < 1 << 32:
                    if x.op == 'mem' and len(x.a) == 2 and x.a[1] is self.p_mask and c >= 1:
                        return True
                    if self.geic(st, x, depth + 1):
                        return True
        if depth > 3:
            return False
        for f, v in st.facts.items():
            if f.op == 'lt':
                x, y = f.a
                if v and y is t and self.geic(st, x, depth + 1):
                    return True
                if not v and x is t and self.geic(st, y, depth + 1):
                    return True
            elif f.op == 'eq' and v:
                e = as_eqc(f.a[0])
        return False

    def nonwrap(self, st, t):
        """t was computed without wrapping around."""
        if t.op in ('int', 'sym', 'mem', 'fld', 'discr'):
            return True
        if t.op == 'app':
            if t.a[0] == 'sat':
                return True
            if t.a[0] in ('max', 'min', 'div'):
                return all(self.nonwrap(st, x) for x in t.a[1:])
            if t.a[0] == 'npow2':
                x = t.a[1]
                small = x.op == 'shr' or x.op == 'app' and x.a[0] == 'div' and x.a[2].op == 'int' and x.a[2].a[0] >= 2 or \
                    decide(st, bapp('ovf', 'npow2', x)) is False or x.op == 'mem'
                return small and self.nonwrap(st, x)
            return False
        if t.op == 'shr':
            return self.nonwrap(st, t.a[0])
        if t.op == 'lin':
            c, d = lin_parts(t)
            if len(d) == 1:
                (x, k), = d.items()
                if x.op == 'mem' and len(x.a) == 2 and x.a[1] is self.p_mask and 0 < k <= 8 and 0 <= s64(c) <= 64:
                    # the table exists, and each slot takes nine bytes
                    return True
            for f, v in st.facts.items():
                if v is False and f.op == 'bapp' and f.a[0] == 'ovf' and len(f.a) == 4:
                    a, b = f.a[2:]
                    r = add(a, b) if f.a[1] == 'add' else mul(a, b) if f.a[1] == 'mul' else None
                    if r is t and a is not t and b is not t and self.nonwrap(st, a) and self.nonwrap(st, b):
                        return True
            if s64(c) < 0 and len(d) == 1:
                return self.nonwrap(st, sub(t, I(c)))
        return False

    def leave(self, fr, st, kind, ret, args):
        """What is known about a computed size outlives the way it was computed."""
        sk = st.ghost.get('sk', NO)
        if sk is not NO and kind == 'return' and ret is not None and ret.op == 'agg' and ret.a[0] == TB and ret.a[2 + self.path[(TB, 'raw')].a[2]] is not sk.a[2]:
            raw = ret.a[2 + self.path[(TB, 'raw')].a[2]]
            if self.mode(st) == 'B' or self.has(st, bapp('settled', raw)):
                st.ghost['sk'] = NO
        if kind != 'return' or ret is None or fr.fn.output != ('uint', 'usize') or ret.op == 'int':
            return
        if self.pow2(st, ret):
            self.fact(st, bapp('p2', ret))
        elif self.pow2(st, ret, True):
            self.fact(st, bapp('p2z', ret))
        if self.geic(st, ret):
            self.fact(st, bapp('geic', ret))

    # ------------------------------------------------------------ allocation

    def allocated(self, fr, st, p, layout, zeroed):
        super().allocated(fr, st, p, layout, zeroed)
        if layout.op == 'agg' and layout.a[0] == 'layout':
            size, align = layout.a[2], layout.a[3]
            self.check('P10', 'the size of a table is computed without overflow', self.nonwrap(st, size), fr,
                       'the size of a table allocation is computed with arithmetic that can wrap around: ' + show(size))
            st.mem[(p, (self.LAY,))] = mk('agg', 'layout', 0, size, align)

    def write_bytes(self, fr, st, p, v, n):
        if p.op == 'po' and p.a[0].op == 'new' or p.op == 'new':
            T, off = (p.a[0], p.a[1]) if p.op == 'po' else (p, ZERO)
            if off is I(self.SZ) and v is self.EMPTY:
                self.fact(st, bapp('minit', T, n))
            elif v is ZERO:
                self.fact(st, bapp('zfill', T, off, n))

    def table_shape(self, fr, st, T, what):
        """A table that other threads are about to see."""
        if T.op != 'new':
            return
        L = add(self.eng.read_mem(st, T, (self.p_mask,)), ONE)
        lay = st.mem.get((T, (self.LAY,)))
        if lay is not None:
            size, align = lay.a[2], lay.a[3]
            d = sub(size, add(I(self.SZ), scale(L, 9)))
            self.check('P10', 'a table is large enough for its slots', d.op == 'int' and 0 <= s64(d.a[0]) < 1 << 32, fr,
                       'a table of %s slots is given %s bytes' % (show(L), show(size)))
            al = self.prog.adts[TL]['lay'][1]
            self.check('P10', 'a table is aligned for its header', align.op == 'int' and align.a[0] >= al, fr, 'a table is allocated with too small an alignment')
            self.pat('P10', 'the layout of a table', show(sub(size, scale(L, 9))) + ' + 9 per slot, aligned to ' + show(align), fr)
        z = self.has(st, bapp('zeroed', T)) or any(f.a[1] is T and decide(st, eq(f.a[2], add(I(self.SZ), L))) and f.a[3] is scale(L, 8)
                                                  for f in self.facts(st, 'zfill'))
        self.check('P10', 'the slots of a table start out empty', z, fr, 'a table is shared whose slots were not zeroed')
        self.check('P10', 'the metadata of a table start out empty',
                   any(f.a[1] is T and (f.a[2] is L or decide(st, lt(f.a[2], L)) is False) for f in self.facts(st, 'minit')), fr,
                   'a table is shared whose metadata were not all marked empty')
        self.check('P10', 'the length of a table is a power of two of at least eight', self.pow2(st, L) and
                   (decide(st, lt(L, I(8))) is False or L.op == 'int' and L.a[0] >= 8), fr,
                   'a table is shared whose length may be no power of two, or too short for its slots to be aligned: ' + show(L))
        self.check('P28', 'table lengths are powers of two', self.pow2(st, L), fr, 'a table is created with a length that may not be a power of two: ' + show(L))

    def publish_table(self, st, T):
        self.table_shape(self.eng.curfr, st, T, 'shared')
        super().publish_table(st, T)

    def capacity(self, fr, st, T, v):
        L = add(self.eng.read_mem(st, v, (self.p_mask,)), ONE)
        self.check('P28', 'a new table is not smaller than the initial capacity', self.geic(st, L), fr,
                   'a new table may be smaller than the initial capacity of the map: its length is ' + show(L))

    # ------------------------------------------------------------ release

    def deallocated(self, fr, st, p, layout):
        L = add(self.eng.read_mem(st, p, (self.p_mask,)), ONE)
        if layout.op == 'agg' and layout.a[0] == 'layout':
            size, align = layout.a[2], layout.a[3]
            lay = st.mem.get((p, (self.LAY,)))
            if lay is not None:
                m = {self.mask_of(p): sub(L, ONE)}
                self.check('P10', 'a table is released with the layout it was allocated with', subst_t(lay.a[2], m, {}) is subst_t(size, m, {}) and
                           lay.a[3] is align, fr,
                           'a table is released with a layout other than the one it was allocated with')
            self.pat('P10', 'the layout of a table', show(subst_t(sub(size, scale(L, 9)), {self.mask_of(p): sub(L, ONE)}, {})) + ' + 9 per slot, aligned to ' + show(align), fr)
        if self.op(st) == 'drop' and p.op != 'new':
            self.check('P09', 'the deferred entries of a table are handed out before it is freed', self.has(st, bapp('drained', p)), fr,
                       'a table is freed with the map while entries deferred to it were not retired')
            self.check('P09', 'the entries of a table are freed before it', self.has(st, bapp('hdall', p)), fr,
                       'a table is freed with the map without every live entry in it having been freed')
            dt = st.ghost['dt']
            self.check('P09', 'tables are freed in the order of their chain, each once', dt is p or decide(st, eq(dt, p)) is True, fr,
                       'a table is freed that is not the next one of the chain')
            st.ghost['dt'] = self.eng.read_mem(st, p, (self.p_state, self.f(ST, 'next')))
        super().deallocated(fr, st, p, layout)

    def reclaim_all(self, fr, st, c):
        if self.op(st) == 'drop':
            st.ghost['ra'] = YES

    def setup2(self, fn, st, args):
        super().setup2(fn, st, args)
        op = self.op(st)
        if op == 'drop':
            st.ghost['dt'] = mk('mem', args[0], self.p_table)
            st.ghost['ra'] = NO
        elif op == 'reserve':
            st.ghost['rs'] = NO

    def slot_word(self, w):
        """The slot an unshared word was read from."""
        if w.op == 'mem' and len(w.a) == 1 and w.a[0].op == 'po':
            c = self.cls(w.a[0])
            if c[0] == 'entry':
                return c[1], c[2]
        return None

    def free_in_drop(self, fr, st, p, ty):
        w = self.strip(p)
        s = self.slot_word(w)
        ent = ty[0] == 'adt' and ty[1] == EN
        self.check('P09', 'only what a table holds is freed with the map', s is not None and ent, fr,
                   'something other than an entry held by a table is freed with the map: ' + show(p))
        if s is None:
            return
        T, i = s
        self.check('P09', 'an entry is freed by its full address', p is not w, fr, 'an entry is freed by an address with tag bits')
        self.check('P09', 'only live entries are freed', decide(st, eq(p, ZERO)) is False, fr, 'an empty or deleted slot is freed as if it held an entry')
        self.check('P09', 'an entry is freed by one table only', self.bit(st, w, self.C) is False, fr,
                   'an entry that was carried over to a later table is freed from the table it was carried from as well')
        self.check('P09', 'entries of an aborted table are freed elsewhere',
                   decide(st, eq(mk('mem', T, self.p_state, self.f(ST, 'status')), self.ABORTED)) is False, fr,
                   'the entries of an aborted table, which a later table holds too, are freed')
        self.check('P09', 'an entry is freed once', self.has(st, bapp('hd', T, i)) and not self.has(st, bapp('hd', T, add(i, ONE))), fr,
                   'an entry is freed again, or out of order')
        self.fact(st, bapp('hd', T, add(i, ONE)))

    def learned_drop(self, fr, st):
        for a, v in list(st.facts.items()):
            if a.op == 'eq':
                for x in self.words(a.a[0]):
                    s = self.slot_word(x)
                    if s and (self.isnull(st, x) is True or self.bit(st, x, self.C)):
                        if self.has(st, bapp('hd', s[0], s[1])):
                            self.fact(st, bapp('hd', s[0], add(s[1], ONE)))
                if v:
                    e = as_eqc(a.a[0])
                    if e and e[0].op == 'mem' and e[0].a[-1] is self.f(ST, 'status') and I(e[1]) is self.ABORTED:
                        self.fact(st, bapp('aborted', e[0].a[0]))
                        self.fact(st, bapp('hdall', e[0].a[0]))
        for a, v in list(st.facts.items()):
            if a.op == 'lt' and not v and self.is_len(a.a[1]):
                (x, k), = lin_parts(a.a[1])[1].items()
                if self.has(st, bapp('hd', x.a[0], a.a[0])):
                    self.fact(st, bapp('hdall', x.a[0]))
            elif a.op == 'eq' and v:
                # i == len
                c, d = lin_parts(a.a[0])
                for x, k in d.items():
                    if x.op == 'mem' and len(x.a) == 2 and x.a[1] is self.p_mask and abs(k) == 1:
                        i = sub(add(x, ONE), a.a[0]) if k == 1 else add(add(x, ONE), a.a[0])
                        if self.has(st, bapp('hd', x.a[0], i)):
                            self.fact(st, bapp('hdall', x.a[0]))

    def words(self, t):
        st, r = [t], []
        while st:
            x = st.pop()
            if x.op == 'mem' and len(x.a) == 1:
                r.append(x)
                continue
            for y in x.a:
                if type(y) is T and y.syms:
                    st.append(y)
        return r

    def learned_reserve(self, fr, st):
        ad = self.entry_args[1] if len(self.entry_args) > 1 else None
        for a, v in st.facts.items():
            if a.op == 'lt' and not v and self.is_len(a.a[0]):
                s = a.a[1].syms
                if any(self.has(st, bapp('lenof', x)) for x in s) and len(s) > 1:
                    st.ghost['rs'] = a.a[1]

    def learned(self, fr, st):
        op = self.op(st)
        if op == 'drop':
            self.learned_drop(fr, st)
        elif op == 'reserve':
            self.learned_reserve(fr, st)
        super().learned(fr, st)

    # ------------------------------------------------------------ the caller's hasher

    def hasher_id(self, st, p):
        fr = self.eng.curfr
        o = p.op == 'pl' and p.a[-1] is self.f(RM, 'hasher')
        if p.op == 'pl' or p.op == 'ref':
            self.check('P28', 'hashes are computed with the hasher of the map', o, fr, 'a hash is computed with something other than the hasher of the map')
        return super().hasher_id(st, p)

    # ------------------------------------------------------------ exits

    def finish_sizes(self, f, fn, e):
        st = e.st
        op = self.op(st)
        if e.kind != 'return':
            return
        if op == 'drop':
            dt = st.ghost['dt']
            self.check('P09', 'every table of the chain is freed', decide(st, eq(dt, ZERO)) is True, f, 'a map can be dropped without every table of its chain being freed')
            self.check('P09', 'no reclamation is left pending', st.ghost['ra'] is YES, f,
                       'a map can be dropped without the reclamation of what was retired having been run first')
        elif op == 'reserve':
            x = st.ghost['rs']
            ad = self.entry_args[1]
            ok = x is not NO and ad in x.syms or decide(st, eq(ad, ZERO)) is True
            self.check('P28', 'a reservation ends with a table large enough', ok, f,
                       'a reservation can end without the length of the table having been compared with the elements it holds plus the requested ones')
        elif op == 'new':
            self.finish_new(f, st, e.ret)

    def finish_new(self, f, st, v):
        fs = [x[0] for x in self.prog.adts[RM]['variants'][0]['fields']]
        if v is None or v.op != 'agg' or v.a[0] != RM:
            return
        g = dict(zip(fs, v.a[2:]))
        args = {}
        for i, t in enumerate(f.fn.inputs):
            k = t[1].split('::')[-1] if t[0] == 'adt' else t[0]
            args[k] = self.entry_args[i]
        for fld_, k, what in (('collector', 'Collector', 'collector'), ('resize', 'ResizeMode', 'resize mode'), ('hasher', 'param', 'hasher')):
            if k in args and fld_ in g:
                self.check('P28', 'a map uses the %s it is given' % what, g[fld_] is args[k], f, 'a map is created with a %s other than the one given' % what)
        cap = args.get('uint')
        ic, t = g.get('initial_capacity'), g.get('table')
        if cap is None or ic is None or t is None:
            return
        if decide(st, eq(cap, ZERO)) is True:
            self.check('P28', 'an unbounded map starts with the smallest capacity', t.op != 'int' or ic is ONE or t.op == 'new', f,
                       'a map without a table has an initial capacity other than one')
        raw = t.a[-1] if t.op == 'agg' else t
        if raw.op == 'new':
            L = add(self.eng.read_mem(st, raw, (self.p_mask,)), ONE)
            s = self.eng.read_mem(st, raw, (self.p_state, self.f(ST, 'status')))
            self.check('P28', 'the initial capacity is that of the first table', ic is L or decide(st, lt(L, ic)) is False, f,
                       'the first table is smaller than the initial capacity of the map')
            self.check('P28', 'the requested capacity is used', cap in ic.syms and cap in L.syms, f, 'the capacity of a new map does not depend on the requested one')
            self.check('P28', 'the initial capacity is a power of two', self.pow2(st, ic), f, 'the initial capacity of a map may not be a power of two: ' + show(ic))
            self.check('P17', 'the first table is published as promoted', s is self.PROMOTED, f, 'the first table is created without the promoted status')
            self.table_shape(f, st, raw, 'created')
        else:
            self.check('P28', 'a map without a table was not asked for capacity', decide(st, eq(cap, ZERO)) is True, f,
                       'a capacity was requested, but no table is allocated')
            self.check('P28', 'an unbounded map starts with the smallest capacity', ic is ONE, f, 'a map without a table has an initial capacity other than one')
