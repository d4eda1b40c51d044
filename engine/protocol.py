"""The concurrency protocol of the table: which atomic steps are allowed in which state of knowledge.

Knowledge is kept as facts over values (bapp terms) that are derived after each branch and each event:
  at(v,kind,..,how)     v was read from this shared word (how: ordering)
  tbl(T) ent(v)         pointer obtained by an acquire load under the guard (or by this operation's own publication)
  nextof(T,N) chain(T,N) full(N,T) start(T) left(T) settled(T)
  skip(T,h,n) matched(T,i) copied(T,i) absent
  frz(r,T,i) claimed(N,c,k) mdone(N,c,n) stored(r) marked(r)
Obligations opened by a committed step are kept in the ghost part:
  pc (count) pm (metadata) pr (retirement) pS/pT/pU/pA (promotion) pw (wake-up)
"""
from terms import *
import terms
from engine import decide, assume, pf, mkpl, as_eqc, State, subst_t, known_bits
import models
from models import bapp, ACQ, REL, OWN, own, set_own, some, NONE, ok, err, po, H
from rules import *

NO = tag('-')
DBG = False
PENDS = ('pc', 'pm', 'pr', 'pS', 'pT', 'pU', 'pA', 'pw')
NAMES = {'pc': 'the length update', 'pm': 'the metadata update', 'pr': 'the retirement of the displaced entry', 'pS': 'the promoted status',
         'pT': 'the retirement of the old table', 'pU': 'the wake-up after promotion', 'pA': 'the retirement of aborted tables',
         'pw': 'the wake-up of waiting threads'}
PROPS = {'pc': 'P20', 'pm': 'P22', 'pr': 'P06', 'pS': 'P17', 'pT': 'P06', 'pU': 'P13', 'pA': 'P06', 'pw': 'P13'}
MUT = ('insert', 'tryinsert', 'setinsert', 'update', 'upsert', 'compute', 'remove', 'removeif', 'clear', 'retain', 'reserve')
TRAV = ('clear', 'retain', 'iter', 'iternext', 'drop')
READS = ('read', 'read0', 'iternext', 'iterclone')


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if type(y) is T:
                st.append(y)


_hk = {}


def hashof(t):
    """The hash term app('hash', hasher, key) a value is computed from."""
    r = _hk.get(t)
    if r is None:
        r = False
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'hash':
                r = x
                break
        _hk[t] = r
    return r or None


class Protocol(Rules):
    def __init__(self, prog):
        super().__init__(prog)
        self.pats = {}
        self.C = I(self.c['COPYING'])
        self.D = I(self.c['COPIED'])
        self.B = I(self.c['BORROWED'])
        self.EMPTY = I(self.c['EMPTY'])
        self.TOMBM = I(self.c['TOMB'])
        self.PENDING, self.ABORTED, self.PROMOTED = (I(self.c[n]) for n in ('PENDING', 'ABORTED', 'PROMOTED'))
        self.HOLE = mk('kst', 'hash')
        a = prog.adts.get('map::Operation')
        self.opvals = [int(v['discr']) if v.get('discr') is not None else i for i, v in enumerate(a['variants'])] if a else []
        self.opnames = [v['name'] for v in a['variants']] if a else []
        self.install()

    # ------------------------------------------------------------ setup of an entry point

    def setup(self, fn, st, args):
        for g in PENDS:
            st.ghost[g] = NO
        if self.op(st) in ('clear', 'retain'):
            st.ghost['sk'] = NO
        if self.op(st) == 'compute':
            st.ghost['ic'] = NO
        st.ghost['cm'] = NO
        st.ghost['locks'] = NO
        op = self.op(st)
        a0 = args[0]
        if fn.p.endswith('Ref::' + fn.name):
            ty = fn.p.rsplit('::', 1)[0]
            inner = 'map' if ty.startswith('map') else 'set'
            base = {'map': 'map::HashMap', 'set': 'set::HashSet'}[inner]
            m = mk('mem', a0, self.field(ty, inner))
            P = self.rawmap(m, base)
            g = mkpl(a0, (self.field(ty, 'guard'),))
            st.facts[bapp('vmap', P)] = True
            st.facts[bapp('verified', g, P)] = True
            st.facts[bapp('gver', g)] = True
        elif op in ('iternext', 'iterclone'):
            self.setup_iter(fn, st, a0)
        if op in ('insert', 'tryinsert', 'setinsert', 'update', 'upsert', 'compute'):
            st.ghost['key'] = args[1]
        elif op in ('read', 'remove', 'removeif'):
            st.ghost['key'] = mk('mem', args[1])
        else:
            st.ghost['key'] = NO
        self.setup2(fn, st, args)

    def setup2(self, fn, st, args):
        pass

    def rawmap(self, m, base):
        if base == 'set::HashSet':
            a = self.prog.adts[base]['variants'][0]['fields']
            f = [x[0] for x in a]
            if 'raw' in f:
                return mkpl(m, (self.field(base, 'raw'),))
            return mkpl(m, (self.field(base, f[0]), self.field('map::HashMap', 'raw')))
        return mkpl(m, (self.field(base, 'raw'),))

    def setup_iter(self, fn, st, a0):
        """Fields of the raw iterator behind &mut self."""
        ty = fn.p.rsplit('::', 1)[0]
        path = []
        while ty != 'raw::Iter':
            for i, f in enumerate(self.prog.adts[ty]['variants'][0]['fields']):
                t = f[1]
                if t[0] == 'adt' and t[1] in self.prog.adts and (t[1].endswith('Iter')):
                    path.append(pf(ty, 0, i, f[0]))
                    ty = t[1]
                    break
            else:
                return
        flds = []
        T0 = mk('sym', ('in', 'T'))
        i0 = mk('sym', ('in', 'i'))
        for i, f in enumerate(self.prog.adts[ty]['variants'][0]['fields']):
            t = f[1]
            if t[0] == 'adt' and t[1] == TB:
                fs = []
                for n in [x[0] for x in self.prog.adts[TB]['variants'][0]['fields']]:
                    fs.append({'mask': self.mask_of(T0), 'limit': mk('mem', T0, self.p_limit), 'raw': T0}.get(n, mk('sym', ('in', n))))
                flds.append(mk('agg', TB, 0, *fs))
            elif t[0] == 'uint':
                flds.append(i0)
                self.iter_i = tuple(path) + (pf(ty, 0, i, f[0]),)
            else:
                g = mk('sym', ('in', f[0]))
                flds.append(g)
                st.facts[bapp('verified', g, mk('kst', 'map of the iterator'))] = True
                st.facts[bapp('gver', g)] = True
        st.mem[(a0, tuple(path))] = mk('agg', 'raw::Iter', 0, *flds)
        self.iter_path, self.iter_flds = tuple(path), flds
        st.facts[bapp('tbl', T0)] = True
        st.facts[bapp('trav', T0, i0)] = True
        st.facts[bapp('settled', T0)] = True
        self.iter_a0, self.iter_T = a0, T0

    # ------------------------------------------------------------ helpers

    def opkey(self, st, h):
        x = hashof(h)
        k = st.ghost.get('key')
        return x is not None and k is not None and (x.a[2] is k or self.has(st, bapp('keq', x.a[2], k)))

    def keyterm(self, v):
        """The key of the entry the word v points to."""
        return mk('mem', self.E(v), self.p_key)

    def E(self, v):
        return band(v, self.MASKT)

    def isnull(self, st, v):
        return decide(st, eq(self.E(v), ZERO))

    def bit(self, st, v, b):
        r = decide(st, eq(band(v, b), ZERO))
        return None if r is None else not r

    def ats(self, st, v=None, kind=None, T=None, i=None):
        for a, w in list(st.facts.items()):
            if w and a.op == 'bapp' and a.a[0] == 'at':
                if v is not None and a.a[1] is not v:
                    continue
                if kind is not None and a.a[2].a[0] != kind:
                    continue
                if T is not None and a.a[3] is not T:
                    continue
                if i is not None and a.a[4] is not i:
                    continue
                yield a

    def facts(self, st, name):
        return [a for a, w in st.facts.items() if w and a.op == 'bapp' and a.a[0] == name]

    def mode(self, st):
        """'B' or 'I' when the resize mode of the map is known here."""
        for a, w in st.facts.items():
            if a.op == 'eq':
                e = as_eqc(a.a[0])
                if e and e[0].op == 'discr' and e[0].a[1] == 'map::ResizeMode':
                    d = self.prog.adts['map::ResizeMode']['variants']
                    names = [v['name'] for v in d]
                    vals = terms.DISCR.get('map::ResizeMode')
                    j = vals.index(e[1]) if e[1] in vals else None
                    if j is None:
                        continue
                    n = names[j] if w else [x for k, x in enumerate(names) if k != j][0]
                    return 'B' if n == 'Blocking' else 'I'
        return None

    def same(self, st, x, c):
        z, o = known_bits(st, x)
        return x is c or (o == c.a[0] and z == ~c.a[0] & M64)

    def pend(self, st, g, v=None):
        if v is not None:
            st.ghost[g] = v
        return st.ghost.get(g, NO)

    def op_in(self, st, *ops):
        return self.op(st) in ops

    # ------------------------------------------------------------ derivation of knowledge

    updates = True

    def learned(self, fr, st):
        f = st.facts
        lts = []
        pos = []
        for a, w in list(f.items()):
            if a.op == 'bapp' and w and a.a[0] == 'at':
                pos.append(a)
            elif a.op == 'lt':
                lts.append((a, w))
                if not w and a.a[1].op == 'lin':
                    # not less than limit + 1
                    b = sub(a.a[1], ONE)
                    if b.op == 'mem' and b.a[-1] is self.p_limit:
                        lts.append((mk('lt', b, a.a[0]), True))
            elif a.op == 'eq' and w and a.a[0].op == 'lin' and sub(a.a[0], ONE).op == 'mem' and sub(a.a[0], ONE).a[-1] is self.p_limit:
                # limit + 1 does not wrap
                lts.append((mk('lt', sub(a.a[0], ONE), ZERO), True))
            elif a.op == 'eq' and w and a.a[0].op == 'mem' and a.a[0].a[-1] is self.p_limit:
                lts.append((mk('lt', a.a[0], ONE), True))
            elif a.op == 'eq' and w and a.a[0].op == 'and' and a.a[0].a[1] is self.C:
                # only a frozen entry is marked as copied
                self.fact(st, eq(band(a.a[0].a[0], self.D), ZERO))
            elif a.op == 'bapp' and w and a.a[0] == 'colleq':
                for x in a.a[1:]:
                    if x.op == 'pl' and x.a[-1] is self.f(RM, 'collector'):
                        self.fact(st, bapp('vmap', mkpl(x.a[0], x.a[1:-1])))
                        for y in a.a[1:]:
                            if y.op == 'app' and y.a[0] == 'collector':
                                self.fact(st, bapp('gver', y.a[1]))
        self.derive2(fr, st)
        for a in pos:
            self.derive(fr, st, a)
        for a, w in lts:
            if w and a.a[0].op == 'mem' and a.a[0].a[-1] is self.p_limit and len(a.a[0].a) == 2:
                self.exhausted(st, a.a[0].a[0], a.a[1])
        for a in self.facts(st, 'claimed'):
            self.complete(st, a)
        for a in self.facts(st, 'frz'):
            if self.isnull(st, a.a[1]) is False and self.bit(st, a.a[1], self.D) is None:
                # marked as copied only by the claimant, after freezing
                self.fact(st, eq(band(a.a[1], self.D), ZERO))
        for a in self.facts(st, 'cleft'):
            if any(self.isnull(st, r.a[1]) is False and not self.has(st, bapp('stored', r.a[1])) for r in self.facts(st, 'frz')):
                self.fact(st, bapp('nofit', a.a[1]))
        for a in self.facts(st, 'left'):
            self.leave_table(st, a.a[1])
        for a in self.facts(st, 'rdone'):
            for b in self.facts(st, 'nextof'):
                if b.a[1] is a.a[1]:
                    self.fact(st, bapp('rtrav', b.a[2]))
        for b, w in list(f.items()):
            # a table equal to another, or to a successor of another
            l = b.a[0] if b.op == 'eq' and w else None
            if l is not None and l.op == 'lin' and l.a[0] == 0 and len(l.a) == 5 and l.a[2] == -l.a[4] and any(self.has(st, bapp('tbl', x)) for x in (l.a[1], l.a[3])):
                for x, y in ((l.a[1], l.a[3]), (l.a[3], l.a[1])):
                    self.fact(st, bapp('reach', x, y))
                    for c in self.facts(st, 'chain'):
                        if c.a[2] is x:
                            self.fact(st, bapp('reach', c.a[1], y))
        nx = self.facts(st, 'nextof')
        if nx:
            for a in nx:
                for b in nx:
                    if a is not b and a.a[1] is b.a[1] and decide(st, eq(a.a[2], ZERO)) is False and decide(st, eq(b.a[2], ZERO)) is False:
                        # the next table is linked once (checked where it is stored)
                        self.fact(st, eq(a.a[2], b.a[2]))
            for a in self.facts(st, 'chain'):
                for b in nx:
                    if b.a[1] is a.a[2] and decide(st, eq(b.a[2], ZERO)) is False:
                        self.fact(st, bapp('chain', a.a[1], b.a[2]))
        rt = self.facts(st, 'rtrav')
        p = self.pend(st, 'pA') if rt else NO
        if p is not NO:
            N = p.a[3]
            for a in rt:
                if a.a[1] is N or decide(st, eq(a.a[1], N)) is True:
                    st.ghost['pA'] = NO

    def derive2(self, fr, st):
        if self.op(st) in ('iternext', 'clear', 'retain'):
            for x in self.facts(st, 'trav'):
                T, i = x.a[1:]
                if decide(st, eq(T, ZERO)) is True or decide(st, lt(i, add(self.mask_of(T), ONE))) is False:
                    self.fact(st, bapp('itend', T, i))
                    if self.has(st, bapp('settled', T)) or self.mode(st) == 'B':
                        self.fact(st, bapp('cleared', self.anymap(st)))
            for x, w in list(st.facts.items()):
                # a table has slots
                if x.op == 'eq' and w is True and x.a[0].op == 'lin':
                    for m in lin_parts(x.a[0])[1]:
                        if m.op == 'mem' and len(m.a) == 2 and m.a[1] is self.p_mask and x is eq(add(m, ONE), ZERO):
                            self.fact(st, bapp('cleared', self.anymap(st)))
        ucs = self.facts(st, 'uc')
        for u in ucs:
            # what the closure decided outlives the value it returned
            z = decide(st, eq(u.a[1], ZERO))
            if z is not None:
                self.fact(st, bapp('uct', ZERO if z else ONE, ZERO, *u.a[3:]))
            for k, n in enumerate(self.opvals):
                if decide(st, eq(discr(u.a[1], 'map::Operation'), I(n))) is True:
                    self.fact(st, bapp('ucd', I(k), ZERO, *u.a[3:]))
        # a closure call on an entry concerns every pointer found equal to it
        ucs = ucs + self.facts(st, 'uct') + self.facts(st, 'ucd')
        if ucs:
            for a, w in list(st.facts.items()):
                if w and a.op == 'eq' and a.a[0].op == 'lin' and a.a[0].a[0] == 0 and len(a.a[0].a) == 5 and a.a[0].a[2] == -a.a[0].a[4]:
                    x, y = a.a[0].a[1], a.a[0].a[3]
                    for u in ucs:
                        for p, q in ((x, y), (y, x)):
                            if p.syms and p.syms <= u.syms:
                                v = subst_t(u, {p: q}, {})
                                if v is not u and v.a[1] is u.a[1]:
                                    st.facts[v] = True

    def derive(self, fr, st, a):
        v, kind, how = a.a[1], a.a[2].a[0], a.a[-1].a[0]
        acq = how == 'acq'
        if kind == 'root':
            z = decide(st, eq(v, ZERO))
            if z is True:
                self.fact(st, bapp('absent', a.a[3]))
                self.fact(st, bapp('absent', self.anymap(st)))
                self.fact(st, bapp('cleared', self.anymap(st)))
            elif z is False:
                self.fact(st, bapp('rootset', a.a[3]))
        elif kind == 'state':
            T, fld_ = a.a[3], a.a[4].a[0]
            if fld_ == 'next':
                if decide(st, eq(v, ZERO)) is True:
                    self.fact(st, bapp('nonext', T))
                    if self.has(st, bapp('undl', v)):
                        self.fact(st, bapp('nonextL', T))
                    if self.has(st, bapp('left', T)):
                        self.fact(st, bapp('absent', self.anymap(st)))
                    if self.has(st, bapp('start', T)) or self.has(st, bapp('settledish', T)):
                        self.fact(st, bapp('settled', T))
            elif fld_ == 'status':
                if acq and decide(st, eq(v, self.PROMOTED)) is True:
                    self.fact(st, bapp('start', T))
                    self.fact(st, bapp('cstart', T))
                if decide(st, eq(v, self.ABORTED)) is True:
                    self.fact(st, bapp('aborted', T))
            elif fld_ == 'copied' and acq:
                self.isfull(st, T, v)
        elif kind == 'meta':
            T, i = a.a[3], a.a[4]
            e = decide(st, eq(v, self.EMPTY))
            if e is False or e is None and not self.has(st, bapp('mset', T, i)) and self.ishashmeta(st, v):
                self.fact(st, bapp('mset', T, i))
            if not acq:
                return
            if i.op == 'pidx' and i.a[1] is self.mask_of(T):
                h, n = i.a[0], i.a[2]
                if e is True and self.opkey(st, h):
                    self.fact(st, bapp('absent', self.anymap(st)))
                if e is False and not self.opkey(st, h):
                    self.fact(st, bapp('skip', T, h, n))
                elif self.opkey(st, h) and not self.has(st, bapp('skip', T, h, n)):
                    if not self.has(st, bapp('nokey', v, h)):
                        for b, w in list(st.facts.items()):
                            if b.op == 'eq' and not w and v in b.syms and b.a[0].op == 'lin':
                                k = lin_parts(b.a[0])[1].get(v)
                                if k in (1, -1):
                                    x = sub(v, b.a[0]) if k == 1 else add(b.a[0], v)
                                    hx = hashof(x)
                                    if hx is not None and hx is hashof(h):
                                        self.h2pattern(fr, x, hx)
                                        self.fact(st, bapp('nokey', v, h))
                                        break
                    if e is False and self.has(st, bapp('nokey', v, h)):
                        self.fact(st, bapp('skip', T, h, n))
            elif i.op != 'pidx':
                if e is True or decide(st, eq(v, self.TOMBM)) is True:
                    self.handled(st, T, i)
        elif kind == 'entry':
            T, i = a.a[3], a.a[4]
            if not acq:
                return
            z = self.isnull(st, v)
            if self.bit(st, v, self.C):
                # slots are frozen only by a thread that saw the next table
                self.fact(st, bapp('hasnext', T))
            cas = self.has(st, bapp('exchanged', v))
            if z is True:
                if cas or decide(st, eq(v, ZERO)) is False:
                    self.fact(st, bapp('gone', T, i))
                if i.op == 'pidx' and i.a[1] is self.mask_of(T):
                    self.skip(st, T, i)
                    if cas and self.has(st, bapp('matched', T, i)):
                        self.fact(st, bapp('absent', self.anymap(st)))
                else:
                    self.handled(st, T, i)
            if z is False:
                if i.op == 'pidx' and i.a[1] is self.mask_of(T):
                    h, n = i.a[0], i.a[2]
                    if self.opkey(st, h):
                        k = st.ghost.get('key')
                        q = decide(st, bapp('keq', self.keyterm(v), k))
                        if q is None and self.has(st, bapp('matched', T, i)):
                            # a slot keeps its key (checked where entries are replaced)
                            self.fact(st, bapp('keq', self.keyterm(v), k))
                        if q is False:
                            self.skip(st, T, i)
                        elif q is True:
                            self.fact(st, bapp('matched', T, i))
                            if self.bit(st, v, self.D) is False or self.bit(st, v, self.C) is False:
                                self.fact(st, bapp('present', self.anymap(st)))
                    elif cas:
                        self.fact(st, bapp('skip', T, h, n))
                if self.bit(st, v, self.C) and i.op != 'pidx':
                    self.handledc(st, T, i)
                if i.op != 'pidx' and any(u.a[1] is ONE and self.concerns(st, u.a[3:], v) for u in self.facts(st, 'uct')):
                    self.handled(st, T, i)
            if self.bit(st, v, self.D):
                # copied, or removed for good: either way the key is not in this table any more
                self.fact(st, bapp('copied', T, i))
            if self.has(st, bapp('matched', T, i)) and self.has(st, bapp('copied', T, i)):
                self.fact(st, bapp('left', T))

    def skip(self, st, T, i):
        self.fact(st, bapp('skip', T, i.a[0], i.a[2]))
        for a in self.ats(st, kind='meta', T=T, i=i):
            self.fact(st, bapp('nokey', a.a[1], i.a[0]))

    def anymap(self, st):
        return mk('kst', 'map')

    def exhausted(self, st, T, n):
        """lt(limit(T), n): the probe path of every pidx(h, mask(T), n) in scope is exhausted."""
        if self.has(st, bapp('left', T)) and self.has(st, bapp('cleft', T)):
            return
        m = self.mask_of(T)
        seen = set()
        for c in st.cells.values():
            for x in subterms(c, seen):
                if x.op == 'pidx' and x.a[1] is m and x.a[2] is n:
                    if self.opkey(st, x.a[0]):
                        self.fact(st, bapp('left', T))
                    elif hashof(x.a[0]) is not None:
                        self.fact(st, bapp('cleft', T))

    def leave_table(self, st, T):
        for b in self.facts(st, 'nextof'):
            if b.a[1] is T:
                self.fact(st, bapp('start', b.a[2]))
        if self.has(st, bapp('nonext', T)) or self.mode(st) == 'B':
            self.fact(st, bapp('absent', self.anymap(st)))

    def isfull(self, st, N, v):
        x = ZERO
        for r in self.facts(st, 'rmwarg'):
            if r.a[1] is v:
                x = r.a[2]
        n = add(v, x)
        for b, w in list(st.facts.items()):
            if v not in b.syms or not (b.op == 'eq' and w or b.op == 'lt'):
                continue
            for t in subterms(b, set()):
                if t.op == 'mem' and t.a[-1] is self.p_mask and len(t.a) == 2:
                    L = add(t, ONE)
                    # (no more than the slots of the table are ever counted)
                    if decide(st, eq(n, L)) is True or decide(st, lt(n, L)) is False:
                        self.fact(st, bapp('full', N, t.a[0]))
                        self.fact(st, bapp('start', N))

    def complete(self, st, cl):
        """Progress of the migration of claimed slots."""
        N, c, k = cl.a[1:]
        for f in self.facts(st, 'frz'):
            r, T, i = f.a[1:]
            if f.a[1] is r and not self.has(st, bapp('fdone', r)):
                n = sub(i, c)
                if not self.has(st, bapp('mdone', N, c, n)):
                    continue
                z = self.isnull(st, r)
                d = False
                if z is True:
                    d = decide(st, eq(r, self.TOMBSTONE)) is True or self.has(st, bapp('tombed', T, i))
                elif self.has(st, bapp('stored', r)):
                    d = self.mode(st) == 'B' or self.has(st, bapp('marked', r))
                if d:
                    self.fact(st, bapp('mdone', N, c, add(n, ONE)))
        for f in self.facts(st, 'mdone'):
            if f.a[1] is N and f.a[2] is c and not self.has(st, bapp('cdone', N, c, f.a[3])) and self.claim_over(st, N, c, k, f.a[3]):
                self.fact(st, bapp('cdone', N, c, f.a[3]))

    def equal(self, st, x, y):
        return x is y or decide(st, eq(x, y)) is True or decide(st, lt(x, y)) is False and decide(st, lt(y, x)) is False

    def claim_over(self, st, N, c, k, n):
        """n slots are all of a claim of k slots from c, or all that the table has left."""
        if n is k or decide(st, eq(n, k)) is True or decide(st, lt(n, k)) is False:
            return True
        e = add(c, n)
        if decide(st, lt(e, add(c, k))) is False:
            return True
        ends = {self.len_of(b.a[1]) for b in self.facts(st, 'chain') if b.a[2] is N}
        if any(decide(st, lt(e, x)) is False for x in ends):
            return True
        ends.add(add(c, k))
        # past the smaller of the two
        def smaller(x, of):
            return x.op == 'app' and x.a[0] == 'min' and all(y in of for y in x.a[1:])
        left = {sub(x, c) for x in ends}
        left |= {sub(mk('app', 'max', *o), c) for x in ends for o in ((x, c), (c, x))}
        return smaller(n, left) or smaller(e, ends) or any(not w and a.op == 'lt' and (a.a[0] is e and smaller(a.a[1], ends) or a.a[0] is n and smaller(a.a[1], left))
                                       for a, w in st.facts.items())

    def handled(self, st, T, i):
        if self.has(st, bapp('trav', T, i)):
            self.fact(st, bapp('trav', T, add(i, ONE)))
        if self.has(st, bapp('travc', T, i)):
            self.fact(st, bapp('travc', T, add(i, ONE)))

    def handledc(self, st, T, i):
        if self.op(st) in ('clear', 'retain'):
            # passed over: told apart from a traversal that met no such slot
            st.ghost['sk'] = mk('agg', 'sk', 0, T)
        if self.has(st, bapp('travc', T, i)):
            self.fact(st, bapp('travc', T, add(i, ONE)))

    def h2pattern(self, fr, x, hx):
        p = subst_t(x, {hx: self.HOLE}, {})
        self.pat('P22', 'the metadata of a hash', show(p), fr)
        z = zero_mask(p)
        self.check('P11', 'the metadata of a key never equals a marker', (z & 0x80) and self.c['EMPTY'] & 0x80 and self.c['TOMB'] & 0x80, fr,
                   'the metadata computed from a hash can equal the empty or the deleted marker')
        return p

    # ------------------------------------------------------------ addresses

    def _classify(self, a):
        if a.op == 'pl' and len(a.a) > 2 and a.a[1] is self.p_state and a.a[2].op == 'pf' and a.a[2].a[0] == ST:
            if len(a.a) == 3:
                return ('state', a.a[0], a.a[2].a[3])
            return ('sub', a.a[0], a.a[2].a[3])
        return super()._classify(a)

    # ------------------------------------------------------------ guards

    def check_map(self, fr, st, P):
        if self.op(st) in ('drop', 'reclaim', 'new'):
            return
        self.check('P04', 'guard is verified before the table is touched', self.has(st, bapp('vmap', P)), fr,
                   'the table is accessed before the guard was compared with the collector of the map')

    # ------------------------------------------------------------ probing

    def probe_start(self, st, T, h):
        fr = self.eng.curfr
        hx = hashof(h)
        if hx is None:
            self.check('P21', 'probe starts at the hash of a key', False, fr, 'a probe does not start at the position given by the hash of a key')
            return
        self.pat('P21', 'the probe sequence of a hash', show(subst_t(h, {hx: self.HOLE}, {})), fr)
        if self.opkey(st, h):
            for m in self.facts(st, 'matched'):
                if m.a[1] is not T:
                    self.announced(fr, st, m.a[1], m.a[2], 'before an operation goes on in the next table',
                                   'an operation that found its key in a slot goes on in the next table although the metadata of the slot may still be empty: a lookup would miss the key')
            for p in ('P18', 'P19') if self.op(st) in MUT else ('P19',):
                self.check(p, 'a search starts in a table that can hold the key', self.has(st, bapp('start', T)), fr,
                           'a search starts in a table although an older table may still hold the key, or goes on before the older table was left')
        else:
            self.check('P17', 'a copy is placed in the table being filled', self.copy_target(st, T), fr,
                       'an entry is copied into a table that is not the successor of the one it was frozen in')

    def copy_target(self, st, T):
        for f in self.facts(st, 'frz'):
            T0 = f.a[2]
            if T0 is not T and self.has(st, bapp('chain', T0, T)):
                return True
        return False

    def advance(self, st, t):
        fr = self.eng.curfr
        h, m, n = t.a
        T = m.a[0]
        if DBG and not self.has(st, bapp('skip', T, h, n)):
            print('ADV', T, h, n, [('' if v else '!')+show(a) for a,v in st.facts.items() if n.syms & a.syms or n is ZERO or a.a[0] in ('at','keq')], st.ghost['key'])
        self.check('P21', 'a probe leaves a slot only when it cannot hold the key', self.has(st, bapp('skip', T, h, n)), fr,
                   'a probe moves on from a slot that may hold the key (its metadata or key was not found different)')

        self.announced(fr, st, T, t, 'before a probe moves on', 'a probe moves on from a used slot whose metadata may still be empty: a lookup would stop there')

    def announced(self, fr, st, T, i, when, msg):
        """The metadata of a slot that is known to be used is known not to be empty."""
        o = self.has(st, bapp('mset', T, i))
        for a in self.ats(st, kind='meta', T=T, i=i):
            o = o or decide(st, eq(a.a[1], self.EMPTY)) is False
        if DBG and not o:
            print('ANN', T, i, [(show(a), w) for a, w in st.facts.items() if any(y.a[1].syms & a.syms for y in self.ats(st, kind='meta', T=T, i=i))])
        self.check('P22', 'a used slot is announced ' + when, o, fr, msg)

    def ishashmeta(self, st, v):
        """Is this equal to the metadata of a hash (which never equals a marker, checked in h2pattern)?"""
        for b, w in st.facts.items():
            if w and b.op == 'eq' and v in b.syms and b.a[0].op == 'lin':
                k = lin_parts(b.a[0])[1].get(v)
                if k in (1, -1) and hashof(sub(v, b.a[0]) if k == 1 else add(b.a[0], v)) is not None:
                    return True
        return False

    def visit(self, fr, st, T, i):
        if self.op(st) not in ('clear', 'retain', 'iternext'):
            return
        o = self.has(st, bapp('travc', T, i)) or self.has(st, bapp('trav', T, i))
        self.check('P30' if self.op(st) == 'iternext' else 'P19', 'a traversal visits the slots in order', o, fr,
                   'a traversal visits a slot without having finished the one before it')
        self.check('P19', 'a traversal runs on a table without unfinished migration', self.has(st, bapp('settled', T)) or
                   self.mode(st) == 'B', fr, 'a traversal starts on a table whose migration may be unfinished')

    # ------------------------------------------------------------ loads

    def load(self, fr, st, addr, o, guard):
        c = self.cls(addr)
        if c[0] == 'state' and c[2] == 'next' and o in ACQ:
            for b in self.facts(st, 'nextof'):
                if b.a[1] is c[1] and decide(st, eq(b.a[2], ZERO)) is False:
                    # the next table is linked once (checked where it is stored)
                    return b.a[2]
        if guard is None and (self.op(st) == 'drop' and c[0] in ('root', 'state') or c[0] == 'state' and c[1].op == 'new' and own(st, c[1]) == 'raw'):
            # nothing else uses a map that is being dropped, or a table that was not published
            self.event('load:' + c[0], fr)
            return self.eng.read_loc(fr, st, self.eng.deref(fr, st, addr))
        v = super().load(fr, st, addr, o, guard)
        if c[0] == 'root':
            if self.has(st, bapp('rootset', c[1])):
                self.fact(st, mk('eq', v), False)
        elif c[0] == 'state' and c[2] == 'next':
            if o in ACQ and self.has(st, bapp('hasnext', c[1])):
                self.fact(st, mk('eq', v), False)
            l = self.pend(st, 'locks')
            if l is not NO and any(self.cls(x)[1:3] == (c[1], 'allocating') for x in l.a[2:]):
                self.fact(st, bapp('undl', v))
        return v

    # ------------------------------------------------------------ slots

    def ordering(self, fr, o, need, what, prop='P12'):
        self.check(prop, what + ' has ' + {'rel': 'release', 'acq': 'acquire', 'sc': 'sequentially consistent', 'ar': 'acquire and release'}[need] + ' ordering',
                   {'rel': o in REL, 'acq': o in ACQ, 'sc': o == 'SeqCst', 'ar': o in REL and o in ACQ}[need], fr,
                   what + ' uses ordering ' + o)

    def idle(self, fr, st, what):
        for g in PENDS:
            p = self.pend(st, g)
            self.check(PROPS[g], 'no second step before ' + NAMES[g], p is NO, fr, what + ' before ' + NAMES[g] + ' of an earlier step')

    def publish(self, st, E):
        st.mem.pop((E, (OWN,)), None)
        for k in [k for k in st.mem if k[0] is E]:
            del st.mem[k]
        self.fact(st, bapp('ent', E))

    def slot_cas(self, fr, st, T, i, exp, new, so):
        E = self.E(new)
        tags = band(new, I(~self.MASKT.a[0] & M64))
        op = self.op(st)
        self.ordering(fr, so, 'rel', 'publishing an entry or its removal')
        if exp is ZERO:
            r = None
            for f in self.facts(st, 'frz'):
                if self.E(f.a[1]) is E:
                    r = f
            probe = i.op == 'pidx' and i.a[1] is self.mask_of(T)
            self.check('P21', 'an entry is stored on a probe path', probe, fr, 'an entry is stored at a slot that is not on the probe path of its key')
            if probe:
                n = i.a[2]
                self.check('P19', 'an entry is stored within the probe limit', decide(st, lt(mk('mem', T, self.p_limit), n)) is False, fr,
                           'an entry may be stored beyond the probe limit, where lookups do not search')
            hx = hashof(i.a[0]) if probe else None
            if E.op == 'new':
                key = self.eng.read_mem(st, E, (self.p_key,))
                self.check('P06', 'an inserted entry is owned by the operation', own(st, E) == 'raw', fr, 'an entry is inserted that the operation does not own exclusively')
                self.check('P21', 'an entry is stored at the slot of its own key', hx is not None and hx.a[2] is key, fr,
                           'an entry is stored on the probe path of another key')
                self.check('P16', 'an inserted entry carries no tags', tags is ZERO, fr, 'an inserted entry carries tag bits')
                val = self.eng.read_mem(st, E, (self.p_value,))
                self.check('P08', 'an inserted entry has a value', val.op != 'uninit', fr, 'an entry is inserted without a value')
                self.check('P23', 'only inserting operations insert', op in ('insert', 'tryinsert', 'setinsert', 'upsert', 'compute'), fr,
                           'an operation that must not insert inserts an entry')
                self.idle(fr, st, 'an entry is inserted')
                self.computed(fr, st, val, None, op)
                st.ghost['pc'] = ONE
                st.ghost['pm'] = mk('agg', 'pm', 0, T, i, hx.a[2] if hx is not None else NO)
                st.ghost['cm'] = mk('agg', 'cm-ins', 0, E)
                self.publish(st, E)
                self.fact(st, bapp('owned', T, i))
            elif r is not None:
                r, T0 = r.a[1], r.a[2]
                self.check('P21', 'a copied entry is stored at the slot of its own key', hx is not None and hx.a[2] is self.keyterm(r), fr,
                           'a copied entry is stored on the probe path of another key')
                self.check('P17', 'an entry is copied into a successor', self.has(st, bapp('chain', T0, T)) and T0 is not T, fr,
                           'an entry is copied into a table that does not succeed the one it was frozen in')
                nn = self.isnull(st, r) is False
                self.check('P16', 'only live entries are copied', nn, fr, 'a null or deleted entry is copied')
                mode = self.mode(st)
                want = {'B': ZERO, 'I': self.B}.get(mode)
                self.check('P07', 'a copied entry is tagged as borrowed exactly in incremental mode', want is not None and self.same(st, tags, want), fr,
                           'a copied entry does not carry the tag that marks it as reachable from the older table')
                self.check('P17', 'an entry is copied once', not self.has(st, bapp('copyin', r)), fr, 'an entry is copied twice')
                p = self.pend(st, 'pm')
                self.check('P22', 'no second step before the metadata update', p is NO, fr, 'an entry is copied before the metadata of the previous one was written')
                st.ghost['pm'] = mk('agg', 'pm', 0, T, i, self.keyterm(r))
                self.fact(st, bapp('copyin', r))
                self.fact(st, bapp('pmfor', r, T, i))
            else:
                self.check('P16', 'only prepared or frozen entries are stored', False, fr, 'a slot is filled with something that is neither a new entry nor a frozen one')
            return
        # replacing or removing
        src = [a for a in self.ats(st, v=exp, kind='entry') if a.a[3] is T and a.a[4] is i]
        self.check('P16', 'an exchange expects what it read from the slot', bool(src), fr, 'an exchange on a slot expects a value that was not read from it')
        self.check('P16', 'a frozen entry is not changed', self.bit(st, exp, self.C) is False, fr,
                   'an entry is replaced or removed although its slot may be frozen by a migration')
        self.check('P16', 'a deleted slot is not reused', self.isnull(st, exp) is False, fr, 'a null or deleted entry is replaced')
        if op in ('clear',):
            pass
        elif op in ('retain',):
            self.predicate(fr, st, exp, False)
        else:
            self.check('P21', 'only an entry with the requested key is changed', self.has(st, bapp('matched', T, i)), fr,
                       'an entry is replaced or removed without its key having been found equal')
        if op == 'removeif':
            self.predicate(fr, st, exp, True)
        self.idle(fr, st, 'an entry is replaced or removed')
        st.ghost['pr'] = mk('agg', 'pr', 0, exp, T)
        if new is self.TOMBSTONE:
            self.check('P23', 'only removing operations remove', op in ('remove', 'removeif', 'compute', 'clear', 'retain'), fr,
                       'an operation that must not remove removes an entry')
            st.ghost['pc'] = I(M64)
            st.ghost['pm'] = mk('agg', 'pm', 1, T, i)
            if op not in ('clear', 'retain'):
                st.ghost['cm'] = mk('agg', 'cm-rem', 0, exp)
            if op == 'compute':
                self.computed(fr, st, None, exp, op)
            self.handled(st, T, i)
            self.fact(st, bapp('removed', T, i))
        else:
            self.check('P16', 'an entry is replaced by a new entry', E.op == 'new', fr, 'a live entry is replaced by something that is not a new entry')
            if E.op == 'new':
                key = self.eng.read_mem(st, E, (self.p_key,))
                self.check('P06', 'an inserted entry is owned by the operation', own(st, E) == 'raw', fr, 'an entry is stored that the operation does not own exclusively')
                self.check('P21', 'a replacement has the same key', key is st.ghost.get('key'), fr, 'an entry is replaced by one with another key')
                val = self.eng.read_mem(st, E, (self.p_value,))
                self.check('P08', 'an inserted entry has a value', val.op != 'uninit', fr, 'an entry is stored without a value')
                self.check('P23', 'only replacing operations replace', op in ('insert', 'update', 'upsert', 'compute'), fr,
                           'an operation that must not replace replaces an entry')
                self.computed(fr, st, val, exp, op)
                self.announced(fr, st, T, i, 'before its entry is replaced',
                               'an entry is replaced although the metadata of its slot may still be empty: a later lookup would miss the key')
                self.check('P16', 'an inserted entry carries no tags', tags is ZERO, fr, 'an inserted entry carries tag bits')
                st.ghost['cm'] = mk('agg', 'cm-rep', 0, exp, E)
                self.publish(st, E)

    def user_calls(self, st):
        return self.facts(st, 'uc')

    def concerns(self, st, args, exp):
        """Was the closure given (references into) this entry?"""
        E = self.E(exp)
        for x in args:
            for y in subterms(x):
                if y is E:
                    return True
        for x in args:
            for y in subterms(x):
                if y.op == 'and' and y.a[1] is self.MASKT and decide(st, eq(y, E)) is True:
                    return True
        return False

    def computed(self, fr, st, val, exp, op):
        """The closure call a computed value comes from."""
        if op not in ('update', 'upsert', 'compute'):
            return
        if exp is not None:
            if val is None:
                o = op == 'compute' and any(self.opnames[u.a[1].a[0]] == 'Remove' and self.concerns(st, u.a[3:], exp) for u in self.facts(st, 'ucd'))
            else:
                o = any(u.a[1] in val.syms and self.concerns(st, u.a[3:], exp) for u in self.user_calls(st))
            self.check('P24', 'a replacement was computed from the entry it replaces', o, fr,
                       'an entry is replaced or removed because of a closure call on another entry')
        elif op == 'compute':
            o = False
            for u in self.user_calls(st):
                if u.a[1] in val.syms and any(x is NONE for x in u.a[3:]):
                    o = True
            self.check('P24', 'an insertion was computed for an absent key', o, fr, 'a value computed for an existing entry is inserted as a new entry')

    def predicate(self, fr, st, exp, want):
        o = any(u.a[1] is (ONE if want else ZERO) and self.concerns(st, u.a[3:], exp) for u in self.facts(st, 'uct'))
        self.check('P25', 'a conditional removal follows the predicate', o, fr, 'an entry is removed without the predicate having approved that very entry')

    def meta_store(self, fr, st, T, i, v, o):
        self.ordering(fr, o, 'rel', 'a metadata update')
        self.fact(st, bapp('mset', T, i))
        pm = self.pend(st, 'pm')
        hx = hashof(v)
        if hx is not None:
            self.h2pattern(fr, v, hx)
        if pm is not NO and pm.a[2] is T and pm.a[3] is i:
            if pm.a[1] == 0:
                okv = hx is not None and hx.a[2] is pm.a[4]
                self.check('P22', 'the metadata of a stored entry is that of its key', okv, fr, 'the metadata written for a stored entry is not computed from its key')
                for f in self.facts(st, 'pmfor'):
                    if f.a[2] is T and f.a[3] is i:
                        self.fact(st, bapp('stored', f.a[1]))
            else:
                self.check('P22', 'the metadata of a removed entry is the deleted marker', v is self.TOMBM, fr, 'the metadata written for a removed entry is not the deleted marker')
            st.ghost['pm'] = NO
            self.learned(fr, st)
            return
        if v is self.TOMBM:
            o2 = self.has(st, bapp('gone', T, i))
            if self.has(st, bapp('removed', T, i)):
                o2 = True
            self.check('P22', 'the deleted marker is written only for a slot without an entry', o2, fr,
                       'the deleted marker is written for a slot that may hold a live entry')
            self.fact(st, bapp('tombed', T, i))
            self.learned(fr, st)
            return
        o2 = False
        if hx is not None:
            for a in self.ats(st, kind='entry', T=T, i=i):
                if self.isnull(st, a.a[1]) is False and hx.a[2] is self.keyterm(a.a[1]):
                    o2 = True
        self.check('P22', 'the metadata written for a slot is that of the key found in it', o2, fr, 'metadata is written that does not belong to the key in the slot')

    def meta_lost(self, fr, st, T, i, weak):
        """The metadata was not empty any more: whoever changed it announced the owner of the slot."""
        if not weak:
            self.fact(st, bapp('mset', T, i))
        pm = self.pend(st, 'pm')
        if not weak and pm is not NO and pm.a[2] is T and pm.a[3] is i and pm.a[1] == 0:
            for f in self.facts(st, 'pmfor'):
                if f.a[2] is T and f.a[3] is i:
                    self.fact(st, bapp('stored', f.a[1]))
            st.ghost['pm'] = NO

    def count(self, fr, st, kind, v):
        d = None
        if v.op == 'int':
            d = s64(v.a[0]) if kind == 'fetch_add' else -s64(v.a[0]) if kind == 'fetch_sub' else None
        p = self.pend(st, 'pc')
        self.check('P20', 'the length changes only with an insertion or a removal', d is not None and p is I(d & M64), fr,
                   'the length is changed by %s although the operation %s' % (d, 'did not change the number of keys' if p is NO else 'changed the number of keys by %s' % s64(p.a[0])))
        st.ghost['pc'] = NO

    # ------------------------------------------------------------ migration

    def freeze(self, fr, st, T, i, kind, v, o, r):
        if kind == 'fetch_or' and v is self.D:
            for f in self.facts(st, 'frz'):
                if f.a[2] is T and f.a[3] is i:
                    # the slot is frozen: its value does not change any more
                    self.mark(fr, st, T, i, bor(f.a[1], bor(self.C, self.D)), o)
                    return
        self.check('P16', 'a slot is frozen by setting the copying bit', kind == 'fetch_or' and v is self.C, fr,
                   'a slot is changed by %s(%s) instead of setting the copying bit' % (kind, show(v)))
        self.ordering(fr, o, 'ar', 'freezing a slot')
        okc = False
        for cl in self.facts(st, 'claimed'):
            N, c, k = cl.a[1:]
            n = sub(i, c)
            if self.has(st, bapp('chain', T, N)) and (decide(st, lt(n, k)) is True or decide(st, lt(i, add(c, k))) is True):
                if self.has(st, bapp('mdone', N, c, n)):
                    okc = True
        self.check('P17', 'a slot is migrated only by the thread that claimed it', okc, fr,
                   'a slot is frozen that was not claimed, or before the migration of the previous one of the chunk was finished')
        self.fact(st, bapp('frz', r, T, i))
        # only the claimant sets this bit (checked above), so it was clear
        self.fact(st, eq(band(r, self.C), ZERO))
        if o in ACQ:
            self.fact(st, bapp('ent', r))

    def mark(self, fr, st, T, i, v, o):
        hit = None
        for f in self.facts(st, 'frz'):
            r = f.a[1]
            if f.a[2] is T and f.a[3] is i and v is bor(r, bor(self.C, self.D)):
                hit = r
        self.check('P16', 'a frozen slot is only marked as copied', hit is not None, fr, 'a slot is overwritten by a store')
        if hit is None:
            return
        self.check('P18', 'a slot is marked as copied after the copy was stored', self.has(st, bapp('stored', hit)), fr,
                   'a slot is marked as copied before its entry was stored in the new table')
        self.ordering(fr, o, 'sc', 'marking a slot as copied', 'P13')
        self.fact(st, bapp('marked', hit))
        st.ghost['pw'] = mk('agg', 'pw', 0, T, i)
        self.learned(fr, st)

    def claim(self, fr, st, T, kind, v, r):
        self.check('P17', 'slots are claimed by advancing the claim counter', kind == 'fetch_add', fr, 'the claim counter is changed by ' + kind)
        self.fact(st, bapp('claimed', T, r, v))

    def copied(self, fr, st, N, kind, v, o, r):
        self.check('P17', 'copied slots are counted by adding', kind == 'fetch_add', fr, 'the counter of copied slots is changed by ' + kind)
        self.ordering(fr, o, 'ar', 'counting copied slots')
        okc = False
        for cl in self.facts(st, 'claimed'):
            M, c, k = cl.a[1:]
            if M is not N:
                continue
            ns = [f.a[3] for f in self.facts(st, 'mdone') if f.a[1] is N and f.a[2] is c] + [ZERO]
            if not any(self.equal(st, n, v) or self.equal(st, add(c, n), add(c, v)) for n in ns):
                continue
            end = self.has(st, bapp('cdone', N, c, v)) or self.claim_over(st, N, c, k, v)
            if end:
                okc = True
                st.facts.pop(cl, None)
                for f in self.facts(st, 'mdone') + self.facts(st, 'cdone'):
                    if f.a[1] is N and f.a[2] is c:
                        st.facts.pop(f, None)
                break
        self.check('P17', 'exactly the migrated slots of a claim are counted', okc, fr,
                   'the counter of copied slots is advanced by a number that is not the number of slots whose migration was completed')
        self.fact(st, bapp('rmwarg', r, v))

    # ------------------------------------------------------------ tables

    def publish_table(self, st, T):
        st.mem.pop((T, (OWN,)), None)
        for k in [k for k in st.mem if k[0] is T]:
            del st.mem[k]
        self.fact(st, bapp('tbl', T))
        self.fact(st, mk('eq', T), False)

    def table_access(self, fr, st, T):
        if T.op == 'new' and own(st, T) is None:
            self.check('P05', 'table pointer was loaded with acquire', self.has(st, bapp('tbl', T)), fr, 'a table is used that was neither allocated nor loaded here')
            return
        super().table_access(fr, st, T)

    def root_cas(self, fr, st, P, exp, new, so):
        self.ordering(fr, so, 'rel', 'publishing a root table')
        self.fact(st, bapp('rootset', P))
        if exp is ZERO:
            s = self.eng.read_mem(st, new, (self.p_state, self.f(ST, 'status')))
            self.check('P17', 'the first table is published as promoted', new.op == 'new' and own(st, new) == 'raw' and s is self.PROMOTED, fr,
                       'the first table is published without the promoted status or is not exclusively owned')
            self.publish_table(st, new)
            self.fact(st, bapp('start', new))
            self.fact(st, bapp('at', new, mk('kst', 'root'), P, mk('kst', 'acq')))
            return
        self.check('P17', 'the root advances only when every slot was migrated', self.has(st, bapp('full', new, exp)), fr,
                   'the root is advanced without the number of copied slots having reached the length of the old table')
        self.check('P17', 'the root advances to the successor', self.has(st, bapp('chain', exp, new)), fr, 'the root is replaced by a table that does not succeed it')
        self.idle(fr, st, 'the root is advanced')
        if decide(st, eq(exp, new)) is None:
            # a table is no successor of its own
            self.fact(st, eq(exp, new), False)
        st.ghost['pS'] = mk('agg', 'pS', 0, new)
        st.ghost['pT'] = mk('agg', 'pT', 0, exp)
        st.ghost['pU'] = mk('agg', 'pU', 0, new)
        st.ghost['pA'] = mk('agg', 'pA', 0, exp, new)
        for b in self.facts(st, 'nextof'):
            if b.a[1] is exp:
                self.fact(st, bapp('rtrav', b.a[2]))
        self.learned(fr, st)

    def new_next(self, st, T, v):
        super().new_next(st, T, v)
        p = self.pend(st, 'pA')
        if p is not NO and p.a[2] is T:
            self.fact(st, bapp('rtrav', v))

    def link_next(self, fr, st, T, v, o):
        self.ordering(fr, o, 'rel', 'publishing the next table')
        self.check('P17', 'a new table is linked once', v.op == 'new' and own(st, v) == 'raw', fr, 'a table is linked that the operation does not own exclusively')
        l = self.pend(st, 'locks')
        held = l is not NO and any(self.cls(x)[:3] == ('state', T, 'allocating') or self.cls(x)[:3] == ('sub', T, 'allocating') for x in l.a[2:])
        self.check('P17', 'the next table is linked under the allocation lock', held, fr, 'the next table is linked without holding the allocation lock')
        self.check('P17', 'an existing next table is not replaced', self.has(st, bapp('nonextL', T)), fr,
                   'the next table is linked without having checked, under the lock, that there is none')
        if v.op == 'new':
            s = self.eng.read_mem(st, v, (self.p_state, self.f(ST, 'status')))
            self.check('P17', 'a next table starts out pending', s is self.PENDING, fr, 'a next table is linked with a status other than pending: ' + show(s))
            self.capacity(fr, st, T, v)
            self.publish_table(st, v)
            self.new_next(st, T, v)
            self.learned(fr, st)

    def capacity(self, fr, st, T, v):
        pass

    def derive_next(self, st, a):
        pass

    def set_status(self, fr, st, N, v, o):
        if v is self.PROMOTED:
            p = self.pend(st, 'pS')
            self.check('P17', 'a table is marked promoted after it became the root', p is not NO and p.a[2] is N, fr,
                       'a table is marked as promoted although it did not become the root here')
            st.ghost['pS'] = NO
            self.ordering(fr, o, 'sc', 'marking a table as promoted', 'P13')
            self.fact(st, bapp('start', N))
        elif v is self.ABORTED:
            okv = self.has(st, bapp('nofit', N))
            self.check('P17', 'a resize is aborted only when the table is full', okv, fr,
                       'a resize is aborted although the entry to copy was not found not to fit')
            self.check('P17', 'only a blocking resize is aborted', self.mode(st) == 'B', fr, 'an incremental resize is aborted')
            self.ordering(fr, o, 'sc', 'marking a resize as aborted', 'P13')
            self.check('P13', 'no second step before the wake-up of waiting threads', self.pend(st, 'pw') is NO, fr, 'a resize is aborted before the waiters of an earlier step were woken')
            st.ghost['pw'] = mk('agg', 'pw', 1, N)
        else:
            self.check('P17', 'the status of a table is final', False, fr, 'the status of a table is set to an unexpected value')

    # ------------------------------------------------------------ waiting and waking

    def target(self, a):
        c = self.cls(a)
        if c[0] == 'entry':
            return (c[1], c[2])
        if c[0] == 'state' and c[2] == 'status':
            return (c[1], 'status')
        return None

    def parker_table(self, p):
        c = self.cls(p)
        return c[1] if c[0] in ('state', 'sub') and c[2] == 'parker' else None

    def do_unpark(self, fr, st, p, a):
        T, t = self.parker_table(p), self.target(a)
        self.wr(fr, st, ('wake',))
        self.locked_check(fr, st, 'threads are woken')
        self.check('P13', 'a wake-up goes through the parker the waiters use', T is not None and t is not None and t[0] is T, fr,
                   'threads are woken through a parker other than the one belonging to the word they wait for')
        if T is None or t is None:
            return
        w = self.pend(st, 'pw')
        if w is not NO and w.a[2] is T:
            if (w.a[1] == 0 and t[1] is w.a[3]) or (w.a[1] == 1 and t[1] == 'status'):
                st.ghost['pw'] = NO
        u = self.pend(st, 'pU')
        if u is not NO and t[1] == 'status' and u.a[2] is T:
            self.check('P13', 'waiters are woken after the status was set', self.pend(st, 'pS') is NO, fr, 'waiters are woken before the promoted status is visible')
            st.ghost['pU'] = NO

    def do_park(self, fr, st, p, a, f):
        T, t = self.parker_table(p), self.target(a)
        self.wait(fr, st, 'park')
        self.check('P13', 'a thread waits through the parker of its word', T is not None and t is not None and t[0] is T, fr,
                   'a thread waits on a parker other than the one that is woken for the word it waits for')
        out = []
        if t is None:
            return [('return', UNIT, st)]
        # the condition must be false in every state that is woken for
        ok_ = True
        if t[1] == 'status':
            vals = [self.PROMOTED, self.ABORTED]
        else:
            x = self.eng.fresh(fr, st, 'sym', 'wq')
            vals = [bor(x, bor(self.D, self.C))]
        for v in vals:
            s2 = st.copy()
            for k, r, s3 in models.call_value(self.eng, fr, s2, f, [v]):
                if k == 'return' and decide(s3, models_bool(r)) is not False:
                    ok_ = False
        self.check('P13', 'a thread does not wait for what has already happened', ok_, fr,
                   'a thread may go to sleep although the condition it waits for is already met (nobody will wake it)')
        w = self.loaded(fr, st, 'park', a, 'park:SeqCst')
        for k, r, s3 in models.call_value(self.eng, fr, st, f, [w]):
            if k == 'return':
                if assume(s3, models_bool(r), False):
                    self.learned(fr, s3)
                    out.append(('return', UNIT, s3))
            else:
                out.append((k, r, s3))
        return out

    def wait(self, fr, st, what):
        self.check('P14', 'reads do not wait', self.op(st) not in READS, fr, 'a read-only operation waits for another thread')
        self.locked_check(fr, st, 'a thread waits')
        if what == 'park':
            for g in PENDS:
                self.check('P13' if g in ('pU', 'pw', 'pS') else PROPS[g], 'no waiting before ' + NAMES[g], self.pend(st, g) is NO, fr,
                           'a thread waits before ' + NAMES[g])

    # ------------------------------------------------------------ locks

    def locked_check(self, fr, st, what):
        self.check('P15', 'no lock is held while ' + what, self.pend(st, 'locks') is NO, fr, what + ' while an internal lock is held')

    def lock(self, fr, st, a, blocking):
        self.check('P14', 'reads do not lock', self.op(st) not in READS, fr, 'a read-only operation takes a lock')
        l = self.pend(st, 'locks')
        held = list(l.a[2:]) if l is not NO else []
        if blocking:
            self.check('P15', 'no lock is taken while another is held', not held, fr, 'a lock is taken while another internal lock is held')
        st.ghost['locks'] = mk('agg', 'locks', 0, *(held + [a]))

    def unlock(self, fr, st, g):
        l = self.pend(st, 'locks')
        held = list(l.a[2:]) if l is not NO else []
        if g.op != 'lockg' and len(held) != 1:
            return
        a = g.a[1] if g.op == 'lockg' else held[0]
        if a in held:
            held.remove(a)
        st.ghost['locks'] = mk('agg', 'locks', 0, *held) if held else NO
        c = self.cls(a)
        if c[0] in ('state', 'sub'):
            st.facts.pop(bapp('nonextL', c[1]), None)

    def user(self, fr, st, what):
        self.check('P15', 'no lock is held while user code runs', self.pend(st, 'locks') is NO, fr, 'user code (%s) runs while an internal lock is held' % what)

    def user_panics(self, fr, st, what):
        for g in PENDS:
            self.check('P31', 'user code does not run before ' + NAMES[g], self.pend(st, g) is NO, fr,
                       'user code (%s) runs, and can panic, before %s' % (what, NAMES[g]))

    def user_called(self, fr, st, what, f, args, v):
        super().user_called(fr, st, what, f, args, v)
        # an insertion by `compute`, and the initialisers, which may run once only
        if self.op(st) == 'compute' and any(x is NONE for x in args):
            self.check('P23', 'the initialiser is called at most once', self.pend(st, 'ic') is NO, fr,
                       'the closure that computes the value for an absent key can be called a second time')
            st.ghost['ic'] = ONE

    def panics(self, fr, st):
        super().panics(fr, st)
        if self.op(st) in ('tryinsert', 'upsert'):
            for d in reversed(self.eng.active):
                g = self.prog.fns.get(d)
                if g is not None and g.local:
                    if g.p.endswith('{closure}'):
                        self.check('P23', 'the initialiser is called at most once', False, fr,
                                   'the closure that calls the initialiser can fail because the initialiser was already used')
                    break

    # ------------------------------------------------------------ reclamation

    def entry_type(self, f):
        return f.op == 'fn' and len(f.a[1]) >= 1 and any(x[0] == 'adt' and x[1] == EN for x in f.a[1])

    def retire(self, fr, st, g, p, f):
        self.check_guard(fr, st, g)
        self.retired(fr, st, p, f)

    def collector_retire(self, fr, st, c, p, f):
        self.retired(fr, st, p, f, True)

    def retired(self, fr, st, p, f, final=False):
        pr = self.pend(st, 'pr')
        if pr is not NO and (p is self.E(pr.a[2]) or p is pr.a[2] and pr.a[1] == 1):
            self.check('P06', 'an entry is retired with the reclaimer of its allocation', f.op == 'fn' and f.a[2].p == 'seize::reclaim::boxed' and
                       self.entry_type(f), fr, 'an entry is retired with a reclaimer that does not match its allocation')
            if not final:
                v, T = pr.a[2], pr.a[3]
                o = self.mode(st) == 'B' or self.bit(st, v, self.B) is False or self.rooted(st, T)
                self.check('P07', 'an entry that an older table still reaches is not retired at once', o, fr,
                           'a displaced entry is retired at once although an older table may still reach it')
            st.ghost['pr'] = NO
            return
        # a table?
        s2 = st.copy()
        s2.ghost['op'] = tag('reclaim')
        for gname in PENDS:
            s2.ghost[gname] = NO
        s2.ghost['locks'] = NO
        x = self.eng.fresh(fr, s2, 'sym', 'rt')
        s2.facts[mk('eq', x)] = False
        s2.facts[bapp('tbl', x)] = True
        freed = None
        try:
            if f.op == 'fn' and f.a[2].p == 'seize::reclaim::boxed':
                res = []
            else:
                res = models.call_value(self.eng, fr, s2, f, [x, mk('sym', ('at', 'coll'))])
            for k, r, s3 in res:
                if k == 'return':
                    d = self.has(s3, bapp('freed', x))
                    freed = d if freed is None else freed and d
                    self.check('P07', 'reclaiming a table hands out its deferred entries', self.has(s3, bapp('drained', x)), fr,
                               'a table is reclaimed without its deferred entries being retired')
        except RecursionError:
            raise
        p_ = self.pend(st, 'pT')
        if p_ is not NO and p is p_.a[2]:
            self.check('P06', 'a table is retired with a reclaimer that frees it', bool(freed), fr, 'the reclaimer of a table does not free it')
            st.ghost['pT'] = NO
        elif self.pend(st, 'pA') is not NO and self.has(st, bapp('rtrav', p)) and decide(st, eq(p, self.pend(st, 'pA').a[3])) is False:
            self.check('P06', 'a table is retired with a reclaimer that frees it', bool(freed), fr, 'the reclaimer of a table does not free it')
            self.check('P06', 'a table is retired once', not self.has(st, bapp('rdone', p)), fr, 'a table is retired twice')
            self.fact(st, bapp('rdone', p))
            self.learned(fr, st)
        else:
            self.check('P06', 'only what this operation unlinked is retired', False, fr,
                       'something is retired that this operation did not unlink, or that it retired already: ' + show(p))

    def rooted(self, st, T):
        """The table is the root or a predecessor of the root."""
        for a in self.ats(st, kind='root'):
            r = a.a[1]
            if r is T or decide(st, eq(T, r)) is True:
                return True
            if self.has(st, bapp('chain', T, r)) or self.has(st, bapp('reach', T, r)):
                return True
            for b in self.facts(st, 'chain'):
                if b.a[1] is T and decide(st, eq(b.a[2], r)) is True:
                    return True
        return False

    def do_push(self, fr, st, s, x):
        c = self.cls(s)
        pr = self.pend(st, 'pr')
        self.wr(fr, st, c)
        if c[0] != 'state' or c[2] != 'deferred' or pr is NO or x is not self.E(pr.a[2]):
            self.check('P06', 'only a displaced entry is deferred', False, fr, 'something other than the displaced entry is added to the deferred list of a table')
            return
        D, T = c[1], pr.a[3]
        o = False
        for b in self.facts(st, 'nextof'):
            if b.a[1] is D and (b.a[2] is T or decide(st, eq(b.a[2], T)) is True):
                o = True
        self.check('P07', 'a displaced entry is deferred to the table it was carried from', o, fr,
                   'a displaced entry is deferred to a table other than the predecessor of the one it was in')
        st.ghost['pr'] = NO

    def do_drain(self, fr, st, s, f):
        c = self.cls(s)
        self.check('P07', 'deferred entries are handed out only when the table is reclaimed', self.op(st) in ('reclaim', 'drop'), fr,
                   'deferred entries are handed out before the table is reclaimed')
        s1 = st.copy()
        x = self.eng.fresh(fr, s1, 'sym', 'deferred')
        s1.ghost['pr'] = mk('agg', 'pr', 1, x, ZERO)
        out = []
        for k, r, s2 in models.call_value(self.eng, fr, s1, f, [x]):
            if k == 'return':
                self.check('P07', 'every deferred entry is retired', self.pend(s2, 'pr') is NO, fr, 'a deferred entry is dropped from the list without being retired')
        if c[0] == 'state':
            self.fact(st, bapp('drained', c[1]))
        out.append(('return', UNIT, st))
        return out

    # ------------------------------------------------------------ ownership

    def free(self, fr, st, p, ty):
        op = self.op(st)
        if p.op == 'new':
            o = own(st, p)
            self.check('P08', 'memory is freed once and only by its owner', o in ('box', 'raw'), fr,
                       'an allocation is freed %s' % ('twice' if o == 'freed' else 'after it was published to other threads'))
            if ty[0] == 'adt' and ty[1] == EN:
                val = self.eng.read_mem(st, p, (self.p_value,))
                mu = any(x[0] == 'adt' and x[1] == 'std::mem::MaybeUninit' for x in ty[2])
                if mu:
                    self.check('P08', 'a value that was prepared is not leaked', val.op == 'uninit' or st.ghost['unw'].a[0] != 'no', fr,
                               'the memory of an entry is freed without dropping the value in it')
                else:
                    self.check('P08', 'only initialised values are dropped', val.op != 'uninit', fr, 'a value is dropped that was never written or was moved out')
            set_own(st, p, 'freed')
            return
        if op in ('drop', 'reclaim'):
            self.free_in_drop(fr, st, p, ty)
            return
        self.check('P06', 'shared memory is freed through the collector', False, fr, 'an entry that other threads may reach is freed directly')

    def free_in_drop(self, fr, st, p, ty):
        pass

    def leaked(self, fr, st, p, v):
        if v.op == 'tag' and v.a[0] in ('raw', 'box') and st.ghost.get('unw', NO).a[0] == 'no' and p.op == 'new':
            self.check('P08', 'nothing that was allocated is leaked', False, fr, 'an allocation is neither published, freed nor returned (%s)' % show(p))

    def allocated(self, fr, st, p, layout, zeroed):
        set_own(st, p, 'raw')
        self.check('P10', 'table memory is zeroed', True, fr)
        self.fact(st, bapp('zeroed' if zeroed else 'unzeroed', p))

    def deallocated(self, fr, st, p, layout):
        if p.op == 'new':
            self.check('P08', 'memory is freed once and only by its owner', own(st, p) == 'raw', fr,
                       'a table is freed %s' % ('twice' if own(st, p) == 'freed' else 'after it was published'))
            set_own(st, p, 'freed')
        else:
            self.check('P06', 'shared memory is freed through the collector', self.op(st) in ('drop', 'reclaim'), fr, 'a table that other threads may reach is freed directly')
        self.fact(st, bapp('freed', p))

    # ------------------------------------------------------------ exits of the whole operation

    def finish(self, fn, exits):
        fr = self.eng.curfr
        class F: pass
        f = F()
        f.fn, f.sp = fn, fn.sp
        f.site = lambda: '%s (%s)' % (fn.p, fn.sp)
        for e in exits:
            st = e.st
            if st.ghost.get('unw', NO).a[0] == 'lib' and e.kind == 'unwind':
                continue
            for g in PENDS:
                self.check(PROPS[g], 'nothing returns before ' + NAMES[g], self.pend(st, g) is NO, f, 'the operation can end without ' + NAMES[g])
            self.check('P15', 'every lock is released', self.pend(st, 'locks') is NO, f, 'the operation can end with an internal lock held')
            if e.kind == 'return':
                self.result(f, fn, e.ret, st)
            self.finish_sizes(f, fn, e)

    def pat(self, prop, what, p, fr):
        self.pats.setdefault((prop, what), {}).setdefault(p, fr.site())

    def finish_sizes(self, f, fn, e):
        pass

    def entref(self, x):
        """The entry a returned reference points into: the word it was loaded as, or the allocation."""
        if x.op == 'pl' and len(x.a) == 2 and x.a[1] in (self.p_key, self.p_value):
            return self.strip(x.a[0])
        return None

    def parts(self, v):
        if v.op == 'agg' and v.a[0] == 'tuple':
            return [y for x in v.a[2:] for y in self.parts(x)]
        return [v]

    def result(self, f, fn, ret, st):
        op = self.op(st)
        cm = st.ghost.get('cm', NO)
        kind = cm.a[0] if cm.op == 'agg' else None
        h = getattr(self, 'result_' + op, None)
        if h is None or ret is None:
            return
        h(f, st, ret, kind, cm)

    def expect(self, f, okay, what, msg):
        self.check('P26', what, okay, f, msg)

    def noted(self, f, st, yes):
        """A boolean result or a missing one: the key was found, or is known to be absent."""
        if yes:
            self.check('P21', 'a key is reported present only after comparing it', self.has(st, bapp('present', self.anymap(st))), f,
                       'the operation can report a key as present without having found an equal key in a current slot')
        else:
            self.check('P19', 'a key is reported absent only with evidence', self.has(st, bapp('absent', self.anymap(st))), f,
                       'the operation can report a key as absent although a slot that may hold it was not examined')

    def found(self, f, st, refs, what='returned'):
        """References to an entry that was found and left in place."""
        es = {self.entref(x) for x in refs}
        if None in es:
            return
        self.expect(f, len(es) == 1, 'the parts of a result belong to one entry', 'the key and the value of a result belong to different entries')
        v = es.pop()
        q = decide(st, bapp('keq', self.keyterm(v), st.ghost['key']))
        self.check('P21', 'the entry that is %s has the requested key' % what, q is True or v.op == 'new' and q is not False, f,
                   'an entry is %s whose key was not found equal to the requested one' % what)
        if v.op != 'new':
            for m in self.facts(st, 'matched'):
                self.announced(f, st, m.a[1], m.a[2], 'before its entry is ' + what,
                               'an entry is %s although the metadata of its slot may still be empty: a later lookup would miss the key' % what)
            self.check('P19', 'the entry that is %s is current' % what, self.bit(st, v, self.D) is False or self.bit(st, v, self.C) is False, f,
                       'an entry is %s that was already copied to the next table, where it may have been changed or removed' % what)

    def refs_to(self, f, refs, e, what):
        e = self.strip(e)
        for x in refs:
            y = self.entref(x)
            if y is not None:
                self.expect(f, y is e, 'a result refers to the entry the operation ' + what, 'the result refers to another entry than the one the operation ' + what)

    def boolean(self, st, v):
        return decide(st, models_bool(v))

    def opt(self, v):
        """(is some, payload) of an option or a reference, None when unknown."""
        if v.op == 'agg' and v.a[0] == 'std::option::Option':
            return (True, v.a[2]) if v.a[1] == 1 else (False, None)
        return None

    def res(self, v):
        if v.op == 'agg' and v.a[0] == 'std::result::Result':
            return (v.a[1] == 0, v.a[2])
        return None

    def result_read(self, f, st, ret, kind, cm):
        o = self.opt(ret)
        if o is None:
            b = self.boolean(st, ret)
            if b is not None:
                self.noted(f, st, b)
        elif o[0]:
            self.found(f, st, self.parts(o[1]))
        else:
            self.noted(f, st, False)

    def result_read0(self, f, st, ret, kind, cm):
        x = ret
        while x.op in ('not', 'eq', 'lt'):
            y = [z for z in x.a if z.op != 'int']
            if len(y) != 1:
                break
            x = y[0]
        self.check('P20', 'the reported length is the sum of the counter', self.has(st, bapp('lenof', x)), f,
                   'the reported length is not the sum of the counter: ' + show(ret))

    def result_insert(self, f, st, ret, kind, cm):
        o = self.opt(ret)
        if o is None:
            return
        if o[0]:
            self.expect(f, kind == 'cm-rep', 'a displaced value is reported exactly for a replacement', 'a previous value is returned although none was replaced')
            if kind == 'cm-rep':
                self.refs_to(f, self.parts(o[1]), cm.a[2], 'displaced')
        else:
            self.expect(f, kind == 'cm-ins', 'an insertion is reported exactly when the key was added', 'the operation reports an insertion without having added the key')

    def result_setinsert(self, f, st, ret, kind, cm):
        b = self.boolean(st, ret)
        if b:
            self.expect(f, kind == 'cm-ins', 'an insertion is reported exactly when the key was added', 'the operation reports an insertion without having added the key')
        elif b is False:
            self.expect(f, kind is None, 'nothing is reported only when nothing changed', 'the operation reports that nothing was inserted although it changed the table')
            if kind is None:
                self.noted(f, st, True)

    def result_tryinsert(self, f, st, ret, kind, cm):
        r = self.res(ret)
        if r is None:
            e = self.entref(ret)
            if e is None:
                return
            if kind == 'cm-ins':
                self.refs_to(f, [ret], cm.a[2], 'inserted')
            else:
                self.expect(f, kind is None, 'an existing entry is returned only when nothing changed', 'an existing entry is returned although the table was changed')
                self.found(f, st, [ret])
            return
        if r[0]:
            self.expect(f, kind == 'cm-ins', 'an insertion is reported exactly when the key was added', 'the operation reports an insertion without having added the key')
            if kind == 'cm-ins':
                self.refs_to(f, self.parts(r[1]), cm.a[2], 'inserted')
        else:
            self.expect(f, kind is None, 'an existing entry is returned only when nothing changed', 'an existing entry is returned although the table was changed')
            x = r[1]
            if x.op == 'agg' and x.a[0] == 'map::OccupiedError':
                names = [y[0] for y in self.prog.adts['map::OccupiedError']['variants'][0]['fields']]
                d = dict(zip(names, x.a[2:]))
                if 'current' in d and 'not_inserted' in d:
                    self.found(f, st, [d['current']])
                    self.check('P08', 'the value that was not inserted is given back', d['not_inserted'] is self.entry_args[2], f,
                               'the value that is given back is not the one that was passed in: ' + show(d['not_inserted']))
            else:
                self.found(f, st, self.parts(x))

    def result_update(self, f, st, ret, kind, cm):
        o = self.opt(ret)
        if o is None:
            return
        if o[0]:
            self.expect(f, kind == 'cm-rep', 'an update is reported exactly when an entry was replaced', 'the operation reports an update without having replaced an entry')
            if kind == 'cm-rep':
                self.refs_to(f, self.parts(o[1]), cm.a[3], 'stored')
        else:
            self.expect(f, kind is None, 'nothing is reported only when nothing changed', 'the operation reports that it found nothing although it changed the table')
            self.noted(f, st, False)

    def result_upsert(self, f, st, ret, kind, cm):
        self.expect(f, kind in ('cm-ins', 'cm-rep'), 'the operation stored an entry', 'the operation ends without having stored an entry')
        if kind == 'cm-ins':
            self.refs_to(f, self.parts(ret), cm.a[2], 'stored')
        elif kind == 'cm-rep':
            self.refs_to(f, self.parts(ret), cm.a[3], 'stored')

    def result_compute(self, f, st, ret, kind, cm):
        if ret.op != 'agg' or ret.a[0] != 'map::Compute':
            return
        n = self.prog.adts['map::Compute']['variants'][ret.a[1]]['name']
        want = {'Inserted': 'cm-ins', 'Updated': 'cm-rep', 'Removed': 'cm-rem', 'Aborted': None}
        if n not in want:
            return
        self.expect(f, kind == want[n], 'the outcome that is reported is the one that happened',
                    'compute reports %s although %s' % (n, {None: 'nothing was changed', 'cm-ins': 'the key was inserted', 'cm-rep': 'the entry was replaced',
                                                            'cm-rem': 'the entry was removed'}[kind]))
        if kind != want[n]:
            return
        if n == 'Inserted':
            self.refs_to(f, [y for x in ret.a[2:] for y in self.parts(x)], cm.a[2], 'stored')
        elif n == 'Removed':
            self.refs_to(f, [y for x in ret.a[2:] for y in self.parts(x)], cm.a[2], 'removed')
        elif n == 'Updated':
            names = [y[0] for y in self.prog.adts['map::Compute']['variants'][ret.a[1]]['fields']]
            for m, x in zip(names, ret.a[2:]):
                if m in ('old', 'new'):
                    self.refs_to(f, self.parts(x), cm.a[2] if m == 'old' else cm.a[3], 'displaced' if m == 'old' else 'stored')

    def result_remove(self, f, st, ret, kind, cm):
        o = self.opt(ret)
        b = self.boolean(st, ret) if o is None else o[0]
        if b is None:
            return
        if b:
            self.expect(f, kind == 'cm-rem', 'a removal is reported exactly when an entry was removed', 'the operation reports a removal without having removed an entry')
            if kind == 'cm-rem' and o is not None:
                self.refs_to(f, self.parts(o[1]), cm.a[2], 'removed')
        else:
            self.expect(f, kind is None, 'nothing is reported only when nothing changed', 'the operation reports that it removed nothing although it changed the table')
            self.noted(f, st, False)

    def result_removeif(self, f, st, ret, kind, cm):
        r = self.res(ret)
        if r is None:
            return
        if r[0]:
            self.result_remove(f, st, r[1], kind, cm)
        else:
            self.expect(f, kind is None, 'an existing entry is returned only when nothing changed', 'an existing entry is returned although the table was changed')
            ps = self.parts(r[1])
            self.found(f, st, ps)
            e = {self.entref(x) for x in ps}
            if len(e) == 1 and None not in e:
                v = e.pop()
                self.check('P25', 'an entry is kept because the predicate rejected it', any(u.a[1] is ZERO and self.concerns(st, u.a[3:], v) for u in self.facts(st, 'uct')), f,
                           'an entry is reported as kept on which the predicate was not called or which it approved')

    # ------------------------------------------------------------ iterators

    def iters(self, v, d=0):
        """The raw iterators in a value."""
        if v.op == 'agg' and v.a[0] == 'raw::Iter':
            yield v
        elif v.op == 'agg' and d < 4:
            for x in v.a[2:]:
                if hasattr(x, 'op'):
                    yield from self.iters(x, d + 1)

    def itparts(self, v):
        """(position, table, rest) of a raw iterator."""
        i = t = None
        rest = []
        for x, f in zip(v.a[2:], self.prog.adts['raw::Iter']['variants'][0]['fields']):
            if f[1][0] == 'uint':
                i = x
            elif f[1][0] == 'adt' and f[1][1] == TB:
                t = x.a[2 + self.path[(TB, 'raw')].a[2]] if x.op == 'agg' else mk('fld', x)
            else:
                rest.append(x)
        return i, t, rest

    def result_iter(self, f, st, ret, kind, cm):
        for v in self.iters(ret):
            i, T, rest = self.itparts(v)
            self.check('P30', 'an iterator starts at the first slot', i is ZERO, f, 'an iterator does not start at the first slot of its table: ' + show(i))
            self.check('P19', 'an iterator is given a table without unfinished migration', decide(st, eq(T, ZERO)) is True or self.has(st, bapp('settled', T)) or
                       self.mode(st) == 'B', f, 'an iterator is created on a table whose migration may be unfinished')

    def result_iterclone(self, f, st, ret, kind, cm):
        for v in self.iters(ret):
            ok = all(x is y or decide(st, eq(x, y)) is True for x, y in zip(v.a[2:], self.iter_flds))
            self.check('P30', 'a clone of an iterator continues where it is', ok, f, 'a clone of an iterator has another position, table or guard: ' + show(v))

    def result_clear(self, f, st, ret, kind, cm):
        self.check('P19', 'clear and retain end when every entry was dealt with', self.has(st, bapp('cleared', self.anymap(st))), f,
                   'clear or retain can end although an entry was passed over because it was being moved to a newer table')

    result_retain = result_clear

    def result_iternext(self, f, st, ret, kind, cm):
        o = self.opt(ret)
        if o is None:
            return
        E, a0, T = self.eng, self.iter_a0, self.iter_T
        now = E.read_mem(st, a0, self.iter_path)
        if now.op != 'agg':
            now = mk('agg', 'raw::Iter', 0, *[E.read_mem(st, a0, self.iter_path + (pf('raw::Iter', 0, k, x[0]),)) for k, x in
                                             enumerate(self.prog.adts['raw::Iter']['variants'][0]['fields'])])
        i, t, rest = self.itparts(now)
        i0, t0, rest0 = self.itparts(mk('agg', 'raw::Iter', 0, *self.iter_flds))
        self.check('P30', 'an iterator keeps its table and guard', t is t0 and rest == rest0, f, 'a step of an iterator changes its table or its guard')
        if o[0]:
            es = {self.entref(x) for x in self.parts(o[1])}
            js = None
            if len(es) == 1 and None not in es:
                v = es.pop()
                js = [a.a[4] for e in (v, *[b.a[1] for b in self.ats(st, None, 'entry') if self.E(b.a[1]) is v]) for a in self.ats(st, e, 'entry', T)]
            if not js:
                self.check('P30', 'an iterator returns an entry of its table', False, f, 'an iterator returns something that was not loaded from a slot of its table')
                return
            self.check('P30', 'an iterator moves to the slot after the one it returns', any(i is add(j, ONE) or decide(st, eq(i, add(j, ONE))) is True for j in js), f,
                       'after returning the entry of slot %s the iterator is at %s' % (show(js[0]), show(i)))
        else:
            self.check('P30', 'an iterator ends after the last slot', self.has(st, bapp('itend', T, i)), f,
                       'an iterator can end before it has examined every slot, or goes on after its end')

    def install(self):
        pass


def models_bool(t):
    from engine import as_bool
    return as_bool(t)


# ---------------------------------------------------------------- boundaries analysed on their own

@models.model('raw::utils::parker::Parker::unpark')
def m_unpark(e, fr, st, ref, subs, a):
    e.rules.do_unpark(fr, st, a[0], a[1])
    return [('return', UNIT, st)]


@models.model('raw::utils::parker::Parker::park')
def m_park(e, fr, st, ref, subs, a):
    return e.rules.do_park(fr, st, a[0], a[1], a[2])


@models.model('raw::utils::counter::Counter::sum')
def m_sum(e, fr, st, ref, subs, a):
    v = e.fresh(fr, st, 'sym', 'len')
    st.facts[bapp('lenof', v)] = True
    return [('return', v, st)]


@models.model('raw::utils::stack::Stack::push')
def m_push(e, fr, st, ref, subs, a):
    e.rules.do_push(fr, st, a[0], a[1])
    return [('return', UNIT, st)]


@models.model('raw::utils::stack::Stack::drain')
def m_drain(e, fr, st, ref, subs, a):
    return e.rules.do_drain(fr, st, a[0], a[1])
