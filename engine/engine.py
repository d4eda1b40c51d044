"""Typestate dataflow over MIR.

An abstract interpreter that keeps states apart by their shape (variants,
typestates) and joins everything else at loop heads, to a fixpoint.  Calls are
analysed context-sensitively: the part of the caller's state a callee can reach
is put in canonical form and the callee's exits are computed once per form.
"""
import heapq
import sys
from terms import *
import terms
from mir import tsubst, tshow

sys.setrecursionlimit(20000)

TRANSPARENT = {'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::cell::UnsafeCell', 'std::ptr::Unique',
               'std::ptr::NonNull', 'std::pin::Pin', 'std::boxed::BoxRaw', 'core::mem::MaybeDangling',
               'std::mem::MaybeDangling', 'std::panic::AssertUnwindSafe', 'std::num::NonZero'}


def pf(owner, variant, idx, name):
    return mk('pf', owner, variant, idx, name)


class Exit:
    __slots__ = ('kind', 'ret', 'st')

    def __init__(self, kind, ret, st):
        self.kind, self.ret, self.st = kind, ret, st


class NeedGhost(Exception):
    pass


class NeedMore(Exception):
    pass


class Framed(dict):
    """The ghost part during a call analysed without its caller's: reading what the call did not write is refused."""

    def __missing__(self, k):
        raise NeedGhost()

    def get(self, k, d=None):
        if k not in self:
            raise NeedGhost()
        return self[k]

    def copy(self):
        return Framed(self)


class State:
    __slots__ = ('cells', 'mem', 'facts', 'ghost')

    def __init__(self):
        self.cells = {}
        self.mem = {}
        self.facts = {}
        self.ghost = {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ghost = self.ghost.copy()
        return s

    def key(self):
        return (frozenset(self.cells.items()), frozenset(self.mem.items()), frozenset(self.facts.items()),
                frozenset(self.ghost.items()))

    def leaves(self):
        s = set()
        for v in self.cells.values():
            s |= v.syms
        for (p, path), v in self.mem.items():
            s |= p.syms
            s |= v.syms
            for x in path:
                s |= x.syms
        for v in self.facts:
            s |= v.syms
        for v in self.ghost.values():
            s |= v.syms
        return s

    def rename(self, m, keepcells=True):
        memo = {}
        n = State()
        for c, v in self.cells.items():
            n.cells[m.get(c, c)] = subst(v, m, memo)
        for (p, path), v in self.mem.items():
            n.mem[(subst(p, m, memo), tuple(subst(x, m, memo) for x in path))] = subst(v, m, memo)
        for a, v in self.facts.items():
            b = subst(a, m, memo)
            if b.op == 'int':
                continue
            if b.op == 'not':
                b, v = b.a[0], not v
            n.facts[b] = v
        if type(self.ghost) is Framed:
            n.ghost = Framed()
        for k, v in self.ghost.items():
            n.ghost[k] = subst(v, m, memo)
        return n


# ------------------------------------------------------------------ facts

def as_eqc(d):
    """eq(d): d == 0 as (x, c) meaning x == c, or None."""
    if d.op == 'lin':
        if len(d.a) == 3:
            if d.a[2] == 1:
                return d.a[1], (-d.a[0]) & M64
            if d.a[2] == -1:
                return d.a[1], d.a[0] & M64
        return None
    if d.op == 'int':
        return None
    return d, 0


def known_bits(st, v):
    """(zeros, ones) known of v."""
    z = zero_mask(v)
    o = 0
    if v.op == 'int':
        return ~v.a[0] & M64, v.a[0]
    base = v
    m = M64
    if v.op == 'and' and v.a[1].op == 'int':
        base, m = v.a[0], v.a[1].a[0]
        z |= ~m & M64
    elif v.op == 'or' and v.a[1].op == 'int':
        bz, bo = known_bits(st, v.a[0])
        c = v.a[1].a[0]
        return (z | bz) & ~c & M64, bo | c
    bsyms = base.syms
    for a, val in st.facts.items():
        if a.op != 'eq' or not (a.syms & bsyms):
            continue
        e = as_eqc(a.a[0])
        if not e:
            continue
        x, c = e
        if x is base:
            fm = M64
        elif x.op == 'and' and x.a[0] is base and x.a[1].op == 'int':
            fm = x.a[1].a[0]
        else:
            continue
        if val:
            z |= fm & ~c & M64
            o |= fm & c & m
        elif fm & (fm - 1) == 0 and fm:
            # single bit
            if c == 0:
                o |= fm & m
            elif c == fm:
                z |= fm
    return z, o & M64


def decide(st, t):
    if t.op == 'int':
        return bool(t.a[0])
    if t.op == 'not':
        r = decide(st, t.a[0])
        return None if r is None else not r
    v = st.facts.get(t)
    if v is not None:
        return v
    if t.op == 'bapp':
        if t.a[0] == 'chain' and t.a[1] is t.a[2]:
            return True
        if t.a[0] in ('mdone', 'trav', 'travc', 'hd') and t.a[-1] is ZERO:
            return True
        if t.a[0] in ('keq', 'colleq') and t.a[1] is not t.a[2]:
            return st.facts.get(mk('bapp', t.a[0], t.a[2], t.a[1]))
        return None
    if t.op == 'eq':
        d = t.a[0]
        e = as_eqc(d)
        if e:
            x, c = e
            z, o = known_bits(st, x)
            if (z & c) or (o & ~c & M64):
                return False
            if (z | o) & M64 == M64:
                return True
            base = x
            # x == c refuted by a fact about the same word
            bs = x.syms
            xm = M64
            if x.op == 'and' and x.a[1].op == 'int':
                base, xm = x.a[0], x.a[1].a[0]
            for a, val in st.facts.items():
                if a.op == 'eq' and not val and (a.syms & bs):
                    f = as_eqc(a.a[0])
                    if not f:
                        continue
                    y, k = f
                    ym = M64
                    yb = y
                    if y.op == 'and' and y.a[1].op == 'int':
                        yb, ym = y.a[0], y.a[1].a[0]
                    if yb is base and (ym & ~xm & M64) == 0 and (c & ym) == k:
                        return False
                    # x != 0 from y|.. forms
                    if k == 0 and c == 0 and y.op == 'and' and y.a[0] is x:
                        return False
                elif a.op == 'eq' and val and (a.syms & bs):
                    f = as_eqc(a.a[0])
                    if f and f[0] is x and f[1] != c:
                        return False
                elif a.op == 'lt' and val and c == 0 and a.a[1] is x:
                    return False
            if x.op == 'or' and c == 0:
                for y in x.a:
                    if decide(st, eq(y, ZERO)) is False:
                        return False
        elif d.op == 'lin' and len(d.a) == 5 and d.a[2] * d.a[4] < 0 and abs(d.a[2]) == 1 and abs(d.a[4]) == 1:
            # x + c == y
            x, y = (d.a[1], d.a[3]) if d.a[2] == 1 else (d.a[3], d.a[1])
            if d.a[0] == 0:
                if decide_lt(st, x, y) or decide_lt(st, y, x):
                    return False
                zx, ox = known_bits(st, x)
                zy, oy = known_bits(st, y)
                if (zx & oy) or (ox & zy):
                    return False
        return None
    if t.op == 'lt':
        a, b = t.a
        if decide_lt(st, a, b):
            return True
        if st.facts.get(mk('lt', b, a)) is True:
            return False
        # not (a < b) because b <= b' <= a' <= a
        for f, val in st.facts.items():
            if f.op == 'lt':
                x, y = f.a
                if not val:
                    # y <= x;  want b <= a
                    if y is b and decide_le_const(x, a):
                        return False
                    if x is a and decide_le_const(b, y):
                        return False
                else:
                    # x < y, so x+1 <= y ; want b <= a
                    if y is a and decide_le_const(b, add(x, ONE)):
                        return False
                    if x is b and decide_le_const(y, a):
                        return False
        return None
    return None


def decide_le_const(a, b):
    """a <= b for syntactic reasons."""
    if a is b:
        return True
    if a.op == 'int' and b.op == 'int':
        return a.a[0] <= b.a[0]
    if a.op == 'int' and a.a[0] == 0:
        return True
    d = sub(b, a)
    return d.op == 'int' and s64(d.a[0]) >= 0 and s64(d.a[0]) < 1 << 32


def decide_lt(st, a, b):
    if st.facts.get(mk('lt', a, b)) is True:
        return True
    for f, val in st.facts.items():
        if f.op != 'lt':
            continue
        x, y = f.a
        if val:
            # x < y ; want a < b : a <= x and y <= b
            if decide_le_const(a, x) and decide_le_const(y, b):
                return True
            # x < b - t where t <= b; want x + t < b
            if y.op == 'lin' and a.op == 'lin' and x.op != 'int' and y.syms <= f.syms and b.syms <= y.syms and x.syms <= a.syms:
                t = sub(b, y)
                if t.op != 'int' and sub(a, x) is t and (st.facts.get(mk('lt', b, t)) is False or st.facts.get(mk('lt', t, b)) is True):
                    return True
        else:
            # y <= x ; want a < b: a < y and x <= b, or a<=y and x<b
            if decide_le_const(add(a, ONE), y) and decide_le_const(x, b):
                return True
            if decide_le_const(a, y) and decide_le_const(add(x, ONE), b):
                return True
    return False


def assume(st, t, val):
    """Refine st in place by t == val.  False when contradictory."""
    if t.op == 'not':
        return assume(st, t.a[0], not val)
    r = decide(st, t)
    if r is not None:
        if r == val:
            return True
        return False
    st.facts[t] = val
    if t.op == 'lt':
        # bounds by a minimum or a maximum are bounds by both
        for i, w in ((1, 'min'), (0, 'max')):
            y = t.a[i] if val else t.a[1 - i]
            if y.op == 'app' and y.a[0] == w:
                for z in y.a[1:]:
                    n = list(t.a)
                    n[i if val else 1 - i] = z
                    if not assume(st, lt(*n), val):
                        return False
        if val and not (assume_diff(st, *t.a) and assume_max(st, *t.a)):
            return False
    elif t.op == 'eq' and not val:
        # more than nothing
        x = t.a[0]
        if x.op == 'app' and x.a[0] == 'min':
            for z in x.a[1:]:
                if not assume(st, eq(z, ZERO), False):
                    return False
        elif x.op == 'lin' and not assume_diff(st, ZERO, x):
            return False
    return True


def assume_diff(st, x, y):
    """x < b - t where t <= b: then x + t < b."""
    if y.op != 'lin' or len(y.a) > 9:
        return True
    c, d = lin_parts(y)
    t = lin_make(0, {u: -k for u, k in d.items() if k < 0})
    if t.op == 'int':
        return True
    b = add(y, t)
    if st.facts.get(mk('lt', b, t)) is False or st.facts.get(mk('lt', t, b)) is True:
        x = add(x, t)
        if x.op == 'lin' and x is not t:
            st.facts[mk('lt', x, t)] = False
        return assume(st, lt(x, b), True)
    return True


def assume_max(st, x, y):
    """x < max(p, q) and q <= x: then x < p."""
    if y.op == 'app' and y.a[0] == 'max' and len(y.a) == 3:
        for p, q in (y.a[1:], y.a[:0:-1]):
            if x is q or decide(st, lt(x, q)) is False:
                return assume(st, lt(x, p), True)
    return True


# ------------------------------------------------------------------ signature and join

def skel(v):
    if v.op == 'agg':
        n = v.a[0]
        if type(n) is tuple and n and n[0] == 'closure':
            n = ('closure', n[1])
        return (n, v.a[1]) + tuple(skel(x) for x in v.a[2:])
    if v.op == 'uninit':
        return 'U'
    if v.op == 'tag':
        return v.a[0]
    if v.op == 'lockg':
        return 'L'
    return 0


def gskel(v):
    """Ghost skeleton: constants included."""
    if v.op == 'agg':
        return (v.a[0], v.a[1]) + tuple(gskel(x) for x in v.a[2:])
    if v.op in ('uninit', 'tag'):
        return v.a
    return 0


def skel_l(t):
    return tuple(p.op if type(p) is T else 0 for p in t.a) + ((t.a[-1],) if t.op == 'mem' else ())


NUM = ('int', 'lin', 'sym', 'app', 'mem', 'fld', 'shr', 'and', 'or', 'mul')


class Joiner:
    def __init__(self, st_a, st_b, head):
        self.a, self.b = st_a, st_b
        self.head = head
        self.map = {}      # (x, y) -> joined
        self.used = {}     # phi leaf -> pair
        self.extra = {}
        # comparisons that went one way in the one state and the other way in the other
        self.split = [(a.a[0], a.a[1], v) for a, v in st_a.facts.items() if a.op == 'lt' and st_b.facts.get(a) is (not v)] \
            if head[1] == 'exit' else []

    def select(self, x, y):
        """`if p < q { q } else { p }` is the larger of the two, and likewise the smaller."""
        for p, q, v in self.split:
            # t: the value where p < q, f: where not
            t, f = (x, y) if v else (y, x)
            # how many times the chosen value may be in it
            ks = {1}
            for o in (p, q):
                u, c = next(iter(lin_parts(o)[1].items()), (None, 0))
                for z in (x, y):
                    k = s64(lin_parts(z)[1].get(u, 0) & M64)
                    if c and k and k % s64(c & M64) == 0:
                        ks.add(k // s64(c & M64))
            for w, k, d, g in [o for k in sorted(ks) for o in (('max', k, sub(t, scale(q, k)), sub(f, scale(p, k))),
                                                               ('min', k, sub(t, scale(p, k)), sub(f, scale(q, k))))]:
                if d is g and d.op == 'int':
                    r = mk('app', w, *sorted((p, q), key=lambda z: (z.op == 'int', z.n)))
                    for z in (p, q):
                        self.extra[mk('lt', r, z) if w == 'max' else mk('lt', z, r)] = False
                    return add(scale(r, k), d)
        return None

    def isphi(self, t):
        return t.op in LEAF and type(t.a[0]) is tuple and t.a[0][0] == 'phi' and t.a[0][1] == self.head

    def leafphi(self, x, y, where, op='sym', rest=()):
        nm = ('phi', self.head, where)
        k = 0
        while True:
            p = mk(op, nm if k == 0 else nm + (k,), *rest)
            u = self.used.get(p)
            if u is None or u == (x, y):
                self.used[p] = (x, y)
                return p
            k += 1

    def join(self, x, y, where):
        k = (x, y)
        r = self.map.get(k)
        if r is not None:
            return r
        if x is y and not self.hasphi(x):
            return x
        r = self._join(x, y, where)
        self.map[k] = r
        return r

    def hasphi(self, x):
        for s in x.syms:
            if self.isphi(s):
                return True
        return False

    def _join(self, x, y, where):
        if self.split and x.op in NUM and y.op in NUM:
            r = self.select(x, y)
            if r is not None:
                return r
        if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a) == len(y.a):
            return mk('agg', x.a[0], x.a[1], *[self.join(p, q, where + (i,)) for i, (p, q) in
                                                enumerate(zip(x.a[2:], y.a[2:]))])
        if x.op == 'uninit' or y.op == 'uninit':
            return UNINIT
        if x.op == 'tag' and x is y:
            return x
        if x.op == y.op and x.op in ('and', 'or') and len(x.a) == len(y.a) and x.a[1] is y.a[1] \
                and not self.hasphi(x.a[1]):
            r = self.join(x.a[0], y.a[0], where + ('&',))
            return rebuild(x, [r, x.a[1]])
        if x.op == y.op and len(x.a) == len(y.a) and x.op in ('ref', 'pl', 'mem', 'fld', 'box', 'discr', 'app', 'bapp', 'pf', 'pi', 'pidx', 'po', 'shr',
                                                              'eq', 'lt', 'not', 'and', 'or', 'fn'):
            if x.op in ('ref', 'pl', 'mem', 'pidx', 'po', 'shr'):
                ok = all((p is q) or (p.op == q.op) or (x.op in ('pidx', 'po') and i > 0 or x.op in ('shr', 'mem', 'pl') and i == 0)
                         for i, (p, q) in enumerate(zip(x.a, y.a)))
                if x.op in ('mem', 'pl') and x.a[1:] != y.a[1:]:
                    ok = False
            elif x.op in ('fld',):
                ok = x.a[1:] == y.a[1:]
            elif x.op in ('app', 'bapp', 'fn'):
                ok = x.a[0] == y.a[0] and all((type(p) is T) == (type(q) is T) and (type(p) is T or p == q) for p, q in
                                              zip(x.a, y.a))
            elif x.op in ('pf',):
                ok = x is y
            else:
                ok = True
            if ok and x.op in ('eq', 'lt', 'not', 'and', 'or'):
                ok = x is y
            if ok:
                na = [self.join(p, q, where + (i,)) if type(p) is T else p for i, (p, q) in enumerate(zip(x.a, y.a))]
                if x.op == 'ref' and na[0].op != 'cell':
                    return self.leafphi(x, y, where)
                return rebuild(x, na)
        if x is y and x.op not in LEAF:
            # same expression over phi leaves
            na = [self.join(p, p, where + (i,)) if type(p) is T else p for i, p in enumerate(x.a)]
            return rebuild(x, na)
        if x.op == 'cell' or y.op == 'cell':
            if x is y:
                return x
        if x.op == 'lin' and y.op == 'lin' and len(x.a) == len(y.a) and x.a[0] == y.a[0]:
            dx, dy = lin_parts(x)[1], lin_parts(y)[1]
            ox = [(t, k) for t, k in dx.items() if dy.get(t) != k or self.hasphi(t)]
            oy = [(t, k) for t, k in dy.items() if dx.get(t) != k or self.hasphi(t)]
            if len(ox) == 1 and len(oy) == 1 and ox[0][1] == oy[0][1]:
                r = lin_make(x.a[0], {t: k for t, k in dx.items() if t is not ox[0][0]})
                return lin_add(r, self.join(ox[0][0], oy[0][0], where + ('+',)), ox[0][1])
            if len(ox) == len(oy):
                prs = []
                left = list(oy)
                for t, k in ox:
                    c = [u for u in left if u[1] == k and (u[0].op == t.op) and skel_l(u[0]) == skel_l(t)]
                    if len(c) != 1:
                        break
                    left.remove(c[0])
                    prs.append((t, c[0][0], k))
                else:
                    r = lin_make(x.a[0], {t: k for t, k in dx.items() if all(t is not o[0] for o in ox)})
                    for i, (t, u, k) in enumerate(prs):
                        r = lin_add(r, self.join(t, u, where + ('+', i)), k)
                    return r
        if x.op == 'new' and y.op == 'new' and x.a[1:] == y.a[1:]:
            return self.leafphi(x, y, where, 'new', x.a[1:])
        if x.op == 'lockg' and y.op == 'lockg':
            return self.leafphi(x, y, where, 'lockg', (self.join(x.a[1], y.a[1], where + ('@',)),))
        # offset-aware integers:  x = u + c, y = v + c' with the pair (u, v) known
        if x.op in ('int', 'lin') or y.op in ('int', 'lin'):
            for (u, v), j in list(self.map.items()):
                if j.op != 'sym':
                    continue
                d1, d2 = sub(x, u), sub(y, v)
                if d1 is d2 and (d1.op == 'int' and d1.a[0] != 0 and abs(s64(d1.a[0])) < 1 << 16 or
                                 (u.op == 'int' and v.op == 'int' or self.isphi(u) and j is u and sub(v, u).op == 'int')
                                 and d1.op != 'int' and not self.hasphi(d1)):
                    return add(j, d1)
            # a sum of joined pairs
            for r in (self.sums(x, y, False), self.sums(y, x, True)):
                if r is not None:
                    return r
            # x = k u + d, y = k v + d
            for k in sorted({k for z in (x, y) if z.op == 'lin' for k in lin_parts(z)[1].values()} - {1, M64}):
                for (u, v), j in list(self.map.items()):
                    if j.op != 'sym' or u.op not in ('int', 'lin', 'sym') or v.op not in ('int', 'lin', 'sym'):
                        continue
                    d1, d2 = sub(x, scale(u, k)), sub(y, scale(v, k))
                    if d1 is d2 and not self.hasphi(d1):
                        return add(scale(j, k), d1)
        return self.leafphi(x, y, where)

    def sums(self, x, y, flip):
        """x as a sum of values that were joined before, y as the same sum of what they were joined with."""
        if x.op != 'lin' or len(self.map) > 400:
            return None
        c, d = lin_parts(x)
        if len(d) > 4:
            return None
        todo = [(I(c & M64), y)]
        by = {}
        for (u, v), j in self.map.items():
            if j.op == 'sym':
                by.setdefault(v if flip else u, []).append((u if flip else v, j))
        for t, k in d.items():
            new = []
            for r, z in todo:
                if not self.hasphi(t) and lin_parts(z)[1].get(t) == k:
                    new.append((lin_add(r, t, k), lin_add(z, t, -k)))
                for v, j in by.get(t, ())[:4]:
                    new.append((lin_add(r, j, k), sub(z, scale(v, k))))
            todo = new[:16]
        for r, z in todo:
            if z.op == 'int' and z.a[0] == c & M64:
                return r
        return None

    def constants(self):
        """Facts that differ in a constant by which values that were joined differ as well."""
        prs = [(u, v, j) for (u, v), j in self.map.items() if j.op == 'sym' and u.op in ('int', 'lin', 'sym') and v.op in ('int', 'lin', 'sym')
               and sub(v, u).op == 'int']
        if not prs:
            return
        for st, other, sw in ((self.a, self.b, False), (self.b, self.a, True)):
            for f, val in st.facts.items():
                if not val or f.op != 'bapp':
                    continue
                for i in range(1, len(f.a)):
                    x = f.a[i]
                    if type(x) is not T or x.op != 'int':
                        continue
                    for u, v, j in prs:
                        if sw:
                            u, v = v, u
                        k = sub(x, u)
                        if k.op == 'int' or not k.syms <= f.syms or self.hasphi(k):
                            continue
                        y = add(v, k)
                        if y.op != 'int' or y is x or ((y, x) if sw else (x, y)) in self.map:
                            continue
                        g = list(f.a)
                        g[i] = y
                        if decide(other, mk('bapp', *g)) is True:
                            self.map[(y, x) if sw else (x, y)] = add(j, k)
                            break

    def facts(self):
        res = dict(self.extra)
        self.constants()
        fa = {}   # x -> [(y, joined)]
        fb = {}
        for (x, y), j in self.map.items():
            if j.op == 'agg' or j.op == 'uninit':
                continue
            if x is not j or y is not j:
                fa.setdefault(x, []).append((y, j))
            if x is not j or y is not j:
                fb.setdefault(y, []).append((x, j))
        for me, other, f, sw in ((self.a, self.b, fa, False), (self.b, self.a, fb, True)):
            for at, val in me.facts.items():
                # identity
                for ms, mo in variants(at, f):
                    memo = {}
                    js = subst_t(at, ms, memo)
                    if js.op == 'int':
                        continue
                    v = val
                    if js.op == 'not':
                        js, v = js.a[0], not v
                    if js in res:
                        continue
                    # phis of this head left in place must stand for themselves
                    rest = subst_t(at, {h: ZERO for h in ms}, {}) if ms else at
                    if any(self.isphi(x) and self.used.get(x) != (x, x) for x in rest.syms):
                        continue
                    if any(self.isphi(x) and x not in self.used for x in js.syms):
                        continue
                    o = subst_t(at, mo, {}) if mo else at
                    if decide(other, o) == val:
                        res[js] = v
        return res


def variants(at, f):
    """Substitutions (this side -> joined, this side -> other side) to try for an atom."""
    hits = [x for x in f if occurs(x, at)]
    yield {}, {}
    if not hits:
        return
    yield {x: f[x][0][1] for x in hits}, {x: f[x][0][0] for x in hits}
    n = 0
    for x in hits:
        for y, j in f[x]:
            n += 1
            if n > 12:
                return
            ms = {h: f[h][0][1] for h in hits}
            mo = {h: f[h][0][0] for h in hits}
            ms[x] = j
            mo[x] = y
            yield ms, mo
            if len(hits) > 1:
                yield {x: j}, {x: y}


def occurs(x, t):
    if x is t:
        return True
    if x.syms and not (x.syms <= t.syms):
        return False
    if not x.syms:
        # a constant counts only as an argument of the fact itself
        return x.op == 'int' and t.op == 'bapp' and any(y is x for y in t.a)
    for y in t.a:
        if type(y) is T and occurs(x, y):
            return True
    return False


def subst_t(t, m, memo):
    """Substitute arbitrary subterms."""
    if not m:
        return t
    sy = set()
    const = False
    for k in m:
        if k.syms:
            sy |= k.syms
        else:
            const = True
    return _subst_t(t, m, memo, sy, const)


def _subst_t(t, m, memo, sy, const):
    if not const and t.syms.isdisjoint(sy):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.syms:
        r = t
    else:
        ch = False
        na = []
        for x in t.a:
            if type(x) is T:
                y = _subst_t(x, m, memo, sy, const)
                ch = ch or (y is not x)
                na.append(y)
            else:
                na.append(x)
        r = rebuild(t, na) if ch else t
    memo[t] = r
    return r


def joinstates(A, B, head):
    j = Joiner(A, B, head)
    n = State()
    for c in sorted((c for c in A.cells if c in B.cells), key=lambda c: (A.cells[c].op not in ('int', 'sym') or B.cells[c].op not in ('int', 'sym', 'lin'), str(c.a[0]))):
        n.cells[c] = j.join(A.cells[c], B.cells[c], (c.a[0],))
    if type(A.ghost) is Framed:
        n.ghost = Framed()
        if A.ghost.keys() != B.ghost.keys():
            raise NeedGhost()
    for k in sorted((k for k in A.ghost if k in B.ghost)):
        n.ghost[k] = j.join(A.ghost[k], B.ghost[k], ('$' + k,))
    for k, v in A.mem.items():
        if k in B.mem:
            p, path = k
            w = B.mem[k]
            if j.hasphi(p):
                continue
            n.mem[k] = j.join(v, w, ('m', p, path))
    # cells addressed by pointers that were joined pairwise
    for (x, y), r in list(j.map.items()):
        if x.op == 'box' or x is y and not j.hasphi(x):
            continue
        for (p, path), v in A.mem.items():
            if p is x and (y, path) in B.mem and (r, path) not in n.mem:
                n.mem[(r, path)] = j.join(v, B.mem[(y, path)], ('m', r, path))
    n.facts = j.facts()
    return n, j


# ------------------------------------------------------------------ the interpreter

class Abort(Exception):
    pass


def base_name(n):
    d = 0
    while type(n) is T and n.op == 'old':
        n = n.a[0]
        d += 1
    return n, d


def apart(leaves, names):
    """Renaming that frees the given leaf names."""
    r = {}
    hit = [x for x in leaves if x.op != 'cell' and base_name(x.a[0])[0] in names]
    hit.sort(key=lambda t: (len(t.syms), t.n))
    for x in hit:
        if base_name(x.a[0])[1] > 6:
            raise Abort('too many incarnations of %s' % show(x))
        memo = {}
        r[x] = mk(x.op, mk('old', x.a[0]), *[subst(y, r, memo) if type(y) is T else y for y in x.a[1:]])
    return r


class Engine:
    def __init__(self, prog, rules):
        self.prog = prog
        self.rules = rules
        rules.eng = self
        self.memo = {}
        self.failed = {}
        self.level = {}
        self.tries = {}
        self.wide = False
        self.exact = False      # keep every path apart
        self.apart = False      # keep paths apart inside of a function
        self.partial = False
        self.active = []
        self.unmodelled = {}
        self.stats = {'calls': 0, 'execs': 0, 'blocks': 0, 'joins': 0, 'stmts': 0}
        self.fns_seen = set()
        self.calls_seen = set()
        import models
        self.models = models
        for n, a in prog.adts.items():
            if a['kind'] == 'enum':
                terms.DISCR[n] = [int(v['discr']) if v.get('discr') is not None else i for i, v in
                                  enumerate(a['variants'])]
        self.transparent = set(TRANSPARENT)
        for n, a in prog.adts.items():
            if a.get('transparent') and a['kind'] in ('struct', 'union') and n != 'raw::alloc::RawTable' \
                    and n != 'seize::Collector':
                self.transparent.add(n)

    # -------------------------------------------------------------- frames

    def leaf(self, fr, op, tag, *rest):
        """A leaf created at the current program point."""
        return mk(op, ('at', fr.fn.id, fr.bb, fr.idx, tag), *rest)

    def fresh(self, fr, st, op, tag, *rest):
        l = self.leaf(fr, op, tag, *rest)
        self.retire_leaves(st, {l})
        return l

    def retire_leaves(self, st, new):
        """Rename earlier incarnations of leaves about to be created."""
        r = apart(st.leaves(), {l.a[0] for l in new})
        if r:
            n = st.rename(r)
            st.cells, st.mem, st.facts, st.ghost = n.cells, n.mem, n.facts, n.ghost

    # -------------------------------------------------------------- exec a function

    def run(self, fn, env, args, st):
        """Exits of fn for the given arguments.

        A call is first analysed without the ghost part and with the knowledge about its own arguments only (level 0),
        so that its exits serve every caller; when that does not do, with the ghost part (level 1), and then with all
        the evidence the caller has (level 2)."""
        self.stats['calls'] += 1
        site = self.cursite
        k = (fn.id, env)
        lv = 2 if self.wide else self.level.get(k, 0)
        na = len(self.active)
        while True:
            if lv and type(st.ghost) is Framed:
                raise NeedGhost()
            try:
                self.cursite = site
                r = self.run1(fn, env, args, st, lv)
                if lv == 0:
                    self.tries[k] = self.tries.get(k, 0) - 1
                return r
            except NeedGhost:
                del self.active[na:]
                if lv:
                    raise
            except NeedMore:
                del self.active[na:]
                if lv == 2:
                    raise
            lv += 1
            # a few failed attempts more than successful ones: start higher from now on
            n = self.tries[k] = self.tries.get(k, 0) + (2 if lv == 1 else 8)
            if n > 6:
                self.level[k] = lv
            self.stats['widened'] = self.stats.get('widened', 0) + 1

    def run1(self, fn, env, args, st, lv):
        """The same, with canonical-form memoization."""
        framed = lv == 0
        order = {}
        canon = {}

        cellvals = {}
        memitems = list(st.mem.items())
        done_mem = set()

        def visit(t):
            if not t.syms or t in seen:
                return
            stack = [(t, False)]
            while stack:
                x, fin = stack.pop()
                if fin:
                    if x.op in LEAF and x not in canon:
                        if x.op == 'tagl':
                            canon[x] = x
                        else:
                            canon[x] = mk(x.op, ('c', len(canon)), *[subst(y, canon, {}) if type(y) is T else y for y in
                                                                     x.a[1:]])
                        if x.op == 'cell' and x in st.cells:
                            cellvals[x] = st.cells[x]
                            todo.append(st.cells[x])
                    continue
                if x in seen:
                    continue
                seen.add(x)
                stack.append((x, True))
                for y in reversed(x.a):
                    if type(y) is T and y.syms:
                        stack.append((y, False))

        seen = set()
        todo = []
        for a in args:
            todo.append(a)
        if not framed:
            for k in sorted(st.ghost):
                todo.append(st.ghost[k])
        memin = {}
        i = 0
        while True:
            while i < len(todo):
                visit(todo[i])
                i += 1
            n0 = len(todo)
            for j, ((p, path), v) in enumerate(memitems):
                if j in done_mem:
                    continue
                if all(s in canon for s in p.syms) and all(s in canon for x in path for s in x.syms):
                    done_mem.add(j)
                    memin[(p, path)] = v
                    todo.append(v)
            if len(todo) == n0 and lv == 2:
                for f, v in st.facts.items():
                    # evidence about what the callee can reach, and what that evidence mentions
                    if v and f.op == 'bapp' and f not in seen and f.a[0] in CLOSED and any(x in canon for x in f.syms) \
                            and not all(x in canon for x in f.syms):
                        if f.a[0] == 'at' and not any(x in canon for x in f.a[1].syms):
                            continue
                        todo.append(f)
            if len(todo) == n0:
                break
        cs = State()
        memo = {}
        cargs = tuple(subst(a, canon, memo) for a in args)
        for c, v in cellvals.items():
            cs.cells[canon[c]] = subst(v, canon, memo)
        for (p, path), v in memin.items():
            cs.mem[(subst(p, canon, memo), tuple(subst(x, canon, memo) for x in path))] = subst(v, canon, memo)
        for f, v in st.facts.items():
            ok = True
            for s in f.syms:
                if s not in canon:
                    ok = False
                    break
            if ok:
                g = subst(f, canon, memo)
                if g.op == 'not':
                    g, v = g.a[0], not v
                if g.op != 'int':
                    cs.facts[g] = v
        if framed:
            cs.ghost = Framed({'op': st.ghost['op']})
        else:
            if type(st.ghost) is Framed:
                cs.ghost = Framed()
            for k, v in st.ghost.items():
                cs.ghost[k] = subst(v, canon, memo)
        key = (fn.id, env, cargs, type(cs.ghost) is Framed) + cs.key()
        part = self.partial or lv < 2
        res = self.memo.get(key)
        if res is None:
            res = self.failed.get((key, part))
        if res is None:
            if fn.id in self.active and self.active.count(fn.id) > 2:
                raise Abort('recursion in ' + fn.p)
            self.active.append(fn.id)
            fo = self.partial
            self.partial = part
            try:
                res = self.execute(fn, dict(env), cargs, cs)
            except (NeedGhost, NeedMore) as x:
                self.failed[(key, part)] = type(x)
                raise
            finally:
                self.partial = fo
            self.active.pop()
            self.memo[key] = res
        elif type(res) is type:
            raise res()
        inv = {v: k for k, v in canon.items()}
        site = self.cursite
        out = []
        for e in res:
            # leaves created by the callee
            lv = e.st.leaves() | (e.ret.syms if e.ret is not None else frozenset())
            new = [l for l in lv if l not in inv and l.op != 'cell']
            m = dict(inv)
            mi = memin
            if new:
                names = {mk('nm', site, l.a[0]) for l in new}
                lv = st.leaves()
                for v in inv.values():
                    lv |= v.syms
                r = apart(lv, names)
                s = st.rename(r) if r else st.copy()
                if r:
                    memo = {}
                    m = {k: subst(v, r, memo) for k, v in inv.items()}
                    mi = [(subst(p, r, memo), tuple(subst(x, r, memo) for x in path)) for p, path in memin]
                new.sort(key=lambda t: (len(t.syms), t.n))
                for l in new:
                    memo = {}
                    m[l] = mk(l.op, mk('nm', site, l.a[0]), *[subst(y, m, memo) if type(y) is T else y for y in l.a[1:]])
            else:
                s = st.copy()
            es = e.st.rename(m)
            # replace what the callee could reach
            s.cells.update(es.cells)
            for k2 in mi:
                s.mem.pop(k2, None)
            s.mem.update(es.mem)
            s.facts.update(es.facts)
            if framed:
                s.ghost.update(es.ghost)
            else:
                s.ghost = es.ghost
            out.append(Exit(e.kind, subst(e.ret, m, {}) if e.ret is not None else None, s))
        return out

    def execute(self, fn, env, args, st):
        """Fixpoint over the body."""
        self.stats['execs'] += 1
        if fn.local:
            self.fns_seen.add(fn.id)
        fr = Frame(fn, env)
        self.curfr = fr
        body = fn.body
        st = st.copy()
        incells = set(st.cells)
        fr.incells = incells
        for i, a in enumerate(args):
            st.cells[fr.cell(i + 1)] = a
        self.rules.enter(fr, st, args)
        pend = {}       # bb -> {key: state}
        heads = {}      # bb -> {sig: state}
        heap = []
        exits = {}
        execd = {}
        seenkeys = {}

        def push(bb, s):
            self.prune(fr, bb, s)
            if bb in body.heads:
                sig = self.sig(fr, s)
                hs = heads.setdefault(bb, {})
                o = hs.get(sig)
                if o is not None:
                    self.stats['joins'] += 1
                    nw, j = joinstates(o, s, (fn.id, bb))
                    self.gc(nw)
                    if nw.key() == o.key():
                        return
                    s = nw
                    self.nj = self.nj + 1 if hasattr(self, 'nj') else 0
                    cnt = execd.get((bb, sig), 0)
                    execd[(bb, sig)] = cnt + 1
                    if cnt > 40:
                        raise Abort('no convergence in %s bb%d' % (fn.p, bb))
                else:
                    self.gc(s)
                hs[sig] = s
                d = pend.setdefault(bb, {})
                d[sig] = s
            else:
                if body.npred.get(bb, 0) > 1:
                    self.gc(s)
                    k = (frozenset(s.cells.items()), frozenset(s.mem.items()), frozenset(s.ghost.items()),
                         frozenset(s.facts.items()) if self.exact or self.apart else self.dfacts(s))
                    sk = seenkeys.setdefault(bb, {})
                    o = sk.get(k)
                    if o is not None:
                        nf = {a: v for a, v in o.facts.items() if s.facts.get(a) is v or decide(s, a) is v}
                        if len(nf) == len(o.facts):
                            return
                        s.facts = nf
                    sk[k] = s
                else:
                    k = s.key()
                    sk = seenkeys.setdefault(bb, {})
                    if k in sk:
                        return
                    sk[k] = None
                pend.setdefault(bb, {})[k] = s
            heapq.heappush(heap, (body.rpo[bb], bb))

        def out(kind, ret, s):
            self.rules.leave(fr, s, kind, ret, args)
            for c in list(s.cells):
                if c not in incells:
                    del s.cells[c]
            self.gc(s, [ret] if ret is not None else [])
            sig = (kind, self.shape(s, ret) if ret is not None else None, self.sig(fr, s))
            if ret is not None:
                s.cells[RETC] = ret
            if self.exact:
                sig = (kind, s.key())
            o = exits.get(sig)
            if o is None:
                exits[sig] = s
            elif sameshape(o, s):
                o.facts = {a: v for a, v in o.facts.items() if s.facts.get(a) is v or decide(s, a) is v}
            else:
                nw, j = joinstates(o, s, (fn.id, 'exit'))
                self.stats['xjoins'] = self.stats.get('xjoins', 0) + 1
                self.gc(nw)
                exits[sig] = nw

        push(0, st)
        n = 0
        while heap:
            _, bb = heapq.heappop(heap)
            d = pend.get(bb)
            if not d:
                continue
            k = next(iter(d))
            s = d.pop(k)
            if d:
                heapq.heappush(heap, (body.rpo[bb], bb))
            n += 1
            self.stats['blocks'] += 1
            if n > 40000:
                raise Abort('too many states in %s' % fn.p)
            self.block(fr, bb, s.copy(), push, out)
        r = []
        for sig, s in exits.items():
            ret = s.cells.pop(RETC, None)
            r.append(Exit(sig[0], ret, s))
        return r

    def sig(self, fr, s):
        r = []
        boolean = fr.fn.body.boolean
        for c, v in s.cells.items():
            k = skel(v)
            if k:
                r.append((c, k))
            elif v.op == 'int' and v.a[0] in (0, 1):
                i = c.a[0]
                if i[0] == 'c' or i[1] in boolean:
                    r.append((c, v))
        g = tuple(sorted((k, gskel(v)) for k, v in s.ghost.items()))
        mm = []
        for (p, path), v in s.mem.items():
            k = skel(v)
            if k and p.op == 'new':
                mm.append((p.a[1], path, k))
        return (frozenset(r), g, frozenset(mm), self.dfacts(s))

    def dfacts(self, s):
        f = []
        for a, v in s.facts.items():
            if a.op == 'eq':
                e = as_eqc(a.a[0])
                if e and e[0].op == 'discr' and e[0].a[0].op == 'mem':
                    f.append((a, v))
        return frozenset(f)

    def shape(self, s, v, d=0):
        if v.op == 'agg':
            n = v.a[0]
            if type(n) is tuple and n and n[0] == 'closure':
                n = ('closure', n[1])
            return (n, v.a[1]) + tuple(self.shape(s, x, d + 1) for x in v.a[2:])
        if v.op == 'uninit':
            return 'U'
        if v.op == 'int':
            return v
        if v.op in ('tag', 'lockg'):
            return v.op
        if isbool(v):
            return decide(s, v)
        r = decide(s, eq(v, ZERO))
        return 'z' if r else 'p' if r is False else 0

    def prune(self, fr, bb, s):
        live = fr.fn.body.live[bb]
        taken = fr.fn.body.taken
        for c in list(s.cells):
            if c not in fr.incells:
                i = c.a[0][1]
                if type(i) is int and i not in live and i not in taken:
                    del s.cells[c]

    def gc(self, s, extra=()):
        """Drop facts and memory nothing reachable mentions."""
        live = set()
        for v in s.cells.values():
            live |= v.syms
        for v in s.ghost.values():
            live |= v.syms
        for v in extra:
            live |= v.syms
        cells = s.cells
        for c in cells:
            live.add(c)
        for a, v in s.facts.items():
            if a.op == 'bapp' and a.a[0] in ROOTS and v:
                live |= a.syms
        ch = True
        mem = list(s.mem.items())
        keep = {}
        while ch and mem:
            ch = False
            rest = []
            for (p, path), v in mem:
                if all(x in live or self.isinput(x) for x in p.syms):
                    keep[(p, path)] = v
                    if not v.syms <= live:
                        live |= v.syms
                        ch = True
                else:
                    rest.append(((p, path), v))
            mem = rest
        for (p, path), v in mem:
            if path and path[0].a[0] == '$':
                self.rules.leaked(self.curfr, s, p, v)
        # inputs of the function stay meaningful
        s.mem = keep
        s.facts = {a: v for a, v in s.facts.items() if all(x in live or self.isinput(x) for x in a.syms)}

    def isinput(self, l):
        return type(l.a[0]) is tuple and l.a[0][0] in ('c', 'in')

    # -------------------------------------------------------------- blocks

    def block(self, fr, bb, st, push, out):
        body = fr.fn.body
        b = body.blocks[bb]
        fr.bb = bb
        self.curfr = fr
        for i, s in enumerate(b['s']):
            fr.idx = i
            self.stmt(fr, st, s)
        fr.idx = len(b['s'])
        t = b['t']
        k = t['k']
        fr.sp = t.get('sp')
        if k == 'goto':
            push(t['t'], st)
        elif k == 'switch':
            self.switch(fr, st, t, push)
        elif k == 'return':
            out('return', st.cells.get(fr.cell(0), UNINIT), st)
        elif k == 'resume':
            out('unwind', None, st)
        elif k == 'unreachable':
            self.rules.unreachable(fr, st)
        elif k == 'abort':
            pass
        elif k == 'drop':
            v = self.read_place(fr, st, t['pl'])
            self.models.drop_value(self, fr, st, v, tsubst(t['pl']['ty'], fr.env))
            push(t['t'], st)
        elif k == 'assert':
            c = self.operand(fr, st, t['c'])
            if assume(st, as_bool(c), bool(t['e'])):
                self.rules.learned(fr, st)
                push(t['t'], st)
        elif k == 'call':
            self.call(fr, st, t, push, out)
        else:
            raise Abort('terminator ' + k)

    def switch(self, fr, st, t, push):
        d = self.operand(fr, st, t['d'])
        isb = t.get('ty') == ('bool',) or isbool(d) and d.op != 'int'
        if d.op == 'int':
            for v, bb in t['v']:
                if int(v) & M64 == d.a[0]:
                    push(bb, st)
                    return
            push(t['o'], st)
            return
        if isbool(d):
            vals = [(int(v), bb) for v, bb in t['v']]
            for v, bb in vals:
                s = st.copy()
                if assume(s, d, bool(v)):
                    self.rules.learned(fr, s)
                    push(bb, s)
            if len(vals) == 1:
                s = st
                if assume(s, d, not vals[0][0]):
                    self.rules.learned(fr, s)
                    push(t['o'], s)
            return
        rest = st
        for v, bb in t['v']:
            s = rest.copy()
            c = eq(d, I(int(v) & M64))
            if assume(s, c, True):
                self.rules.learned(fr, s)
                push(bb, s)
            if not assume(rest, c, False):
                return
        # exhaustive enum
        if d.op == 'discr':
            nv = len(terms.DISCR.get(d.a[1], ()))
            if nv and nv == len(t['v']):
                return
            if nv and nv == len(t['v']) + 1:
                # the remaining variant is determined
                seen = {int(v) & M64 for v, _ in t['v']}
                left = [x for x in terms.DISCR[d.a[1]] if x & M64 not in seen]
                if len(left) == 1:
                    if not assume(rest, eq(d, I(left[0] & M64)), True):
                        return
        self.rules.learned(fr, rest)
        push(t['o'], rest)

    # -------------------------------------------------------------- statements

    def stmt(self, fr, st, s):
        k = s['k']
        if k == '=':
            fr.sp = s.get('sp')
            v = self.rvalue(fr, st, s['rv'], s['pl'])
            self.write_place(fr, st, s['pl'], v)
        elif k == 'dead':
            c = fr.cell(s['l'])
            st.cells.pop(c, None)
        elif k == 'assume':
            c = self.operand(fr, st, s['op'])
            assume(st, as_bool(c), True)
        elif k == 'setd':
            raise Abort('set discriminant')

    def rvalue(self, fr, st, r, pl):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['op'])
        if k in ('ref', 'rawptr'):
            return self.addr_of(fr, st, r['pl'])
        if k == 'bin':
            return self.binop(fr, st, r['op'], self.operand(fr, st, r['a']), self.operand(fr, st, r['b']), optype(fr, r['a']))
        if k == 'un':
            a = self.operand(fr, st, r['a'])
            o = r['op']
            if o == 'Not':
                if isbool(a):
                    return bnot(a)
                if a.op == 'int':
                    return I(~a.a[0] & M64)
                ty = tsubst(pl['ty'], fr.env)
                if ty == ('bool',):
                    return bnot(as_bool(a))
                return mk('app', 'bitnot', a)
            if o == 'Neg':
                return sub(ZERO, a)
            return mk('app', str(o), a)
        if k == 'cast':
            v = self.operand(fr, st, r['op'])
            ck = r['ck']
            to = tsubst(r['ty'], fr.env)
            if ck in ('IntToInt',):
                if v.op == 'int':
                    return I(v.a[0] & width_mask(to))
                m = width_mask(to)
                if m != M64:
                    return band(v, I(m))
                return v
            return v
        if k == 'discr':
            v = self.read_place(fr, st, r['pl'])
            ty = tsubst(r['pl']['ty'], fr.env)
            return discr(v, ty[1] if ty[0] == 'adt' else None)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r['ops']]
            return self.aggregate(fr, st, r, ops)
        if k == 'repeat':
            return mk('agg', 'array', 0)
        return self.fresh(fr, st, 'sym', 'rv')

    def aggregate(self, fr, st, r, ops):
        ak = r['ak']
        if ak == 'adt':
            d = r['d']
            if d in self.transparent and ops:
                return ops[0]
            v = mk('agg', d, r['v'], *ops)
            return self.rules.aggregate(fr, st, d, v)
        if ak == 'tuple':
            return mk('agg', 'tuple', 0, *ops)
        if ak == 'closure':
            env = tuple(sorted(fr.env.items()))
            return mk('agg', ('closure', r['d'], env), 0, *ops)
        if ak == 'rawptr':
            return ops[0]
        return mk('agg', ak, 0, *ops)

    def binop(self, fr, st, op, a, b, ty):
        m = width_mask(ty)
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
            r = add(a, b)
            if r.op == 'int':
                r = I(r.a[0] & m)
        elif op in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
            r = sub(a, b)
            if r.op == 'int':
                r = I(r.a[0] & m)
            elif b.op == 'and' and b.a[0] is a and b.a[1].op == 'int':
                # what a mask removes
                r = self.rules.band(st, a, I(~b.a[1].a[0] & M64))
        elif op in ('Mul', 'MulUnchecked', 'MulWithOverflow'):
            r = mul(a, b)
            if r.op == 'int':
                r = I(r.a[0] & m)
        elif op == 'BitAnd':
            if isbool(a) and isbool(b) and ty == ('bool',):
                if a.op == 'int':
                    return b if a.a[0] else FALSE
                if b.op == 'int':
                    return a if b.a[0] else FALSE
                ra, rb = decide(st, a), decide(st, b)
                if ra is False or rb is False:
                    return FALSE
                if ra:
                    return b
                if rb:
                    return a
                return mk('bapp', 'and', a, b)
            r = self.rules.band(st, a, b)
        elif op == 'BitOr':
            if ty == ('bool',):
                if a.op == 'int':
                    return TRUE if a.a[0] else b
                if b.op == 'int':
                    return TRUE if b.a[0] else a
                ra, rb = decide(st, as_bool(a)), decide(st, as_bool(b))
                if ra or rb:
                    return TRUE
                if ra is False:
                    return b
                if rb is False:
                    return a
                return mk('bapp', 'or', a, b)
            r = bor(a, b)
        elif op == 'BitXor':
            if ty == ('bool',):
                ra, rb = decide(st, as_bool(a)), decide(st, as_bool(b))
                if ra is not None:
                    return bnot(as_bool(b)) if ra else as_bool(b)
                if rb is not None:
                    return bnot(as_bool(a)) if rb else as_bool(a)
                return bnot(eq(a, b))
            r = mk('app', 'xor', a, b) if not (a.op == 'int' and b.op == 'int') else I(a.a[0] ^ b.a[0])
        elif op == 'Eq':
            return eq(a, b)
        elif op == 'Ne':
            return bnot(eq(a, b))
        elif op in ('Lt', 'Gt', 'Le', 'Ge') and ty and ty[0] == 'int':
            if op in ('Gt', 'Le'):
                a, b = b, a
            r = slt(a, b)
            return bnot(r) if op in ('Le', 'Ge') else r
        elif op == 'Lt':
            return lt(a, b)
        elif op == 'Gt':
            return lt(b, a)
        elif op == 'Le':
            return bnot(lt(b, a))
        elif op == 'Ge':
            return bnot(lt(a, b))
        elif op in ('Shl', 'ShlUnchecked'):
            if b.op == 'int':
                r = scale(a, 1 << (b.a[0] & 63))
                if r.op == 'int':
                    r = I(r.a[0] & m)
            else:
                r = mk('app', 'shl', a, b)
        elif op in ('Shr', 'ShrUnchecked'):
            if a.op == 'int' and b.op == 'int':
                r = I(a.a[0] >> (b.a[0] & 63))
            elif b.op == 'int' and b.a[0] == 0:
                r = a
            else:
                r = mk('shr', a, b)
        elif op == 'Div':
            if a.op == 'int' and b.op == 'int' and b.a[0]:
                r = I(a.a[0] // b.a[0])
            elif b.op == 'int' and b.a[0] == 1:
                r = a
            elif b.op == 'int' and b.a[0] and b.a[0] & (b.a[0] - 1) == 0:
                r = mk('shr', a, I(b.a[0].bit_length() - 1))
            else:
                r = mk('app', 'div', a, b)
        elif op == 'Rem':
            if a.op == 'int' and b.op == 'int' and b.a[0]:
                r = I(a.a[0] % b.a[0])
            elif b.op == 'int' and b.a[0] and b.a[0] & (b.a[0] - 1) == 0:
                r = band(a, I(b.a[0] - 1))
            else:
                r = mk('app', 'rem', a, b)
        elif op == 'Offset':
            r = mk('app', 'offset', a, b)
        else:
            r = mk('app', op, a, b)
        if op.endswith('WithOverflow'):
            # overflow of a checked operation panics; the analysis follows the other branch
            return mk('agg', 'tuple', 0, r, FALSE)
        return r

    # -------------------------------------------------------------- operands and places

    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            v = self.read_place(fr, st, o['pl'], move=(k == 'move'))
            return v
        if k == 'const':
            if 'fn' in o:
                f = o['fn']
                a = tuple(tsubst(x, fr.env) for x in f['a'])
                return mk('fn', f['d'], a, FnRef(f))
            if 'v' in o:
                return I(int(o['v']) & M64)
            if 'uneval' in o:
                u = o['uneval']
                if u.get('promoted') is not None:
                    return self.promoted(fr, st, u)
                p = u['p']
                for cp, cv in self.prog.consts.items():
                    if cp == p:
                        return I(cv & M64)
                return self.rules.const(fr, u)
            ty = o.get('ty')
            if ty and ty[0] == 'fndef':
                return mk('fn', ty[1], tuple(tsubst(x, fr.env) for x in ty[2]), FnRef({'d': ty[1], 'p': ty[3], 'a': ty[2]}))
            if ty and ty[0] == 'closure':
                return mk('agg', ('closure', ty[1], tuple(sorted(fr.env.items()))), 0)
            if ty == ('tuple', ()):
                return UNIT
            if ty and ty[0] == 'adt':
                return mk('agg', ty[1], 0)
            return mk('kst', str(o.get('s', '?')))
        if k == 'rtcheck':
            return FALSE
        raise Abort('operand ' + k)

    def promoted(self, fr, st, u):
        fn = self.prog.fns.get(u['d'])
        i = u['promoted']
        if fn is None or i >= len(fn.promoted):
            return mk('kst', 'promoted %s %s' % (u['d'], i))
        b = fn.promoted[i]
        # constant straight-line body
        c = mk('kst', 'promoted %s %s' % (u['d'], i))
        f2 = Frame(fn, fr.env)
        f2.body = b
        f2.bb, f2.idx, f2.sp = 0, 0, None
        f2.pre = ('prom', u['d'], i)
        f2.incells = set()
        s2 = State()
        bb = b.blocks[0]
        try:
            for s in bb['s']:
                self.stmt(f2, s2, s)
        except Abort:
            return c
        v = s2.cells.get(f2.cell(0))
        if v is None:
            return c
        if v.op == 'ref' and len(v.a) == 1:
            w = s2.cells.get(v.a[0])
            if w is not None and not w.syms:
                st.mem[(c, ())] = w
            return c
        return v

    def cellof(self, fr, l):
        return fr.cell(l)

    def resolve(self, fr, st, pl, track=None):
        """('cell', c, path) | ('mem', p, path)"""
        base = ('cell', fr.cell(pl['l']), [])
        variant = None
        for e in pl['p']:
            if e[0] == '*':
                v = self.read_loc(fr, st, base)
                base = self.deref(fr, st, v)
                variant = None
            elif e[0] == 'f':
                owner = e[3]
                if owner in self.transparent:
                    variant = None
                    continue
                if owner == 'std::boxed::Box':
                    if e[1] == 0:
                        continue
                base = (base[0], base[1], base[2] + [pf(owner or '', variant if variant is not None else 0, e[1], e[2])])
                variant = None
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'i':
                iv = self.read_loc(fr, st, ('cell', fr.cell(e[1]), []))
                base = (base[0], base[1], base[2] + [mk('pi', iv)])
            elif e[0] == 'ci':
                base = (base[0], base[1], base[2] + [mk('pi', I(int(e[1]) & M64))])
            else:
                base = (base[0], base[1], base[2] + [mk('pi', mk('kst', str(e)))])
        return base

    def deref(self, fr, st, v):
        if v.op == 'box':
            v = v.a[0]
        if v.op == 'ref':
            return ('cell', v.a[0], list(v.a[1:]))
        if v.op == 'pl':
            return ('mem', v.a[0], list(v.a[1:]))
        return ('mem', v, [])

    def addr_of(self, fr, st, pl):
        loc = self.resolve(fr, st, pl)
        r = self.loc_ptr(loc)
        if pl['p']:
            self.rules.deref(fr, st, pl, loc, 'ref')
        return r

    def loc_ptr(self, loc):
        if loc[0] == 'cell':
            return mk('ref', loc[1], *loc[2])
        return mkpl(loc[1], loc[2])

    def read_place(self, fr, st, pl, move=False):
        loc = self.resolve(fr, st, pl)
        if loc[0] == 'mem':
            self.rules.deref(fr, st, pl, loc, 'read')
        v = self.read_loc(fr, st, loc)
        if move and loc[0] == 'mem':
            self.rules.moved(fr, st, loc, v)
        return v

    def read_loc(self, fr, st, loc):
        if loc[0] == 'cell':
            v = st.cells.get(loc[1])
            if v is None:
                v = UNINIT
            for e in loc[2]:
                v = self.proj(v, e)
            return v
        return self.read_mem(st, loc[1], tuple(loc[2]))

    def proj(self, v, e):
        if e.op == 'pf':
            if v.op == 'upd':
                if v.a[1] is e:
                    return v.a[2]
                return self.proj(v.a[0], e)
            return self.rules.project(v, e)
        if v.op == 'agg' and e.a[0].op == 'int' and v.a[0] in ('array', 'tuple') and len(v.a) > 2 + e.a[0].a[0]:
            return v.a[2 + e.a[0].a[0]]
        return mk('app', 'elem', v, e.a[0])

    def read_mem(self, st, p, path):
        v = st.mem.get((p, path))
        if v is not None:
            return v
        n = len(path)
        for k in range(n - 1, -1, -1):
            v = st.mem.get((p, path[:k]))
            if v is not None:
                for e in path[k:]:
                    v = self.proj(v, e)
                return v
        return self.rules.memdef(st, p, path)

    def write_place(self, fr, st, pl, v):
        if not pl['p']:
            st.cells[fr.cell(pl['l'])] = v
            return
        loc = self.resolve(fr, st, pl)
        if loc[0] == 'mem':
            self.rules.deref(fr, st, pl, loc, 'write')
        self.write_loc(fr, st, loc, v)

    def write_loc(self, fr, st, loc, v):
        if loc[0] == 'cell':
            path = loc[2]
            if not path:
                st.cells[loc[1]] = v
            else:
                st.cells[loc[1]] = self.update(st.cells.get(loc[1], UNINIT), path, v)
            return
        self.write_mem(st, loc[1], tuple(loc[2]), v)
        self.rules.written(fr, st, loc, v)

    def write_mem(self, st, p, path, v):
        n = len(path)
        for k in range(n - 1, -1, -1):
            o = st.mem.get((p, path[:k]))
            if o is not None:
                st.mem[(p, path[:k])] = self.update(o, path[k:], v)
                return
        for q in list(st.mem):
            if q[0] is p and len(q[1]) > n and q[1][:n] == path and q[1][n].a[0] != '$':
                del st.mem[q]
        st.mem[(p, path)] = v

    def update(self, base, path, v):
        if not path:
            return v
        e = path[0]
        if e.op == 'pf':
            if base.op == 'agg' and base.a[1] == e.a[1] and len(base.a) > 2 + e.a[2]:
                a = list(base.a)
                a[2 + e.a[2]] = self.update(a[2 + e.a[2]], path[1:], v)
                return mk('agg', *a)
            a = self.prog.adts.get(e.a[0])
            if a and a['kind'] == 'struct':
                nf = len(a['variants'][0]['fields'])
                fs = []
                for i in range(nf):
                    if i == e.a[2]:
                        fs.append(self.update(self.proj(base, e), path[1:], v))
                    else:
                        fs.append(self.proj(base, pf(e.a[0], 0, i, a['variants'][0]['fields'][i][0])))
                return mk('agg', e.a[0], 0, *fs)
            return mk('upd', base, e, self.update(self.proj(base, e), path[1:], v))
        return mk('upd', base, e, v)

    # -------------------------------------------------------------- calls

    def call(self, fr, st, t, push, out):
        f = self.operand(fr, st, t['f'])
        args = [self.operand(fr, st, o) for o in t['a']]
        site = (fr.fn.id, fr.bb)
        fr.sp = t.get('sp')
        fr.argtys = [optype(fr, o) for o in t['a']]
        fr.retty = tsubst(t['d']['ty'], fr.env)
        for kind, ret, s in self.invoke(fr, st, f, args):
            if kind == 'return':
                if t.get('t') is not None:
                    self.rules.learned(fr, s)
                    self.write_place(fr, s, t['d'], ret)
                    push(t['t'], s)
            elif kind == 'unwind':
                u = t.get('u')
                if isinstance(u, int):
                    push(u, s)
                elif u == 'continue':
                    out('unwind', None, s)
                # terminate / unreachable: the process aborts

    def invoke(self, fr, st, f, args):
        """[(kind, ret, state)] of calling the function value f."""
        if f.op != 'fn':
            if f.op == 'agg' and type(f.a[0]) is tuple and f.a[0][0] == 'closure':
                return self.call_closure(fr, st, f, args, 'once')
            return self.models.opaque_call(self, fr, st, f, args)
        ref = f.a[2]
        subs = f.a[1]
        return self.call_fn(fr, st, ref, subs, args)

    def call_fn(self, fr, st, ref, subs, args):
        p = ref.p
        res = ref.res
        rp = res['p'] if res else None
        self.calls_seen.add((fr.fn.id, fr.bb))
        h = self.models.lookup(p, rp)
        if h is not None:
            f = self.polyfill(ref, subs) or self.conversion(ref, subs)
            if f is not None:
                self.rules.before_call(fr, st, f, args)
                self.cursite = (fr.fn.id, fr.bb, fr.idx)
                return [(e.kind, e.ret, e.st) for e in self.run(f, (), tuple(args), st)]
            return h(self, fr, st, ref, subs, args)
        d = res['d'] if res else ref.d
        rs = res['a'] if res else subs
        if res:
            # the substitution of the resolved callee is given in terms of the caller's parameters
            rs = tuple(tsubst(x, fr.env) for x in res['a'])
        fn = self.prog.fns.get(d)
        if fn is None or (res is None and ref.trait and fn.intrait):
            r = self.resolve_trait(ref, subs)
            if r is not None:
                fn, rs = r
        if fn is None and h is None:
            return self.models.unknown(self, fr, st, ref, subs, args)
        env = {}
        gl = fn.generics
        for n, a in zip(gl, rs):
            if keep_subst(a, fn):
                env[n] = a
        if fn.body.spread is not None and False:
            pass
        self.cursite = (fr.fn.id, fr.bb, fr.idx)
        r = self.rules.opaque(fr, st, fn, ref, args)
        if r is not None:
            return r
        self.rules.before_call(fr, st, fn, args)
        r = []
        for e in self.run(fn, tuple(sorted(env.items())), tuple(args), st):
            r.append((e.kind, e.ret, e.st))
        return r

    def polyfill(self, ref, subs):
        """The toolchain the crate is built with lacks the read-modify-write operations of AtomicPtr: there the trait of the crate is used."""
        if not ref.name.startswith('fetch_') or ref.name == 'fetch_update' or ref.trait or not subs or not ref.p.startswith('std::sync::atomic::'):
            return None
        for i in self.prog.impls:
            if i.get('trait') and i['self'][0] == 'adt' and i['self'][1] == 'std::sync::atomic::Atomic' and i['self'][2][0][0] == 'ptr':
                it = i['items'].get(ref.name)
                if it and it['d'] in self.prog.fns:
                    return self.prog.fns[it['d']]
        return None

    def conversion(self, ref, subs):
        """`into`, `from`: the conversion the crate itself defines between the two types, if there is one."""
        if ref.trait == 'std::convert::Into':
            t = [subs[1], subs[0]] if len(subs) > 1 else None
        elif ref.trait == 'std::convert::From':
            t = list(subs[:2]) if len(subs) > 1 else None
        else:
            return None
        return self.convert(*t) if t is not None else None

    def convert(self, *t):
        for i in self.prog.impls:
            if i.get('trait') == 'std::convert::From' and len(i.get('targs') or ()) == 2 and all(x[:2] == y[:2] for x, y in zip(i['targs'], t)):
                it = i['items'].get('from')
                if it and it['d'] in self.prog.fns:
                    return self.prog.fns[it['d']]
        return None

    def resolve_trait(self, ref, subs):
        """Resolve a trait method once the self type is known."""
        if not ref.trait or not subs:
            return None
        st = subs[0]
        while st[0] == 'ref':
            st = st[1]
        if st[0] != 'adt':
            return None
        for i in self.prog.impls:
            if i.get('trait') == ref.trait and i['self'][0] == 'adt' and i['self'][1] == st[1]:
                it = i['items'].get(ref.name)
                if it and it['d'] in self.prog.fns:
                    fn = self.prog.fns[it['d']]
                    return fn, ()
        return None

    def call_closure(self, fr, st, c, args, how, selfptr=None):
        """Call a closure value; args is the list of unpacked arguments."""
        _, d, env = c.a[0]
        fn = self.prog.fns.get(d)
        if fn is None:
            return self.models.opaque_call(self, fr, st, c, args)
        t = fn.body.locals[1] if fn.body.argc >= 1 else None
        s = st
        tmp = None
        if t and t[0] == 'ref':
            if selfptr is None:
                cell = tmp = self.fresh_cell(fr, st)
                s.cells[cell] = c
                selfptr = mk('ref', cell)
            a0 = selfptr
        else:
            a0 = c
        self.cursite = (fr.fn.id, fr.bb, fr.idx)
        r = []
        for e in self.run(fn, env, (a0,) + tuple(args), s):
            if selfptr is not None and t and t[0] == 'ref' and tmp is not None:
                e.st.cells.pop(tmp, None)
            r.append((e.kind, e.ret, e.st))
        return r

    def fresh_cell(self, fr, st):
        return mk('cell', ('l', 't%d_%d' % (fr.bb, fr.idx)))


RETC = mk('cell', ('l', 'ret'))
# evidence that keeps what it mentions alive
ROOTS = {'claimed'}
CLOSED = {'claimed', 'frz', 'mdone', 'cdone', 'chain', 'nextof', 'pmfor', 'at', 'full'}


def sameshape(a, b):
    return a.cells == b.cells and a.mem == b.mem and a.ghost == b.ghost


class FnRef:
    """Callee description; identity irrelevant to terms (compared by content)."""
    _pool = {}

    def __new__(cls, f):
        res = f.get('res')
        k = (f['d'], f['p'], f.get('trait'), f.get('name'), res['d'] if res else None, res['a'] if res and res.get('a') is not None else None,
             str(f.get('lay')))
        o = cls._pool.get(k)
        if o is None:
            o = object.__new__(cls)
            o.d, o.p, o.trait, o.name = f['d'], f['p'], f.get('trait'), f.get('name') or f['p'].split('::')[-1]
            o.res = res
            o.lay = f.get('lay')
            o.a = f.get('a')
            o.intrinsic = f.get('intrinsic')
            cls._pool[k] = o
        return o

    def __repr__(self):
        return self.p


class Frame:
    def __init__(self, fn, env):
        self.fn = fn
        self.env = env
        self.bb = 0
        self.idx = 0
        self.sp = None
        self.pre = 'l'
        self._c = {}

    def cell(self, i):
        c = self._c.get(i)
        if c is None:
            c = self._c[i] = mk('cell', (self.pre, i))
        return c

    def site(self):
        return '%s (%s)' % (self.fn.p, self.sp)


def keep_subst(t, fn):
    if not fn.local:
        return True
    return has_closure(t)


def has_closure(t):
    if t[0] in ('closure', 'fndef'):
        return True
    if t[0] == 'adt':
        return any(has_closure(x) for x in t[2])
    if t[0] in ('ref', 'ptr', 'slice', 'array'):
        return has_closure(t[1])
    if t[0] == 'tuple':
        return any(has_closure(x) for x in t[1])
    return False


def optype(fr, o):
    if o['k'] in ('copy', 'move'):
        return tsubst(o['pl']['ty'], fr.env)
    return tsubst(o['ty'], fr.env) if o.get('ty') else ('other',)


def width_mask(ty):
    if ty and ty[0] in ('uint', 'int'):
        n = ty[1]
        return {'u8': 0xff, 'i8': 0xff, 'u16': 0xffff, 'i16': 0xffff, 'u32': 0xffffffff, 'i32': 0xffffffff}.get(n, M64)
    if ty == ('bool',):
        return 1
    return M64


def as_bool(t):
    if isbool(t) or t.op == 'not':
        return t
    return bnot(eq(t, ZERO))
