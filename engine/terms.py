"""Interned terms: the value domain of the dataflow analysis.

A term denotes the value of an expression on every execution that reaches a
program point in the abstract state it occurs in.  Leaves carry an identity
(their first argument) and are existentially scoped by the state.
"""

M64 = (1 << 64) - 1
LEAF = {'sym', 'new', 'lockg', 'cell', 'tagl'}


class T:
    __slots__ = ('op', 'a', 'n', 'syms')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
_EMPTY = frozenset()


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    _n[0] += 1
    t.n = _n[0]
    s = None
    for x in a:
        if type(x) is T and x.syms:
            s = x.syms if s is None else (s | x.syms if x.syms is not s else s)
    s = s or _EMPTY
    if op in LEAF:
        s = s | {t}
    t.syms = s
    _tab[k] = t
    return t


def I(v):
    return mk('int', v)


ZERO = I(0)
ONE = I(1)
TRUE = ONE
FALSE = ZERO
UNINIT = mk('uninit')
UNIT = mk('agg', 'tuple', 0)


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


# ---------------------------------------------------------------- linear sums

def lin_parts(t):
    """(const, {term: coef})"""
    if t.op == 'int':
        return s64(t.a[0]), {}
    if t.op == 'lin':
        it = iter(t.a[1:])
        return t.a[0], dict(zip(it, it))
    return 0, {t: 1}


def lin_make(c, d):
    c = s64(c)
    items = [(t, s64(k)) for t, k in d.items() if s64(k) != 0]
    if not items:
        return I(c & M64)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].n)
    flat = []
    for t, k in items:
        flat.append(t)
        flat.append(k)
    return mk('lin', c, *flat)


_lam = {}


def lin_add(a, b, kb=1):
    r = _lam.get((a, b, kb))
    if r is None:
        r = _lam[(a, b, kb)] = _lin_add(a, b, kb)
    return r


def _lin_add(a, b, kb):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return lin_make(ca + kb * cb, d)


def add(a, b):
    if a.op == 'int' and b.op == 'int':
        return I((a.a[0] + b.a[0]) & M64)
    return lin_add(a, b)


def sub(a, b):
    if a is b:
        return ZERO
    return lin_add(a, b, -1)


def scale(a, k):
    c, d = lin_parts(a)
    return lin_make(c * k, {t: v * k for t, v in d.items()})


def mul(a, b):
    if a.op == 'int':
        a, b = b, a
    if b.op == 'int':
        return scale(a, s64(b.a[0]))
    if a.n > b.n:
        a, b = b, a
    return mk('mul', a, b)


# ---------------------------------------------------------------- bits

ALIGN = {}   # kind of 'new' leaf -> guaranteed number of low zero bits mask


def low_zero(t):
    """Mask of low bits known to be zero."""
    if t.op == 'int':
        v = t.a[0]
        if v == 0:
            return M64
        return (v & -v) - 1
    if t.op == 'new':
        return ALIGN.get(t.a[1], 0)
    if t.op == 'and':
        r = 0
        if t.a[1].op == 'int':
            m = ~t.a[1].a[0] & M64
            r = m & ~(m + 1) if m & 1 else 0
            # trailing ones of m
            k = 0
            while (m >> k) & 1:
                k += 1
            r = (1 << k) - 1
        return r | low_zero(t.a[0])
    if t.op == 'or':
        return low_zero(t.a[0]) & low_zero(t.a[1])
    return 0


def zero_mask(t):
    """Bits known to be zero (not only the low ones)."""
    if t.op == 'int':
        return ~t.a[0] & M64
    if t.op == 'new':
        return ALIGN.get(t.a[1], 0)
    if t.op == 'and':
        r = zero_mask(t.a[0])
        if t.a[1].op == 'int':
            r |= ~t.a[1].a[0] & M64
        else:
            r |= zero_mask(t.a[1])
        return r
    if t.op == 'or':
        return zero_mask(t.a[0]) & zero_mask(t.a[1])
    if t.op == 'shr' and t.a[1].op == 'int':
        k = t.a[1].a[0]
        return ~(M64 >> k) & M64 if 0 <= k < 64 else 0
    if t.op in ('eq', 'lt', 'not'):
        return M64 & ~1
    return 0


def band(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] & b.a[0])
    if a.op == 'int':
        a, b = b, a
    if a is b:
        return a
    if b.op == 'int':
        m = b.a[0]
        if m == 0:
            return ZERO
        z = zero_mask(a)
        if (m | z) == M64:
            return a
        if (m & ~z & M64) == 0:
            return ZERO
        if a.op == 'and' and a.a[1].op == 'int':
            return band(a.a[0], I(a.a[1].a[0] & m))
        if a.op == 'or' and a.a[1].op == 'int':
            c = a.a[1].a[0]
            return bor(band(a.a[0], I(m & ~c & M64)), I(c & m))
        return mk('and', a, b)
    if a.op == 'and' and (a.a[0] is b or a.a[1] is b):
        return a
    if a.n > b.n:
        a, b = b, a
    return mk('and', a, b)


def bor(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] | b.a[0])
    if a.op == 'int':
        a, b = b, a
    if a is b:
        return a
    if b.op == 'int':
        c = b.a[0]
        if c == 0:
            return a
        if a.op == 'or' and a.a[1].op == 'int':
            return bor(a.a[0], I(a.a[1].a[0] | c))
        if a.op == 'and' and a.a[1].op == 'int' and (a.a[1].a[0] & c):
            return bor(band(a.a[0], I(a.a[1].a[0] & ~c & M64)), b)
        if c == M64:
            return b
        return mk('or', a, b)
    if a.n > b.n:
        a, b = b, a
    return mk('or', a, b)


# ---------------------------------------------------------------- booleans

BOOLOPS = ('eq', 'lt', 'not', 'bapp')


def isbool(t):
    return t.op in BOOLOPS or (t.op == 'int' and t.a[0] in (0, 1))


def bnot(t):
    if t.op == 'int':
        return FALSE if t.a[0] else TRUE
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


_eqm = {}


def eq(a, b):
    if a is b:
        return TRUE
    r = _eqm.get((a, b))
    if r is None:
        r = _eqm[(a, b)] = _eq(a, b)
    return r


def _eq(a, b):
    if a.op == 'int' and b.op == 'int':
        return TRUE if a.a[0] == b.a[0] else FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == 'int' and x.op in ('eq', 'lt', 'not', 'bapp'):
            if y.a[0] == 0:
                return bnot(x)
            if y.a[0] == 1:
                return x
            return FALSE
        # known-nonnull things
        if y.op == 'int' and y.a[0] == 0 and (x.op in ('ref', 'fn', 'box') or x.op == 'pl' or x.op == 'new' and x.a[1] != 'raw'):
            return FALSE
        if y.op == 'int' and x.op == 'and' and x.a[1].op == 'int' and (y.a[0] & ~x.a[1].a[0] & M64):
            return FALSE
        if y.op == 'int' and x.op == 'or' and x.a[1].op == 'int' and (x.a[1].a[0] & ~y.a[0] & M64):
            return FALSE
        if y.op == 'int' and y.a[0] == 0 and x.op == 'or':
            return FALSE
    d = sub(a, b)
    if d.op == 'int':
        return TRUE if d.a[0] == 0 else FALSE
    if d.op == 'lin':
        if d.a[2] < 0:
            d = scale(d, -1)
        # two distinct allocations / an allocation and null never compare equal
    return mk('eq', d)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'int' and b.op == 'int':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if b.op == 'int' and b.a[0] == 0:
        return FALSE
    if b.op == 'int' and b.a[0] == 1:
        return eq(a, ZERO)
    if a.op == 'int' and a.a[0] == 0:
        return bnot(eq(b, ZERO))
    return mk('lt', a, b)


def slt(a, b):
    """a < b for signed operands."""
    if a is b:
        return FALSE
    if a.op == 'int' and b.op == 'int':
        return TRUE if s64(a.a[0]) < s64(b.a[0]) else FALSE
    return mk('bapp', 'slt', a, b)


# ---------------------------------------------------------------- substitution

def rebuild(t, a):
    op = t.op
    if op == 'lin':
        c = a[0]
        r = I(c & M64)
        it = iter(a[1:])
        for x, k in zip(it, it):
            r = lin_add(r, x, k)
        return r
    if op == 'and':
        return band(a[0], a[1])
    if op == 'or':
        return bor(a[0], a[1])
    if op == 'eq':
        return eq(a[0], ZERO)
    if op == 'lt':
        return lt(a[0], a[1])
    if op == 'not':
        return bnot(a[0])
    if op == 'mul':
        return mul(a[0], a[1])
    if op == 'fld':
        return fld(*a)
    if op == 'discr':
        return discr(*a)
    if op == 'pl':
        return mkpl(a[0], a[1:])
    return mk(op, *a)


def subst(t, m, memo):
    """Replace leaves according to m (dict leaf -> term)."""
    if not t.syms:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        ch = False
        na = []
        for x in t.a:
            if type(x) is T and x.syms:
                y = subst(x, m, memo)
                ch = ch or (y is not x)
                na.append(y)
            else:
                na.append(x)
        r = rebuild(t, na) if ch else t
    memo[t] = r
    return r


# ---------------------------------------------------------------- aggregates

def agg(name, variant, *fs):
    return mk('agg', name, variant, *fs)


DISCR = {}      # adt name -> list of discriminant values per variant


def discr(x, name=None):
    if x.op == 'agg':
        d = DISCR.get(x.a[0])
        return I(d[x.a[1]] if d else x.a[1])
    if x.op == 'int' or isbool(x):
        return x        # a value of an enum without fields, by its bits
    return mk('discr', x, name)


def fld(x, variant, idx, name=''):
    if x.op == 'agg' and x.a[1] == variant and len(x.a) > 2 + idx:
        return x.a[2 + idx]
    if x.op == 'uninit':
        return UNINIT
    if x.op == 'box' and idx == 0:
        return x.a[0]
    if x.op == 'mem':
        return mk('mem', x.a[0], *(x.a[1:] + (mk('pf', name[0] if type(name) is tuple else '', variant, idx, name[1] if type(name) is tuple else name),)))
    return mk('fld', x, variant, idx, name)


def mkpl(p, path):
    path = tuple(path)
    if p.op == 'pl':
        return mkpl(p.a[0], p.a[1:] + path)
    if p.op == 'ref':
        return mk('ref', *(p.a + path))
    if not path:
        return p
    return mk('pl', p, *path)


# ---------------------------------------------------------------- printing

SHORT = None


def show(t, d=0):
    if type(t) is not T:
        if isinstance(t, tuple):
            return '.'.join(str(show(x)) for x in t)
        return str(t)
    if d > 8:
        return '..'
    op, a = t.op, t.a
    if op == 'int':
        v = a[0]
        return str(v if v < 1 << 63 else s64(v))
    if op == 'lin':
        s = [] if a[0] == 0 else [str(a[0])]
        it = iter(a[1:])
        for x, k in zip(it, it):
            s.append((show(x, d + 1) if k == 1 else '%d*%s' % (k, show(x, d + 1))))
        return '(' + '+'.join(s) + ')'
    if op == 'pf':
        return '.' + str(a[3])
    if op == 'pi':
        return '[' + show(a[0], d + 1) + ']'
    if op in LEAF and SHORT is not None:
        n = SHORT.get(t)
        if n is None:
            n = SHORT[t] = '%s%d' % (op, len(SHORT))
        return n
    if op in LEAF:
        nm = a[0]
        return '%s:%s(%s)' % (op, '/'.join(str(show(x)) for x in nm) if isinstance(nm, tuple) else nm,
                              ','.join(show(x, d + 1) for x in a[1:]))
    if op == 'agg':
        return '%s#%d{%s}' % (a[0].split('::')[-1] if isinstance(a[0], str) else a[0], a[1], ','.join(show(x, d + 1) for x in a[2:]))
    return '%s(%s)' % (op, ','.join(str(show(x, d + 1)) for x in a))
