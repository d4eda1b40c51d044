"""The front ends: what every public method asks of the table, with what, and what it makes of the answer.

The methods of raw::HashMap are not entered here: a call of one is an event with its arguments and an answer nothing is known about.
"""
import re

from terms import *
from engine import *
from rules import *
import engine
import mir
import models
import terms

RAW = 'raw::HashMap::'
PAIRS = (('map::HashMap', 'map::HashMapRef'), ('set::HashSet', 'set::HashSetRef'))
CREATE = ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher', 'builder', 'pin', 'pin_owned', 'guard', 'owned_guard')


class Front(Rules):
    def __init__(self, prog):
        super().__init__(prog)
        self.names = {}

    def check(self, prop, key, okay, fr, msg=''):
        return okay

    def opaque(self, fr, st, fn, ref, args):
        if not fn.p.startswith(RAW) or fn.p.count('::') != 2 or fn.ckind:
            return None
        n = fn.name
        if n == 'verify':
            return [('return', args[1], st)]
        if n == 'drop':
            return [('return', UNIT, st)]
        if n in ('guard', 'owned_guard', 'collector', 'is_incremental', 'root'):
            return None
        return self.raw_call(fr, st, fn, args)

    def raw_call(self, fr, st, fn, args):
        v = self.eng.fresh(fr, st, 'sym', 'raw')
        s = []
        for a, t in zip(args, fn.inputs + [('other',)] * len(args)):
            s.append(self.summary(fr, st, a))
        st.ghost['tr'] = mk('tr', st.ghost['tr'], mk('tag', fn.name), v, *s)
        r = v
        if fn.output == ('bool',):
            r = bnot(eq(v, ZERO))
        elif fn.output == ('tuple', ()) or fn.output == ('unit',):
            r = UNIT
        a = self.prog.adts.get(fn.output[1]) if fn.output and fn.output[0] == 'adt' else None
        if a is not None and fn.output[1].startswith('raw::') and len(a['variants']) > 1:
            # one path for every answer there can be: replacing or failing is the caller's choice (P23, P26)
            no = 'Error' if TRUE in args else 'Replaced' if FALSE in args else None
            out = []
            for k, var in enumerate(a['variants']):
                s2 = st.copy()
                if var['name'] != no and assume(s2, eq(discr(v, fn.output[1]), I(terms.DISCR.get(fn.output[1], range(len(a['variants'])))[k])), True):
                    out.append(('return', mk('agg', fn.output[1], k, *[fld(v, k, i) for i in range(len(var['fields']))]), s2))
            return out
        return [('return', r, st)]

    def summary(self, fr, st, a, depth=0):
        """A closure is what it does."""
        if a.op == 'agg' and type(a.a[0]) is tuple and a.a[0][0] == 'closure' and depth < 3:
            fn = self.prog.fns.get(a.a[0][1])
            if fn is not None:
                s = st.copy()
                s.ghost['tr'] = NIL
                xs = [mk('sym', ('in', 'c%d.%d' % (depth, i))) for i in range(fn.body.argc - 1)]
                r = []
                for kind, ret, e in self.eng.call_closure(fr, s, a, xs, 'once'):
                    if kind == 'return':
                        r.append(mk('cp', e.ghost['tr'], UNIT if ret is None else ret, *[mk('cf', f, I(int(v))) for f, v in e.facts.items() if f.op == 'eq']))
                return mk('clo', fn.id, *(xs + r))
        return a

    def user_called(self, fr, st, what, f, args, v):
        if 'tr' in st.ghost:
            st.ghost['tr'] = mk('tr', st.ghost['tr'], mk('tag', 'user ' + what), v, f, *args)

    # ------------------------------------------------------------ paths in normal form

    def norm(self, st, ret, ty=None):
        """What happened on a path, and what came of it: one string for every outcome."""
        return self.normal(st.ghost['tr'], ret, st.facts, ty, self.names)

    def normal(self, tr, ret, facts, ty, names):
        ev = []
        while tr.op == 'tr':
            ev.append(tr)
            tr = tr.a[0]
        ev.reverse()
        m = dict(names)
        for i, e in enumerate(ev):
            m[e.a[2]] = mk('sym', ('in', 'R%d' % i))
        memo = {}
        out = []
        for e in ev:
            out.append('%s(%s)' % (e.a[1].a[0], ', '.join(self.text(subst(x, m, memo)) for x in e.a[3:])))
        r = []
        st = State()
        st.facts.update(facts)
        for s, v in self.outcomes(st, ret, ty):
            fs = []
            for f, w in s.facts.items():
                if f.op != 'eq':
                    continue
                e = as_eqc(f.a[0])
                if not w and e and e[0].op == 'discr':
                    if any(x and k.op == 'eq' and as_eqc(k.a[0]) and as_eqc(k.a[0])[0] is e[0] for k, x in s.facts.items()):
                        continue
                    ds = [x & M64 for x in terms.DISCR.get(e[0].a[1], ())]
                    if len(ds) == 2 and e[1] & M64 in ds:
                        f, w = eq(e[0], I(ds[1 - ds.index(e[1] & M64)])), True
                g = subst(f, m, memo)
                if g.op == 'not':
                    g, w = g.a[0], not w
                if g.op == 'eq' and g.syms & set(m.values()):
                    fs.append(('' if w else '!') + self.text(g))
            r.append('[%s] %s -> %s' % (' & '.join(sorted(set(fs))), '; '.join(out), self.text(subst(v, m, memo)) if v is not None else '()'))
        return r

    def text(self, t):
        t = self.eta(t)
        if t.op == 'clo':
            fn = self.prog.fns[t.a[0]]
            xs = [x for x in t.a[1:] if x.op != 'cp']
            r = set()
            for p in t.a[1:]:
                if p.op == 'cp':
                    r.update(self.normal(p.a[0], p.a[1], {x.a[0]: bool(x.a[1].a[0]) for x in p.a[2:]}, fn.output, {}))
            if len(r) == 1:
                x = re.fullmatch(r"\[\] user closure\((sym:\S+?\(\)|cell\S+)((?:, sym:in/c\d+\.\d+\(\))*)\) -> sym:in/R0\(\)", list(r)[0])
                if x and x.group(2) == ''.join(', ' + show(y) for y in xs):
                    # a closure that only passes on
                    return x.group(1)
            return 'closure{%s}' % ' | '.join(sorted(r))
        return re.sub(r',([A-Za-z_][\w:]*\.\w+)?\)', ')', show(t))

    def eta(self, t):
        if t.op == 'agg':
            a = [self.eta(x) if type(x) is T else x for x in t.a]
            if a[0] == 'tuple' and len(a) > 2 and all(x.op == 'fld' and x.a[0] is a[2].a[0] and x.a[1] == 0 and x.a[2] == i for i, x in enumerate(a[2:])):
                return a[2].a[0]
            return mk('agg', *a)
        return t

    def outcomes(self, st, v, ty):
        """An answer that is passed on is the answer taken apart and put together again."""
        if v is None:
            return [(st, v)]
        if isbool(v) and v.op != 'int':
            r = []
            for b in (0, 1):
                s = st.copy()
                if assume(s, v, bool(b)):
                    r.append((s, I(b)))
            return r
        if ty and ty[0] == 'adt' and ty[1] in ('std::option::Option', 'std::result::Result') and v.op != 'agg':
            r = []
            for k in (0, 1):
                s = st.copy()
                if assume(s, eq(discr(v, ty[1]), I(k)), True):
                    pay = ty[1].endswith('Result') or k == 1
                    r.append((s, mk('agg', ty[1], k, *([fld(v, k, 0)] if pay else []))))
            return r
        return [(st, v)]


NIL = mk('tag', 'nil')


def summarise(prog, fn, names=None):
    """The paths of a method as a set of strings, and what could not be modelled."""
    R = Front(prog)
    E = engine.Engine(prog, R)
    E.wide = E.exact = True
    st = State()
    st.ghost['op'] = tag('front')
    st.ghost['unw'] = tag('no')
    st.ghost['tr'] = NIL
    args = tuple(mk('sym', ('in', i)) for i in range(fn.body.argc))
    R.entry_fn, R.entry_args = fn, args
    R.names = names(R, args) if names else {}
    ex = E.execute(fn, {}, args, st)
    r = set()
    for e in ex:
        if e.kind == 'return':
            r.update(R.norm(e.st, e.ret, fn.output))
    return r, dict(E.unmodelled)


def site(f):
    return '%s (%s)' % (f.p, f.sp)


def pairs(prog):
    """The methods an owner and its pinned view have in common."""
    r = []
    for own, ref in PAIRS:
        for p, l in sorted(prog.bypath.items()):
            if p.startswith(ref + '::') and p.count('::') == 2:
                f = l[0]
                g = prog.fn(own + '::' + f.name)
                if g is not None and not f.ckind and not f.trait and f.pub and g.pub:
                    r.append((own, ref, g, f))
    return r


def view_names(prog, ref):
    """In a view: the owner it borrows and the guard it holds."""
    own = dict((b, a) for a, b in PAIRS)[ref]
    fs = prog.adts[ref]['variants'][0]['fields']
    m = [f[0] for f in fs if f[1][0] == 'ref' and f[1][1][0] == 'adt' and f[1][1][1] == own]
    g = [f[0] for f in fs if f[0] not in m]

    def names(R, a):
        d = {}
        for x in m:
            d[mk('mem', a[0], R.field(ref, x))] = SELF
        for x in g:
            d[mk('pl', a[0], R.field(ref, x))] = GUARD
        return d
    return names


SELF = mk('sym', ('in', 'SELF'))
GUARD = mk('sym', ('in', 'GUARD'))


def owner_names(n, view):
    def names(R, a):
        d = {a[0]: SELF}
        if n == view + 1:
            d[a[-1]] = GUARD
        return d
    return names


def ops(paths):
    return {re.sub(r'\(.*', '', '; '.join(re.findall(r'(?:^|; |\] )((?:user )?\w+)\(', p.split(' -> ')[0]))) for p in paths}


def quietly(f, *a):
    try:
        return f(*a)
    except Exception as x:
        return None, {'error': '%s: %s' % (type(x).__name__, x)}


def p27(prog):
    out = []
    for own, ref, g, f in pairs(prog):
        a, u = quietly(summarise, prog, g, owner_names(g.body.argc, f.body.argc))
        b, w = quietly(summarise, prog, f, view_names(prog, ref))
        key = '%s::%s: agrees with the method of the same name of %s' % (ref, f.name, own)
        if a is None or b is None or u or w:
            out.append((key, None, 'not modelled: %s' % sorted(set(u) | set(w)), site(f)))
            continue
        if a != b and rawops(a) != rawops(b):
            out.append((key, None, 'another operation of the table is used: %s / %s' % (sorted(rawops(a)), sorted(rawops(b))), site(f)))
            continue
        d = sorted(b - a) + sorted(a - b)
        out.append((key, a == b, 'does something else than %s: %s' % (g.p, ' <> '.join(x[:160] for x in d[:2])), site(f)))
        # what the caller passes is passed on
        for who, h, ps in ((own, g, a), (ref, f, b)):
            n = h.body.argc
            for i in range(1, n - (1 if h is g and g.body.argc == f.body.argc + 1 else 0)):
                t = show(mk('sym', ('in', i)))
                out.append(('%s: every argument is passed on' % h.p, any(t in p for p in ps), 'argument %d is not used' % i, site(h)))
    for own, ref in PAIRS:
        # the iterator of a reference to a view is the iterator of the view
        for im in prog.impls:
            if im.get('trait') == 'std::iter::IntoIterator' and im['self'][0] == 'ref' and im['self'][1][:2] == ('adt', ref):
                f = prog.fns.get(im['items']['into_iter']['d'])
                g = prog.fn(ref + '::iter')
                if f is None or g is None:
                    continue
                a, u = quietly(summarise, prog, g, None)
                b, w = quietly(summarise, prog, f, None)
                if a is None or b is None or u or w:
                    continue
                out.append(('%s: iterating over a view is its iter method' % ref, a == b, 'iterates over something else', site(f)))
        # the owner a view hands out
        for p, l in sorted(prog.bypath.items()):
            f = l[0]
            if p.startswith(ref + '::') and f.pub and f.body.argc == 1 and f.output and f.output[0] == 'ref' and f.output[1][:2] == ('adt', own):
                a, u = quietly(summarise, prog, f, view_names(prog, ref))
                if a and not u:
                    out.append(('%s: hands out the owner it borrows' % p, a == {'[]  -> sym:in/SELF()'}, 'hands out something else: %s' % sorted(a)[:1], site(f)))
        # views and guards are made for their own owner
    return out


def rawops(ps):
    return {tuple(re.findall(r'(?:\] |; )(\w+)\(', p.split(' -> ')[0])) for p in ps}


# ------------------------------------------------------------------ construction

def paths(prog, fn):
    """[(trace, answer, state)] of the normal exits of a method, and what could not be modelled."""
    R = Front(prog)
    E = engine.Engine(prog, R)
    E.wide = E.exact = True
    st = State()
    st.ghost['op'] = tag('front')
    st.ghost['unw'] = tag('no')
    st.ghost['tr'] = NIL
    args = tuple(mk('sym', ('in', i)) for i in range(fn.body.argc))
    R.entry_fn, R.entry_args = fn, args
    r = []
    for e in E.execute(fn, {}, args, st):
        if e.kind == 'return':
            ev = []
            t = e.st.ghost['tr']
            while t.op == 'tr':
                ev.append((t.a[1].a[0], t.a[2], t.a[3:]))
                t = t.a[0]
            r.append((ev[::-1], e.ret, e.st))
    return r, dict(E.unmodelled)


def parts(t):
    yield t
    for x in t.a:
        if type(x) is T:
            yield from parts(x)


def isadt(t, *names):
    return t is not None and t[0] == 'adt' and t[1] in names


BUILDERS = ('map::HashMapBuilder', 'set::HashSetBuilder')
OWNERS = ('map::HashMap', 'set::HashSet')


def kind(t):
    return 'capacity' if t[0] == 'uint' else 'hasher' if t[0] == 'param' else t[1].split('::')[-1] if t[0] == 'adt' else '?'


def p28(prog):
    out = []
    new = prog.fn('raw::HashMap::new')
    modes = {}
    for p, l in sorted(prog.bypath.items()):
        for f in l:
            if not f.local or f.ckind or not f.output or f.output[0] != 'adt' or f.body.argc > 4 or f.trait in BULK:
                continue
            b = f.output[1]
            if b in BUILDERS:
                if f.inputs and not isadt(f.inputs[0], b):
                    continue
                ps, u = quietly(paths, prog, f)
                if not ps or u.get('error'):
                    continue
                fs = prog.adts[b]['variants'][0]['fields']
                for ev, ret, st in ps:
                    if ret.op != 'agg':
                        continue
                    hit = []
                    for i, fd in enumerate(fs):
                        if isadt(fd[1], 'std::marker::PhantomData'):
                            continue
                        v = ret.a[2 + i]
                        if not f.inputs:
                            if fd[1][0] == 'uint':
                                out.append(('%s: a new builder asks for no capacity' % p, v is ZERO, 'a builder starts with a capacity of %s' % show(v), site(f)))
                            if isadt(fd[1], 'map::ResizeMode'):
                                modes[show(v)] = f
                            continue
                        if f.body.argc == 2 and v is mk('sym', ('in', 1)):
                            hit.append(fd[0])
                            continue
                        same = v.op == 'fld' and v.a[0] is mk('sym', ('in', 0)) and v.a[2] == i
                        if same or v.op in ('sym', 'int', 'agg', 'fld'):
                            if f.body.argc == 2 and not same and mk('sym', ('in', 1)) in v.syms:
                                hit.append(fd[0])
                                continue
                            out.append(('%s: the %s given before is kept' % (p, fd[0]), same, 'the %s given to the builder earlier is lost' % fd[0], site(f)))
                    if f.inputs and f.body.argc == 2:
                        out.append(('%s: the setting is stored' % p, len(hit) == 1, 'the value given to the builder is stored in %s' % (hit or 'no field'), site(f)))
            elif b in OWNERS:
                if f.inputs and isadt(f.inputs[0], *BUILDERS):
                    frombuilder = True
                elif all(t[0] in ('uint', 'param') for t in f.inputs) and len(f.inputs) <= 2:
                    frombuilder = False
                else:
                    continue
                ps, u = quietly(paths, prog, f)
                if not ps or u.get('error'):
                    continue
                for ev, ret, st in ps:
                    ns = [e for e in ev if e[0] == 'new']
                    if len(ns) != 1:
                        continue
                    ks = {kind(t): a for t, a in zip(new.inputs, ns[0][2])}
                    if frombuilder:
                        bt = prog.adts[f.inputs[0][1]]['variants'][0]['fields']
                        for i, fd in enumerate(bt):
                            k = kind(fd[1])
                            if k in ks:
                                v = ks[k]
                                xs = [x for x in parts(v) if x.op == 'fld' and x.a[0] is mk('sym', ('in', 0)) and x.a[2] == i]
                                okay = any(k != 'capacity' or v is x or decide(st, lt(v, x)) is False for x in xs)
                                out.append(('%s: the %s of the builder is used' % (p, fd[0]), okay,
                                            'the collection is not created with the %s given to the builder' % fd[0], site(f)))
                        continue
                    for i, t in enumerate(f.inputs):
                        x, v = mk('sym', ('in', i)), ks.get(kind(t), ZERO)
                        okay = x in v.syms and (t[0] != 'uint' or v is x or decide(st, lt(v, x)) is False)
                        out.append(('%s: the %s asked for is used' % (p, kind(t)), okay, 'the collection is not created with the %s given' % kind(t), site(f)))
                    if not any(t[0] == 'uint' for t in f.inputs) and ks.get('capacity') is not None:
                        out.append(('%s: no capacity is taken when none is asked for' % p, ks['capacity'] is ZERO,
                                    'a collection is created with a capacity of %s' % show(ks['capacity']), site(f)))
                    if 'ResizeMode' in ks:
                        modes[show(ks['ResizeMode'])] = f
    if modes:
        out.append(('one default resize mode', len(modes) == 1, 'constructors disagree on the default resize mode: ' +
                    ', '.join('%s in %s' % (k, f.p) for k, f in sorted(modes.items())), site(list(modes.values())[0])))
    # what a map was configured with is never replaced
    keep = [f[0] for f in prog.adts[RM]['variants'][0]['fields'] if kind(f[1]) in ('capacity', 'hasher', 'Collector', 'ResizeMode')]
    for f in prog.fns.values():
        if not f.local:
            continue
        for b in f.body.blocks:
            for s in b['s']:
                if s['k'] != '=':
                    continue
                w = [s['pl']]
                if s['rv']['k'] in ('ref', 'rawptr') and s['rv'].get('m'):
                    w.append(s['rv']['pl'])
                for pl in w:
                    for x in pl['p']:
                        if x[0] == 'f' and len(x) > 3 and x[3] == RM and x[2] in keep:
                            out.append(('%s: what a map was configured with is kept' % f.p, False, 'the %s of a map is assigned or lent for writing' % x[2], '%s (%s)' % (f.p, s.get('sp'))))
    out.append(('what a map was configured with is kept', True, '', ''))
    return out


BULK = ('std::iter::FromIterator', 'std::iter::Extend', 'std::convert::From', 'std::clone::Clone')


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    P = mir.Program(sys.argv[1])
    if len(sys.argv) > 2 and sys.argv[2] in globals():
        for k, v, m, s_ in globals()[sys.argv[2]](P):
            if v is not True or len(sys.argv) > 3:
                print(v, k, m, s_)
    elif len(sys.argv) > 2:
        for p in sys.argv[2:]:
            for f in P.bypath[p]:
                a, u = summarise(P, f)
                print(p, f.sp, u)
                for x in sorted(a):
                    print('   ', x[:400])
