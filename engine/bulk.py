"""Operations over all elements: collecting, extending, cloning, (de)serialising, formatting, comparing.

An element handed out by an iterator has to be put to its use before the next one is asked for, and the end has to be reached."""
from terms import *
from engine import *
from front import *
import engine
import front
import models

YES, NO = tag('yes'), tag('no')
# adapters that leave elements out
LEAVES_OUT = {'skip', 'filter', 'step_by', 'skip_while', 'take_while', 'filter_map', 'map_while', 'nth', 'last', 'find', 'find_map'}
ADAPT = {'map', 'copied', 'cloned', 'by_ref', 'enumerate', 'peekable', 'fuse', 'inspect', 'rev', 'into_iter', 'chain'}
EAT = {'entries': 'format', 'collect_map': 'serialise', 'collect_seq': 'serialise'}
EATONE = {'entry': 'format', 'serialize_entry': 'serialise', 'serialize_element': 'serialise', 'serialize_value': 'serialise', 'key': None, 'value': 'format'}


class Bulk(Front):
    def __init__(self, prog, job):
        super().__init__(prog)
        self.job = job
        self.bad = {}
        self.seen = set()

    def must(self, what, okay, fr, msg):
        k = '%s: %s' % (self.entry_fn.label, what)
        r = self.bad.setdefault(k, [0, 0, '', ''])
        r[0 if okay else 1] += 1
        if not okay and not r[2]:
            r[2], r[3] = msg, fr.site()

    def opaque(self, fr, st, fn, ref, args):
        if fn.p == 'raw::Iter::next':
            self.seen.add('iteration')
            return self.items(fr, st, args[0])
        if fn.p == 'raw::Iter::clone':
            return [('return', self.eng.read_loc(fr, st, self.eng.deref(fr, st, args[0])), st)]
        if ref.trait == 'std::iter::Iterator' and ref.name in LEAVES_OUT:
            self.must('no element is left out', False, fr, 'elements are left out by ' + ref.name)
        return super().opaque(fr, st, fn, ref, args)

    def items(self, fr, st, it):
        s2 = st.copy()
        v = self.eng.fresh(fr, st, 'sym', 'item')
        self.iter_item(fr, st, it, v)
        self.iter_end(fr, s2, it)
        return [('return', models.some(v), st), ('return', models.NONE, s2)]

    # ------------------------------------------------------------ elements

    def source(self, fr, st, it):
        return self.eng.read_loc(fr, st, self.eng.deref(fr, st, it))

    def iter_item(self, fr, st, it, v):
        self.handled(fr, st)
        st.ghost['pend'] = v

    def iter_end(self, fr, st, it):
        self.handled(fr, st)
        st.ghost['done'] = YES

    def handled(self, fr, st):
        p = st.ghost['pend']
        if p is NO:
            return
        if self.job == 'compare':
            okay = self.compared(st, p)
            self.must('every element is compared', okay, fr, 'goes on to the next element although the one before was not found equal in the other collection')
        else:
            self.must('every element is used', False, fr, 'goes on to the next element although the one before was not put to use')
        st.ghost['pend'] = NO

    def use(self, fr, st, what, terms_):
        """Something is done with an element."""
        p = st.ghost['pend']
        s = frozenset().union(*[x.syms for x in terms_]) if terms_ else frozenset()
        if p is NO:
            self.must('every element is used once', False, fr, 'an element is used again, or something that is not an element')
        else:
            self.must('every element is used once', p in s, fr, 'something else than the element handed out is used')
            st.ghost['pend'] = NO

    def user_method(self, fr, st, ref, a):
        if ref.name in ('next_entry', 'next_element', 'next_entry_seed', 'next_element_seed') and ref.trait.startswith('serde'):
            self.seen.add('iteration')
            s2, s3 = st.copy(), st.copy()
            v = self.eng.fresh(fr, st, 'sym', 'item')
            self.iter_item(fr, st, a[0], v)
            self.iter_end(fr, s2, a[0])
            s3.ghost['failed'] = YES
            return [('return', models.ok(models.some(v)), st), ('return', models.ok(models.NONE), s2),
                    ('return', models.err(self.eng.fresh(fr, s3, 'sym', 'err')), s3)]
        if ref.name in LEAVES_OUT and ref.trait == 'std::iter::Iterator':
            self.must('no element is left out', False, fr, 'elements are left out by ' + ref.name)
        if ref.name in ('next_key', 'next_value', 'fold', 'for_each', 'try_for_each', 'try_fold'):
            self.unknown_use = True
        if ref.name in EAT:
            self.seen.add('iteration')
            self.eat(fr, st, a)
        elif ref.name in EATONE and EATONE[ref.name]:
            self.use(fr, st, ref.name, a[1:])
        return None

    def external(self, fr, st, n, a):
        m = n.split('::')[-1]
        if n.startswith('std::fmt::Debug'):
            if m == 'entries':
                self.seen.add('iteration')
                self.eat(fr, st, a)
            elif m == 'entry':
                self.use(fr, st, m, a[1:])
        if n.startswith('std::iter::Iterator::') and m in LEAVES_OUT:
            self.must('no element is left out', False, fr, 'elements are left out by ' + m)
        return False

    def eat(self, fr, st, a):
        """A whole iterator is consumed by something else."""
        it = a[1]
        n = 0
        while it.op in ('ref', 'pl', 'cell') and n < 4:
            it = self.eng.read_loc(fr, st, self.eng.deref(fr, st, it))
            n += 1
        self.must('every element is used once', st.ghost['done'] is NO, fr, 'the elements are handed out a second time')
        st.ghost['done'] = YES
        st.ghost['ate'] = it

    # ------------------------------------------------------------ the collection

    def raw_call(self, fr, st, fn, args):
        v = self.eng.fresh(fr, st, 'sym', 'raw')
        n = fn.name
        if n == 'insert' or n in ('try_insert_with', 'get_or_insert_with', 'compute', 'update_or_insert_with', 'update'):
            self.seen.add('insert')
            ks = args[1:3]
            self.use(fr, st, n, [self.deep(st, x) for x in ks])
            root = set(args[0].syms)
            own = self.entry_args[0] in root
            if self.job in ('collect', 'clone'):
                self.must('the new collection is filled', not own, fr, 'elements are inserted into the collection they come from')
            elif self.job == 'extend':
                self.must('the collection is extended', own, fr, 'elements are inserted into another collection than the one to extend')
            if n == 'insert' and self.ismap:
                flags = [x for x, t in zip(args, fn.inputs) if t == ('bool',)]
                if len(flags) == 1:
                    self.must('a later element replaces an earlier one with the same key', flags[0] is ONE, fr, 'the first of several elements with the same key is kept')
        elif n == 'iter':
            st.facts[bapp('iterof', v, args[0])] = True
            st.ghost['it'] = args[0]
        elif n == 'get':
            st.facts[bapp('getof', v, args[0], args[1])] = True
        elif n == 'len':
            st.facts[bapp('lenof', v, args[0])] = True
        elif n == 'new':
            st.facts[bapp('made', v)] = True
            self.seen.add('new')
            if self.job == 'clone':
                h = [a for a, t in zip(args, fn.inputs) if t[0] == 'param']
                for x in h:
                    self.must('a copy hashes like the original', x.op == 'app' and x.a[0] == 'clone' and self.entry_args[0] in x.syms, fr,
                              'a clone does not use a clone of the hasher of the original')
        elif n in ('clear', 'retain', 'remove', 'remove_if'):
            self.must('nothing is taken out', False, fr, 'elements are removed')
        r = v
        if fn.output == ('bool',):
            r = bnot(eq(v, ZERO))
        elif fn.output == ('tuple', ()) or fn.output == ('unit',):
            r = UNIT
        return [('return', r, st)]

    def deep(self, st, t):
        """What a closure carries with it counts."""
        return t

    def learned(self, fr, st):
        if self.job == 'compare' and 'pend' in st.ghost:
            p = st.ghost['pend']
            if p is not NO and self.compared(st, p):
                st.ghost['pend'] = NO
            ls = {f.a[1]: f.a[2] for f, v in st.facts.items() if v and f.op == 'bapp' and f.a[0] == 'lenof'}
            for f, v in st.facts.items():
                if v and f.op == 'eq':
                    x = [y for y in f.syms if y in ls]
                    if len(x) == 2 and ls[x[0]] is not ls[x[1]]:
                        st.ghost['lens'] = YES

    def compared(self, st, p):
        for f, v in st.facts.items():
            if f.op == 'bapp' and f.a[0] == 'getof' and v and p in f.a[3].syms and f.a[2] is not st.ghost['it']:
                found = f.a[1]
                d = [as_eqc(g.a[0]) for g, w in st.facts.items() if g.op == 'eq' and w]
                if not any(x and x[0].op == 'discr' and x[0].a[0] is found and x[1] == 1 for x in d) and \
                        not any(g.op == 'eq' and not w and as_eqc(g.a[0]) and as_eqc(g.a[0])[0].op == 'discr' and as_eqc(g.a[0])[0].a[0] is found
                                and as_eqc(g.a[0])[1] == 0 for g, w in st.facts.items()):
                    continue
                if not self.ismap:
                    return True
                for g, w in st.facts.items():
                    if w and g.op == 'bapp' and g.a[0] == 'keq' and found in g.syms and p in g.syms:
                        return True
        return False

    # ------------------------------------------------------------ the end

    def ended(self, fn, e):
        st, ret = e.st, e.ret
        g = st.ghost
        fr = engine.Frame(fn, {})
        fr.sp = fn.sp
        job = self.job
        if job == 'compare':
            for s, v in self.outcomes(st, ret, ('bool',)):
                if v is ONE:
                    p = g['pend']
                    self.must('equal means that every element was compared', g['done'] is YES and (p is NO or self.compared(s, p)), fr,
                              'collections are reported as equal without every element having been found in the other')
                    self.must('equal means equal lengths', s.ghost['lens'] is YES, fr,
                              'collections are reported as equal without their lengths having been compared')
            return
        if g['failed'] is YES:
            if ret.op == 'agg' and ret.a[0] == 'std::result::Result':
                self.must('an error of the input is passed on', ret.a[1] == 1, fr, 'reports success although the input reported an error')
            return
        self.must('every element is used', g['pend'] is NO, fr, 'returns although the last element handed out was not put to use')
        self.must('the end is reached', g['done'] is YES, fr, 'returns before all elements were handed out')
        if g.get('ate') is not None and job in ('format', 'serialise'):
            it = g['ate']
            s = it.syms
            own = self.entry_args[0] in s or any(f.op == 'bapp' and f.a[0] == 'iterof' and v and f.a[1] in s and self.entry_args[0] in f.a[2].syms for f, v in st.facts.items())
            self.must('what is handed out are the elements', own, fr, 'something else than the elements of the collection is handed out')


def jobs(prog):
    r = []
    names = {'std::iter::FromIterator': ('from_iter', 'collect'), 'std::iter::Extend': ('extend', 'extend'), 'std::clone::Clone': ('clone', 'clone'),
             'std::cmp::PartialEq': ('eq', 'compare'), 'std::fmt::Debug': ('fmt', 'format')}
    both = OWNERS + tuple(x[1] for x in PAIRS)
    for im in prog.impls:
        t = im['self']
        while t[0] == 'ref':
            t = t[1]
        tr = im.get('trait') or ''
        if tr in names and t[0] == 'adt' and t[1] in both:
            n, job = names[tr]
        elif tr.startswith('serde') and tr.endswith('Serialize') and t[0] == 'adt' and t[1] in both:
            n, job = 'serialize', 'serialise'
        elif tr.startswith('serde') and tr.endswith('Visitor'):
            n = 'visit_map' if 'visit_map' in im['items'] else 'visit_seq'
            job = 'collect'
        else:
            continue
        it = im['items'].get(n)
        f = it and prog.fns.get(it['d'])
        if f is not None:
            r.append((f, job, t[1], tr))
    return r


def run(prog, f, job, owner):
    R = Bulk(prog, job)
    R.unknown_use = False
    R.ismap = 'map' in owner.lower() and 'set' not in owner.lower()
    E = engine.Engine(prog, R)
    E.wide = E.exact = True
    st = State()
    for k, v in (('op', tag('front')), ('unw', tag('no')), ('pend', NO), ('done', NO), ('failed', NO), ('lens', NO), ('it', NO)):
        st.ghost[k] = v
    args = tuple(mk('tagl', ('in', i)) for i in range(f.body.argc))
    R.entry_fn, R.entry_args = f, args
    ex = E.execute(f, {}, args, st)
    n = 0
    for e in ex:
        if e.kind == 'return':
            n += 1
            R.ended(f, e)
    return R, dict(E.unmodelled), n


def p29(prog):
    out = []
    for f, job, owner, tr in jobs(prog):
        f.label = '<%s as %s>::%s' % (owner, tr.split('::')[-1], f.name)
        try:
            R, u, n = run(prog, f, job, owner)
        except Exception as x:
            out.append((f.label + ': analysed', None, '%s: %s' % (type(x).__name__, x), site(f)))
            continue
        for k, v in sorted(R.bad.items()):
            und = [x for x in u if x not in KNOWN and not x.startswith('std::fmt::')]
            okay = not v[1]
            if v[1] and (und or R.unknown_use):
                okay = None
            out.append((k, okay, v[2] + (' [%s]' % und if und else ''), v[3]))
        if not R.bad:
            out.append((f.label + ': analysed', None, 'no element is seen %s' % sorted(u), site(f)))
    return out


KNOWN = {'std::hash::RandomState::new'} | {'serde::de::%sAccess::%s' % x for x in (
    ('Map', 'size_hint'), ('Map', 'next_entry'), ('Seq', 'size_hint'), ('Seq', 'next_element'))}

if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    P = mir.Program(sys.argv[1])
    for k, v, m, s_ in p29(P):
        print(v, k, m, s_)
