"""The helpers of the table: the deferred list, the parker and the length counter, each on its own.

The rest of the analysis relies on what is decided here: push and drain hand every entry out once, a waiter that is registered is
woken, and the sum covers every shard.
"""
from terms import *
from engine import *
from rules import *
import os
import engine
import mir
import models

NO, YES = tag('no'), tag('yes')

UT = 'raw::utils::'
HM = ('std::collections::HashMap', 'std::collections::hash::map::HashMap')


class Util(Rules):
    """One body, every path, loops to a fixpoint."""
    prop = ''
    ghosts = ()

    def __init__(self, prog):
        super().__init__(prog)
        self.bad = {}
        self.lost = None

    def check(self, prop, key, okay, fr, msg=''):
        return okay

    def must(self, what, okay, fr, msg):
        e = self.bad.setdefault('%s: %s' % (self.entry_fn.p, what), [0, 0, '', ''])
        e[0 if okay else 1] += 1
        if not okay and not e[2]:
            e[2], e[3] = msg, fr.site()

    def give_up(self, why):
        self.lost = self.lost or why

    def g(self, st, n, v=None):
        if v is not None:
            st.ghost[n] = v
        return st.ghost.get(n, NO)

    def start(self, st, args):
        pass

    def ended(self, fr, st, ret):
        pass

    def deep(self, st, x, n=4):
        """The value behind references."""
        fr = self.eng.curfr
        while n and x.op in ('ref', 'pl', 'cell'):
            y = self.eng.read_loc(fr, st, self.eng.deref(fr, st, x))
            if y is x:
                break
            x = y
            n -= 1
        return x


# ---------------------------------------------------------------- the deferred list

class Push(Util):
    prop = 'P32'
    ghosts = ('on',)

    def is_head(self, a):
        return a.op in ('pl', 'ref') and a.a[0] is self.entry_args[0] and len(a.a) == 2

    def load(self, fr, st, addr, o, guard):
        return self.eng.fresh(fr, st, 'sym', 'ld')

    def put(self, fr, st, new, old):
        self.must('an element is put on the list once', self.g(st, 'on') is NO, fr, 'an element can be put on the list twice')
        v = self.value(st, new)
        self.must('what is put on the list is the element', v, fr, 'what is put on the list is not a new node holding the element')
        self.g(st, 'on', mk('agg', 'on', 0, new, old))

    def value(self, st, n):
        return n.op == 'new' and any(x[0] is n and self.holds(v) for x, v in st.mem.items())

    def holds(self, v):
        if v.op == 'agg':
            return any(self.holds(x) for x in v.a[2:] if type(x) is T)
        return v is self.entry_args[1]

    def cas(self, fr, st, addr, exp, new, so, fo, guard, weak):
        s2 = st.copy()
        v = self.eng.fresh(fr, s2, 'sym', 'casf')
        if self.is_head(addr):
            self.put(fr, st, new, exp)
        else:
            self.give_up('exchange on ' + show(addr))
        return [('return', ok(exp), st), ('return', err(v), s2)]

    def rmw(self, fr, st, kind, addr, v, o):
        r = self.eng.fresh(fr, st, 'sym', 'rmw')
        if self.is_head(addr) and kind == 'swap':
            self.put(fr, st, v, r)
        else:
            self.give_up(kind + ' on ' + show(addr))
        return r

    def store(self, fr, st, addr, v, o):
        self.must('the list is changed by exchanges', not self.is_head(addr), fr, 'the head of the list is overwritten: an element added by another thread at the same time is lost')

    def opaque_update(self, fr, st, addr):
        self.give_up('fetch_update')

    def free(self, fr, st, p, ty):
        self.must('a node stays allocated', False, fr, 'the node is freed')

    def ended(self, fr, st, ret):
        on = self.g(st, 'on')
        self.must('every element reaches the list', on is not NO, fr, 'push can return without the element having been added')
        if on is not NO:
            n, old = on.a[2:]
            nexts = [v for (b, p), v in st.mem.items() if b is n and len(p) == 1 and p[0].op == 'pf' and p[0] is not models.OWN]
            nexts += [x for (b, p), v in st.mem.items() if b is n and not p and v.op == 'agg' for x in v.a[2:]]
            self.must('a node is linked to the rest of the list', any(x is old for x in nexts) or any(decide(st, eq(x, old)) is True for x in nexts if x.op != 'agg'), fr,
                      'the node that was put at the head of the list does not point to the node that was there before: the rest of the list is lost')


class Drain(Util):
    prop = 'P32'
    ghosts = ('cur', 'given', 'freed')

    def start(self, st, args):
        p = [f for f in self.prog.adts[UT + 'stack::Node']['variants'][0]['fields']]
        self.p_next = self.p_val = None
        for i, f in enumerate(p):
            if f[1][0] == 'ptr' or f[1][0] == 'adt' and ('Atomic' in f[1][1] or 'Option' in f[1][1]):
                self.p_next = pf(UT + 'stack::Node', 0, i, f[0])
            else:
                self.p_val = pf(UT + 'stack::Node', 0, i, f[0])
        i, f = 0, self.prog.adts[UT + 'stack::Stack']['variants'][0]['fields'][0]
        self.g(st, 'cur', mk('mem', args[0], pf(UT + 'stack::Stack', 0, 0, f[0])))

    def rd(self, c, p):
        return mk('mem', c, p)

    def load(self, fr, st, addr, o, guard):
        # nobody else has the list
        return self.eng.read_loc(fr, st, self.eng.deref(fr, st, addr))

    def user_called(self, fr, st, what, f, args, v):
        c = self.g(st, 'cur')
        x = args[0] if args else NO
        self.must('every node is handed out in turn', x is self.rd(c, self.p_val) and decide(st, eq(c, ZERO)) is False, fr,
                  'something else than the element of the next node is handed out: ' + show(x))
        self.must('an element is handed out once', self.g(st, 'given') is NO, fr, 'an element is handed out twice')
        self.g(st, 'given', YES)
        self.move(st)

    def free(self, fr, st, p, ty):
        c = self.g(st, 'cur')
        self.must('every node is freed in turn', p is c, fr, 'something else than the next node is freed')
        self.must('a node is freed once', self.g(st, 'freed') is NO, fr, 'a node is freed twice')
        self.g(st, 'freed', YES)
        self.move(st)

    def move(self, st):
        if self.g(st, 'given') is YES and self.g(st, 'freed') is YES:
            self.g(st, 'cur', self.rd(self.g(st, 'cur'), self.p_next))
            self.g(st, 'given', NO)
            self.g(st, 'freed', NO)

    def ended(self, fr, st, ret):
        self.must('the whole list is handed out', decide(st, eq(self.g(st, 'cur'), ZERO)) is True and self.g(st, 'given') is NO and self.g(st, 'freed') is NO, fr,
                  'drain can return before every element was handed out and its node freed')


# ---------------------------------------------------------------- the parker

class ParkerRules(Util):
    prop = 'P13'

    def pending(self, a):
        return a.op in ('pl', 'ref') and a.a[0] is self.entry_args[0]

    def outer(self, subs):
        return len(subs) > 1 and subs[1][0] == 'adt' and subs[1][1] in HM

    def ismap(self, n):
        return n.startswith(('std::collections::HashMap::', 'std::collections::hash_map::'))

    def key(self, st, x):
        return self.deep(st, x)

    def lock(self, fr, st, a, blocking):
        self.g(st, 'lk', YES)

    def unlock(self, fr, st, g):
        self.g(st, 'lk', NO)

    def locked(self, fr, st):
        self.must('waiters are registered under the lock', self.g(st, 'lk') is YES, fr, 'the registered waiters are accessed without the lock')

    def keyed(self, fr, st, k):
        self.must('waiters are registered under the word they wait for', self.entry_args[1] is k or self.entry_args[1] in k.syms, fr,
                  'the key does not depend on the word')
        self.keys.add(show(k))

    def __init__(self, prog):
        super().__init__(prog)
        self.keys = set()

    def rmw(self, fr, st, kind, addr, v, o):
        if not self.pending(addr) or kind not in ('fetch_add', 'fetch_sub'):
            self.give_up(kind + ' on ' + show(addr))
        else:
            getattr(self, kind)(fr, st, v, o)
        return self.eng.fresh(fr, st, 'sym', 'rmw')

    def store(self, fr, st, addr, v, o):
        self.must('the number of waiters is counted', not self.pending(addr), fr, 'the number of waiters is overwritten')

    def fetch_add(self, fr, st, v, o):
        self.give_up('fetch_add')

    fetch_sub = fetch_add

    def opaque_update(self, fr, st, addr):
        self.give_up('fetch_update')

    def cas(self, fr, st, addr, exp, new, so, fo, guard, weak):
        self.give_up('exchange')
        return super().cas(fr, st, addr, exp, new, so, fo, guard, weak)

    def both(self, st, v, yes, no):
        """An option whose two outcomes mean something."""
        s2 = st.copy()
        yes(st)
        no(s2)
        return [('return', some(v), st), ('return', NONE, s2)]


class Park(ParkerRules):
    ghosts = ('pend', 'reg', 'mine', 'seen', 'last', 'lk')

    def fetch_add(self, fr, st, v, o):
        self.must('a waiter announces itself before it checks its condition', o == 'SeqCst', fr, 'a waiter is announced with ordering %s: the waker may not see it' % o)
        self.must('a waiter is counted once', v is ONE and self.g(st, 'pend') is NO, fr, 'a waiter is counted more than once')
        self.g(st, 'pend', YES)

    def fetch_sub(self, fr, st, v, o):
        self.must('a waiter is discounted only when it removed itself', v is ONE and self.g(st, 'mine') is YES, fr,
                  'a waiter is discounted that the waker has discounted already, or that is still registered')
        self.g(st, 'mine', NO)
        self.g(st, 'pend', NO)

    def gone(self, st):
        self.g(st, 'reg', NO)
        if self.g(st, 'mine') is NO:
            self.g(st, 'pend', NO)

    def special(self, fr, st, n, ref, subs, a):
        E = self.eng
        if n == 'std::thread::current':
            return [('return', mk('kst', 'the current thread'), st)]
        if not self.ismap(n):
            return None
        self.locked(fr, st)
        m = ref.name
        if n.startswith('std::collections::hash_map::') and m in ('or_default', 'or_insert', 'or_insert_with', 'or_insert_with_key'):
            return [('return', mk('app', 'inner', a[0].a[1]), st)] if a[0].op == 'app' and a[0].a[0] == 'hentry' else None
        if self.outer(subs) and len(a) > 1:
            k = self.key(st, a[1])
            if m == 'entry':
                self.keyed(fr, st, k)
                return [('return', mk('app', 'hentry', k), st)]
            if m in ('get_mut', 'get'):
                self.keyed(fr, st, k)
                return self.both(st, mk('app', 'inner', k), lambda s: None, self.gone)
            if m == 'contains_key':
                return None
            if m in ('remove', 'insert', 'clear', 'retain', 'drain'):
                self.must('a waiter leaves the other waiters registered', False, fr, 'a waiter removes or replaces the registrations of other waiters')
            return None
        if m == 'len' and len(a) == 1:
            return [('return', E.fresh(fr, st, 'sym', 'len'), st)]
        if len(a) < 2:
            return None
        if a[0].op == 'app' and a[0].a[0] == 'inner':
            k = a[0].a[1]
            if m == 'insert':
                self.must('a waiter is counted before it is registered', self.g(st, 'pend') is YES, fr, 'a waiter is registered before it was counted: the waker may discount it first')
                self.must('a waiter registers itself', a[2] == mk('kst', 'the current thread'), fr, 'something else than the current thread is registered')
                self.must('a waiter is registered once', self.g(st, 'reg') is NO, fr, 'a waiter is registered again while it may still be registered')
                self.must('a registration has an identifier of its own', self.newid(st, a[1]), fr, 'the identifier of a registration is not a new one: ' + show(a[1]))
                self.g(st, 'reg', mk('agg', 'reg', 0, k, a[1]))
                self.g(st, 'seen', NO)
                return [('return', E.fresh(fr, st, 'sym', 'old'), st)]
            i = self.key(st, a[1])
            r = self.g(st, 'reg')
            same = r is not NO and r.a[2] is k and r.a[3] is i
            if m in ('remove', 'contains_key', 'get', 'remove_entry'):
                self.must('a waiter looks for its own registration', same or r is NO, fr, 'a waiter looks for a registration that is not its own')
                if m.startswith('remove'):
                    def took(s):
                        self.g(s, 'reg', NO)
                        self.g(s, 'mine', YES)
                    return self.both(st, E.fresh(fr, st, 'sym', 'thread'), took if same else lambda s: None, self.gone if same else lambda s: None)
                if m == 'get':
                    return self.both(st, E.fresh(fr, st, 'sym', 'thread'), lambda s: None, self.gone if same else lambda s: None)
                s2 = st.copy()
                if same:
                    self.gone(s2)
                return [('return', TRUE, st), ('return', FALSE, s2)]
        return None

    def newid(self, st, i):
        c, d = lin_parts(i)
        return c == 1 and len(d) == 1 and 'lockg' in show(i)

    def user_method(self, fr, st, ref, a):
        if ref.name != 'load' or self.deep1(a[0]) is not self.entry_args[1]:
            return None
        o = models.ordn(a[1])
        v = self.eng.fresh(fr, st, 'sym', 'cond')
        st.facts[bapp('cond', v, mk('kst', o), ONE if self.g(st, 'reg') is not NO else ZERO)] = True
        return [('return', v, st)]

    def deep1(self, x):
        return x

    def user_called(self, fr, st, what, f, args, v):
        x = args[0] if args else NO
        self.must('the condition is checked on the word', any(w and b.op == 'bapp' and b.a[0] == 'cond' and b.a[1] is x for b, w in st.facts.items()), fr,
                  'the condition is checked on something else than the word')

    def evidence(self, st, want):
        for b, w in list(st.facts.items()):
            if w and b.op == 'bapp' and b.a[0] == 'uc' and len(b.a) == 4:
                z = decide(st, eq(b.a[1], ZERO))
                if z is None:
                    continue
                for c, w2 in st.facts.items():
                    if w2 and c.op == 'bapp' and c.a[0] == 'cond' and c.a[1] is b.a[3] and (not z) == want:
                        yield c.a[2].a[0], c.a[3] is ONE

    def learned(self, fr, st):
        if self.g(st, 'reg') is not NO and any(o == 'SeqCst' and r for o, r in self.evidence(st, True)):
            self.g(st, 'seen', YES)
        if any(o in ACQ for o, r in self.evidence(st, False)):
            self.g(st, 'last', YES)

    def wait(self, fr, st, what):
        if what != 'park':
            return
        self.learned(fr, st)
        self.must('a thread sleeps only while it is registered', self.g(st, 'reg') is not NO, fr, 'a thread goes to sleep without being registered: nobody wakes it')
        self.must('the condition is checked after registering and before sleeping', self.g(st, 'seen') is YES, fr,
                  'a thread goes to sleep without a sequentially consistent check of its condition after it registered')
        self.must('no lock is held while sleeping', self.g(st, 'lk') is NO, fr, 'a thread goes to sleep holding the lock of the parker')

    def ended(self, fr, st, ret):
        self.learned(fr, st)
        self.must('a waiter returns when its condition is over', self.g(st, 'last') is YES, fr, 'park can return although the condition was not seen to be over (by a load with acquire ordering)')
        self.must('a waiter leaves nothing behind', self.g(st, 'reg') is NO and self.g(st, 'pend') is NO and self.g(st, 'mine') is NO, fr,
                  'park can return while the thread is still registered or counted')
        self.must('the lock is released', self.g(st, 'lk') is NO, fr, 'park can return holding the lock')


class Unpark(ParkerRules):
    ghosts = ('none', 'took', 'sub', 'woken', 'hand', 'lk', 'it')

    def load(self, fr, st, addr, o, guard):
        v = self.eng.fresh(fr, st, 'sym', 'ld')
        if self.pending(addr):
            self.must('the waker looks for waiters in the total order', o == 'SeqCst', fr, 'the number of waiters is read with ordering %s: a waiter may be missed' % o)
            st.facts[bapp('pendv', v)] = True
        return v

    def fetch_sub(self, fr, st, v, o):
        t = self.g(st, 'took')
        self.must('as many waiters are discounted as were removed', t is not NO and v is mk('app', 'hlen', t) and self.g(st, 'sub') is NO, fr,
                  'the number of waiters is reduced by %s' % show(v))
        self.g(st, 'sub', YES)

    def special(self, fr, st, n, ref, subs, a):
        E = self.eng
        m = ref.name
        if n == 'std::thread::Thread::unpark':
            h = self.g(st, 'hand')
            x = self.deep(st, a[0])
            if h is not NO and (x is h or h in subterms(x)):
                self.g(st, 'hand', NO)
            self.must('a waker wakes outside the lock', True, fr, '')
            return [('return', UNIT, st)]
        if not self.ismap(n):
            return None
        if self.outer(subs):
            self.locked(fr, st)
            k = self.key(st, a[1]) if len(a) > 1 else NO
            if m in ('remove',):
                self.keyed(fr, st, k)
                t = E.fresh(fr, st, 'sym', 'taken')

                def yes(s):
                    self.g(s, 'took', t)

                def no(s):
                    self.g(s, 'none', YES)
                return self.both(st, t, yes, no)
            if m in ('get', 'get_mut', 'contains_key'):
                return None
            return None
        if m == 'len':
            return [('return', mk('app', 'hlen', self.deep(st, a[0])), st)]
        if m == 'is_empty':
            return [('return', eq(mk('app', 'hlen', self.deep(st, a[0])), ZERO), st)]
        if m in ('into_iter', 'iter', 'into_values', 'values', 'drain', 'iter_mut', 'values_mut'):
            t = self.deep(st, a[0])
            return [('return', mk('app', 'hiter', t), st)]
        return None

    def iter_item(self, fr, st, it, v):
        self.must('every removed waiter is woken', self.g(st, 'hand') is NO, fr, 'a removed waiter is not woken')
        if self.of_taken(st, it):
            self.g(st, 'hand', v)

    def of_taken(self, st, it):
        t = self.g(st, 'took')
        x = self.deep(st, it)
        return t is not NO and (x is t or t in subterms(x))

    def iter_end(self, fr, st, it):
        self.must('every removed waiter is woken', self.g(st, 'hand') is NO, fr, 'a removed waiter is not woken')
        if self.of_taken(st, it):
            self.g(st, 'woken', YES)

    def learned(self, fr, st):
        for b, w in st.facts.items():
            if w and b.op == 'bapp' and b.a[0] == 'pendv' and decide(st, eq(b.a[1], ZERO)) is True:
                self.g(st, 'none', YES)
        t = self.g(st, 'took')
        if t is not NO and decide(st, eq(mk('app', 'hlen', t), ZERO)) is True:
            self.g(st, 'sub', YES)
            self.g(st, 'woken', YES)

    def ended(self, fr, st, ret):
        self.learned(fr, st)
        self.must('a waker returns when nobody waits or all were woken', self.g(st, 'none') is YES or self.g(st, 'took') is not NO, fr,
                  'unpark can return without having looked for registered waiters')
        if self.g(st, 'took') is not NO:
            self.must('every removed waiter is woken', self.g(st, 'woken') is YES and self.g(st, 'hand') is NO, fr, 'unpark can return before every removed waiter was woken')
            self.must('every removed waiter is discounted', self.g(st, 'sub') is YES, fr, 'unpark can return before the removed waiters were discounted')
        self.must('the lock is released', self.g(st, 'lk') is NO, fr, 'unpark can return holding the lock')


# ---------------------------------------------------------------- the counter

class Sum(Util):
    """The answer is the sum over the shards: by an adapter over all of them, or by a loop whose accumulator stays equal to the ghost sum of the
    values of the shards that were visited."""
    prop = 'P20'
    ghosts = ()

    def start(self, st, args):
        st.ghost['acc'] = ZERO

    def shard(self, st, x):
        """The shard an address belongs to."""
        for y in subterms(x):
            if y.op == 'app' and y.a[0] == 'shard':
                return y.a[1]
            if y.op == 'sym' and decide(st, bapp('shard', y)) is True:
                return y

    def load(self, fr, st, addr, o, guard):
        x = self.shard(st, addr)
        if x is not None:
            return mk('app', 'val', x)
        self.give_up('load of ' + show(addr)[:80])
        return self.eng.fresh(fr, st, 'sym', 'ld')

    def iter_item(self, fr, st, it, v):
        if self.whole(fr, st, it):
            st.facts[bapp('shard', v)] = True
            st.ghost['acc'] = add(st.ghost['acc'], mk('app', 'val', v))

    def iter_end(self, fr, st, it):
        if self.whole(fr, st, it):
            st.facts[bapp('sumof', st.ghost['acc'])] = True

    def opaque(self, fr, st, fn, ref, args):
        if fn.name in ('fold', 'sum') and not fn.local:
            return self.special(fr, st, 'std::iter::Iterator::' + fn.name, ref, (), args)
        return None

    def whole(self, fr, st, it):
        it = self.deep(st, it)
        return it.op == 'app' and it.a[0] == 'shards'

    def special(self, fr, st, n, ref, subs, a):
        m = ref.name
        if n in ('[T/#0]::iter', '[T]::iter') or m == 'iter' and '[' in n:
            x = a[0]
            whole = x.op == 'mem' and x.a[0] is self.entry_args[0] and len(x.a) == 2
            if not whole:
                self.give_up('iteration over ' + show(x))
            return [('return', mk('app', 'shards'), st)]
        if m == 'into_iter' and a and a[0].op == 'mem' and a[0].a[0] is self.entry_args[0] and len(a[0].a) == 2:
            return [('return', mk('app', 'shards'), st)]
        if n.endswith('::Sum::sum') or n in ('std::iter::Iterator::sum', 'std::iter::Iterator::fold'):
            it = a[0]
            if n.endswith('fold'):
                okay = self.folds(fr, st, it, a[1], a[2])
            else:
                okay = self.maps_all(fr, st, it)
            if okay is None:
                self.give_up('sum of ' + show(it)[:100])
                return None
            self.must('the sum covers every shard', okay, fr, 'the sum leaves out shards or adds something else than their values')
            S = mk('app', 'sumall')
            st.facts[bapp('sumof', S)] = True
            return [('return', S, st)]
        if n == 'std::convert::TryFrom::try_from' or n == 'std::convert::TryInto::try_into':
            s2 = st.copy()
            st.facts[bapp('slt', a[0], ZERO)] = False
            s2.facts[bapp('slt', a[0], ZERO)] = True
            return [('return', ok(a[0]), st), ('return', err(mk('kst', 'TryFromIntError')), s2)]
        return None

    def closure_of(self, fr, st, f, args):
        return [(r, s) for k, r, s in models.call_value(self.eng, fr, st.copy(), f, args) if k == 'return']

    def maps_all(self, fr, st, it):
        """Whether an iterator yields the value of every shard."""
        if it.op == 'agg' and it.a[0] == 'std::iter::Map':
            src, f = it.a[2], it.a[3]
            if src.op == 'app' and src.a[0] == 'shards':
                x = self.eng.fresh(fr, st, 'sym', 'shard')
                rs = self.closure_of(fr, st, f, [mk('app', 'shard', x)])
                return bool(rs) and all(r is mk('app', 'val', x) for r, s in rs)
            if src.op == 'agg' and src.a[0].startswith('std::iter::'):
                n = src.a[0].split('::')[-1]
                if n in ('Skip', 'Take', 'StepBy', 'SkipWhile', 'TakeWhile', 'Filter'):
                    return False
        if it.op == 'agg' and type(it.a[0]) is str and it.a[0].split('::')[-1] in ('Skip', 'Take', 'StepBy', 'SkipWhile', 'TakeWhile', 'Filter'):
            return False
        return None

    def folds(self, fr, st, it, init, f):
        acc = self.eng.fresh(fr, st, 'sym', 'acc')
        x = self.eng.fresh(fr, st, 'sym', 'shard')
        if it.op == 'app' and it.a[0] == 'shards':
            item, v = mk('app', 'shard', x), mk('app', 'val', x)
        elif self.maps_all(fr, st, it) is True:
            item = v = x
        else:
            return self.maps_all(fr, st, it)
        rs = self.closure_of(fr, st, f, [acc, item])
        return init is ZERO and bool(rs) and all(r is add(acc, v) for r, s in rs)

    def ended(self, fr, st, ret):
        x, clamped = ret, False
        if x.op == 'app' and x.a[0] == 'smax' and ZERO in x.a:
            x, clamped = next(y for y in x.a[1:] if y is not ZERO), True
        sums = [a.a[1] for a, w in st.facts.items() if w and a.op == 'bapp' and a.a[0] == 'sumof']
        if x is ZERO and not clamped:
            if any(decide(st, bapp('slt', s, ZERO)) is True for s in sums):
                return
        if not sums:
            self.give_up('result ' + show(ret)[:100])
            return
        if self.lost:
            return
        self.must('the sum covers every shard', x in sums, fr, 'the answer is not the sum over the shards: ' + show(x)[:80])
        if x in sums:
            self.must('the length is never negative', clamped or x is ZERO or decide(st, bapp('slt', x, ZERO)) is False, fr, 'a negative sum can be reported as a huge length')


class Get(Util):
    prop = 'P20'

    def ended(self, fr, st, ret):
        self.must('a shard of the counter is updated', ret.op in ('pl', 'ref') and self.entry_args[0] in subterms(ret), fr, 'get does not return a shard of the counter')


def subterms(t, d=0):
    yield t
    if d < 12:
        for x in t.a:
            if type(x) is T:
                yield from subterms(x, d + 1)


BODIES = [('stack::Stack::push', Push), ('stack::Stack::drain', Drain), ('parker::Parker::park', Park), ('parker::Parker::unpark', Unpark),
          ('counter::Counter::sum', Sum), ('counter::Counter::get', Get)]
KNOWN = {'raw::utils::parker::Atomic::load', '[T/#0]::len'}


def run(prog, name, cls):
    f = prog.fn(UT + name)
    if f is None:
        return None
    R = cls(prog)
    E = engine.Engine(prog, R)
    E.wide = E.exact = True
    st = State()
    st.ghost['op'] = tag('util')
    st.ghost['unw'] = tag('no')
    for n in cls.ghosts:
        st.ghost[n] = NO
    args = tuple(mk('tagl', ('in', i)) for i in range(f.body.argc))
    R.entry_fn, R.entry_args = f, args
    R.start(st, args)

    class F:
        fn, sp = f, f.sp

        def site(self):
            return '%s (%s)' % (f.p, f.sp)
    n = 0
    for e in E.execute(f, {}, args, st):
        if e.kind == 'return':
            n += 1
            R.ended(F(), e.st, e.ret)
    return R, {k: v for k, v in E.unmodelled.items() if k not in KNOWN}, n


def rules(prog, prop):
    out = []
    keys = {}
    for name, cls in BODIES:
        if cls.prop != prop:
            continue
        try:
            r = run(prog, name, cls)
        except Exception as x:
            if os.environ.get("TB"): import traceback; traceback.print_exc()
            out.append((UT + name + ': analysed', None, '%s: %s' % (type(x).__name__, x), ''))
            continue
        if r is None:
            out.append((UT + name + ': analysed', None, 'there is no such function', ''))
            continue
        R, u, n = r
        if prop == 'P13' and hasattr(R, 'keys'):
            keys[name] = R.keys
        for k, v in sorted(R.bad.items()):
            okay = not v[1]
            if v[1] and (u or R.lost):
                okay = None
            out.append((k, okay, v[2] + (' [not modelled: %s]' % (sorted(u) or R.lost) if okay is None else ''), v[3]))
        if R.lost and all(not v[1] for v in R.bad.values()):
            out.append((UT + name + ': analysed', None, 'not modelled: ' + R.lost, ''))
    if len(keys) == 2:
        a, b = keys.values()
        out.append(('waiters and wakers use the same key', a == b and len(a) == 1, 'the key of a waiter is %s, of a waker %s' % (sorted(a), sorted(b)), UT + 'parker::Parker'))
    return out


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    P = mir.Program(sys.argv[1])
    for p in ('P32', 'P13', 'P20'):
        for k, v, m, s_ in rules(P, p):
            print(v, p, k, '|', m, '|', s_)
