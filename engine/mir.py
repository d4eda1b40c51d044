"""The extracted program: functions, control-flow graphs, types."""
import json


def ty(j):
    """JSON type -> hashable tuple."""
    k = j['k']
    if k == 'adt':
        return ('adt', j['d'], tuple(ty(x) for x in j['a']))
    if k in ('ref', 'ptr'):
        return (k, ty(j['t']), j['m'])
    if k in ('uint', 'int', 'float'):
        return (k, j['n'])
    if k == 'param':
        return ('param', j['n'])
    if k == 'tuple':
        return ('tuple', tuple(ty(x) for x in j['a']))
    if k == 'closure':
        return ('closure', j['d'], tuple(ty(x) for x in j['a']))
    if k == 'fndef':
        return ('fndef', j['d'], tuple(ty(x) for x in j['a']), j['p'])
    if k in ('slice',):
        return (k, ty(j['t']))
    if k == 'array':
        return (k, ty(j['t']), j['n'])
    if k == 'alias':
        return ('alias', j['s'], tuple(ty(x) for x in j['a']))
    if k in ('const', 'fnptr', 'dyn', 'other', 'ext'):
        return (k, j['s'])
    return (k,)


def tsubst(t, m):
    if not m:
        return t
    k = t[0]
    if k == 'param':
        return m.get(t[1], t)
    if k == 'adt':
        return ('adt', t[1], tuple(tsubst(x, m) for x in t[2]))
    if k in ('ref', 'ptr'):
        return (k, tsubst(t[1], m), t[2])
    if k == 'tuple':
        return ('tuple', tuple(tsubst(x, m) for x in t[1]))
    if k == 'closure':
        return ('closure', t[1], tuple(tsubst(x, m) for x in t[2]))
    if k == 'fndef':
        return ('fndef', t[1], tuple(tsubst(x, m) for x in t[2]), t[3])
    if k == 'slice':
        return (k, tsubst(t[1], m))
    if k == 'array':
        return (k, tsubst(t[1], m), t[2])
    return t


def tshow(t):
    k = t[0]
    if k == 'adt':
        return t[1].split('::')[-1] + ('<' + ','.join(map(tshow, t[2])) + '>' if t[2] else '')
    if k == 'ref':
        return '&' + ('mut ' if t[2] else '') + tshow(t[1])
    if k == 'ptr':
        return '*' + tshow(t[1])
    if k == 'tuple':
        return '(' + ','.join(map(tshow, t[1])) + ')'
    return str(t[1]) if len(t) > 1 else k


def conv(o):
    """Convert every JSON type below o, in place."""
    if isinstance(o, list):
        for i, x in enumerate(o):
            if isinstance(x, dict) and 'k' in x and _isty(x):
                o[i] = ty(x)
            else:
                conv(x)
    elif isinstance(o, dict):
        for k, x in o.items():
            if isinstance(x, dict) and 'k' in x and _isty(x):
                o[k] = ty(x)
            else:
                conv(x)


_TK = {'bool', 'char', 'int', 'uint', 'float', 'adt', 'str', 'array', 'slice', 'ptr', 'fndef', 'closure',
       'tuple', 'param', 'never', 'fnptr', 'dyn', 'alias', 'other', 'ext'}


def _isty(x):
    k = x['k']
    if k not in _TK:
        return False
    if k == 'ref':
        return 't' in x
    if k == 'other':
        return 'op' not in x and 'pl' not in x and set(x) == {'k', 's'}
    return True


def _isty_ref(x):
    return x['k'] == 'ref' and 't' in x


class Fn:
    pass


# The roles of the fields of the crate's private types.  A field that is called something else than
# here, in a type that lacks one expected field, is that field renamed: the analyses use the
# canonical name.  A field with another role than the one its name suggests is caught by the rules,
# which judge what the code does with the field.
ROLES = {
    'raw::State': ['next', 'allocating', 'copied', 'claim', 'status', 'parker', 'deferred'],
    'raw::alloc::TableLayout': ['mask', 'limit', 'state', 'meta', 'entries'],
    'raw::alloc::Table': ['mask', 'limit', 'raw'],
    'raw::HashMap': ['table', 'collector', 'resize', 'count', 'initial_capacity', 'hasher'],
    'raw::Entry': ['key', 'value'],
    'raw::Iter': ['i', 'table', 'guard'],
    'raw::ComputeState': ['compute', 'insert', 'update'],
    'raw::CachedUpdate': ['input', 'output'],
    'raw::probe::Probe': ['i', 'len'],
    'raw::utils::CachePadded': ['value'],
    'raw::utils::parker::Parker': ['pending', 'state'],
    'raw::utils::parker::State': ['count', 'threads'],
    'raw::utils::stack::Node': ['value', 'next'],
    'raw::utils::stack::Stack': ['head'],
    'raw::utils::tagged::Tagged': ['raw', 'ptr'],
    'map::HashMap': ['raw'],
    'map::HashMapRef': ['guard', 'map'],
    'map::HashMapBuilder': ['hasher', 'capacity', 'collector', 'resize_mode', '_kv'],
    'map::Iter': ['raw'],
    'map::Keys': ['iter'],
    'map::Values': ['iter'],
    'set::HashSet': ['raw'],
    'set::HashSetRef': ['guard', 'set'],
    'set::HashSetBuilder': ['hasher', 'capacity', 'collector', 'resize_mode', '_kv'],
    'set::Iter': ['raw'],
}


def canonical_fields(d):
    ren = {}
    for n, a in d['adts'].items():
        if n not in ROLES or len(a['variants']) != 1:
            continue
        want, have = ROLES[n], [x[0] for x in a['variants'][0]['fields']]
        missing = [x for x in want if x not in have]
        extra = [x for x in have if x not in want]
        if not missing or len(missing) != len(extra):
            continue
        # one renamed field is unambiguous; several are matched by their place in the declaration
        if len(missing) > 1 and (len(want) != len(have)
                                 or any(want.index(m) != have.index(e) for m, e in zip(missing, extra))):
            continue
        for m, e in zip(missing, extra):
            ren[n, e] = m
        for x in a['variants'][0]['fields']:
            x[0] = ren.get((n, x[0]), x[0])
    if not ren:
        return

    def walk(x):
        if isinstance(x, list):
            if len(x) == 4 and x[0] == 'f' and isinstance(x[2], str) and isinstance(x[3], str):
                x[2] = ren.get((x[3], x[2]), x[2])
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    walk(d['fns'])


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        canonical_fields(d)
        self.raw = d
        self.consts = d['consts']
        self.fns = {}
        self.bypath = {}
        for f in d['fns']:
            fn = self.load(f)
            if fn.id in self.fns:
                continue
            self.fns[fn.id] = fn
            self.bypath.setdefault(fn.p, []).append(fn)
        self.adts = {}
        for n, a in d['adts'].items():
            for v in a['variants']:
                v['fields'] = [(x[0], xty(x[1]), x[2]) for x in v['fields']]
            self.adts[n] = a
        self.impls = []
        for i in d['impls']:
            i['self'] = xty(i['self'])
            i['targs'] = tuple(xty(x) for x in i.get('targs', []))
            self.impls.append(i)
        # closures by parent
        self.closures = {}
        for f in self.fns.values():
            if f.parent:
                self.closures.setdefault(f.parent, []).append(f.id)

    def load(self, f):
        fn = Fn()
        fn.id = f['id']
        fn.p = f['p']
        fn.name = f['name']
        fn.kind = f['kind']
        fn.sp = f['sp']
        fn.generics = f['generics']
        fn.parent = f.get('parent')
        fn.ckind = f.get('ckind')
        fn.trait = f.get('trait')
        fn.intrait = f.get('intrait')
        fn.selfty = xty(f['self']) if 'self' in f else None
        fn.inputs = [xty(x) for x in f.get('inputs', [])]
        fn.output = xty(f['output']) if 'output' in f else None
        fn.unsafe = f.get('unsafe', False)
        fn.pub = f.get('pub', False)
        fn.local = f['id'].startswith('papaya')
        fn.body = Body(f['body'])
        fn.promoted = [Body(b) for b in f.get('promoted', [])]
        return fn

    def fn(self, path):
        l = self.bypath.get(path)
        return l[0] if l else None


def xty(j):
    return xtyc(j)


def xtyc(j):
    return ty_any(j)


def ty_any(j):
    return ty(j)


class Body:
    def __init__(self, b):
        self.argc = b['argc']
        self.spread = b['spread']
        self.locals = [ty(t) for t in b['locals']]
        self.names = {}
        for l, n in b['names']:
            self.names.setdefault(l, n)
        self.blocks = b['blocks']
        for bb in self.blocks:
            for s in bb['s']:
                fix(s)
            fix(bb['t'])
        self._cfg()

    def succs(self, bb, unwind=True):
        t = self.blocks[bb]['t']
        k = t['k']
        r = []
        if k == 'goto':
            r = [t['t']]
        elif k == 'switch':
            r = [x[1] for x in t['v']] + [t['o']]
        elif k in ('drop', 'call', 'assert'):
            if t.get('t') is not None:
                r = [t['t']]
            if unwind and isinstance(t.get('u'), int):
                r = r + [t['u']]
        return r

    def _cfg(self):
        n = len(self.blocks)
        # reverse postorder + loop heads
        seen = set()
        post = []
        heads = set()
        onstk = set()
        it = [(0, iter(self.succs(0)))]
        seen.add(0)
        onstk.add(0)
        while it:
            b, s = it[-1]
            for x in s:
                if x in onstk:
                    heads.add(x)
                if x not in seen:
                    seen.add(x)
                    onstk.add(x)
                    it.append((x, iter(self.succs(x))))
                    break
            else:
                it.pop()
                onstk.discard(b)
                post.append(b)
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        self.npred = {}
        for b in post:
            for x in set(self.succs(b)):
                self.npred[x] = self.npred.get(x, 0) + 1
        self.boolean = {i for i, t in enumerate(self.locals) if t == ('bool',)}
        self.heads = heads
        self._order()
        self._live()

    def _order(self):
        # A schedule in which a loop is left only after its body was processed:
        # weak topological order by nesting (Bourdoncle), encoded as priorities.
        self.prio = dict(self.rpo)

    def _live(self):
        """Live locals at block entry; address-taken locals are live until StorageDead."""
        taken = set()
        n = len(self.blocks)
        gen = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]
        for i, bb in enumerate(self.blocks):
            g, k = gen[i], kill[i]

            def use(l):
                if l not in k:
                    g.add(l)

            def useop(o):
                if o['k'] in ('copy', 'move'):
                    usepl(o['pl'])

            def usepl(p):
                use(p['l'])
                for e in p['p']:
                    if e[0] == 'i':
                        use(e[1])

            for s in bb['s']:
                if s['k'] == '=':
                    rv = s['rv']
                    for o in _ops(rv):
                        useop(o)
                    if 'pl' in rv:
                        usepl(rv['pl'])
                        if rv['k'] in ('ref', 'rawptr') and not any(e[0] == '*' for e in rv['pl']['p']):
                            taken.add(rv['pl']['l'])
                    p = s['pl']
                    if p['p']:
                        usepl(p)
                    else:
                        k.add(p['l'])
                elif s['k'] == 'dead':
                    k.add(s['l'])
                elif s['k'] == 'assume':
                    useop(s['op'])
                elif s['k'] == 'setd':
                    usepl(s['pl'])
            t = bb['t']
            if t['k'] == 'switch':
                useop(t['d'])
            elif t['k'] == 'drop':
                usepl(t['pl'])
            elif t['k'] == 'assert':
                useop(t['c'])
            elif t['k'] == 'call':
                useop(t['f'])
                for o in t['a']:
                    useop(o)
                if t['d']['p']:
                    usepl(t['d'])
                else:
                    k.add(t['d']['l'])
            elif t['k'] == 'return':
                use(0)
        self.taken = taken
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for x in self.succs(i):
                    o |= live[x]
                v = gen[i] | (o - kill[i])
                if v != live[i]:
                    live[i] = v
                    ch = True
        self.live = live


def _ops(rv):
    r = []
    for k in ('op', 'a', 'b'):
        o = rv.get(k)
        if isinstance(o, dict) and o.get('k') in ('copy', 'move'):
            r.append(o)
    for o in rv.get('ops', []):
        if o.get('k') in ('copy', 'move'):
            r.append(o)
    return r


def fix(o):
    """Convert the types inside a statement or terminator."""
    if isinstance(o, list):
        for x in o:
            fix(x)
        return
    if not isinstance(o, dict):
        return
    for k in ('ty', 'from'):
        if k in o and isinstance(o[k], dict):
            o[k] = ty(o[k])
    for k in ('fn', 'uneval', 'res'):
        if k in o and isinstance(o[k], dict):
            d = o[k]
            if isinstance(d.get('a'), list):
                d['a'] = tuple(ty(x) for x in d['a'])
            if k == 'fn' and isinstance(d.get('res'), dict):
                r = d['res']
                if isinstance(r.get('a'), list):
                    r['a'] = tuple(ty(x) for x in r['a'])
    if o.get('k') == 'agg' and isinstance(o.get('a'), list):
        o['a'] = tuple(ty(x) for x in o['a'])
    for k, v in o.items():
        if k in ('ty', 'from', 'fn', 'uneval', 'res', 'a') and o.get('k') == 'agg' and k == 'a':
            continue
        if isinstance(v, (dict, list)):
            fix(v)
