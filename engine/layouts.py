"""Values of constants and layouts: what the tag bits, the markers and the casts between types rely on (P11, P10)."""

M64 = (1 << 64) - 1


def value(prog, path):
    """The integer (or address) a constant evaluates to; None if its body is not a straight line of casts and arithmetic."""
    v = prog.consts.get(path)
    if v is not None:
        return v & M64
    fs = [f for f in prog.fns.values() if f.p == path and f.kind in ('AssocConst', 'Const')]
    if len(fs) != 1:
        return None
    loc = {}

    def operand(o):
        if o['k'] == 'const':
            if o.get('v') is not None:
                return o['v'] & M64
            u = o.get('uneval')
            if u and u.get('p') and u['p'] != path:
                return value(prog, u['p'])
            return None
        if o.get('pl') and not o['pl']['p']:
            return loc.get(o['pl']['l'])
        if o.get('pl') and len(o['pl']['p']) == 1 and o['pl']['p'][0][0] == 'f':
            return loc.get(o['pl']['l'])
        return None

    def rvalue(r):
        if r['k'] in ('use',):
            return operand(r['op'])
        if r['k'] == 'cast':
            return operand(r['op'])
        if r['k'] == 'un':
            a = operand(r['a'])
            return None if a is None else ~a & M64 if r['op'] == 'Not' else None
        if r['k'] == 'bin':
            a, b = operand(r['a']), operand(r['b'])
            if a is None or b is None:
                return None
            op = r['op'].replace('WithOverflow', '').replace('Unchecked', '')
            f = {'BitOr': lambda: a | b, 'BitAnd': lambda: a & b, 'BitXor': lambda: a ^ b, 'Add': lambda: a + b, 'Sub': lambda: a - b,
                 'Mul': lambda: a * b, 'Shl': lambda: a << (b & 63), 'Shr': lambda: a >> (b & 63)}.get(op)
            return f() & M64 if f else None
        return None
    body = fs[0].body
    bb, n = 0, 0
    while n < 50:
        n += 1
        blk = body.blocks[bb]
        for s in blk['s']:
            if s.get('k') == '=' and not s['pl']['p']:
                loc[s['pl']['l']] = rvalue(s['rv'])
        t = blk['t']
        if t['k'] == 'return':
            return loc.get(0)
        if t['k'] == 'goto':
            bb = t['t']
        elif t['k'] == 'assert':
            bb = t['t']
        elif t['k'] == 'call':
            # without_provenance, cast and the like hand their argument through
            nm = ((t.get('f') or {}).get('fn') or {}).get('name', '')
            if nm not in ('without_provenance_mut', 'without_provenance', 'cast', 'cast_mut', 'invalid_mut', 'with_exposed_provenance_mut', 'dangling'):
                return None
            a = t['args'][0]
            loc[t['dst']['l'] if 'dst' in t else t['d']['l']] = operand(a)
            bb = t['t']
        else:
            return None
    return None


def p11(prog):
    E = 'raw::Entry'
    v = {n: value(prog, E + '::' + n) for n in ('COPYING', 'COPIED', 'BORROWED', 'MASK', 'TOMBSTONE')}
    v['EMPTY'], v['TOMB'] = value(prog, 'raw::meta::EMPTY'), value(prog, 'raw::meta::TOMBSTONE')
    site = 'src/raw/mod.rs'
    a = prog.adts.get(E)

    def rule(what, names, f, msg):
        vals = [v[n] for n in names]
        if any(x is None for x in vals):
            return ('%s: %s' % (E, what), None, 'the value of %s is not known' % ', '.join(n for n in names if v[n] is None), site)
        return ('%s: %s' % (E, what), f(*vals), msg + ' (' + ', '.join('%s = %#x' % (n, x) for n, x in zip(names, vals)) + ')', site)

    one = lambda x: x != 0 and x & (x - 1) == 0
    yield rule('the tags are separate bits', ('COPYING', 'COPIED', 'BORROWED'), lambda a, b, c: one(a) and one(b) and one(c) and len({a, b, c}) == 3,
               'the tags of an entry pointer are not three different bits')
    yield rule('the mask removes every tag', ('COPYING', 'COPIED', 'BORROWED', 'MASK'), lambda a, b, c, m: (a | b | c) & m == 0,
               'the address of an entry is taken without removing every tag')
    align = (a or {}).get('align') or 1
    yield rule('entries are aligned so that the tags are free', ('COPYING', 'COPIED', 'BORROWED', 'MASK'),
               lambda x, b, c, m: (x | b | c) < align and (~m & M64) < align,
               'entries are only guaranteed to be aligned to %d, so that an address can have tag bits set' % align)
    yield rule('the deleted marker is no entry', ('TOMBSTONE', 'MASK'), lambda t, m: t != 0 and t & m == 0,
               'the deleted marker can be taken for an empty slot or for an entry')
    yield rule('the deleted marker is not frozen', ('TOMBSTONE', 'COPYING'), lambda t, c: t & c == 0, 'the deleted marker looks like a frozen slot')
    yield rule('the markers of the metadata differ', ('EMPTY', 'TOMB'), lambda e, t: e != t and e & 0x80 and t & 0x80 and e < 256 and t < 256,
               'the empty and the deleted metadata marker can be confused with each other or with the metadata of a key')


def p10(prog):
    """Types that are reached through pointers to another type need a layout that is promised."""
    for n, why in (('raw::Entry', 'an entry is allocated with an uninitialised value and used as an entry'),
                   ('raw::alloc::TableLayout', 'the header of a table is reached through a pointer to bytes')):
        a = prog.adts.get(n)
        if a is None:
            yield ('%s: the layout is promised' % n, None, 'the type is not there', '')
            continue
        yield ('%s: the layout is promised' % n, bool(a['reprc']) and not a['packed'], '%s, but the layout of the type is not promised (repr(C))' % why, a['sp'])
    a = prog.adts.get('raw::utils::MapGuard')
    if a is not None:
        yield ('raw::utils::MapGuard: the layout is promised', bool(a['transparent'] or a['reprc'] and len(a['variants'][0]['fields']) == 1),
               'a reference to a guard is turned into one to a verified guard, but their layouts are not promised to agree', a['sp'])
