"""P09: some destructor of the crate releases the tables."""


def callees(prog, fn):
    for bb in fn.body.blocks:
        t = bb['t']
        ops = [t.get('f')] + list(t.get('args') or []) if t['k'] == 'call' else []
        for o in ops:
            u = o.get('fn') if type(o) is dict else None
            if u:
                res = u.get('res')
                yield (res['d'] if res else u['d']), u['p']
    for c in prog.closures.get(fn.id, ()):
        yield c, ''


def p09(prog):
    drops = []
    for im in prog.impls:
        if im.get('trait') == 'std::ops::Drop':
            it = im['items'].get('drop')
            f = it and prog.fns.get(it['d'])
            if f is not None:
                drops.append(f)
    okay = False
    for f in drops:
        seen, todo = {f.id}, [f]
        while todo:
            g = todo.pop()
            for d, p in callees(prog, g):
                if p == 'std::alloc::dealloc' or p.endswith('GlobalAlloc::dealloc'):
                    okay = True
                if d not in seen:
                    seen.add(d)
                    h = prog.fns.get(d)
                    if h is not None and h.local:
                        todo.append(h)
    yield ('crate: a destructor releases the tables', okay, 'no destructor of the crate reaches the release of table memory: a map that is dropped leaks its tables',
           ', '.join(f.p for f in drops) or 'no Drop implementation')
