"""Runs the analysis over the entry points of the crate and turns failed obligations into violations."""
import gc
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

# entry point -> kind of operation
OPS = {
    'get': 'read', 'get_key_value': 'read', 'contains_key': 'read', 'contains': 'read', 'len': 'read0', 'is_empty': 'read0',
    'insert': 'insert', 'try_insert': 'tryinsert', 'try_insert_with': 'tryinsert', 'get_or_insert': 'tryinsert',
    'get_or_insert_with': 'tryinsert', 'update': 'update', 'update_or_insert': 'upsert', 'update_or_insert_with': 'upsert',
    'compute': 'compute', 'remove': 'remove', 'remove_entry': 'remove', 'remove_if': 'removeif', 'clear': 'clear', 'retain': 'retain',
    'reserve': 'reserve', 'iter': 'iter', 'keys': 'iter', 'values': 'iter',
    'pin': 'pin', 'pin_owned': 'pin', 'guard': 'pin', 'owned_guard': 'pin',
}
SETOPS = dict(OPS, insert='setinsert')
TYPES = (('map::HashMap', OPS), ('map::HashMapRef', OPS), ('set::HashSet', SETOPS), ('set::HashSetRef', SETOPS))


def entries(prog):
    r = []
    for ty, ops in TYPES:
        for n, op in ops.items():
            p = ty + '::' + n
            if prog.fn(p) is None:
                continue
            r.append((p, op))
    r += [('map::Iter::next', 'iternext'), ('map::Keys::next', 'iternext'), ('map::Values::next', 'iternext'),
          ('set::Iter::next', 'iternext'), ('raw::HashMap::drop', 'drop'), ('raw::HashMap::new', 'new')]
    for f in prog.fns.values():
        t = f.p.rsplit('::', 1)[0]
        if f.name == 'clone' and t in ('raw::Iter', 'map::Iter', 'map::Keys', 'map::Values', 'set::Iter') and (f.p, 'iterclone') not in r:
            r.append((f.p, 'iterclone'))
    return r


class Timeout(Exception):
    pass


def run_entry(job):
    facts, path, op, limit, deep = job
    import terms
    gc.disable()
    t0 = time.time()

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    r = attempt(facts, path, op, deep, deep)
    if deep and r['err']:
        r = attempt(facts, path, op, False)
    # An alarm has to stand when paths are kept apart, and when calls are analysed with everything the caller knows as well: each of these
    # attempts covers every path, so that what one of them shows holds.
    for wide, apart in ((False, True), (True, True), (True, False)):
        if r['err'] or not any(v[1] for v in r['ob'].values()):
            break
        w = attempt(facts, path, op, wide, apart)
        if not w['err']:
            for k, v in w['ob'].items():
                if v[1] and not (r['ob'].get(k) or (0, 0))[1]:
                    v[0] += v[1]
                    v[1] = 0
            r = w
            if apart and wide:
                break
    signal.alarm(0)
    r['time'] = time.time() - t0
    return r


def attempt(facts, path, op, wide, apart=False):
    import engine
    import sizes
    prog = _prog(facts)
    R = sizes.Sizes(prog)
    E = engine.Engine(prog, R)
    E.wide = wide
    E.apart = apart
    err = None
    try:
        ex = R.entry(E, path, op)
        R.finish(prog.fn(path), ex)
    except Timeout:
        err = 'time limit'
    except engine.Abort as x:
        err = 'aborted: %s' % x
    except Exception as x:
        err = 'error: ' + ''.join(traceback.format_exception(type(x), x, x.__traceback__)[-3:])
    return {'entry': path, 'op': op, 'ob': R.ob, 'events': R.events, 'stats': E.stats, 'err': err,
            'unmodelled': E.unmodelled, 'fns': sorted(E.fns_seen), 'calls': len(E.calls_seen), 'pats': R.pats}


_P = {}


def _prog(facts):
    p = _P.get(facts)
    if p is None:
        import mir
        p = _P[facts] = mir.Program(facts)
    return p


def run_all(facts, only=None, limit=300, procs=8, total=720, deep=False):
    prog = _prog(facts)
    es = [e for e in entries(prog) if only is None or e[0] in only or e[1] in only]
    jobs = [(facts, p, o, limit, deep) for p, o in es]
    heavy = ('compute', 'upsert', 'update', 'insert', 'tryinsert', 'setinsert', 'removeif', 'retain', 'clear', 'remove', 'reserve')
    jobs.sort(key=lambda j: heavy.index(j[2]) if j[2] in heavy else 99)
    gc.freeze()
    r = []
    end = time.time() + total
    with multiprocessing.Pool(min(procs, len(jobs)), maxtasksperchild=4) as pool:
        it = pool.imap_unordered(run_entry, jobs, chunksize=1)
        try:
            for _ in jobs:
                r.append(it.next(timeout=max(1, end - time.time())))
        except multiprocessing.TimeoutError:
            pool.terminate()
    done = {x['entry'] for x in r}
    for _, p, o, *_ in jobs:
        if p not in done:
            r.append({'entry': p, 'op': o, 'ob': {}, 'events': {}, 'stats': {}, 'err': 'time limit of the whole run', 'unmodelled': {},
                      'fns': [], 'calls': 0, 'pats': {}, 'time': 0})
    r.sort(key=lambda x: x['entry'])
    return r


def extract():
    """Facts about /repo's current tree, in a scratch file."""
    d = tempfile.mkdtemp(prefix='papaya-facts-')
    out = os.path.join(d, 'facts.json')
    p = subprocess.run([os.path.join(ROOT, 'extract.sh'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        shutil.rmtree(d, ignore_errors=True)
        raise Exception('the crate could not be type-checked: ' + p.stdout[-2000:])
    return d, out


RULETEXT = ('Typestate dataflow over the MIR of every public operation (both front ends, map and set), inlined through the '
            'call graph to a fixpoint; an obligation is one rule at one program point in one abstract state')
ASSUME = ['rustc nightly builds the same MIR semantics as the toolchain the crate is built with',
          'seize 0.5.1 guards protect what is loaded through them until they are dropped',
          'std functions behave as modelled (atomics, Mutex, Box, ptr, iterator adapters)']


def check(prop, tier):
    d, facts = extract()
    try:
        return decide(prop, tier, facts)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def extra(f, prog, what):
    """The obligations of a rule over the whole program; a program it cannot follow is undecided."""
    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(300)
    try:
        return list(f(prog))
    except Timeout:
        return [(what, None, 'time limit', '')]
    except Exception as x:
        traceback.print_exc()
        return [(what, None, '%s: %s' % (type(x).__name__, x), '')]
    finally:
        signal.alarm(0)


def decide(prop, tier, facts):
    import claims
    prog = _prog(facts)
    viol, cov = [], {}
    ops = claims.OPS.get(prop, 'all')
    ob, fns, und = {}, set(), []
    n_ent = 0
    if ops:
        only = None if ops == 'all' else set(ops)
        res = run_all(facts, only, 300 if tier == 'quick' else 2000, total=720 if tier == 'quick' else 7200, deep=tier != 'quick')
        n_ent = len(res)
        pats = {}
        for r in res:
            if r['err']:
                und.append('%s: %s' % (r['entry'], r['err'].strip().split('\n')[-1]))
            fns.update(r['fns'])
            for k, v in r['ob'].items():
                if k[0] != prop:
                    continue
                e = ob.setdefault(k[1], [0, 0, '', '', set()])
                e[0] += v[0]
                e[1] += v[1]
                if v[1] and not e[2]:
                    e[2], e[3] = v[2], v[3]
                e[4].add(r['entry'])
            for (p, what), d in r['pats'].items():
                if p == prop:
                    pats.setdefault(what, {}).update(d)
        for what, d in pats.items():
            k = 'one definition of ' + what
            ob[k] = [1, 0, '', '', {'all'}]
            if len(d) > 1:
                ob[k] = [0, 1, what + ' is computed in different ways: ' + '; '.join('%s at %s' % x for x in sorted(d.items())), '', {'all'}]
    n_und = len(und)
    for k, f in sorted(claims.EXTRA.get(prop, {}).items()):
        for key, okay, msg, site in extra(f, prog, k):
            if okay is None:
                und.append('%s: %s' % (key, msg))
                continue
            e = ob.setdefault(key, [0, 0, '', '', {k}])
            e[0 if okay else 1] += 1
            if not okay and not e[2]:
                e[2], e[3] = msg, site
    for k, e in sorted(ob.items()):
        if e[1]:
            viol.append((k, '%s, at %s (%s)' % (e[2], e[3], ', '.join(sorted(e[4])[:4]))))
    rules = {}
    for k, e in ob.items():
        n = k.split(': ', 1)[-1]
        x = rules.setdefault(n, [0, 0])
        x[0] += e[0]
        x[1] += e[1]
    cov = {'explanation': claims.RULES.get(prop, RULETEXT), 'entry_points_analysed': n_ent - n_und, 'entry_points_undecided': und,
           'functions_analysed': len(fns), 'sites': len(ob), 'obligations': sum(e[0] + e[1] for e in ob.values()),
           'discharged': sum(e[0] for e in ob.values()),
           'rules': {n: {'discharged': x[0], 'failed': x[1]} for n, x in sorted(rules.items())},
           'samples': sorted(ob)[:12]}
    if und:
        print('undecided: ' + '; '.join(und[:6]))
    return viol, cov, ASSUME


if __name__ == '__main__':
    only = set(sys.argv[2:]) or None
    t = time.time()
    res = run_all(sys.argv[1], only, int(os.environ.get('LIMIT', '120')))
    agg = {}
    for r in res:
        print('%-36s %-10s %6.1fs %s ob=%d fail=%d %s' % (r['entry'], r['op'], r['time'], r['err'] or 'ok', len(r['ob']),
                                                  sum(1 for v in r['ob'].values() if v[1]), dict(list(r['unmodelled'].items())[:4])))
        for k, v in r['ob'].items():
            if v[1]:
                agg.setdefault(k, []).append((r['op'], v))
    pats = {}
    for r in res:
        for k, d in r['pats'].items():
            pats.setdefault(k, {}).update(d)
    for (p, what), d in pats.items():
        if len(d) > 1:
            agg.setdefault((p, 'one definition of ' + what), []).append(('all', [0, 1, '; '.join('%s at %s' % x for x in sorted(d.items())), '']))
    if not only:
        import claims
        for p, d in claims.EXTRA.items():
            for k, f in d.items():
                for key, okay, msg, site in extra(f, _prog(sys.argv[1]), k):
                    if okay is False:
                        agg.setdefault((p, key), []).append((k, [0, 1, msg, site]))
                    elif okay is None:
                        print('UNDECIDED', p, key, msg[:200])
    print('total %.1fs' % (time.time() - t))
    for k, v in sorted(agg.items()):
        print('FAIL', k[0], '|', k[1], '|', ','.join(sorted({x[0] for x in v})), '|', v[0][1][1], v[0][1][2][:130], '|', v[0][1][3])
