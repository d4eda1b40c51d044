#!/usr/bin/env python3
"""check.py <property>: decides one property for /repo's current tree."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, os.path.join(ROOT, 'types'))


def known_findings():
    """(property, key) -> description of the findings recorded and not repaired."""
    r = {}
    p = os.path.join(ROOT, 'known-findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['known']:
            r[(e['property'], e['key'])] = e['what']
    return r


def types(prop):
    import run
    r = run.run(prop)
    cov = {'explanation': 'Compile-fail witnesses: every listed program was type-checked against the current tree; a '
                          'program that must be rejected was rejected with one of its error codes only, and its '
                          'compiling twin was accepted.',
           'witness_programs': len(r['cases']), 'witnesses_rejected': r['rejected'], 'twins_accepted': r['accepted'],
           'samples': r['samples']}
    return r['viol'], cov, ['rustc 1.90.0 decides typing soundly', 'seize 0.5.1 guards have the Send/Sync it declares']


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    try:
        if prop in ('P01', 'P02'):
            viol, cov, assume = types(prop)
        else:
            import analyse
            viol, cov, assume = analyse.check(prop, tier)
    except Exception as e:
        # no answer: neither that the property holds nor that it does not
        traceback.print_exc()
        print('%s: the analysis could not be completed: %s' % (prop, e))
        return 2
    known = known_findings()
    out = []
    for key, msg in viol:
        k = known.get((prop, key))
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        else:
            out.append((key, msg))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
                   'coverage': cov, 'assumptions': assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(out)}, f, indent=1)
    if out:
        rp = os.path.join(ROOT, 'evidence', prop + '.violation.txt')
        with open(rp, 'w') as f:
            for key, msg in out:
                f.write('%s: %s\n' % (key, msg))
        for key, msg in out[:20]:
            print('%s: %s' % (key, msg))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s holds (%.1f s)' % (prop, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
