"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'L01': 'linearizability quantifies over concurrent histories; no sound static argument in reach decides it as a whole (its structural parts are P04-P26)',
    'L02': 'termination depends on run-time hash values and scheduling (32 keys with identical hashes make every resize fail), no static bound in reach',
    'L03': 'a statement about expected time under a workload',
    'L04': 'depends on how the run-time hashes spread over the probe sequence',
    'L05': 'depends on run-time guard lifetimes and sizes',
}
CLAIM = {
    'P01': ('compile-fail witnesses with compiling twins (type-level)', 'Decided for every listed instantiation of every shared type by the compiler itself; trusts rustc and that the listed type parameters (Send-only, Sync-only, neither, both) are representative of all types, which holds because auto-trait bounds are per parameter.'),
    'P02': ('compile-fail witnesses with compiling twins (type-level)', 'Every reference-returning method of every front end is tried against dropping, moving or refreshing what it borrows from; trusts rustc borrow checking.'),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    try:
        import sys
        sys.path.insert(0, os.path.join(ROOT, 'engine'))
        import claims
        CLAIM.update(claims.CLAIM)
        NA.update(claims.NA)
    except ImportError:
        pass
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
    for p in props:
        i = p['id']
        if i in CLAIM:
            t, n = CLAIM[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                                'technique': t, 'level': 'other', 'level_note': n})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet')})
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
