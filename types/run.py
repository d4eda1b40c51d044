"""Type-checks the witnesses against /repo's current tree."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import types_cases as cases

TOOL = '1.90.0'


def env():
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
    return e


class Broken(Exception):
    pass


def build(target):
    """Builds the crate; returns (papaya, seize) metadata files and the dependency directory."""
    # the crate under test is always compiled anew
    subprocess.run('rm -rf %s/debug/.fingerprint/papaya-*' % target, shell=True)
    p = subprocess.run(['cargo', 'check', '--offline', '--locked', '--quiet', '--message-format=json', '--target-dir', target],
                       cwd=os.path.join(ROOT, 'harness'), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise Broken('cargo check failed: ' + p.stderr[-2000:])
    art = {}
    for l in p.stdout.splitlines():
        d = json.loads(l)
        if d.get('reason') == 'compiler-artifact':
            art[d['target']['name']] = [f for f in d['filenames'] if f.endswith('.rmeta')]
    return art['papaya'][0], art['seize'][0], os.path.join(target, 'debug', 'deps')


def compile(src, art, tmp, name):
    f = os.path.join(tmp, name + '.rs')
    open(f, 'w').write(src)
    p = subprocess.run(['rustc', '--edition=2021', '--crate-type=lib', '--emit=metadata', '--error-format=json', '-A', 'warnings',
                        '--extern', 'papaya=' + art[0], '--extern', 'seize=' + art[1], '-L', 'dependency=' + art[2],
                        '-o', os.path.join(tmp, name + '.rmeta'), f],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for l in p.stderr.splitlines():
        if not l.startswith('{'):
            continue
        d = json.loads(l)
        if d.get('level') != 'error' or not d.get('spans'):
            if d.get('level') == 'error' and not d['message'].startswith('aborting') and 'errors' not in d['message']:
                errs.append((0, None, d['message']))
            continue
        line = [s['line_start'] for s in d['spans'] if s['is_primary'] and s['file_name'] == f] or \
               [s['line_start'] for s in d['spans'] if s['file_name'] == f] or [0]
        code = d['code']['code'] if d.get('code') else ('lifetime' if 'lifetime may not live' in d['message'] else None)
        errs.append((line[0], code, d['message']))
    return p.returncode, errs


def layout(cs, which):
    """One function per line."""
    lines = cases.PRE.split('\n')
    pos = {}
    for c in cs:
        lines.append('fn %s_() { %s }' % (c[0], c[2 + which]))
        pos[len(lines)] = c[0]
    return '\n'.join(lines) + '\n', pos


def run(prop):
    cs = [c for c in cases.cases() if c[1] == prop]
    viol = []
    tmp = tempfile.mkdtemp(prefix='papaya-types-')
    try:
        art = build(os.path.join(ROOT, 'build', 'types'))
        src, pos = layout(cs, 1)
        rc, errs = compile(src, art, tmp, 'accept')
        bad = set()
        for line, code, msg in errs:
            n = pos.get(line, '?')
            bad.add(n)
            viol.append(('twin:' + n, 'a program that must compile is rejected: %s: %s' % (dict((c[0], c[3]) for c in cs).get(n, ''), msg)))
        src, pos = layout(cs, 0)
        rc, errs = compile(src, art, tmp, 'reject')
        got = {}
        for line, code, msg in errs:
            got.setdefault(pos.get(line, '?'), []).append((code, msg))
        ok = 0
        for c in cs:
            e = got.get(c[0], [])
            if not e:
                viol.append(('witness:' + c[0], 'a program that must be rejected compiles: ' + c[2]))
            elif any(code not in c[4] for code, _ in e):
                viol.append(('witness:' + c[0], 'rejected for another reason: %s: %s' % (c[2], e[0])))
            else:
                ok += 1
        for e in got.get('?', []):
            viol.append(('witness:unplaced', str(e)))
    finally:
        subprocess.run(['rm', '-rf', tmp])
    return {'cases': [c[0] for c in cs], 'rejected': ok, 'accepted': len(cs) - len(bad), 'viol': viol,
            'samples': [{'id': c[0], 'must_not_compile': c[2], 'must_compile': c[3], 'codes': sorted({x for x, _ in got.get(c[0], [])}, key=str)} for c in cs[:3]]}


if __name__ == '__main__':
    r = run(sys.argv[1])
    print(len(r['cases']), r['rejected'], r['accepted'])
    for v in r['viol']:
        print(v)
