"""Planting of bugs in scratch copies.

    seed.py make SPEC.py        write seeded/<id>/ for every entry of SEEDS in SPEC.py
    seed.py test ID... [--all]  demo on clean and patched copy, stable tests, and the checks (of the property, or all of them)

Runs in a copy bind-mounted over /repo in a user namespace of its own: the real /repo is not touched."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the property holds; 1: it does not
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = '''import sys
sys.path.insert(0, '.')
import numpy as np

'''


def make(path):
    ns = {}
    exec(compile(open(path).read(), path, 'exec'), ns)
    ids = []
    for s in ns['SEEDS']:
        d = os.path.join(SEEDED, s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tmp = tempfile.mkdtemp(dir='/tmp')
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
            for f, old, new in s['edits']:
                p = os.path.join(tmp, 'r', 'pycomplex', f)
                t = open(p, newline='').read()
                if '\r\n' in t:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                open(p, 'w', newline='').write(t.replace(old, new))
            diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff'])
        finally:
            shutil.rmtree(tmp)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].strip() + '\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ids.append(s['id'])
    return ids


def inside(copy, cmd, timeout=900):
    """run cmd with the copy mounted over /repo"""
    rep = copy + '.rep'
    os.makedirs(rep, exist_ok=True)
    full = 'mount --bind %s /repo && mkdir -p /opt/testreports && mount --bind %s /opt/testreports && cd /repo && %s' % (copy, rep, cmd)
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def test(i, everything=False, tests=True):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    copy = tmp + '/repo'
    out = [i]
    try:
        subprocess.check_call(['cp', '-a', '/repo', copy])
        r = inside(copy, 'bash %s/demo.sh' % d, 300)
        out.append('clean demo %d%s' % (r.returncode, '' if r.returncode == 0 else ' BAD ' + r.stdout[-600:]))
        subprocess.check_call(['git', '-C', copy, 'apply', d + '/patch.diff'])
        r = inside(copy, 'bash %s/demo.sh' % d, 300)
        out.append('patched demo %d%s: %s' % (r.returncode, '' if r.returncode else ' BAD', r.stdout.strip()[-160:]))
        if tests:
            inside(copy, 'bash /opt/vp/test.sh %s/o.json' % tmp)
            o, b = json.load(open(tmp + '/o.json')), json.load(open('/opt/vp/BASELINE.json'))
            missing = set(b['stable']) - set(o['passed'])
            out.append('tests %s' % ('ok' if not missing else 'BAD %s' % sorted(missing)[:4]))
        props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')] if everything else [meta['property']]
        for p in props:
            if not os.path.exists('%s/vmon/checks/%s.py' % (HERE, p.lower())):
                continue
            r = inside(copy, 'VMON_OUT=%s/out %s/check %s quick' % (tmp, HERE, p))
            v = re.findall(r'oracle (\S+): (\d+) occ', r.stdout)
            if r.returncode or not everything:
                out.append('%s exit %d %s' % (p, r.returncode, 'caught by ' + ', '.join('%s x%s' % q for q in v) if r.returncode == 1 else 'MISSED' if r.returncode == 0 else r.stdout[-300:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return '\n    '.join(out)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ids = make(sys.argv[2])
        if '--test' not in sys.argv:
            sys.exit()
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: test(i, '--all' in sys.argv, '--no-tests' not in sys.argv), ids):
            print(r, flush=True)
