"""tools/addfinding.py PROP ORACLE STATUS COMMIT TEXT...: append one finding"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, 'known_findings.json')
d = json.load(open(path))
prop, oracle, status, commit = sys.argv[1:5]
what = ' '.join(sys.argv[5:])
n = 1 + max(int(f['id'][1:]) for f in d['findings'])
d['findings'].append(dict(id='F%02d' % n, property=prop, oracle=oracle, status=status, commit=commit,
                          what='fixed: property=%s %s %s' % (prop, commit, what) if status == 'fixed' else what))
json.dump(d, open(path, 'w'), indent=1)
