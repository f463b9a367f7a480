import argparse
import collections
import importlib
import json
import multiprocessing
import os
import sys
import time

from vmon import cover

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('VMON_OUT', HERE)            # witnesses and evidence go here


def load(prop):
    return importlib.import_module('vmon.checks.' + prop.lower())


def _work(job):
    from vmon import core
    prop, kind, index, seed, tier = job
    r = core.run_case(load(prop), kind, index, seed, tier)
    r['lines'] = cover.drain()
    return r


def reached(lines, anchors, package):
    """lines executed per source file that the property is anchored in"""
    out = {}
    for name in sorted(set(anchors) | {f for f, _ in lines}):
        try:
            body = cover.executable(os.path.join(package, name))
        except (OSError, SyntaxError):
            continue
        hit = {l for f, l in lines if f == name} & body
        if name in anchors or hit:
            out[name] = '%d of %d lines inside functions%s' % (
                len(hit), len(body), ' (anchor)' if name in anchors else '')
    return out


def anchors(prop):
    try:
        with open(os.path.join(HERE, 'properties.jsonl')) as fh:
            for l in fh:
                d = json.loads(l)
                if d['id'] == prop:
                    return [f.split('pycomplex/', 1)[1] for f in d['anchors']['files'] if 'pycomplex/' in f]
    except (OSError, ValueError, KeyError):
        pass
    return []


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    try:
        with open(path) as fh:
            return [f for f in json.load(fh)['findings'] if f['status'] == 'known']
    except FileNotFoundError:
        return []


def match(finding, prop, v):
    return (finding['property'] == prop and finding['oracle'] == v['oracle']
            and finding.get('tag', '') == v['tag']
            and finding.get('kind', v['kind']) == v['kind'])


def selftest():
    """setup: everything imports, every registered check is well formed, the oracles can say no"""
    from vmon import core, gen, ref
    import numpy as np
    with open(os.path.join(HERE, 'MANIFEST.json')) as fh:
        checks = json.load(fh)['checks']
    for c in checks:
        m = load(c['property'])
        assert m.PROP == c['property'] and set(m.PLAN['quick']) <= set(m.CASES), c
    d = dict(cells=gen.kuhn((2, 2), False), kind='simplex')
    T = gen.build_topology(d)
    mon = core.Mon('self', 'self', 0, 0)
    assert ref.check_incidence(mon, T) and not mon.violations
    T.matrices[1].data[0] *= -1
    assert not ref.check_incidence(mon, T) and mon.violations
    print('selftest ok: %d checks' % len(checks))
    return 0


def main():
    ap = argparse.ArgumentParser(prog='check')
    ap.add_argument('prop', nargs='?')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--kind')
    ap.add_argument('--index', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VMON_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()

    repo = os.path.realpath(os.environ.get('VMON_REPO', '/repo'))
    import pycomplex
    if not os.path.realpath(pycomplex.__file__).startswith(repo + os.sep):
        print('ERROR: imported %s, not the tree in %s' % (pycomplex.__file__, repo))
        return 2
    import warnings
    warnings.simplefilter('ignore')
    from vmon import core
    package = os.path.dirname(os.path.realpath(pycomplex.__file__))
    cover.start(package)

    if a.replay:
        with open(a.replay) as fh:
            w = json.load(fh)
        r = core.run_case(load(w['property']), w['kind'], w['index'], w['seed'], w['tier'])
        print(json.dumps(dict(violations=r['violations'], notes=r['notes'], error=r['error']), indent=1))
        return 1 if r['violations'] else 2 if r['error'] else 0

    if a.selftest:
        return selftest()
    prop = a.prop.upper()
    t0 = time.time()
    module = load(prop)
    tier = a.tier
    plan = module.PLAN[tier] if tier in module.PLAN else module.PLAN['quick']
    if a.kind:
        plan = {a.kind: plan.get(a.kind, 1)}
    jobs = [(prop, k, i, a.seed, tier) for k, n in plan.items() for i in range(n)]
    if a.index is not None:
        jobs = [(prop, k, a.index, a.seed, tier) for k in plan]

    counts, skips, walls = collections.Counter(), collections.Counter(), collections.Counter()
    states, violations, errors, samples, done, lines = set(), [], [], [], 0, set()
    limit = float(os.environ.get('VMON_LIMIT', '780' if tier == 'quick' else '20000'))
    truncated = False

    def absorb(r):
        nonlocal done
        done += 1
        counts.update(r['counts'])
        skips.update(r['skips'])
        walls[r['kind']] += r['wall']
        states.update(r['states'])
        lines.update(r['lines'])
        violations.extend(r['violations'])
        if r['error']:
            errors.append('%s[%d]: %s' % (r['kind'], r['index'], r['error']))
        if r['notes'] and sum(1 for s in samples if s['kind'] == r['kind']) < 2:
            samples.append(dict(kind=r['kind'], index=r['index'], inputs=r['notes'][:4],
                                observed={k: r['counts'][k] for k in sorted(r['counts'])}))

    if a.jobs <= 1 or len(jobs) <= 1:
        for j in jobs:
            absorb(_work(j))
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(a.jobs, maxtasksperchild=400) as pool:
            it = pool.imap_unordered(_work, jobs, chunksize=1)
            try:
                for _ in jobs:
                    if any(v['oracle'] == 'terminates' for v in violations):
                        limit = min(limit, time.time() - t0 + 30)
                    elif violations and tier == 'quick':
                        limit = min(limit, max(240., time.time() - t0 + 5))
                    absorb(it.next(timeout=max(1., limit - (time.time() - t0))))
            except multiprocessing.TimeoutError:
                truncated = True
                pool.terminate()

    # verdict
    findings = known_findings()
    new, known = [], collections.OrderedDict()
    for v in violations:
        f = next((f for f in findings if match(f, prop, v)), None)
        if f is None:
            new.append(v)
        else:
            known.setdefault(f['id'], [f, 0])[1] += 1

    for f, n in known.values():
        print('KNOWN-FINDING: property=%s %s (%d observations)' % (prop, f['what'], n))

    os.makedirs(os.path.join(OUT, 'witness'), exist_ok=True)
    groups = collections.OrderedDict()
    for v in new:
        groups.setdefault((v['oracle'], v['tag']), []).append(v)
    for n, ((oracle, tag), vs) in enumerate(groups.items()):
        v = min(vs, key=lambda v: (v['kind'], v['index']))
        name = '%s-%d.json' % (prop, n)
        path = os.path.join(OUT, 'witness', name)
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, oracle=oracle, tag=tag, kind=v['kind'], index=v['index'], seed=a.seed,
                           tier=tier, label=v['label'], detail=v['detail'], occurrences=len(vs),
                           replay='./check --replay witness/%s' % name), fh, indent=1)
        print('  oracle %s%s: %d occurrences, first in %s[%d] %s' % (
            oracle, '(%s)' % tag if tag else '', len(vs), v['kind'], v['index'], v['label']))
        if a.v:
            for k, x in v['detail'].items():
                print('     %s: %s' % (k, x.replace('\n', '\n        ')))
        print('VIOLATION property=%s replay=%s' % (prop, path))

    required = getattr(module, 'REQUIRED', {}) if not (a.kind or a.index is not None) else {}
    starved = {k: counts.get(k, 0) for k, n in required.items() if counts.get(k, 0) < n}

    evidence = dict(
        property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=a.seed, level='exploration',
        coverage=dict(
            evaluations=int(sum(counts.values())),
            distinct_nontrivial=len(states),
            rule=module.RULE,
            samples=samples[:12],
            cases_run=done, cases_planned=len(jobs),
            observations_per_oracle={k: counts[k] for k in sorted(counts)},
            skipped={k: skips[k] for k in sorted(skips)},
            known_findings_observed={k: n for k, (f, n) in known.items()},
            truncated_by_time_limit=truncated,
            code_reached=reached(lines, anchors(prop), package),
        ),
        assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 3),
        violations=len(new),
    )
    if not (a.kind or a.index is not None):
        with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1, sort_keys=False)

    if os.environ.get('VMON_COVER'):
        with open(os.environ['VMON_COVER'], 'w') as fh:
            json.dump(sorted(lines), fh)

    for e in errors[:5]:
        print('HARNESS ERROR', e)
    if a.v:
        for k in sorted(counts):
            print('   %8d  %s' % (counts[k], k))
        for k in sorted(skips):
            print('   %8d  skipped: %s' % (skips[k], k))
        print('   wall per kind:', {k: round(v, 1) for k, v in walls.items()})
    print('%s %s seed=%d: %d cases, %d observations, %d distinct states, %d violations, %.1fs' % (
        prop, tier, a.seed, done, sum(counts.values()), len(states), len(new), time.time() - t0))
    if new:
        return 1
    if errors:
        return 2
    if starved or truncated:
        print('INCONCLUSIVE: %s' % (starved or 'time limit reached'))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
