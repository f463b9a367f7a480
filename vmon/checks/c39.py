"""C39: every public query answers, or refuses on purpose"""
import json
import os
import numpy as np
from . import c36
from .. import gen
from ..purity import attributes, outcome, run

PROP = 'C39'
RULE = ('simplicial, spherical, cubical, regular and bare topological objects of dimension 1 to 4, open and closed, embedded in spaces of any dimension, with and without weights, and the boundaries, duals, '
        'copies and subdivisions derived from them; every public query without required arguments (found by reflection) and every query with arguments is asked once, in random order, of one object; '
        'a state is one query of one kind of object (type, dimension, codimension)')
REQUIRED = {'answers': 3000, 'parameterised': 500}
ROOTS = ['', 'topology', 'topology.dual', 'boundary', 'copy', 'subdivide_cubical', 'subdivide_fundamental', 'subdivide_simplicial', 'topology.boundary', 'topology.subdivide_cubical']
# deliberate refusals
REFUSALS = {'AssertionError', 'NotImplementedError', 'ManifoldException'}
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'answers.json')
_table = None


def table():
    """queries that a kind of object does not support, with the way in which it shows (casts to other dimensions, queries of points by objects without volume, ...)"""
    global _table
    if _table is None:
        with open(TABLE) as fh:
            _table = json.load(fh)
    return _table


def signature(o):
    T = getattr(o, 'topology', o)
    n = getattr(T, 'n_dim', None)
    v = getattr(o, 'vertices', None)
    e = '' if v is None else ' in %d' % v.shape[1]
    return '%s %s%s' % (type(o).__name__, n, e)


def observe(mon, o, name, query, f, oracle='answers'):
    key = '%s: %s' % (signature(o), query)
    v = outcome(f)[0]
    raised = v[1] if v[0] == 'raises' else None
    mon.state(key)
    allowed = table().get(key, [])
    mon.check(oracle, raised is None or raised in REFUSALS or raised in allowed, tag=query, object=name, kind=signature(o), query=query, raised=raised, otherwise=allowed)
    return key, raised


def trivial(o):
    T = getattr(o, 'topology', o)
    return getattr(T, 'n_dim', 1) == 0                       # points; queries of these are outside the property


def large(o):
    T = getattr(o, 'topology', o)
    return max(getattr(T, 'n_elements', None) or [0]) > 600


def survey(mon, rng, build, name, roots, params, record):
    for prefix in roots:
        v, o = outcome(lambda: run(build(), prefix) if prefix else build())
        if o is None or trivial(o) or large(o):
            continue
        names = [a for a, _ in attributes(o, c36.SKIP) if a not in c36.SLOW or rng.random() < .1]
        for i in rng.permutation(len(names)):
            a = names[i]
            record(observe(mon, o, name, a, lambda: run(o, a)))
    K = build()
    for i in rng.permutation(len(params)):
        q, f, args = params[i]
        record(observe(mon, K, name, q + '(...)', lambda: f(K, *args), 'parameterised'))


def case_complex(mon, rng, i, record=lambda r: None):
    name, build, family = c36.objects(rng)
    mon.label(name)
    K = build()
    if trivial(K):
        return
    roots = [''] + [ROOTS[k] for k in rng.permutation(np.arange(1, len(ROOTS)))[:3]]
    survey(mon, rng, build, name, roots, c36.parameters(rng, K, family), record)


def case_topology(mon, rng, i, record=lambda r: None):
    d = gen.random_orientable(rng, small=True)
    if d['cells'].ndim < 2 or d['cells'].shape[1] < 2:
        return
    two = d['kind'] == 'simplex' and d['cells'].shape[1] == 3 and rng.random() < .5
    build = lambda: gen.build_topology(dict(d, cells=d['cells'].copy())).as_2() if two else gen.build_topology(dict(d, cells=d['cells'].copy()))
    survey(mon, rng, build, d['name'], ['', 'dual', 'boundary', 'subdivide_cubical', 'subdivide_fundamental'], [], record)


CASES = dict(complex=case_complex, topology=case_topology)
PLAN = dict(quick=dict(complex=360, topology=160), thorough=dict(complex=5000, topology=1500))


def learn(n=3000):
    """development only: rewrite the table from the present tree"""
    import collections
    import multiprocessing
    t = collections.defaultdict(set)
    with multiprocessing.Pool(8) as p:
        for part in p.imap_unordered(_learn, range(n), chunksize=20):
            for k, r in part:
                t[k].add(r)
    with open(TABLE, 'w') as fh:
        json.dump({k: sorted(v) for k, v in sorted(t.items())}, fh, indent=0)


def _learn(i):
    from .. import core
    global _table
    _table = {}
    out = []

    def record(r):
        if r[1] and r[1] not in REFUSALS:
            out.append(r)
    mon = core.Mon('C39', 'learn', i, 0)
    for f in (case_complex, case_topology) if i % 3 == 0 else (case_complex,):
        f(mon, np.random.default_rng([77, i]), i, record)
    return out
