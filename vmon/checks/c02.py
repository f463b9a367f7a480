"""C02 orientation: fix_orientation / is_oriented / relative_parity"""
import numpy as np
from vmon import gen, many, ref

PROP = 'C02'
RULE = ('orientable and non-orientable simplicial/cubical complexes of dimension 1-4, connected or not, with loose cells, '
        'whose cells are given in random corner order; a state is one distinct cell array whose parity an independent '
        'flood-fill oracle compared')
REQUIRED = {'copies': 20, 'fixed-is-consistent': 20, 'parity-resolves': 20, 'is-oriented-iff': 30, 'nonorientable-rejected': 10}


def build(mon, d):
    mon.note(name=d['name'], cells=d['cells'])
    mon.state(d['kind'], d['cells'])
    return gen.build_topology(d)


def parity_signs(p):
    p = np.asarray(p)
    return np.where(p.astype(bool), 1, -1)


def orientable(mon, rng, d):
    T = build(mon, d)
    R = ref.RefComplex(d['kind'], d['cells'])
    ok, sign = R.orient()
    assert ok
    n = len(d['cells'])
    p = T.relative_parity()
    if mon.check('parity-length', np.shape(p) == (n,), shape=np.shape(p), n=n):
        # within every connected component the parities are the flood-filled ones, up to one flip
        ratio = parity_signs(p) * sign
        lab = np.array(R.components())
        good = all(len(set(ratio[lab == l])) == 1 for l in set(lab))
        mon.check('parity-resolves', good, ratio=ratio, labels=lab)
    consistent = R.is_consistently_oriented()
    mon.eq('is-oriented-iff', bool(T.is_oriented), consistent, name=d['name'])
    F = T.fix_orientation()
    mon.check('fixed-type', type(F) is type(T), got=type(F))
    E = np.asarray(F.elements[-1])
    if mon.eq('fixed-same-cells', np.sort(ref.flat(E), axis=1), np.sort(ref.flat(d['cells']), axis=1)):
        P = ref.positions(ref.flat(d['cells']), ref.flat(E))
        s = [ref.parity_of_cell(d['kind'], T.n_dim, tuple(int(v) for v in r)) for r in P]
        mon.check('fixed-cells-are-cells', 0 not in s, s=s)
        RF = ref.RefComplex(d['kind'], E)
        mon.check('fixed-is-consistent', RF.is_consistently_oriented(), cells=E)
    mon.check('fixed-reports-oriented', F.is_oriented)
    ref.check_incidence(mon, F, d['kind'], tag='fixed')
    # fixing is idempotent up to a flip of whole components
    G = F.fix_orientation()
    mon.check('fix-idempotent', ref.RefComplex(d['kind'], G.elements[-1]).is_consistently_oriented() and G.is_oriented)


def k_simplicial(mon, rng, i):
    d = gen.random_simplicial(rng)
    d['kind'] = 'simplex'
    d = gen.scramble_simplicial(rng, d)
    m = rng.integers(3)
    if m == 1:
        d['cells'] = gen.random_permutations(rng, d['cells'])
    elif m == 2 and len(d['cells']) > 1:
        s = np.ones(len(d['cells']), int)          # exactly one cell is turned over
        s[rng.integers(len(s))] = -1
        d['cells'] = gen.apply_signs(d['cells'], s)
    orientable(mon, rng, d)


def k_cubical(mon, rng, i):
    d = gen.random_cubical(rng)
    d['kind'] = 'cube'
    d = gen.scramble_cubical(rng, d)
    m = rng.integers(3)
    if m == 1:
        d['cells'] = gen.random_cube_symmetries(rng, d['cells'], proper=False)
    elif m == 2 and len(d['cells']) > 1:
        s = np.ones(len(d['cells']), int)
        s[rng.integers(len(s))] = -1
        d['cells'] = gen.apply_signs(d['cells'], s, 'cube')
    orientable(mon, rng, d)


def k_high(mon, rng, i):
    """more dimensions than anyone draws"""
    d = gen.random_orientable(rng, n=5, small=True)
    if rng.random() < .7:
        d['cells'] = gen.random_permutations(rng, d['cells']) if d['kind'] == 'simplex' else gen.random_cube_symmetries(rng, d['cells'], proper=False)
    orientable(mon, rng, d)


def k_loose(mon, rng, i):
    """several components, some of them single cells"""
    n = int(rng.integers(1, 4))
    if i % 2:
        parts = [np.arange(n + 1)[None] for _ in range(int(rng.integers(1, 3)))]
        for _ in range(int(rng.integers(1, 3))):
            parts.append(gen.random_simplicial(rng, n, True)['cells'])
        kind = 'simplex'
    else:
        parts = [gen.cube_grid((1,) * n) for _ in range(int(rng.integers(1, 3)))]
        for _ in range(int(rng.integers(1, 3))):
            parts.append(gen.random_cubical(rng, n, True)['cells'])
        kind = 'cube'
    cells = gen.disjoint(*[parts[j] for j in rng.permutation(len(parts))])
    d = dict(cells=cells, kind=kind, name='loose-%s-%d' % (kind, n), points=None)
    d = (gen.scramble_simplicial if kind == 'simplex' else gen.scramble_cubical)(rng, d)
    if rng.random() < .5:
        d['cells'] = gen.random_permutations(rng, d['cells']) if kind == 'simplex' else \
            gen.random_cube_symmetries(rng, d['cells'], False)
    orientable(mon, rng, d)


def k_nonorientable(mon, rng, i):
    d = gen.nonorientable(rng)
    T = build(mon, d)
    mon.raises('nonorientable-rejected', ValueError, T.relative_parity, name=d['name'])
    mon.raises('nonorientable-rejected', ValueError, T.fix_orientation, name=d['name'])
    mon.raises('nonorientable-no-boundary', ValueError, lambda: T.boundary, name=d['name'])
    mon.raises('nonorientable-no-dual', ValueError, lambda: T.dual, name=d['name'])
    try:
        r = T.is_oriented
    except ValueError:
        r = False
    mon.check('nonorientable-not-oriented', not r, name=d['name'])


def k_misoriented(mon, rng, i):
    """orientable but not consistently oriented: no boundary, no dual"""
    d = gen.random_orientable(rng)
    R = ref.RefComplex(d['kind'], d['cells'])
    lab = np.array(R.components())
    big = np.flatnonzero(np.bincount(lab)[lab] > 1)
    if not len(big):
        mon.skip('no component with two cells')
        return
    s = np.ones(len(lab), int)
    s[rng.choice(big)] = -1
    d['cells'] = gen.apply_signs(d['cells'], s, d['kind'])
    T = build(mon, d)
    mon.check('misoriented-detected', not T.is_oriented, name=d['name'])
    mon.raises('misoriented-no-boundary', ValueError, lambda: T.boundary, name=d['name'])
    mon.raises('misoriented-no-dual', ValueError, lambda: T.dual, name=d['name'])


def k_many(mon, rng, i):
    many.orientation(mon, rng, 600)


def k_many_large(mon, rng, i):
    many.orientation(mon, rng, 70000)


CASES = dict(simplicial=k_simplicial, cubical=k_cubical, loose=k_loose, high=k_high, nonorientable=k_nonorientable, misoriented=k_misoriented, many=k_many, many_large=k_many_large)
PLAN = dict(quick=dict(simplicial=720, cubical=720, loose=480, high=40, nonorientable=360, misoriented=480, many=6, many_large=1),
            thorough=dict(high=200, simplicial=1200, cubical=1200, loose=800, nonorientable=500, misoriented=800, many=40, many_large=6))
