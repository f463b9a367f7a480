"""C05 subsets, components, manifoldness"""
import numpy as np
from vmon import gen, many, ref

PROP = 'C05'
RULE = ('random complexes (also non-orientable, non-manifold and disconnected) with random cell selections, nested '
        'selections and component splits; a state is one distinct (cells, selection) pair')
REQUIRED = {'copies': 20, 'subset-cells': 50, 'components': 30, 'regions-per-vertex': 30, 'subset-parent-idx': 100}


def any_topology(rng, small=False):
    r = rng.random()
    if r < .15:
        return gen.nonorientable(rng)
    d = gen.random_orientable(rng, small=small)
    if r < .4:
        d['cells'] = (gen.random_permutations(rng, d['cells']) if d['kind'] == 'simplex'
                      else gen.random_cube_symmetries(rng, d['cells'], False))
    return d


def check_subset(mon, T, S, idx, tag=''):
    """S is T restricted to cells idx"""
    kind = ref.kind_of(T)
    E, e = [ref.flat(x) for x in T.elements], [ref.flat(x) for x in S.elements]
    mon.check('subset-type', type(S) is type(T), tag)
    mon.check('subset-parent', S.parent is T, tag)
    ref.check_incidence(mon, S, kind, tag='subset')
    P = [np.asarray(x) for x in S.parent_idx]
    pv = P[0]
    mon.eq('subset-cells', pv[e[-1]], E[-1][idx], tag)            # same cells, same order, same corner order
    for n in range(len(e)):
        if mon.eq('subset-parent-idx-length', len(P[n]), len(e[n]), tag, n=n):
            mon.eq('subset-parent-idx', np.sort(pv[e[n]], axis=1), np.sort(E[n][P[n]], axis=1), tag, n=n)
            mon.check('subset-parent-idx-unique', len(set(P[n].tolist())) == len(P[n]), tag, n=n)


def k_subset(mon, rng, i):
    d = any_topology(rng)
    T = gen.build_topology(d)
    m = T.n_elements[-1]
    chain = rng.random(m) < rng.uniform(.2, .9)
    chain[rng.integers(m)] = True
    form = rng.integers(6)
    given = [chain, chain.astype(np.int8), chain.tolist(), np.where(chain, -1, 0), np.where(chain, 256, 0), np.where(chain, .5, 0)][form]
    mon.note(name=d['name'], cells=d['cells'], chain=chain)
    mon.state(d['cells'], chain)
    before = np.array(given, copy=True)
    S = T.select_subset(given)
    mon.eq('chain-untouched', np.array(given), before)
    check_subset(mon, T, S, np.flatnonzero(chain))
    mon.raises('subset-length-checked', ValueError, lambda: T.select_subset(np.ones(m + 1, bool)))
    if m > 1:
        mon.raises('subset-length-checked', ValueError, lambda: T.select_subset(np.ones(m - 1, bool)))
    # nested
    c2 = rng.random(S.n_elements[-1]) < .6
    c2[rng.integers(len(c2))] = True
    S2 = S.select_subset(c2)
    check_subset(mon, S, S2, np.flatnonzero(c2), 'nested')
    # selecting everything changes nothing
    A = T.select_subset(np.ones(m, bool))
    for n in range(T.n_dim + 1):
        mon.eq('full-subset', np.asarray(A.elements[n]), np.asarray(T.elements[n]), n=n)


def observe_connectivity(mon, d):
    T = gen.build_topology(d)
    R = ref.RefComplex(d['kind'], d['cells'])
    lab = R.components()
    n, l = T.label_connections()
    mon.check('components', n == len(set(lab)) and ref.same_partition(l, lab), n=n, want=len(set(lab)), cells=d['cells'])
    mon.eq('is-connected', bool(T.is_connected), len(set(lab)) == 1)
    reg = R.vertex_regions()
    want = np.array([reg[v] for v in range(T.n_elements[0])])
    mon.eq('regions-per-vertex', T.regions_per_vertex, want, cells=d['cells'])
    man = bool(np.all(want == 1))
    mon.eq('is-manifold', bool(T.is_manifold), man)
    from pycomplex.topology import ManifoldException
    if man:
        with mon.calling('check-manifold'):
            T.check_manifold()
    else:
        mon.raises('check-manifold', ManifoldException, T.check_manifold)
    return T, R, lab


def k_components(mon, rng, i):
    d = any_topology(rng)
    if i % 2:
        e = any_topology(rng, True)
        if e['kind'] == d['kind'] and e['cells'].ndim == d['cells'].ndim and e['cells'].shape[1:] == d['cells'].shape[1:]:
            d['cells'] = gen.shuffle_cells(rng, gen.disjoint(d['cells'], e['cells']))
    mon.note(name=d['name'], cells=d['cells'])
    mon.state(d['cells'])
    T, R, lab = observe_connectivity(mon, d)
    comps = T.split_connected_components()
    sizes = [c.n_elements[-1] for c in comps]
    mon.check('split-sorted', sizes == sorted(sizes, reverse=True), sizes=sizes)
    mon.eq('split-count', len(comps), len(set(lab)))
    seen = []
    for c in comps:
        idx = np.asarray(c.parent_idx[-1])
        seen += idx.tolist()
        mon.check('split-is-component', len(set(lab[j] for j in idx)) == 1)
        mon.check('split-connected', c.is_connected)
        check_subset(mon, T, c, np.sort(idx), 'component')
    mon.eq('split-partition', sorted(seen), np.arange(T.n_elements[-1]))


def k_pinched(mon, rng, i):
    """non-manifold vertices: pieces that touch in a vertex or an edge"""
    n = 2 + i % 2
    a = gen.random_simplicial(rng, n, True)['cells']
    b = gen.random_simplicial(rng, n, True)['cells'] + a.max() + 1
    va = rng.choice(np.unique(a), size=1 + rng.integers(n - 1), replace=False)
    cell = b[rng.integers(len(b))]
    vb = cell[:len(va)]
    if len(va) == 2:
        ca = a[rng.integers(len(a))]
        va = ca[:2]
    for x, y in zip(va, vb):
        b[b == y] = x
    cells, _ = gen.compact(np.concatenate([a, b]))
    d = dict(cells=gen.random_permutations(rng, gen.shuffle_cells(rng, cells)), kind='simplex', name='pinched', points=None)
    mon.note(name='pinched', cells=d['cells'])
    mon.state(d['cells'])
    observe_connectivity(mon, d)


def k_double_contact(mon, rng, i):
    """pairs of cubes that share more than one facet, glued straight or with a twist"""
    which = i % 4
    if which == 0:
        cells = np.array([[[0, 1], [3, 2]], [[0, 1], [2, 3]]])             # Moebius band of two quads
    elif which == 1:
        cells = np.array([[[0, 1], [2, 3]], [[2, 3], [0, 4]]])             # share the edges 0-2 and 2-3
    elif which == 2:
        cells = np.array([[[0, 1], [3, 2]], [[0, 1], [4, 2]]])             # share 0-1 and 1-2
    else:
        c = np.array([[[0, 1], [3, 2]], [[0, 1], [2, 3]]])
        cells = np.concatenate([c, gen.quad_surface('torus')[0] + 4])
    d = dict(cells=gen.random_cube_symmetries(rng, gen.relabel(rng, cells)[0], False), kind='cube', name='double-contact')
    mon.note(name='double-contact', cells=d['cells'])
    mon.state(d['cells'])
    observe_connectivity(mon, d)


def k_crowded(mon, rng, i):
    """many loose regions that meet in one vertex, or along one edge"""
    m = int(rng.choice([1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 258, 300])) if i else 257
    if i % 3 == 2:
        c = np.arange(2, 2 + m)                             # triangles on one edge: one region for any number of them
        cells = np.stack([np.zeros_like(c), np.ones_like(c), c], axis=1)
        d = dict(cells=cells, kind='simplex', name='book', points=None)
    elif i % 3 == 1:
        c = np.arange(m) * 3
        cells = np.stack([np.zeros_like(c), c + 1, c + 2, c + 3], axis=1).reshape(-1, 2, 2)
        d = dict(cells=cells, kind='cube', name='crowded', points=None)
    else:
        n = int(rng.integers(2, 4))
        c = np.arange(m) * n
        cells = np.stack([np.zeros_like(c)] + [c + k + 1 for k in range(n)], axis=1)
        d = dict(cells=cells, kind='simplex', name='crowded', points=None)
    d['cells'] = gen.shuffle_cells(rng, gen.relabel(rng, d['cells'].astype(np.int32))[0])
    mon.note(name=d['name'], cells=d['cells'])
    mon.state(d['cells'])
    observe_connectivity(mon, d)


def k_many(mon, rng, i):
    many.connectivity(mon, rng, 600)


def k_many_large(mon, rng, i):
    many.connectivity(mon, rng, 70000)


CASES = dict(subset=k_subset, components=k_components, pinched=k_pinched, double_contact=k_double_contact, crowded=k_crowded, many=k_many, many_large=k_many_large)
PLAN = dict(quick=dict(subset=840, components=720, pinched=360, double_contact=192, crowded=9, many=6, many_large=1),
            thorough=dict(subset=1500, components=1200, pinched=400, double_contact=200, crowded=100, many=40, many_large=6))
