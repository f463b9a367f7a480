"""C03 boundary, interior/boundary selectors, closedness"""
import numpy as np
from vmon import gen, many, ref

PROP = 'C03'
RULE = ('consistently oriented simplicial/cubical complexes of dimension 1-4 with and without boundary, with several '
        'components, holes and non-manifold contacts; a state is one distinct cell array whose boundary was compared '
        'with the facets that a reference counts exactly once')
REQUIRED = {'copies': 20, 'boundary-facets': 20, 'closed-iff': 30, 'selector-boundary': 50, 'boundary-of-boundary': 20}


def observe(mon, rng, d):
    mon.note(name=d['name'], cells=d['cells'])
    mon.state(d['kind'], d['cells'])
    kind = d['kind']
    T = gen.build_topology(d)
    N = T.n_dim
    R = ref.RefComplex(kind, d['cells'])
    bf = R.boundary_facets()
    order = rng.random() < .5
    if order:
        closed = T.is_closed
    B = T.boundary
    mon.eq('closed-iff', bool(closed if order else T.is_closed), len(bf) == 0, name=d['name'])
    mon.check('boundary-none-iff-closed', (B is None) == (len(bf) == 0), name=d['name'])
    ones = np.ones(len(d['cells']), int)
    bchain = ref.dense(T.matrix(-1)).dot(ones)
    E = [ref.flat(e) for e in T.elements]
    on = np.array([tuple(sorted(f)) in bf for f in E[N - 1].tolist()])
    mon.eq('stokes', bchain != 0, on)

    sets = [set() for _ in range(N + 1)]
    if B is not None:
        mon.check('boundary-dim', B.n_dim == N - 1, got=B.n_dim)
        mon.check('boundary-parent', B.parent is T)
        mon.check('boundary-kind', ref.kind_of(B) == kind if N > 1 else True)
        pv = np.asarray(B.parent_idx[0])
        eb = ref.flat(B.elements[-1])
        mapped = pv[eb]
        got = [tuple(sorted(r)) for r in mapped.tolist()]
        ok = mon.check('boundary-facets', len(got) == len(bf) and set(got) == set(bf), got=got[:3], n=len(got), want=len(bf))
        mon.check('boundary-parent-idx-length', len(B.parent_idx) == N and all(
            len(x) == n for x, n in zip(B.parent_idx, B.n_elements)))
        for n in range(N):
            e = pv[ref.flat(B.elements[n])]
            mon.eq('boundary-parent-idx', np.sort(e, axis=1), np.sort(E[n][np.asarray(B.parent_idx[n])], axis=1), n=n)
            mon.check('boundary-parent-idx-unique', len(set(B.parent_idx[n])) == len(B.parent_idx[n]), n=n)
            sets[n] = set(int(x) for x in B.parent_idx[n])
        if N >= 2:
            ref.check_incidence(mon, B, kind, tag='boundary')
        # the boundary carries the induced orientation: one sign for all its facets
        if ok and N >= 2:
            cells = ref.flat(d['cells'])
            signs = []
            for r in mapped.tolist():
                c, _ = bf[tuple(sorted(r))]
                row = cells[c].tolist()
                signs.append(ref.facet_sign(kind, N, tuple(row.index(v) for v in r)))
            mon.check('boundary-induced-orientation', len(set(signs)) == 1 and signs[0] != 0, signs=signs)
            with mon.calling('boundary-of-boundary'):
                bb = B.boundary
            mon.check('boundary-of-boundary', bb is None and B.is_closed, bb=bb)
            mon.check('boundary-is-oriented', B.is_oriented)
            # signs of the boundary's own incidence agree with those of the parent
            if N >= 2:
                for n in range(N - 1):
                    p, q = np.asarray(B.parent_idx[n]), np.asarray(B.parent_idx[n + 1])
                    mon.eq('boundary-incidence', ref.dense(B.matrices[n]), ref.dense(T.matrices[n])[np.ix_(p, q)], n=n)

    # selectors split every chain in a boundary and an interior part
    want = [set() for _ in range(N + 1)]
    for n in range(N):
        onb = set()
        for f in bf:
            pass
        want[n] = boundary_faces(kind, E, n, bf, N)
        mon.check('boundary-closure', sets[n] == want[n], n=n)
    for name, sel in (('selector-boundary', T.selector_boundary), ('selector-interior', T.selector_interior)):
        mon.check(name + '-length', len(sel) == N + 1)
        for n in range(N + 1):
            idx = sorted(want[n]) if name == 'selector-boundary' else sorted(set(range(len(E[n]))) - want[n])
            S = sel[n]
            W = np.zeros((len(idx), len(E[n])), int)
            W[np.arange(len(idx)), idx] = 1
            mon.eq(name, ref.dense(S), W, n=n)


def boundary_faces(kind, E, n, bf, N):
    """indices of n-elements contained in some boundary facet"""
    inb = set()
    if not bf:
        return inb
    for f in bf:
        # facets are sorted tuples; their sub-faces are recognised as faces whose corner set is contained in it
        inb.add(frozenset(f))
    byv = {}
    for s in inb:
        for v in s:
            byv.setdefault(v, []).append(s)
    out = set()
    for k, e in enumerate(E[n].tolist()):
        es = frozenset(e)
        if any(es <= s for s in byv.get(e[0], ())):
            out.add(k)
    return out


def k_orientable(mon, rng, i):
    observe(mon, rng, gen.random_orientable(rng))


def k_high(mon, rng, i):
    observe(mon, rng, gen.random_orientable(rng, n=5, small=True))


def k_lowdim(mon, rng, i):
    observe(mon, rng, gen.random_orientable(rng, n=1 + i % 2))


def k_big(mon, rng, i):
    n = 2 + i % 2
    if i % 4 < 2:
        cells, pts = gen.delaunay(rng, n, 300 if n == 2 else 80)
        d = dict(cells=gen.orient(cells), kind='simplex', name='big', points=pts)
        d = gen.scramble_simplicial(rng, d)
    else:
        d = dict(cells=gen.cube_grid((9, 11) if n == 2 else (4, 5, 3)), kind='cube', name='big', points=None)
        d = gen.scramble_cubical(rng, d)
    observe(mon, rng, d)


def k_many(mon, rng, i):
    many.boundary(mon, rng, 600)


def k_many_large(mon, rng, i):
    many.boundary(mon, rng, 70000)


CASES = dict(orientable=k_orientable, lowdim=k_lowdim, high=k_high, big=k_big, many=k_many, many_large=k_many_large)
PLAN = dict(quick=dict(orientable=1440, lowdim=480, high=40, big=4, many=6, many_large=1), thorough=dict(orientable=3000, lowdim=600, high=200, big=40, many=40, many_large=6))
