"""C11 regular grid metrics and duals"""
import itertools
import math

import numpy as np
from vmon import gen, geo, many, ref

PROP = 'C11'
RULE = ('axis-aligned box complexes of dimension 1-4: rectilinear grids with random spacings, facet-connected subsets, grids with holes, cubical subdivisions, scaled and '
        'shifted, with random vertex numbering, cell order and corner order; every element and every clipped dual cell is measured box by box; a state is one '
        '(cells, positions) pair')
REQUIRED = {'copies': 10, 'primal-metric': 100, 'dual-metric': 100, 'tiling': 30, 'diamond': 60, 'hodge': 60, 'closed-dual-metric': 40, 'primal-position': 60, 'dual-position': 30}


def rectilinear(rng, n=None, small=False):
    """dict(cells, x, n, name) of a box complex"""
    n = int(n or rng.integers(1, 5))
    hi = {1: 9, 2: 5, 3: 4, 4: 3}[n]
    shape = tuple(int(v) for v in rng.integers(1, hi, n))
    cells = gen.cube_grid(shape)
    uniform = rng.random() < .4
    ticks = [np.concatenate([[0], np.cumsum(np.ones(s) if uniform else rng.uniform(.2, 2, s))]) for s in shape]
    x = np.array(list(itertools.product(*ticks)), float).reshape(-1, n)
    name = 'grid'
    if len(cells) > 2 and rng.random() < .6:
        if rng.random() < .6:
            keep = gen.facet_connected_subset(rng, 'cube', cells, int(rng.integers(1, len(cells))))
            name = 'subset'
        else:
            keep = np.setdiff1d(np.arange(len(cells)), rng.integers(len(cells), size=2))
            name = 'hole'
        cells, u = gen.compact(cells[keep])
        x = x[u]
    scale = 10. ** rng.uniform(-4, 4)
    x = (x + rng.normal(size=n) * rng.choice([0, 1, 30])) * scale
    if rng.random() < .7:
        d = gen.scramble_cubical(rng, dict(cells=gen.orient(cells, 'cube'), points=x, kind='cube'))
        cells, x = d['cells'], np.ascontiguousarray(d['points'])
        name += '-scrambled'
    else:
        cells = gen.orient(cells, 'cube')
    return dict(cells=cells, x=x, n=n, name='%s-%s' % (name, shape))


def build(d):
    from pycomplex.complex.regular import ComplexRegular1, ComplexRegular2, ComplexRegular3, ComplexRegular4
    cls = [ComplexRegular1, ComplexRegular2, ComplexRegular3, ComplexRegular4][d['n'] - 1]
    return cls(vertices=d['x'].copy(), cubes=d['cells'].copy())


def boxes(x, E):
    p = x[ref.flat(np.asarray(E))]
    return p.min(1), p.max(1)


def reference(x, E, dim=None):
    """primal measures and clipped dual measures per primal element of a box complex of dimension `dim`"""
    N = len(E) - 1
    P, lo, hi = [], [], []
    for k in range(N + 1):
        a, b = boxes(x, E[k])
        lo.append(a), hi.append(b)
        ext = np.sort(b - a, axis=1)
        P.append(ext[:, ext.shape[1] - k:].prod(axis=1))
    D = []
    cells = ref.flat(np.asarray(E[N]))
    cext = hi[N] - lo[N]
    for k in range(N + 1):
        byset = {tuple(sorted(e)): i for i, e in enumerate(ref.flat(np.asarray(E[k])).tolist())}
        out = np.zeros(len(E[k]))
        for pos in ref.subface_positions('cube', N, k):
            sub = np.sort(cells[:, list(pos)], axis=1)
            idx = np.array([byset[tuple(s)] for s in sub.tolist()])
            fext = hi[k][idx] - lo[k][idx]
            # axes along which the cell extends but the face does not
            other = (cext > 1e-6 * cext.max()) & ~(fext > 1e-6 * cext.max())
            out += np.bincount(idx, np.where(other, cext / 2, 1.).prod(axis=1), len(out))
        D.append(out)
    return P, D


def observe(mon, C, tag=''):
    T, x = C.topology, C.vertices
    E = T.elements
    N = T.n_dim
    P, D = reference(x, E)
    PM, DM = C.primal_metric, C.dual_metric
    mon.eq('metric-length', [len(PM), len(DM)], [N + 1] * 2, tag=tag)
    total = P[N].sum()
    for k in range(N + 1):
        mon.close('primal-metric', PM[k], P[k], 1e-9, tag=tag, k=k)
        mon.close('dual-metric', DM[N - k], D[k], 1e-9, tag=tag, k=k)
        mon.close('diamond', (PM[k] * DM[N - k]).sum(), math.comb(N, k) * total, 1e-9, tag=tag, k=k)
        mon.close('hodge', C.hodge_DP[k], D[k] / P[k], 1e-9, tag=tag, k=k)
        mon.close('hodge', C.hodge_PD[k], P[k] / D[k], 1e-9, tag=tag, k=k)
        mon.close('primal-position', C.primal_position[k], x[ref.flat(np.asarray(E[k]))].mean(1), 1e-12, tag=tag, k=k)
    mon.close('tiling', DM[N].sum(), total, 1e-9, tag=tag)
    mon.check('flags', C.positive_dual_metric and C.is_well_centered and C.is_pairwise_delaunay, tag=tag)
    mon.close('box', C.box, [x.min(0), x.max(0)], 0, tag=tag)
    B = C.boundary
    mon.eq('closed', B is None, bool(T.is_closed), tag=tag)
    DP = C.dual_position
    mon.eq('dual-position-size', [len(p) for p in DP], T.dual.n_elements, tag=tag)
    idx = [np.zeros(0, int)] * (N + 1) if B is None else [np.asarray(j) for j in B.topology.parent_idx] + [np.zeros(0, int)]
    for k in range(N + 1):
        own = C.primal_position[N - k]
        tail = C.primal_position[N - 1 - k][idx[N - 1 - k]] if k < N else own[:0]
        mon.close('dual-position', DP[k], np.concatenate([own, tail]), 1e-12, tag=tag, k=k)
    with mon.calling('dual-metric-closed', tag=tag):
        closed = C.dual_metric_closed
    mon.eq('closed-dual-size', [len(p) for p in closed], T.dual.n_elements, tag=tag)
    if B is not None:
        mon.close('boundary-position', B.vertices, x[idx[0]], 0, tag=tag)
        PB, DB = reference(B.vertices, B.topology.elements) if N > 1 else ([np.ones(len(B.vertices))], [np.ones(len(B.vertices))])
        for k in range(N):
            mon.close('closed-dual-metric', np.asarray(closed[k])[len(DM[k]):], DB[N - 1 - k], 1e-9, tag=tag, k=k)
            mon.close('boundary-metric', B.primal_metric[k], PB[k], 1e-9, tag=tag, k=k)


def k_grid(mon, rng, i):
    d = rectilinear(rng, 1 + i % 4)
    mon.note(name=d['name'], cells=len(d['cells']))
    mon.state(d['cells'], d['x'])
    C = build(d)
    observe(mon, C)
    r = rng.random()
    if r < .4 and len(d['cells']) < {1: 99, 2: 20, 3: 6, 4: 2}[d['n']]:
        F = C.subdivide_cubical()
        mon.check('type-kept', type(F) is type(C))
        with mon.label('subdivided'):
            observe(mon, F)
    elif r < .7 and len(d['cells']) > 1:
        chain = (rng.random(len(d['cells'])) < .6) * 1
        chain[rng.integers(len(chain))] = 1
        S = C.select_subset(chain)
        with mon.label('subset'):
            mon.check('type-kept', type(S) is type(C))
            mon.close('subset-volume', S.primal_metric[-1], C.primal_metric[-1][np.flatnonzero(chain)], 1e-12)
            observe(mon, S)


def k_synthetic(mon, rng, i):
    """the grids users make: n_cube_grid, cast to regular, scaled per axis"""
    from pycomplex import synthetic
    n = 1 + i % 4
    hi = {1: 9, 2: 5, 3: 4, 4: 3}[n]
    shape = tuple(int(v) for v in rng.integers(1, hi, n))
    centering = bool(rng.random() < .5)
    C = synthetic.n_cube_grid(shape, centering=centering)
    C = getattr(C, 'as_%d%d' % (n, n))().as_regular()
    s = rng.uniform(.1, 3, n) if rng.random() < .7 else float(rng.uniform(.1, 3))
    t = rng.normal(size=n)
    C = C.scale(s).translate(t)
    mon.note(name='n_cube_grid', shape=shape, scale=s)
    mon.state(shape, np.asarray(s), t, centering)
    ext = np.asarray(shape) * s
    mon.close('extent', C.box[1] - C.box[0], ext, 1e-12)
    mon.close('grid-volume', C.primal_metric[-1].sum(), np.prod(ext), 1e-9)
    observe(mon, C)


def k_many(mon, rng, i):
    many.metrics(mon, rng, 70000 if i == 0 else 600, 'regular')

def k_copies(mon, rng, i):
    T = 66000 if i < 1 else int(rng.choice([300, 1500]))
    many.duals(mon, rng, T, 'regular')


CASES = dict(grid=k_grid, synthetic=k_synthetic, many=k_many, copies=k_copies)
PLAN = dict(quick=dict(grid=960, synthetic=288, many=8, copies=8), thorough=dict(grid=2000, synthetic=400, many=80, copies=120))
