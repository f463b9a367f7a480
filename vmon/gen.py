"""Workload generators: hostile and realistic inputs for the code under test.

Every generator takes a numpy Generator and returns plain arrays; nothing here uses the code under test
except `build_*`, which calls public constructors.
"""
import itertools

import numpy as np
import scipy.spatial

from vmon import ref


# ============================================================================= simplicial cells
def compact(cells):
    """relabel vertices to a contiguous range; returns cells, old labels"""
    cells = np.asarray(cells)
    u, inv = np.unique(cells, return_inverse=True)
    return inv.reshape(cells.shape).astype(np.int32), u


def delaunay(rng, n, npts, spread=1.0):
    """random Delaunay triangulation of points in R^n, n >= 2 (n == 1: a path); returns cells, points"""
    if n == 1:
        x = np.sort(rng.uniform(0, spread, npts))
        order = rng.permutation(npts)
        inv = np.argsort(order)
        cells = np.stack([inv[:-1], inv[1:]], axis=1)
        return cells.astype(np.int32), x[order][:, None]
    p = rng.uniform(0, spread, (npts, n))
    d = scipy.spatial.Delaunay(p)
    cells, u = compact(d.simplices)
    return cells, p[u]


def relaxed_delaunay(rng, n, npts, iters=8):
    """a Delaunay triangulation with fairly regular cells"""
    p = rng.uniform(0, 1, (npts, n))
    for _ in range(iters):
        d = scipy.spatial.Delaunay(p)
        acc, cnt = np.zeros_like(p), np.zeros(npts)
        for a, b in itertools.permutations(range(n + 1), 2):
            np.add.at(acc, d.simplices[:, a], p[d.simplices[:, b]])
            np.add.at(cnt, d.simplices[:, a], 1)
        hull = np.unique(d.convex_hull)
        q = acc / np.maximum(cnt, 1)[:, None]
        q[hull] = p[hull]
        p = q
    d = scipy.spatial.Delaunay(p)
    cells, u = compact(d.simplices)
    return cells, p[u]


def sphere(rng, n, npts):
    """closed n-sphere from the hull of random points on S^n (n >= 1); returns cells, unit vectors"""
    if n == 1:
        t = np.sort(rng.uniform(0, 2 * np.pi, npts))
        p = np.stack([np.cos(t), np.sin(t)], axis=1)
        cells = np.stack([np.arange(npts), (np.arange(npts) + 1) % npts], axis=1)
        return cells.astype(np.int32), p
    p = rng.normal(size=(npts, n + 1))
    p /= np.linalg.norm(p, axis=1, keepdims=True)
    h = scipy.spatial.ConvexHull(p)
    cells, u = compact(h.simplices)
    return cells, p[u]


def grid_surface(kind, a=4, b=5):
    """triangulated a x b strip with identifications; (cells, orientable, closed, euler)"""
    def vid(i, j):
        if kind == 'torus':
            return (i % a) * b + j % b
        if kind == 'klein':
            if i >= a:
                i, j = i - a, -j
            return (i % a) * b + j % b
        if kind == 'mobius':
            if i >= a:
                i, j = i - a, b - j
            return (i % a) * (b + 1) + j
        if kind == 'annulus':
            return (i % a) * (b + 1) + j
        if kind == 'disc':
            return i * (b + 1) + j
    tris = []
    for i in range(a):
        for j in range(b):
            q = [vid(i, j), vid(i + 1, j), vid(i, j + 1), vid(i + 1, j + 1)]
            tris += [(q[0], q[1], q[2]), (q[1], q[3], q[2])]
    cells, _ = compact(np.array(tris))
    orientable = kind in ('torus', 'annulus', 'disc')
    closed = kind in ('torus', 'klein')
    euler = dict(torus=0, klein=0, mobius=0, annulus=0, disc=1)[kind]
    return cells, orientable, closed, euler


def projective_plane():
    """minimal six vertex triangulation"""
    return np.array([(0, 1, 4), (0, 1, 5), (0, 2, 3), (0, 2, 4), (0, 3, 5),
                     (1, 2, 3), (1, 2, 5), (1, 3, 4), (2, 4, 5), (3, 4, 5)], np.int32)


def kuhn(shape, periodic=True):
    """Kuhn triangulation of a box grid in any dimension; oriented"""
    n = len(shape)
    dims = shape if periodic else tuple(s + 1 for s in shape)
    cells = []
    for o in itertools.product(*[range(s) for s in shape]):
        for perm in itertools.permutations(range(n)):
            p = list(o)
            path = [tuple(p)]
            for a in perm:
                p[a] += 1
                path.append(tuple(p))
            ids = [int(np.ravel_multi_index([x % d for x, d in zip(q, dims)], dims)) for q in path]
            sgn = round(np.linalg.det(np.eye(n)[list(perm)]))
            if sgn < 0:
                ids[0], ids[1] = ids[1], ids[0]
            cells.append(ids)
    return compact(np.array(cells))[0]


def fan(n_tri):
    """closed fan of triangles around vertex 0, oriented"""
    k = np.arange(n_tri)
    return np.stack([np.zeros_like(k), 1 + k, 1 + (k + 1) % n_tri], axis=1).astype(np.int32)


def fan_points(n_tri):
    t = np.arange(n_tri) * 2 * np.pi / n_tri
    return np.vstack([[[0, 0]], np.stack([np.cos(t), np.sin(t)], axis=1)])


def suspension(n_tri):
    """closed 2-sphere as the double of a fan"""
    f = fan(n_tri)
    g = f[:, ::-1].copy()
    g[g == 0] = n_tri + 1
    return np.vstack([f, g]).astype(np.int32)


def disjoint(*parts):
    out, off = [], 0
    for c in parts:
        out.append(np.asarray(c) + off)
        off += np.max(c) + 1
    return np.concatenate(out).astype(np.int32)


# ----------------------------------------------------------------------------- perturbing the description
def relabel(rng, cells):
    """random renaming of the vertices; returns cells, perm with new = perm[old]"""
    perm = rng.permutation(int(np.max(cells)) + 1)
    return perm[cells].astype(np.int32), perm


def even_permutations(rng, cells):
    """random even re-ordering of the corners of each simplex: orientation is preserved"""
    out = cells.copy()
    k = cells.shape[1]
    if k < 3:
        return out
    for i in range(len(out)):
        p = rng.permutation(k)
        if np.linalg.det(np.eye(k)[p]) < 0:
            p[[0, 1]] = p[[1, 0]]
        out[i] = out[i, p]
    return out


def random_permutations(rng, cells):
    """any re-ordering of the corners: random orientation"""
    out = cells.copy()
    for i in range(len(out)):
        out[i] = rng.permutation(out[i])
    return out


def shuffle_cells(rng, cells):
    return cells[rng.permutation(len(cells))]


def orient(cells, kind='simplex'):
    """consistently oriented version of orientable cells"""
    R = ref.RefComplex(kind, cells)
    ok, sign = R.orient()
    assert ok
    return apply_signs(cells, sign, kind)


def apply_signs(cells, sign, kind='simplex'):
    out = np.array(cells)
    for i in np.flatnonzero(np.asarray(sign) < 0):
        if kind == 'simplex':
            out[i, [0, 1]] = out[i, [1, 0]]
        else:
            out[i] = out[i][::-1].copy()
    return out


def positively_oriented(cells, points):
    """flip simplices such that det of the edge vectors is positive (full dimensional simplices)"""
    cells = cells.copy()
    v = points[cells]
    d = np.linalg.det(v[:, 1:] - v[:, :1])
    cells[d < 0] = cells[d < 0][:, [1, 0] + list(range(2, cells.shape[1]))]
    return cells


# ============================================================================= cubical cells
def cube_grid(shape, periodic=None):
    """all cubes of a grid; periodic: bool per axis; (cells, oriented consistently)"""
    n = len(shape)
    periodic = periodic or (False,) * n
    dims = tuple(s if p else s + 1 for s, p in zip(shape, periodic))
    corners = ref.local_coords('cube', n)
    cells = []
    for o in itertools.product(*[range(s) for s in shape]):
        ids = [int(np.ravel_multi_index([(a + b) % d for a, b, d in zip(o, c, dims)], dims)) for c in corners]
        cells.append(ids)
    return np.array(cells, np.int32).reshape((-1,) + (2,) * n)


def cube_grid_points(shape):
    return np.array(list(itertools.product(*[range(s + 1) for s in shape])), float)


def cube_symmetries(n):
    """all axis permutations and flips of an n-cube, as (function, determinant)"""
    out = []
    for perm in itertools.permutations(range(n)):
        ps = round(np.linalg.det(np.eye(n)[list(perm)])) if n else 1
        for flips in itertools.product((0, 1), repeat=n):
            out.append((perm, flips, ps * (-1) ** sum(flips)))
    return out


def apply_symmetry(cell, perm, flips):
    c = np.transpose(cell, perm)
    for a, f in enumerate(flips):
        if f:
            c = np.flip(c, axis=a)
    return c


def random_cube_symmetries(rng, cells, proper=True):
    n = cells.ndim - 1
    sym = [s for s in cube_symmetries(n) if s[2] > 0 or not proper]
    out = cells.copy()
    for i in range(len(out)):
        p, f, _ = sym[rng.integers(len(sym))]
        out[i] = apply_symmetry(cells[i], p, f)
    return out


def quad_surface(kind, a=4, b=4):
    """quadrangulated strip with identifications: (cells, orientable, closed)"""
    def vid(i, j):
        if kind == 'torus':
            return (i % a) * b + j % b
        if kind == 'klein':
            if i >= a:
                i, j = i - a, -j
            return (i % a) * b + j % b
        if kind == 'mobius':
            if i >= a:
                i, j = i - a, b - j
            return (i % a) * (b + 1) + j
        if kind == 'annulus':
            return (i % a) * (b + 1) + j
    q = [[[vid(i, j), vid(i, j + 1)], [vid(i + 1, j), vid(i + 1, j + 1)]] for i in range(a) for j in range(b)]
    cells, _ = compact(np.array(q))
    return cells, kind in ('torus', 'annulus'), kind in ('torus', 'klein')


def cube_boundary_cells(n):
    """the closed (n-1)-dimensional boundary of an n-cube, oriented, n >= 2"""
    c = np.arange(2 ** n)
    out = []
    for p in ref.facet_positions('cube', n):
        f = np.array(c[list(p)]).reshape((2,) * (n - 1))
        if ref.facet_sign('cube', n, tuple(p)) < 0:
            f = f[::-1].copy()
        out.append(f)
    return compact(np.array(out))[0]


def facet_connected_subset(rng, kind, cells, m):
    """grow a random facet-connected subset of m cells"""
    R = ref.RefComplex(kind, cells)
    adj = [[] for _ in range(len(cells))]
    for l in R.facet_incidence().values():
        if len(l) == 2:
            adj[l[0][0]].append(l[1][0])
            adj[l[1][0]].append(l[0][0])
    chosen = [int(rng.integers(len(cells)))]
    front = set(adj[chosen[0]])
    while len(chosen) < m and front:
        c = sorted(front)[rng.integers(len(front))]
        front.discard(c)
        chosen.append(c)
        front.update(x for x in adj[c] if x not in chosen)
    return np.array(sorted(chosen))


# ============================================================================= catalogues
def random_simplicial(rng, n=None, small=False):
    """one orientable, consistently oriented, possibly hostile simplicial N-complex.
    returns dict(cells, n, name, points or None)"""
    n = int(n or rng.integers(1, 5))
    scale = 0.5 if small else 1
    npts = {1: 12, 2: 25, 3: 16, 4: 11, 5: 9}[n]
    npts = max(n + 2, int(npts * scale * rng.uniform(.6, 1.4)))
    kind = rng.choice(['delaunay', 'sphere', 'torus', 'subset', 'single', 'union', 'annulus', 'hole'])
    points = None
    if kind == 'torus' and n == 2:
        cells = grid_surface('torus', int(rng.integers(3, 6)), int(rng.integers(3, 6)))[0]
    elif kind == 'torus' and n == 3 and not small:
        cells = kuhn((3, 3, 3))
    elif kind == 'torus' and n == 1:
        cells = sphere(rng, 1, max(3, npts))[0]
    elif kind == 'annulus' and n == 2:
        cells = grid_surface('annulus', int(rng.integers(3, 6)), int(rng.integers(1, 4)))[0]
    elif kind == 'sphere' and n <= 3:
        cells = sphere(rng, n, max(n + 3, npts))[0]
    elif kind == 'single':
        cells = np.arange(n + 1, dtype=np.int32)[None]
    elif kind == 'union':
        parts = [random_simplicial(rng, n, True)['cells'] for _ in range(int(rng.integers(2, 4)))]
        cells = disjoint(*parts)
    else:
        cells, points = delaunay(rng, n, npts)
        if kind == 'subset' and n > 1:
            keep = facet_connected_subset(rng, 'simplex', cells, max(1, len(cells) // 2))
            cells, u = compact(cells[keep])
            points = points[u]
        elif kind == 'hole' and n > 1 and len(cells) > 6:
            keep = np.setdiff1d(np.arange(len(cells)), rng.integers(len(cells), size=2))
            cells, u = compact(cells[keep])
            points = points[u]
        else:
            kind = 'delaunay'
    cells = orient(cells)
    return dict(cells=cells, n=n, name='simplicial-%d-%s' % (n, kind), points=points)


def scramble_simplicial(rng, d):
    """relabel, shuffle, re-order corners and flip everything globally; stays consistently oriented"""
    cells, points = d['cells'], d['points']
    cells, perm = relabel(rng, cells)
    if points is not None:
        q = np.empty_like(points)
        q[perm] = points
        points = q
    cells = shuffle_cells(rng, cells)
    cells = even_permutations(rng, cells)
    if cells.shape[1] > 1 and rng.random() < .5:
        cells[:, [0, 1]] = cells[:, [1, 0]]
    return dict(d, cells=cells, points=points)


def random_cubical(rng, n=None, small=False):
    """one orientable, consistently oriented, possibly hostile cubical N-complex"""
    n = int(n or rng.integers(1, 5))
    hi = {1: 9, 2: 5, 3: 4, 4: 3, 5: 3}[n] - (1 if small else 0)
    shape = tuple(int(x) for x in rng.integers(1, hi, n))
    kind = rng.choice(['grid', 'subset', 'periodic', 'boundary', 'union', 'annulus', 'single', 'hole'])
    points = None
    if kind == 'periodic':
        per = tuple(bool(x) for x in rng.random(n) < .6)
        shape = tuple(max(s, 3) if p else s for s, p in zip(shape, per))
        if n > 4:
            per = (per[0],) + (False,) * (n - 1)
        if n >= 4:
            shape = tuple(3 if p else 1 for p in per)
        cells = cube_grid(shape, per)
    elif kind == 'boundary' and n < 5:
        cells = cube_boundary_cells(n + 1)
    elif kind == 'union':
        parts = [random_cubical(rng, n, True)['cells'] for _ in range(int(rng.integers(2, 4)))]
        cells = disjoint(*parts)
    elif kind == 'annulus' and n == 2:
        cells = quad_surface('annulus', int(rng.integers(3, 6)), int(rng.integers(1, 4)))[0]
    elif kind == 'single':
        cells = cube_grid((1,) * n)
    else:
        if n == 5:
            shape = tuple(np.where(np.arange(5) < 2, shape, 1)[rng.permutation(5)].tolist())
        cells = cube_grid(shape)
        points = cube_grid_points(shape)
        if kind == 'subset' and len(cells) > 2:
            keep = facet_connected_subset(rng, 'cube', cells, max(1, len(cells) // 2))
        elif kind == 'hole' and len(cells) > 6:
            keep = np.setdiff1d(np.arange(len(cells)), rng.integers(len(cells), size=2))
        else:
            kind, keep = 'grid', np.arange(len(cells))
        cells, u = compact(cells[keep])
        points = points[u]
    cells = orient(cells, 'cube')
    return dict(cells=cells, n=n, name='cubical-%d-%s' % (n, kind), points=points)


def scramble_cubical(rng, d):
    cells, points = d['cells'], d['points']
    cells, perm = relabel(rng, cells)
    if points is not None:
        q = np.empty_like(points)
        q[perm] = points
        points = q
    cells = shuffle_cells(rng, cells)
    cells = random_cube_symmetries(rng, cells, proper=True)
    if rng.random() < .5:
        cells = cells[:, ::-1].copy()
    return dict(d, cells=cells.astype(np.int32), points=points)


def random_orientable(rng, scrambled=True, n=None, small=False):
    if rng.random() < .5:
        d = random_simplicial(rng, n, small)
        d['kind'] = 'simplex'
        return scramble_simplicial(rng, d) if scrambled else d
    d = random_cubical(rng, n, small)
    d['kind'] = 'cube'
    return scramble_cubical(rng, d) if scrambled else d


def nonorientable(rng):
    """a non-orientable complex (possibly unioned with an orientable one)"""
    which = rng.choice(['mobius', 'klein', 'rp2', 'qmobius', 'qklein'])
    if which in ('mobius', 'klein'):
        cells, kind = grid_surface(which, int(rng.integers(4, 7)), int(rng.integers(3, 5)))[0], 'simplex'
    elif which == 'rp2':
        cells, kind = projective_plane(), 'simplex'
    else:
        cells, kind = quad_surface(which[1:], int(rng.integers(4, 6)), int(rng.integers(3, 5)))[0], 'cube'
    if rng.random() < .3:
        o = random_simplicial(rng, 2, True)['cells'] if kind == 'simplex' else random_cubical(rng, 2, True)['cells']
        cells = disjoint(cells, o)
    cells, _ = relabel(rng, cells)
    cells = shuffle_cells(rng, cells)
    cells = random_permutations(rng, cells) if kind == 'simplex' else random_cube_symmetries(rng, cells, False)
    return dict(cells=cells, kind=kind, name=str(which), n=2, points=None)


def build_topology(d):
    from pycomplex.topology.simplicial import TopologySimplicial
    from pycomplex.topology.cubical import TopologyCubical
    if d['kind'] == 'simplex':
        return TopologySimplicial.from_simplices(d['cells'])
    return TopologyCubical.from_cubes(d['cells'])


def renumber(rng, T):
    """the same topology with its edges, faces and so on (all but its vertices and cells) numbered in any order"""
    E, B, O = [list(map(np.array, v)) for v in (T._elements, T._boundary, T._orientation)]
    for k in range(1, T.n_dim):
        p = rng.permutation(len(E[k]))
        back = np.argsort(p).astype(B[k].dtype)
        E[k], B[k - 1], O[k - 1] = E[k][p], B[k - 1][p], O[k - 1][p]
        B[k] = back[B[k]]
    return type(T)(elements=E, boundary=B, orientation=O)
