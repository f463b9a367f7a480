"""Reference oracles for discrete topology, written independently of the code under test.

Everything here works from the definition: a cell is an ordered tuple (simplex) or an ordered
(2,)*n array (cube) of vertex labels, placed in its own local coordinates; the induced orientation
of a facet is the sign of det[outward normal, frame of the facet].  No permutation-parity tables.
"""
import itertools
from functools import lru_cache

import numpy as np


# ----------------------------------------------------------------------------- local geometry
@lru_cache(None)
def local_coords(kind, n):
    if kind == 'simplex':
        return np.vstack([np.zeros((1, n), int), np.eye(n, dtype=int)])
    return np.array(list(itertools.product((0, 1), repeat=n)), int).reshape(2 ** n, n)


@lru_cache(None)
def facet_positions(kind, n):
    """positions (in the flattened cell) of each facet, as sorted tuples"""
    if kind == 'simplex':
        return [tuple(i for i in range(n + 1) if i != o) for o in range(n + 1)]
    c = local_coords('cube', n)
    return [tuple(np.flatnonzero(c[:, a] == s)) for a in range(n) for s in (0, 1)]


@lru_cache(None)
def subface_positions(kind, n, d):
    """positions of all d-dimensional subfaces of an n-cell"""
    if d == n:
        return [tuple(range(len(local_coords(kind, n))))]
    if kind == 'simplex':
        return list(itertools.combinations(range(n + 1), d + 1))
    c = local_coords('cube', n)
    out = []
    for fixed in itertools.combinations(range(n), n - d):
        for vals in itertools.product((0, 1), repeat=n - d):
            m = np.ones(len(c), bool)
            for a, v in zip(fixed, vals):
                m &= c[:, a] == v
            out.append(tuple(np.flatnonzero(m)))
    return out


@lru_cache(None)
def facet_sign(kind, n, pos):
    """pos: positions in the n-cell of the corners of a facet, in the facet's own order.
    +1/-1: orientation of the facet frame relative to the outward normal; 0: not a facet"""
    if tuple(sorted(pos)) not in set(facet_positions(kind, n)):
        return 0
    c = local_coords(kind, n)
    f = c[list(pos)]
    normal = f.mean(axis=0) - c.mean(axis=0)
    if kind == 'simplex':
        frame = [f[i] - f[0] for i in range(1, n)]
    else:
        # the facet must itself be a cube: the map from its local corners must be affine
        frame = [f[2 ** (n - 2 - a)] - f[0] for a in range(n - 1)]
        lc = local_coords('cube', n - 1)
        if not np.array_equal(f, f[0] + lc.dot(np.array(frame, int).reshape(n - 1, n))):
            return 0
        # outward normal of an axis-aligned facet
        normal = np.where(np.abs(normal) > 0.25, normal, 0)
    d = np.linalg.det(np.array([normal] + frame, float))
    return int(np.sign(np.round(d, 9)))


@lru_cache(None)
def parity_of_cell(kind, n, pos):
    """orientation of a re-ordering `pos` of an n-cell relative to the cell itself; 0 if not a symmetry"""
    c = local_coords(kind, n)
    if sorted(pos) != list(range(len(c))):
        return 0
    f = c[list(pos)]
    if kind == 'simplex':
        frame = [f[i] - f[0] for i in range(1, n + 1)]
    else:
        frame = [f[2 ** (n - 1 - a)] - f[0] for a in range(n)]
        if not np.array_equal(f, f[0] + c.dot(np.array(frame, int).reshape(n, n))):
            return 0
    if n == 0:
        return 1
    return int(np.sign(np.round(np.linalg.det(np.array(frame, float)), 9)))


def flat(cells):
    cells = np.asarray(cells)
    return cells.reshape(len(cells), -1)


def positions(cells, sub):
    """index of each entry of `sub` rows in the corresponding row of `cells`; -1 if absent"""
    eq = cells[:, None, :] == sub[:, :, None]
    p = eq.argmax(axis=2)
    p[~eq.any(axis=2)] = -1
    return p


# ----------------------------------------------------------------------------- reference complex
class RefComplex(object):
    """all faces of a set of N-cells, as vertex sets, and their induced incidence"""

    def __init__(self, kind, cells):
        self.kind = kind
        self.cells = np.asarray(cells)
        self.flat = flat(self.cells)
        k = self.flat.shape[1]
        self.n_dim = k - 1 if kind == 'simplex' else int(np.log2(k))

    def faces(self, d):
        """list of unique d-faces as sorted tuples"""
        pos = subface_positions(self.kind, self.n_dim, d)
        if not pos:
            return set()
        allf = np.concatenate([np.sort(self.flat[:, list(p)], axis=1) for p in pos])
        return set(map(tuple, allf.tolist()))

    def n_elements(self):
        return [len(self.faces(d)) for d in range(self.n_dim + 1)]

    def facet_incidence(self):
        """dict facet(sorted tuple) -> list of (cell, sign), sign relative to the facet
        in the first way it was encountered"""
        inc, first = {}, {}
        n = self.n_dim
        for ci, c in enumerate(self.flat.tolist()):
            for p in facet_positions(self.kind, n):
                f = tuple(c[i] for i in p)
                key = tuple(sorted(f))
                s0 = facet_sign(self.kind, n, p)
                if key not in first:
                    first[key] = f
                    s = s0
                else:
                    # orientation of the first-seen facet, as it lies in this cell
                    idx = tuple(c.index(v) for v in first[key])
                    s = facet_sign(self.kind, n, idx)
                inc.setdefault(key, []).append((ci, s))
        return inc

    def components(self):
        """labels of cells connected through shared facets"""
        uf = UnionFind(len(self.flat))
        for l in self.facet_incidence().values():
            for (a, _), (b, _) in zip(l, l[1:]):
                uf.union(a, b)
        return uf.labels()

    def boundary_facets(self):
        """facets with exactly one incident cell"""
        return {k: l[0] for k, l in self.facet_incidence().items() if len(l) == 1}

    def orient(self):
        """(orientable, sign per cell) by flood fill over manifold facets"""
        sign, parent = np.zeros(len(self.flat), int), None
        adj = [[] for _ in range(len(self.flat))]
        for l in self.facet_incidence().values():
            if len(l) == 2:
                (a, sa), (b, sb) = l
                adj[a].append((b, -sa * sb))
                adj[b].append((a, -sa * sb))
        ok = True
        for r in range(len(sign)):
            if sign[r]:
                continue
            sign[r] = 1
            stack = [r]
            while stack:
                a = stack.pop()
                for b, s in adj[a]:
                    if not sign[b]:
                        sign[b] = s * sign[a]
                        stack.append(b)
                    elif sign[b] != s * sign[a]:
                        ok = False
        return ok, sign

    def is_consistently_oriented(self):
        return all(l[0][1] == -l[1][1] for l in self.facet_incidence().values() if len(l) == 2)

    def max_facet_valence(self):
        return max(len(l) for l in self.facet_incidence().values())

    def vertex_regions(self):
        """number of facet-connected groups of cells around each vertex"""
        inc = self.facet_incidence()
        around = {}
        for ci, c in enumerate(self.flat.tolist()):
            for v in set(c):
                around.setdefault(v, []).append(ci)
        links = {}
        for key, l in inc.items():
            cs = [c for c, _ in l]
            for a, b in zip(cs, cs[1:]):
                links.setdefault(a, []).append(b)
        out = {}
        for v, cs in around.items():
            loc = {c: i for i, c in enumerate(cs)}
            uf = UnionFind(len(cs))
            for c in cs:
                for b in links.get(c, ()):
                    if b in loc:
                        uf.union(loc[c], loc[b])
            out[v] = len(set(uf.labels()))
        return out


class UnionFind(object):
    def __init__(self, n):
        self.p = list(range(n))

    def find(self, a):
        while self.p[a] != a:
            self.p[a] = self.p[self.p[a]]
            a = self.p[a]
        return a

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[max(a, b)] = min(a, b)

    def labels(self):
        roots = [self.find(i) for i in range(len(self.p))]
        m = {}
        return [m.setdefault(r, len(m)) for r in roots]


def same_partition(a, b):
    """two labelings describe the same partition"""
    a, b = list(map(int, a)), list(map(int, b))
    if len(a) != len(b):
        return False
    f, g = {}, {}
    return all(f.setdefault(x, y) == y and g.setdefault(y, x) == x for x, y in zip(a, b))


def kind_of(topology):
    from pycomplex.topology.cubical import TopologyCubical
    return 'cube' if isinstance(topology, TopologyCubical) else 'simplex'


# ----------------------------------------------------------------------------- oracles over a repo topology
def dense(m):
    return np.asarray(m.todense()).astype(np.int64)


def check_incidence(mon, T, kind=None, cells=None, tag=''):
    """Oracle of C01: elements, matrices and signs of a primal topology against the definition.
    `cells`: the array it was built from, if known."""
    kind = kind or kind_of(T)
    N = T.n_dim
    E = [np.asarray(e) for e in T.elements]
    ok = mon.check('dimensions', len(E) == N + 1 and len(T.matrices) == N and list(T.n_elements) == [len(e) for e in E],
                   tag, n_dim=N, n_elements=T.n_elements)
    if not ok:
        return False
    ref = RefComplex(kind, E[N])
    if cells is not None:
        mon.eq('cells-preserved', E[N], cells, tag)
    mon.eq('vertex-range', E[0].flatten(), np.arange(len(E[0])), tag)
    for n in range(N):
        faces = [tuple(sorted(r)) for r in flat(E[n]).tolist()]
        want = ref.faces(n)
        ok &= mon.check('each-face-once', len(set(faces)) == len(faces), tag, n=n, n_faces=len(faces), distinct=len(set(faces)))
        ok &= mon.check('all-faces-present', set(faces) == want, tag, n=n,
                        missing=list(want - set(faces))[:3], extra=list(set(faces) - want)[:3])
    if not ok:
        return False
    for n in range(1, N + 1):
        M = T.matrices[n - 1]
        ok &= mon.check('matrix-shape', M.shape == (len(E[n - 1]), len(E[n])), tag, n=n, shape=M.shape)
        if not ok:
            return False
        C = M.tocsc(copy=True)
        C.sum_duplicates()
        C.eliminate_zeros()
        k = len(facet_positions(kind, n))
        nnz = np.diff(C.indptr)
        ok &= mon.check('facets-per-cell', np.all(nnz == k), tag, n=n, nnz=nnz)
        if not ok:
            return False
        cols = np.repeat(np.arange(len(E[n])), k)
        rows, data = C.indices, C.data.astype(int)
        ok &= mon.check('sign-values', np.all(np.abs(data) == 1), tag, n=n, data=data)
        P = positions(flat(E[n])[cols], flat(E[n - 1])[rows])
        if n == 1:
            s = np.where(P[:, 0] == 0, -1, 1) * (P[:, 0] >= 0)
        else:
            U, inv = np.unique(P, axis=0, return_inverse=True)
            s = np.array([facet_sign(kind, n, tuple(int(x) for x in u)) for u in U])[inv.ravel()]
        ok &= mon.check('incident-is-facet', np.all(s != 0), tag, n=n,
                        bad=[(flat(E[n])[cols[i]].tolist(), flat(E[n - 1])[rows[i]].tolist()) for i in np.flatnonzero(s == 0)[:2]])
        if not ok:
            return False
        rel = s * data
        if n == 1:
            ok &= mon.check('edge-sign', np.all(rel == 1), tag, n=n)
        else:
            # one global sign convention per dimension
            ok &= mon.check('induced-orientation', np.all(rel == rel[0]), tag, n=n,
                            minority=[(flat(E[n])[cols[i]].tolist(), flat(E[n - 1])[rows[i]].tolist(), int(data[i]))
                                      for i in np.flatnonzero(rel != rel[0])[:2]])
    for n in range(N - 1):
        D = T.matrices[n].astype(np.int64) * T.matrices[n + 1].astype(np.int64)
        ok &= mon.check('dd-zero', D.count_nonzero() == 0, tag, n=n, nnz=D.count_nonzero())
    mon.eq('euler', sum((-1) ** d * x for d, x in enumerate(T.n_elements)),
           sum((-1) ** d * x for d, x in enumerate(ref.n_elements())), tag)
    return bool(ok)
