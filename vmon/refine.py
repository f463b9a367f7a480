"""Oracle for refinements: every fine vertex sits on a coarse element, every fine cell in a coarse cell"""
import itertools
import math

import numpy as np

from vmon import gen, ref


def barycentric_layout(E, kind, dims):
    """local coordinates of the vertices of a refinement.

    E: element arrays of the coarse complex; dims: which orders of elements spawn a vertex, in order.
    returns arrays (order, index) per fine vertex"""
    order = np.concatenate([np.full(len(E[d]), d) for d in dims])
    index = np.concatenate([np.arange(len(E[d])) for d in dims])
    return order, index


def local_positions(kind, E, order, index, cell, fine):
    """local coordinates, in coarse cell `cell`, of the fine vertices `fine`; None if one is not part of it"""
    N = len(E) - 1
    lc = ref.local_coords(kind, N)
    row = {int(v): i for i, v in enumerate(ref.flat(E[N])[cell])}
    out = []
    for f in fine:
        e = ref.flat(E[order[f]])[index[f]]
        try:
            pos = [row[int(v)] for v in e]
        except KeyError:
            return None
        if order[f] > 0 and tuple(sorted(pos)) not in _sub(kind, N, order[f]):
            return None
        out.append(lc[pos].mean(axis=0))
    return np.array(out)


_cache = {}


def _sub(kind, n, d):
    k = (kind, n, int(d))
    if k not in _cache:
        _cache[k] = set(ref.subface_positions(kind, n, int(d)))
    return _cache[k]


def simplex_volume(x):
    x = np.asarray(x, float)
    n = len(x) - 1
    return np.linalg.det(x[1:] - x[0]) / math.factorial(n) if n else 1.


_g = 0.5 / np.sqrt(3)


def cube_volume(x):
    """signed volume of the multilinear image of the unit cube, n <= 4, and the signs of the jacobian at its Gauss points"""
    x = np.asarray(x, float)
    n = int(np.log2(len(x)))
    lc = ref.local_coords('cube', n)
    tot, dets = 0., []
    for q in itertools.product((0.5 - _g, 0.5 + _g), repeat=n):
        q = np.array(q)
        w1 = np.where(lc == 1, q, 1 - q)
        J = np.empty((n, x.shape[1]))
        for a in range(n):
            w = np.delete(w1, a, axis=1).prod(axis=1) * np.where(lc[:, a] == 1, 1, -1)
            J[a] = w.dot(x)
        d = np.linalg.det(J)
        dets.append(d)
        tot += d / 2 ** n
    return tot, dets


def observe_refinement(mon, T, F, kind, fkind, dims, per_cell, keep_orientation=True, tag='', attribution=True):
    """T is refined to F: vertices of F sit on the elements of T of orders `dims`,
    every cell of T holds `per_cell` consecutive cells of F"""
    N = T.n_dim
    E = [np.asarray(e) for e in T.elements]
    if not mon.check('refined-dim', F.n_dim == N, tag):
        return False
    if not ref.check_incidence(mon, F, fkind, tag=tag):
        return False
    order, index = barycentric_layout(E, kind, dims)
    ok = mon.eq('refined-vertices', F.n_elements[0], len(order), tag)
    ok &= mon.eq('refined-cells', F.n_elements[-1], per_cell * T.n_elements[-1], tag)
    if not ok:
        return False
    cells = ref.flat(F.elements[-1])
    want = 1. / math.factorial(N) if kind == 'simplex' else 1.
    total = np.zeros(T.n_elements[-1])
    signs = np.zeros(len(cells), int)
    good = True
    for i, c in enumerate(cells):
        parent = i // per_cell
        x = local_positions(kind, E, order, index, parent, c)
        if x is None:
            good &= mon.check('cell-in-parent', False, tag, cell=i, parent=parent,
                              vertices=[(int(order[f]), int(index[f])) for f in c])
            break
        if fkind == 'simplex':
            v = simplex_volume(x)
            s = int(np.sign(np.round(v, 12)))
        else:
            v, dets = cube_volume(x)
            s = int(np.sign(np.round(v, 12)))
            if np.min(np.array(dets) * s) <= 0:
                s = 0
        signs[i] = s
        total[parent] += abs(v)
    good &= mon.check('cell-in-parent', good, tag)
    if not good:
        return False
    mon.check('cells-not-degenerate', np.all(signs != 0), tag, signs=signs)
    mon.close('covered-volume', total, np.full(len(total), want), rtol=1e-9, tag=tag)
    if keep_orientation:
        # 'uniform': the whole refinement may be mirrored, but consistently so
        mon.check('orientation-kept', np.all(signs == (signs[0] if keep_orientation == 'uniform' else 1)), tag, signs=signs[:per_cell * 2])
    else:
        # the two halves left and right of the same dual facet are mirrored
        groups = {}
        for i, c in enumerate(cells):
            oo = order[c]
            key = (i // per_cell, tuple(sorted((int(order[f]), int(index[f])) for f in c if order[f] != 0)))
            groups.setdefault(key, []).append(signs[i])
        mon.check('halves-mirrored', all(len(g) == 2 and sum(g) == 0 for g in groups.values()), tag)

    # topology is unchanged
    R, RF = ref.RefComplex(kind, E[N]), ref.RefComplex(fkind, F.elements[-1])
    mon.eq('euler-kept', sum((-1) ** d * n for d, n in enumerate(F.n_elements)),
           sum((-1) ** d * n for d, n in enumerate(T.n_elements)), tag)
    mon.eq('components-kept', len(set(RF.components())), len(set(R.components())), tag)
    # boundary of the refinement covers exactly the boundary
    bT = set(R.boundary_facets())
    bF = RF.boundary_facets()
    mon.eq('closed-kept', len(bF) == 0, len(bT) == 0, tag)
    if bT:
        allowed, on = {}, True
        for f in bT:
            for d in range(N):
                pass
        fsets = [frozenset(f) for f in bT]
        byv = {}
        for f in fsets:
            for v in f:
                byv.setdefault(v, []).append(f)
        hit = {}
        for f in bF:
            vs = set()
            for v in f:
                vs.update(int(a) for a in ref.flat(E[order[v]])[index[v]])
            home = [g for g in byv.get(next(iter(vs)), ()) if vs <= g]
            if len(home) < 1:
                on = False
                break
            hit[home[0]] = hit.get(home[0], 0) + 1
        mon.check('boundary-on-boundary', on, tag)
        if on:
            mon.check('boundary-covered', len(hit) == len(fsets) and len(set(hit.values())) == 1, tag, hits=sorted(set(hit.values())))
    if keep_orientation:
        mon.eq('oriented-kept', RF.is_consistently_oriented(), R.is_consistently_oriented(), tag)
    return True
