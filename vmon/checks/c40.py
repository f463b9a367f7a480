"""C40 drawings show the complex and the form"""
import itertools
import os

os.environ['MPLBACKEND'] = 'Agg'

import numpy as np
import scipy.spatial
from vmon import gen, geo
from vmon.checks import c10, c17, c21

PROP = 'C40'
RULE = ('curves, surfaces, solids, spheres and grids drawn with every option into off-screen axes; the artists that arrive there are read back and compared with the edges, dual edges, '
        'vertices, faces and level sets computed from the cells alone; a state is one (complex, form, options)')
REQUIRED = {'lines': 60, 'dual-lines': 40, 'vertices': 40, 'dual-vertices': 30, 'arrows': 20, 'nothing': 20, 'domains': 15, 'culling': 30, 'flat': 20, 'level': 30, 'length': 30, 'band': 15,
            'faces': 30, 'colour': 30, 'dual-form': 20, 'great-arc': 40, 'graph': 15, 'image': 30, 'stream': 15, 'warp': 15, 'input': 60}
P, D = '#1234ab', '#ab3412'


def rgb(c):
    from matplotlib.colors import to_rgb
    return np.array(to_rgb(c))


def figure():
    from matplotlib.figure import Figure
    return Figure().subplots(1, 1)


def is_colour(c, want):
    c = np.atleast_2d(np.asarray(c, float))
    return len(c) and c.shape[-1] >= 3 and np.allclose(c[:, :3], rgb(want), atol=1e-6)


def segments(ax, colour=None):
    """all line segments on the axes [m, 2, 2]"""
    from matplotlib.collections import LineCollection
    out = [np.zeros((0, 2, 2))]
    for c in ax.collections:
        if isinstance(c, LineCollection) and (colour is None or is_colour(c.get_edgecolor(), colour)):
            for s in c.get_segments():
                s = np.asarray(s, float)
                out.append(np.stack([s[:-1], s[1:]], axis=1))
    for l in ax.lines:
        if colour is None or is_colour([rgb(l.get_color())], colour):
            s = np.stack(l.get_data(), axis=1).astype(float)
            if len(s) > 1:
                out.append(np.stack([s[:-1], s[1:]], axis=1))
    return np.concatenate(out)


def dots(ax, colour):
    from matplotlib.collections import PathCollection
    out = [np.zeros((0, 2))]
    for c in ax.collections:
        if isinstance(c, PathCollection) and is_colour(c.get_facecolor(), colour):
            out.append(np.asarray(c.get_offsets(), float).reshape(-1, 2))
    return np.concatenate(out)


def polygons(ax):
    """(corners, facecolour or None, value or None) of every filled polygon"""
    from matplotlib.collections import PolyCollection, TriMesh
    out = []
    for c in ax.collections:
        a = c.get_array()
        if isinstance(c, TriMesh):
            raise AssertionError('gouraud shading is not expected')
        if isinstance(c, PolyCollection) and not hasattr(c, 'levels'):
            f = c.get_facecolor()
            for i, p in enumerate(c.get_paths()):
                v = np.asarray(p.vertices, float)
                if len(v) > 1 and np.array_equal(v[0], v[-1]):
                    v = v[:-1]
                out.append((v, f[i % len(f)] if len(f) else None, None if a is None else float(a[i])))
    return out


def contours(ax, filled):
    """(levels, [paths per level]) of the contour sets on the axes"""
    from matplotlib.contour import ContourSet
    out = []
    for c in ax.collections:
        if isinstance(c, ContourSet) and bool(c.filled) == filled:
            out.append((np.asarray(c.levels, float), c.allsegs, c.allkinds))
    return out


def undirected(s):
    """[m, 2, 2] -> [m, 5] not depending on the direction"""
    m, d = s.mean(axis=1), s[:, 1] - s[:, 0]
    l = np.linalg.norm(d, axis=1)[:, None]
    q = np.stack([d[:, 0] ** 2, d[:, 1] ** 2, d[:, 0] * d[:, 1]], axis=1) / np.where(l > 0, l, 1)
    return np.concatenate([m, q], axis=1)


def directed(s):
    return s.reshape(len(s), -1)


def same(mon, oracle, got, want, scale, tol=1e-7, **kw):
    """equal as sets, within tol * scale"""
    if len(got) == 0 or len(want) == 0:
        return mon.check(oracle, len(got) == len(want), got=len(got), want=len(want), **kw)
    extra = scipy.spatial.cKDTree(want).query(got)[0]
    lack = scipy.spatial.cKDTree(got).query(want)[0]
    return mon.check(oracle, extra.max() <= tol * scale and lack.max() <= tol * scale, extra=int((extra > tol * scale).sum()), lacking=int((lack > tol * scale).sum()),
                     got=len(got), want=len(want), **kw)


def visible_only(s, scale):
    return s[np.linalg.norm(s[:, 1] - s[:, 0], axis=1) > 1e-9 * scale]


# -- what there is to draw, from the cells alone

def simplex_edges(cells):
    e = np.concatenate([cells[:, [a, b]] for a, b in itertools.combinations(range(cells.shape[1]), 2)])
    return np.unique(np.sort(e, axis=1), axis=0)


def cube_faces(cells):
    """[m, 2^(n-1)] corners of the two faces along each axis, with the index of their cell"""
    n = cells.ndim - 1
    F, C = [], []
    for a in range(n):
        for s in (0, 1):
            F.append(np.take(cells, s, axis=a + 1).reshape(len(cells), -1))
            C.append(np.arange(len(cells)))
    return np.concatenate(F), np.concatenate(C)


def cube_edges(cells):
    n = cells.ndim - 1
    out = []
    for a in range(n):
        out.append(np.moveaxis(cells, a + 1, -1).reshape(-1, 2))
    return np.unique(np.sort(np.concatenate(out), axis=1), axis=0)


def simplex_parts(x, cells, w=None):
    """edges, cell centres, face centres, (face, cell) segments, boundary faces' centres"""
    n = cells.shape[1] - 1
    E = x[simplex_edges(cells)]
    cc = geo.centers(x[cells], None if w is None else w[cells])[0]
    S, seen = [], {}
    for a in range(n + 1):
        f = np.sort(np.delete(cells, a, axis=1), axis=1)
        fc = geo.centers(x[f], None if w is None else w[f])[0]
        S.append(np.stack([fc, cc], axis=1))
        for k, c in zip(map(tuple, f.tolist()), fc):
            seen.setdefault(k, []).append(c)
    outer = np.array([v[0] for v in seen.values() if len(v) == 1]).reshape(-1, x.shape[1])
    for k, c in ((k, v[0]) for k, v in seen.items() if len(v) == 1):        # dual edges of the boundary
        for a in range(n if n > 1 else 0):
            g = np.array([np.delete(k, a)])
            S.append(np.stack([geo.centers(x[g], None if w is None else w[g])[0], c[None]], axis=1))
    return E, cc, np.concatenate(S), outer


def cube_parts(x, cells):
    E = x[cube_edges(cells)]
    cc = x[cells.reshape(len(cells), -1)].mean(axis=1)
    F, C = cube_faces(cells)
    fc = x[F].mean(axis=1)
    seen = {}
    for k, c in zip(map(tuple, np.sort(F, axis=1).tolist()), fc):
        seen.setdefault(k, []).append(c)
    outer = np.array([v[0] for v in seen.values() if len(v) == 1]).reshape(-1, x.shape[1])
    n = cells.ndim - 1
    once = np.array([k for k, v in seen.items() if len(v) == 1])
    S = [np.stack([fc, cc[C]], axis=1)]
    if n > 1 and len(once):                                                  # dual edges of the boundary
        once = {tuple(k) for k in once.tolist()}
        B = np.array([f for f in F.tolist() if tuple(sorted(f)) in once]).reshape((-1,) + (2,) * (n - 1))
        G, C = cube_faces(B)
        S.append(np.stack([x[G].mean(axis=1), x[B.reshape(len(B), -1)].mean(axis=1)[C]], axis=1))
    return E, cc, np.concatenate(S), outer


def spread(x):
    return float(np.ptp(x, axis=0).max() + np.abs(x).max() * 1e-6)


def untouched(mon, K, x, **kw):
    mon.check('input', np.array_equal(K.vertices, x), **kw)


def draw(mon, f, own, **kw):
    """call f(ax=...) on axes of our own, or let it make its own"""
    import matplotlib.pyplot as plt
    if own:
        ax = figure()
        with mon.calling('draws', **kw):
            f(ax=ax)
        return ax
    plt.close('all')
    with mon.calling('draws', **kw):
        f()
    if not mon.check('draws', len(plt.get_fignums()) == 1 and len(plt.gcf().axes) == 1, figures=len(plt.get_fignums()), **kw):
        return figure()
    ax = plt.gcf().axes[0]
    plt.close('all')
    return ax


def observe_plot(mon, ax, parts, x, opt, **kw):
    E, cc, S, outer = parts
    s = spread(x)
    kw.update(options=opt)
    lines, dual = visible_only(segments(ax, P), s), visible_only(segments(ax, D), s)
    if opt.get('plot_lines', True):
        same(mon, 'lines', undirected(lines), undirected(visible_only(E[..., :2], s)), s, **kw)
    else:
        mon.eq('nothing', len(lines), 0, tag='lines', **kw)
    if opt.get('plot_vertices'):
        same(mon, 'vertices', dots(ax, P), x[:, :2], s, **kw)
    else:
        mon.eq('nothing', len(dots(ax, P)) + len(dots(ax, D)), 0, tag='vertices', **kw)
    if opt.get('plot_dual', True):
        if opt.get('plot_lines', True):
            same(mon, 'dual-lines', undirected(dual), undirected(visible_only(S[..., :2], s)), s, **kw)
        if opt.get('plot_vertices'):
            same(mon, 'dual-vertices', dots(ax, D), np.concatenate([cc, outer])[:, :2], s, **kw)
    else:
        mon.eq('nothing', len(dual) + len(dots(ax, D)), 0, tag='dual', **kw)
    from matplotlib.patches import FancyArrow
    arrows = [p for p in ax.patches if isinstance(p, FancyArrow)]
    if not opt.get('plot_arrow'):
        mon.eq('nothing', len(arrows), 0, tag='arrows', **kw)
    return arrows


def observe_arrows(mon, arrows, K, x, **kw):
    s = spread(x)
    e = x[np.asarray(K.topology.elements[1])][..., :2]
    got = np.array([[a._x, a._y, a._x + a._dx, a._y + a._dy] for a in arrows]).reshape(-1, 4)
    mon.eq('arrows', len(got), len(e), tag='count', **kw)
    same(mon, 'arrows', got, directed(e), s, **kw)


def options(rng, lines=True, arrow=True, vertices=True):
    opt = dict(plot_dual=bool(rng.integers(2)), plot_vertices=bool(rng.integers(2)))
    if lines:
        opt['plot_lines'] = bool(rng.random() < .8)
    if arrow:
        opt['plot_arrow'] = bool(rng.random() < .3)
    return opt


def simplicial(rng):
    while True:
        d = geo.euclidean(rng)
        if d['x'].shape[1] > 1 and len(d['cells']) < 150:
            return d


def case_simplicial(mon, rng, i):
    d = simplicial(rng)
    x, cells, w = d['x'], d['cells'], d['w']
    K = geo.build_euclidean(d, typed=d['n'] == 2 and rng.random() < .5)
    opt = options(rng)
    mon.note(name=d['name'], options=opt)
    mon.state(cells, x, opt)
    kw = dict(name=d['name'])
    ax = draw(mon, lambda **a: K.plot(primal_color=P, dual_color=D, **opt, **a), rng.random() < .7, **kw)
    arrows = observe_plot(mon, ax, simplex_parts(x, cells, w), x, opt, **kw)
    if opt['plot_arrow']:
        observe_arrows(mon, arrows, K, x, **kw)
    untouched(mon, K, x, **kw)
    if len(cells) < 60 and rng.random() < .5:
        ax = figure()
        with mon.calling('draws', tag='domains', **kw):
            K.plot_domains(ax)
        n, s = d['n'], spread(x)
        C = {}
        for k in range(n + 1):
            f = np.unique(np.sort(np.concatenate([cells[:, list(c)] for c in itertools.combinations(range(n + 1), k + 1)]), axis=1), axis=0)
            for key, c in zip(map(tuple, f.tolist()), geo.centers(x[f], None if w is None else w[f])[0]):
                C[key] = c
        want = []
        for c in cells.tolist():
            for p in itertools.permutations(c):
                f = [C[tuple(sorted(p[:k + 1]))] for k in range(n + 1)]
                want += [(a, b) for a, b in itertools.combinations(f, 2)]
        want = visible_only(np.array(want)[..., :2], s)
        same(mon, 'domains', undirected(visible_only(segments(ax), s)), undirected(want), s, **kw)


def case_cubical(mon, rng, i):
    d = c17.uniform(rng, int(rng.choice([2, 2, 3, 3, 4])))
    if len(d['cells']) > 60:
        d = c17.uniform(rng, 2)
    x, cells, n = d['x'], d['cells'], d['n']
    from pycomplex.complex.cubical import ComplexCubical
    if i % 4 == 0:
        c = gen.cube_grid(tuple(int(v) for v in rng.integers(1, 4, size=n)))
        c, u = gen.compact(c)
        x = rng.normal(size=(len(u), int(rng.integers(n, 5)))) + 3 * rng.normal()
        cells = np.ascontiguousarray(c, dtype=np.int32)
        K = ComplexCubical(vertices=x.copy(), cubes=cells.copy())
    else:
        K = c17.build(rng, d)
    opt = options(rng, lines=False)
    mon.note(name=d['name'], options=opt)
    mon.state(cells, x, opt)
    kw = dict(name=d['name'])
    ax = draw(mon, lambda **a: K.plot(primal_color=P, dual_color=D, **opt, **a), rng.random() < .7, **kw)
    arrows = observe_plot(mon, ax, cube_parts(x, cells), x, opt, **kw)
    if opt['plot_arrow']:
        observe_arrows(mon, arrows, K, x, **kw)
    untouched(mon, K, x, **kw)


def case_curve(mon, rng, i):
    """a curve of edges in the plane, and the graph of a function on a line"""
    from pycomplex.complex.cubical import ComplexCubical1Euclidian2
    m = int(rng.integers(3, 30))
    x = rng.normal(size=(m, 2)) * 10. ** rng.uniform(-2, 2)
    e = np.stack([np.arange(m), np.roll(np.arange(m), -1)], axis=1)
    if rng.random() < .5:
        e = e[:-1]
    p = rng.permutation(m)
    e = np.argsort(p)[e].astype(np.int32)
    x = np.ascontiguousarray(x[p])
    K = ComplexCubical1Euclidian2(vertices=x.copy(), cubes=e.copy())
    opt = dict(plot_vertices=bool(rng.integers(2)), plot_mean=bool(rng.integers(2)))
    mon.state(e, x, opt)
    ax = draw(mon, lambda **a: K.plot(color=P, **opt, **a), rng.random() < .7)
    s = spread(x)
    same(mon, 'lines', undirected(segments(ax, P)), undirected(x[e]), s, options=opt)
    if opt['plot_vertices']:
        same(mon, 'vertices', dots(ax, P), x, s, options=opt)
    else:
        mon.eq('nothing', len(dots(ax, P)), 0, options=opt)
    untouched(mon, K, x)

    d = c17.uniform(rng, 1)
    K = c17.build(rng, d)
    x, e = d['x'], d['cells'].reshape(-1, 2)
    f = rng.normal(size=len(x)) * 10. ** rng.uniform(-2, 2)
    f0 = f.copy()
    ax = draw(mon, lambda **a: K.plot_primal_0_form(f, color=P, **a), rng.random() < .7)
    got = segments(ax, P)
    q = np.array([spread(x), spread(f[:, None])])
    want = np.stack([x[:, 0][e], f0[e]], axis=-1)
    same(mon, 'graph', undirected(got / q), undirected(want / q), 1 + np.abs(want / q).max() * 1e-6)
    mon.eq('input', f, f0, tag='form')
    lo, hi = ax.get_ylim()
    a, b = ax.get_xlim()
    mon.check('graph', lo <= f.min() + 1e-9 * q[1] and hi >= f.max() - 1e-9 * q[1] and a <= x.min() + 1e-9 * q[0] and b >= x.max() - 1e-9 * q[0], tag='limits', xlim=(a, b), ylim=(lo, hi))


# -- surfaces in space

def surface(rng):
    """a surface in space none of whose faces is almost edge-on: (x, t, normals)"""
    while True:
        x, t = c21.solid(rng) if rng.random() < .5 else c21.patch(rng, 3)
        if len(t) > 400:
            continue
        n = 2 * c21.vector_area(x[t])
        z = np.abs(n[:, 2]) / np.linalg.norm(n, axis=1).clip(1e-300)
        if np.all((z > 1e-6) | (n[:, 2] == 0)) and np.all(np.linalg.norm(n, axis=1) > 0):
            return x, t, n


def case_space(mon, rng, i):
    x, t, nor = surface(rng)
    K = c21.build(x, t)
    s = spread(x)
    cull = bool(rng.random() < .7)
    opt = dict(options(rng, arrow=False), backface_culling=cull)
    if rng.random() < .3 and cull:
        opt.pop('backface_culling')
    mon.note(cells=len(t), options=opt)
    mon.state(x, t, opt)
    seen = t[nor[:, 2] > 0] if cull else t
    ax = draw(mon, lambda **a: K.plot_3d(primal_color=P, dual_color=D, **opt, **a), rng.random() < .7, options=opt)
    E = x[simplex_edges(seen)] if len(seen) else np.zeros((0, 2, 3))
    lines, dual = visible_only(segments(ax, P), s), visible_only(segments(ax, D), s)
    oracle = 'culling' if cull else 'lines'
    kw = dict(options=opt, visible=len(seen), faces=len(t))
    same(mon, oracle, undirected(lines), undirected(visible_only(E[..., :2], s)) if opt['plot_lines'] else lines[:0, 0], s, tag='lines', **kw) if opt['plot_lines'] else mon.eq('nothing', len(lines), 0, **kw)
    want = x[np.unique(seen)][:, :2] if opt['plot_vertices'] else np.zeros((0, 2))
    same(mon, oracle, dots(ax, P), want, s, tag='vertices', **kw)
    if opt['plot_dual']:
        cc = geo.centers(x[seen])[0] if len(seen) else np.zeros((0, 3))
        if opt['plot_lines']:
            S = np.concatenate([np.stack([geo.centers(x[np.delete(seen, a, axis=1)])[0], cc], axis=1) for a in range(3)]) if len(seen) else np.zeros((0, 2, 3))
            same(mon, oracle, undirected(dual), undirected(visible_only(S[..., :2], s)), s, tag='dual-lines', **kw)
        else:
            mon.eq('nothing', len(dual), 0, **kw)
        if opt['plot_vertices'] and cull:
            same(mon, oracle, dots(ax, D), cc[:, :2], s, tag='dual-vertices', **kw)
    else:
        mon.eq('nothing', len(dual) + len(dots(ax, D)), 0, **kw)
    untouched(mon, K, x)


def isolines(x, t, f, level):
    """total length of the level set of the linear interpolant"""
    total = 0.
    X, F = x[t], f[t]
    for a in range(len(t)):
        p = []
        for j in range(3):
            u, v = F[a, j], F[a, (j + 1) % 3]
            if (u < level) != (v < level):
                q = (level - u) / (v - u)
                p.append(X[a, j] * (1 - q) + X[a, (j + 1) % 3] * q)
        if len(p) == 2:
            total += np.linalg.norm(p[1] - p[0])
    return total


def below(x, t, f, level):
    """total area where the linear interpolant is below the level"""
    X, F = x[t], f[t]
    A = np.abs(np.cross(X[:, 1] - X[:, 0], X[:, 2] - X[:, 0])) / 2
    o = np.argsort(F, axis=1)
    a, b, c = np.take_along_axis(F, o, axis=1).T
    with np.errstate(all='ignore'):
        low = (level - a) ** 2 / ((b - a) * (c - a))
        high = 1 - (c - level) ** 2 / ((c - a) * (c - b))
    r = np.where(level <= a, 0, np.where(level >= c, 1, np.where(level <= b, low, high)))
    return (A * r).sum()


def paths(seg, kind):
    """closed or open polylines of one entry of allsegs"""
    for k, v in enumerate(seg):
        v = np.asarray(v, float)
        c = None if kind is None or kind[k] is None else np.asarray(kind[k])
        if c is None:
            yield v
            continue
        start = np.flatnonzero(c == 1)
        for a, b in zip(start, list(start[1:]) + [len(v)]):
            yield v[a:b]


def observe_contours(mon, ax, x, t, f, exact_area, levels=None, **kw):
    s = spread(x)
    tol = 1e-7
    sets = contours(ax, False)
    if not mon.eq('level', len(sets), 1, tag='one', **kw):
        return
    L, segs, kinds = sets[0]
    if levels is not None:
        mon.check('level', len(L) == levels and L[0] <= f.min() and L[-1] >= f.max() and np.allclose(np.diff(L), np.ptp(L) / max(len(L) - 1, 1), rtol=1e-6), tag='range', levels=L, **kw)
    X = x[t]
    area = np.cross(X[:, 1] - X[:, 0], X[:, 2] - X[:, 0])
    for l, seg, kind in zip(L, segs, kinds):
        got, bad = 0., 0.
        for p in paths(seg, kind):
            got += np.linalg.norm(np.diff(p, axis=0), axis=1).sum()
        if np.min(np.abs(f - l)) < 1e-9 * np.ptp(f):
            continue
        want = isolines(x, t, f, l)
        mon.check('length', abs(got - want) <= 1e-6 * (want + s), got=got, want=want, level=l, **kw)
        if exact_area:
            pts = np.concatenate([np.asarray(p) for p in seg]) if len(seg) else np.zeros((0, 2))
            pts = pts[:: max(1, len(pts) // 12)]
            for p in pts:
                b = [np.cross(X[:, (j + 1) % 3] - p, X[:, (j + 2) % 3] - p) / area for j in range(3)]
                m = np.argmax(np.minimum.reduce(b))
                v = sum(b[j][m] * f[t[m, j]] for j in range(3))
                mon.check('level', abs(v - l) <= 1e-5 * np.ptp(f), got=v, want=l, **kw)
    fill = contours(ax, True)
    if exact_area and fill:
        L, segs, kinds = fill[0]
        for a, b, seg, kind in zip(L[:-1], L[1:], segs, kinds):
            if min(np.min(np.abs(f - a)), np.min(np.abs(f - b))) < 1e-9 * np.ptp(f):
                continue
            got = 0.
            for p in paths(seg, kind):
                q = p - x.mean(axis=0)
                got += (q[:, 0] * np.roll(q[:, 1], -1) - q[:, 1] * np.roll(q[:, 0], -1)).sum() / 2
            want = below(x, t, f, b) - below(x, t, f, a)
            mon.check('band', abs(abs(got) - want) <= 1e-6 * s ** 2, got=got, want=want, band=(a, b), **kw)
    return len(fill)


def observe_flat(mon, oracle, ax, tri, values, s, **kw):
    """polygons carrying values"""
    pol = polygons(ax)
    mon.eq(oracle, len(pol), len(tri), tag='count', **kw)
    if len(pol) and len(tri) and all(len(p[0]) == 3 and p[2] is not None for p in pol):
        # order of the corners does not matter: centre, spread about it, value
        def key(c, v):
            q = c - c.mean(axis=1, keepdims=True)
            return np.concatenate([c.mean(axis=1), np.einsum('mki,mki->mi', q, q) / s, np.einsum('mk,mk->m', q[..., 0], q[..., 1])[:, None] / s, v[:, None] * s], axis=1)
        got = key(np.array([p[0] for p in pol]), np.array([p[2] for p in pol]) / (np.abs(values).max() + 1e-300))
        same(mon, oracle, got, key(tri, values / (np.abs(values).max() + 1e-300)), s, **kw)
    else:
        mon.check(oracle, len(tri) == 0, tag='polygons', polygons=len(pol), triangles=len(tri), **kw)


def observe_faces(mon, ax, tri, p2, pick, cmap, s, **kw):
    """polygons coloured by value"""
    import matplotlib
    pol = polygons(ax)
    if not mon.eq('faces', len(pol), len(tri), tag='count', **kw) or not len(tri):
        return
    if not mon.check('faces', all(p[0].shape == (3, 2) for p in pol), tag='triangles', **kw):
        return
    got, c = np.array([p[0] for p in pol]), np.array([p[1] for p in pol])
    dist, where = scipy.spatial.cKDTree(tri.mean(axis=1)).query(got.mean(axis=1))
    same(mon, 'faces', np.concatenate([np.sort(v.reshape(-1, 3, 2), axis=1).reshape(-1, 6) for v in [got]]), np.sort(tri, axis=1).reshape(-1, 6), s, **kw)
    mon.eq('faces', len(np.unique(where)), len(tri), tag='each', **kw) if dist.max() < 1e-9 * s else None
    r = (p2 - p2.min()) / (np.ptp(p2) or 1)
    want = matplotlib.colormaps[cmap](r[pick])
    mon.check('colour', np.abs(c[:, :3] - want[where][:, :3]).max() <= .02, worst=np.abs(c[:, :3] - want[where][:, :3]).max(), **kw)


def field(rng, x, smooth=None):
    q = (x - x.mean(axis=0)) / spread(x - x.mean(axis=0))
    a = rng.integers(4)
    s = 10. ** rng.uniform(-2, 2)
    if a == 0:
        f = rng.normal(size=len(x))
    elif a == 1:
        f = q @ rng.normal(size=x.shape[1])
    else:
        f = np.cos(q @ rng.normal(size=x.shape[1]) * 4 + rng.normal()) + .1 * rng.normal(size=len(x))
    return f * s + rng.normal() * s


def case_space_form(mon, rng, i):
    x, t, nor = surface(rng)
    K = c21.build(x, t)
    s = spread(x)
    cull, flip, contour = bool(rng.random() < .75), bool(rng.integers(2)), bool(rng.integers(2))
    z = -nor[:, 2] if flip else nor[:, 2]
    keep = z > 0 if cull else np.ones(len(t), bool)
    if not keep.any() or keep.sum() < 1:
        mon.skip('nothing visible')
        return
    f = field(rng, x)
    if np.ptp(f[t[keep]]) < 1e-3 * np.abs(f).max():
        mon.skip('constant')
        return
    f0 = f.copy()
    opt = dict(plot_contour=contour, backface_culling=cull, flip_normals=flip)
    if contour and rng.random() < .4:
        opt['levels'] = int(rng.integers(2, 9))
    mon.note(cells=len(t), options=opt)
    mon.state(x, t, f, opt)
    ax = draw(mon, lambda **a: K.plot_primal_0_form(f, **opt, **a), rng.random() < .7, options=opt)
    mon.eq('input', f, f0, tag='form')
    if contour:
        n = observe_contours(mon, ax, x[:, :2], t[keep], f, exact_area=False, options=opt)
        mon.eq('band', n, 1, tag='filled')
    else:
        observe_flat(mon, 'culling' if cull else 'flat', ax, x[t[keep]][..., :2], f[t[keep]].mean(axis=1), s, options=opt)
    p2 = rng.normal(size=len(t)) * 10. ** rng.uniform(-3, 3)
    opt = dict(backface_culling=bool(rng.random() < .7))
    keep = nor[:, 2] > 0 if opt['backface_culling'] else np.ones(len(t), bool)
    ax = draw(mon, lambda **a: K.plot_primal_2_form(p2, **opt, **a), rng.random() < .7, options=opt)
    observe_faces(mon, ax, x[t[keep]][..., :2], p2, keep, 'jet', s, options=opt)
    untouched(mon, K, x)


def case_plane(mon, rng, i):
    """forms on a triangulation of the plane"""
    x, t = c21.patch(rng, 2)
    if len(t) > 300:
        x, t = c21.patch(rng, 2)
    K = c21.build(x, t)
    s = spread(x)
    f = field(rng, x)
    f0 = f.copy()
    contour = bool(rng.random() < .6)
    opt = dict(plot_contour=contour)
    if contour and rng.integers(2):
        opt['levels'] = int(rng.integers(2, 30))
    mon.note(cells=len(t), options=opt)
    mon.state(x, t, f, opt)
    ax = draw(mon, lambda **a: K.plot_primal_0_form(f, **opt, **a), rng.random() < .7, options=opt)
    mon.eq('input', f, f0, tag='form')
    if contour:
        n = observe_contours(mon, ax, x, t, f, exact_area=True, levels=opt.get('levels', 20), options=opt)
        mon.eq('band', n, 1, tag='filled')
    else:
        observe_flat(mon, 'flat', ax, x[t], f[t].mean(axis=1), s, options=opt)
    p2 = rng.normal(size=len(t)) * 10. ** rng.uniform(-3, 3)
    opt = dict(cmap=str(rng.choice(['jet', 'viridis', 'gray']))) if rng.integers(2) else {}
    ax = draw(mon, lambda **a: K.plot_primal_2_form(p2, **opt, **a), rng.random() < .7, options=opt)
    observe_faces(mon, ax, x[t], p2, np.ones(len(t), bool), opt.get('cmap', 'jet'), s, options=opt)
    untouched(mon, K, x)


def case_dual(mon, rng, i):
    """a dual 0-form, interpolated over the fundamental domains"""
    while True:
        d = geo.euclidean(rng, n=2, weights=False, wellcentered=True)
        if d['x'].shape[1] in (2, 3) and len(d['cells']) < 100:
            break
    x, t = d['x'], d['cells']
    if x.shape[1] == 2:
        t = gen.positively_oriented(t, x)
    t = np.ascontiguousarray(t, dtype=np.int32)
    K = c21.build(x, t)
    s = spread(x)
    k = rng.normal(size=x.shape[1]) * 3 / s
    a = rng.normal()
    def g(p):
        return np.cos((p - x.mean(axis=0)) @ k + a)
    d0 = g(K.dual_position[0])
    opt = dict(plot_contour=False)
    if x.shape[1] == 3:
        opt['backface_culling'] = False
    mon.note(name=d['name'])
    mon.state(x, t, d0)
    ax = draw(mon, lambda **b: K.plot_dual_0_form_interpolated(d0, **opt, **b), rng.random() < .7)
    cc = geo.centers(x[t])[0]
    mid, at, ring = {}, {}, {v: [] for v in range(len(x))}
    for q, c in zip(t.tolist(), cc):
        for v in q:
            ring[v].append(g(c))
        for u, v in itertools.combinations(sorted(q), 2):
            mid.setdefault((u, v), []).append(g(c))
    for (u, v), l in mid.items():
        if len(l) == 1:
            b = g((x[u] + x[v]) / 2)
            l.append(b)
            ring[u].append(b)
            ring[v].append(b)
    tri, val = [], []
    for q, c in zip(t.tolist(), cc):
        for u, v in itertools.permutations(q, 2):
            e = tuple(sorted((u, v)))
            tri.append([x[u], (x[u] + x[v]) / 2, c])
            val.append(np.mean([np.mean(ring[u]), np.mean(mid[e]), g(c)]))
    observe_flat(mon, 'dual-form', ax, np.array(tri)[..., :2], np.array(val), s, name=d['name'])
    # a constant is drawn as a constant, whatever the weighting
    c = float(rng.normal()) + 3
    ax = draw(mon, lambda **b: K.plot_dual_0_form_interpolated(d0 * 0 + c, weighted=True, **opt, **b), True)
    v = np.array([p[2] for p in polygons(ax)])
    mon.check('dual-form', len(v) == len(val) and np.allclose(v, c), tag='constant', want=c, got=v)
    untouched(mon, K, x)


def case_grid(mon, rng, i):
    """forms on a grid are drawn over four triangles per square"""
    d = c17.uniform(rng, 2)
    K = c17.build(rng, d)
    x, c = d['x'], d['cells']
    s = spread(x)
    f = field(rng, x)
    f0 = f.copy()
    contour = bool(rng.random() < .6)
    opt = dict(plot_contour=contour)
    if contour and rng.integers(2):
        opt['levels'] = int(rng.integers(2, 30))
    mon.note(name=d['name'], options=opt)
    mon.state(x, c, f, opt)
    ax = draw(mon, lambda **a: K.plot_primal_0_form(f, **opt, **a), rng.random() < .7, options=opt)
    mon.eq('input', f, f0, tag='form')
    X = np.concatenate([x, x[c.reshape(-1, 4)].mean(axis=1)])
    F = np.concatenate([f, f[c.reshape(-1, 4)].mean(axis=1)])
    m = len(x) + np.arange(len(c))
    tri = np.concatenate([np.stack([c[:, a, b], c[:, p, q], m], axis=1) for (a, b), (p, q) in [((0, 0), (0, 1)), ((0, 1), (1, 1)), ((1, 1), (1, 0)), ((1, 0), (0, 0))]])
    owner = np.tile(np.arange(len(c)), 4)
    if contour:
        n = observe_contours(mon, ax, X, tri, F, exact_area=True, levels=opt.get('levels', 20), options=opt)
        mon.eq('band', n, 1, tag='filled')
    else:
        observe_flat(mon, 'flat', ax, X[tri], F[tri].mean(axis=1), s, options=opt)
    p2 = rng.normal(size=len(c)) * 10. ** rng.uniform(-3, 3)
    q = p2.copy()
    opt = dict(cmap=str(rng.choice(['viridis', 'gray']))) if rng.integers(2) else {}
    ax = draw(mon, lambda **a: K.plot_primal_2_form(p2, **opt, **a), rng.random() < .7, options=opt)
    mon.eq('input', p2, q, tag='2-form')
    observe_faces(mon, ax, X[tri], p2, owner, opt.get('cmap', 'jet'), s, options=opt)
    untouched(mon, K, x)


def case_sphere(mon, rng, i):
    d = c10.mesh(rng)
    if len(d['cells']) > 200:
        d = c10.mesh(rng)
    if i % 25 == 7:                                              # more edges than the points an arc is drawn with
        from pycomplex import synthetic
        s = synthetic.icosphere(refinement=int(rng.integers(3, 5)))
        x = c10.unit(s.vertices @ geo.rotation(rng, 3) + rng.normal(size=s.vertices.shape) * .005)
        d = dict(x=x, cells=gen.even_permutations(rng, np.array(s.topology.elements[-1])), name='fine')
    x, t = d['x'], d['cells']
    K = c10.build(d, float(np.exp(rng.normal())), typed=rng.random() < .7)
    opt = dict(plot_dual=bool(rng.random() < .7), plot_vertices=bool(rng.integers(2)), backface_culling=bool(rng.random() < .6))
    mon.note(name=d['name'], options=opt)
    mon.state(x, t, opt)
    ax = draw(mon, lambda **a: K.plot(primal_color=P, dual_color=D, **opt, **a), rng.random() < .7, options=opt)
    e = simplex_edges(t)
    cc, low = geo.centers(x[t])
    if low.min() < 1e-6:
        mon.skip('not well centred')
        return
    cc = c10.unit(cc)
    mid = {tuple(k): c10.unit(x[k].sum(axis=0)) for k in e}
    S, count = [], {}
    for q, c in zip(t.tolist(), cc):
        for u, v in itertools.combinations(sorted(q), 2):
            S.append((mid[u, v], c))
            count[u, v] = count.get((u, v), 0) + 1
    outer = np.array([mid[k] for k, v in count.items() if v == 1]).reshape(-1, 3)
    S += [(x[k[a]], mid[k]) for k, v in count.items() if v == 1 for a in (0, 1)]
    for name, A, colour, pts in [('primal', x[e], P, x), ('dual', np.array(S), D, np.concatenate([cc, outer]))]:
        got = segments(ax, colour)
        got = got[np.linalg.norm(got[:, 1] - got[:, 0], axis=1) > 1e-12]
        kw = dict(tag=name, name=d['name'], options=opt)
        if name == 'dual' and not opt['plot_dual']:
            mon.eq('nothing', len(got) + len(dots(ax, D)), 0, **kw)
            continue
        # every piece drawn lies on an arc
        n = np.cross(A[:, 0], A[:, 1])
        n /= np.linalg.norm(n, axis=1, keepdims=True)
        def lift(p):
            """both points of the sphere over a point of the plane"""
            z = np.sqrt(np.maximum(0, 1 - (p ** 2).sum(-1)))
            return [np.concatenate([p, [s * z]]) for s in ((1,) if opt['backface_culling'] else (1, -1))]
        def arcs_at(p):
            """arcs passing through a point of the plane"""
            out = set()
            for q in lift(p):
                on = np.abs(n @ q) < 1e-3
                on &= (q @ A[:, 0].T >= (A[:, 0] * A[:, 1]).sum(1) - 1e-3) & (q @ A[:, 1].T >= (A[:, 0] * A[:, 1]).sum(1) - 1e-3)
                out |= set(np.flatnonzero(on).tolist())
            return out
        mon.check('great-arc', np.all((got ** 2).sum(-1) <= 1 + 1e-9), **kw, why='inside')
        for k in rng.permutation(len(got))[:30]:
            mon.check('great-arc', len(arcs_at(got[k, 0]) & arcs_at(got[k, 1])), piece=got[k], **kw)
        # and every visible bit of an arc is drawn
        u = rng.random((40, 1))
        k = rng.integers(len(A), size=40)
        p = c10.unit(A[k, 0] * u + A[k, 1] * (1 - u))
        if opt['backface_culling']:
            p = p[p[:, 2] > .25]
        if len(p):
            if not mon.check('great-arc', len(got), why='something', **kw):
                continue
            a, b = got[:, 0], got[:, 1]
            w = ((p[:, None, :2] - a) * (b - a)).sum(-1) / ((b - a) ** 2).sum(-1)
            near = a + np.clip(w, 0, 1)[..., None] * (b - a)
            dist = np.linalg.norm(near - p[:, None, :2], axis=-1).min(axis=1)
            mon.check('great-arc', dist.max() < 5e-3, why='all', worst=dist.max(), **kw)
        if opt['plot_vertices']:
            q = pts[np.abs(pts[:, 2]) > 1e-9]
            same(mon, 'vertices' if name == 'primal' else 'dual-vertices', dots(ax, colour), (pts[pts[:, 2] > 0] if opt['backface_culling'] else pts)[:, :2], 1., **kw)
        else:
            mon.eq('nothing', len(dots(ax, colour)), 0, **kw)
    r = np.linalg.norm(segments(ax, 'k'), axis=-1)
    mon.check('great-arc', r.size > 100 and np.abs(r - 1).max() < 1e-6, tag='outline')
    untouched(mon, K, x)


def case_warp(mon, rng, i):
    """a flux is drawn by moving the vertices with it"""
    n = 2
    while True:
        d = geo.euclidean(rng, n=2, weights=False, wellcentered=True)
        if d['x'].shape[1] == 2:
            break
    x, t = d['x'], np.ascontiguousarray(gen.positively_oriented(d['cells'], d['x']), dtype=np.int32)
    K = c21.build(x, t)
    s = spread(x)
    S = K.topology.dual.selector_interior
    # a flow that is the same everywhere moves all vertices by the same amount
    v = rng.normal(size=2) * s
    E = np.asarray(K.topology.elements[1])
    e = x[E[:, 1]] - x[E[:, 0]]
    z = bool(rng.random() < .2)
    mon.state(x, t, v)
    mon.note(name=d['name'])
    flux = rng.normal(size=len(E)) * (0 if z else 1)
    keep = flux.copy()
    opt = dict(plot_lines=True, plot_vertices=True, primal_color=P, dual_color=D)
    ax = draw(mon, lambda **a: K.plot_dual_flux(flux, **opt, **a), rng.random() < .7)
    mon.eq('input', flux, keep, tag='flux')
    with mon.calling('dual_flux_to_dual_velocity'):
        vel = np.asarray(S[-1] * K.dual_flux_to_dual_velocity(S[1].T * flux))
    p = np.zeros_like(x)
    for a in range(len(x)):
        p[a] = vel[np.any(t == a, axis=1)].mean(axis=0)
    y = x + p
    same(mon, 'warp', dots(ax, P), y, spread(y), name=d['name'])
    same(mon, 'warp', undirected(segments(ax, P)), undirected(y[simplex_edges(t)]), spread(y), name=d['name'])
    mon.eq('nothing', len(segments(ax, D)), 0)
    ax = draw(mon, lambda **a: K.plot_dual_flux(flux, **a), True)
    mon.eq('nothing', len(segments(ax)), 0, tag='default')
    untouched(mon, K, x)


def case_stencil(mon, rng, i):
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    from pycomplex.stencil.complex import StencilComplex2D
    shape = tuple(int(v) for v in rng.integers(2, 12, size=2))
    scale = float(np.exp(rng.normal())) if rng.integers(2) else 1
    C = StencilComplex2D.from_shape(shape, scale=scale)
    mon.note(shape=shape, scale=scale)
    mon.state('stencil', shape, scale, i)
    f = [rng.normal(size=(k,) + shape) for k in (1, 2, 1)]
    f0 = [q.copy() for q in f]

    def image():
        fig = plt.gcf()
        im = [a for ax in fig.axes for a in ax.images]
        mon.eq('image', len(im), 1, tag='one')
        return im[0]
    plt.close('all')
    with mon.calling('draws', tag='plot_0'):
        C.plot_0(f[0])
    im = image()
    a = np.asarray(im.get_array())
    w = np.arange(shape[0] + 1) % shape[0], np.arange(shape[1] + 1) % shape[1]
    mon.eq('image', a, f0[0][0][np.ix_(*w)].T, tag='0-form', shape=shape)
    mon.close('image', im.get_extent(), [0, shape[0] * C.scale, 0, shape[1] * C.scale], 1e-12, tag='extent', shape=shape)
    mon.eq('image', len(plt.gcf().axes), 2, tag='colorbar')
    plt.close('all')
    with mon.calling('draws', tag='plot_2'):
        C.plot_2(f[2])
    im = image()
    mon.eq('image', np.asarray(im.get_array()), f0[2][0].T, tag='2-form', shape=shape)
    mon.close('image', np.asarray(im.get_extent()[1]) / im.get_extent()[3], shape[0] / shape[1], 1e-12, tag='aspect', shape=shape)
    plt.close('all')
    rec = []
    keep = Axes.streamplot

    def record(self, *a, **k):
        rec.append(a)
        return keep(self, *a, **k)
    Axes.streamplot = record
    try:
        with mon.calling('draws', tag='plot_1'):
            C.plot_1(f[1])
    finally:
        Axes.streamplot = keep
    plt.close('all')
    for a, b in zip(f, f0):
        mon.eq('input', a, b, tag='stencil')
    if mon.eq('stream', len(rec), 1, tag='once'):
        x, y, u, v = [np.asarray(q) for q in rec[0][:4]]
        mon.close('stream', x, np.arange(shape[0]) * C.scale, 1e-12, tag='x')
        mon.close('stream', y, np.arange(shape[1]) * C.scale, 1e-12, tag='y')
        U, V = f0[1]
        U = np.array([[U[p, q] + U[p - 1, q] for q in range(shape[1])] for p in range(shape[0])])
        V = np.array([[V[p, q] + V[p, q - 1] for q in range(shape[1])] for p in range(shape[0])])
        # rows of the image run downwards, like those of the 0-form
        mon.close('stream', u, U.T[::-1], 1e-12, tag='u', shape=shape)
        mon.close('stream', v, -V.T[::-1], 1e-12, tag='v', shape=shape)


CASES = dict(simplicial=case_simplicial, cubical=case_cubical, curve=case_curve, space=case_space, space_form=case_space_form, plane=case_plane, dual=case_dual, grid=case_grid,
             sphere=case_sphere, warp=case_warp, stencil=case_stencil)
PLAN = dict(quick=dict(simplicial=160, cubical=120, curve=80, space=160, space_form=160, plane=120, dual=60, grid=100, sphere=100, warp=60, stencil=60),
            thorough=dict(simplicial=3000, cubical=2000, curve=1500, space=3000, space_form=3000, plane=2500, dual=1500, grid=2000, sphere=1500, warp=1500, stencil=1500))
