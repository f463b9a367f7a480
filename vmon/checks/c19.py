"""C19 velocities from fluxes"""
import numpy as np
from vmon import gen, geo, picks, ref, many
from vmon.checks import c11

PROP = 'C19'
RULE = ('pairwise Delaunay simplicial complexes of dimension 1-3, flat or folded in a higher-dimensional space, weighted or not, and rectilinear grids of dimension 1-4 with similar or very different spacings; fluxes of linear potentials, '
        'geometric fluxes of uniform fields, and random fluxes with extra axes; compared with the field and with an independent least-squares fit per cell; a state is one (complex, flux) pair')
REQUIRED = {'copies': 10, 'gradient': 100, 'uniform': 100, 'least-squares': 100, 'linear': 100, 'boundary-zero': 60, 'shape': 100}


def folded(rng):
    """triangulated surface or curve in space"""
    if rng.random() < .5:
        cells, x = gen.sphere(rng, 2, int(rng.integers(6, 25)))
        return dict(cells=gen.orient(cells.astype(np.int32)), x=x, w=None, n=2, spherical=False, radius=1, name='hull')
    n = int(rng.integers(1, 4))
    cells, x = geo.equilateral(rng, n) if n > 1 else (np.array([[0, 1], [1, 2], [2, 3]], np.int32), rng.normal(size=(4, 2)))
    m = x.shape[1] + int(rng.integers(0, 2))
    y = np.zeros((len(x), m))
    y[:, :x.shape[1]] = x
    return dict(cells=gen.orient(np.asarray(cells, np.int32)), x=y.dot(geo.rotation(rng, m)), w=None, n=n, spherical=False, radius=1, name='single-%d' % n)


def case_simplicial(mon, rng, i):
    d = folded(rng) if rng.random() < .3 else picks.flat_mesh(rng)
    s = 10. ** rng.uniform(-3, 3)
    d['x'] = d['x'] * s
    if d['w'] is not None:
        d['w'] = d['w'] * s ** 2
    if d['n'] > 1 and geo.flatness(d['x'][d['cells']]).min() < .02:
        mon.skip('sliver')
        return
    value, inner = picks.excess(d)
    want, lower, top = geo.dual_metric(d['x'], d['w'], d['cells'], [np.asarray(e) for e in picks.build(d).topology.elements])
    e = want[d['n'] - 1]
    if lower < 1e-3 or np.min(e) < 1e-3 * np.abs(e).max():
        mon.skip('not pairwise delaunay')
        return
    if not picks.build(d).is_pairwise_delaunay:
        mon.skip('not pairwise delaunay')
        return
    c = picks.build(d, typed=d['x'].shape[1] == 2 and rng.random() < .5)
    observe(mon, rng, c, d, d['x'][d['cells']], geo.centers(d['x'][d['cells']], None if d['w'] is None else d['w'][d['cells']])[0])


def case_regular(mon, rng, i):
    d = c11.rectilinear(rng)
    if rng.random() < .3:
        # plates and needles: very different spacings along the axes
        d['x'] = np.ascontiguousarray(d['x'] * 10. ** rng.uniform(-1.8, 1.8, d['x'].shape[1]))
        d['name'] += '-plates'
    c = c11.build(d)
    corners = d['x'][ref.flat(d['cells'])]
    observe(mon, rng, c, d, corners, corners.mean(1))


def observe(mon, rng, c, d, corners, centre):
    T = c.topology
    n, x = T.n_dim, c.vertices
    N = len(corners)
    E = T.elements
    m = x.shape[1]
    mon.note(name=d['name'], cells=N, dimensions=(n, m))
    mon.state(d['cells'], x)
    f = c.dual_flux_to_dual_velocity
    nd = T.dual.n_elements
    # geometry of facets, independent of the complex: centre, area, unit normal in the plane of each cell
    facet = ref.flat(np.asarray(E[n - 1]))
    fx = x[facet]
    if corners.shape[1] == n + 1:
        fc = geo.centers(fx, None if d.get('w') is None else d['w'][facet])[0] if n > 1 else fx[:, 0]
        area = geo.gram_volume(fx) if n > 1 else np.ones(len(fx))
    else:
        fc = fx.mean(1)
        ext = np.sort(np.ptp(fx, axis=1), axis=1)
        area = ext[:, 1:].prod(1) if n > 1 else np.ones(len(fx))
    D = ref.dense(T.dual.matrices[0])              # [dual vertices, dual edges]
    plane = np.linalg.svd(corners - corners.mean(1, keepdims=True))[2][:, :n]            # basis of each cell
    A = rng.normal(size=m)
    size = np.abs(corners - corners.mean(1, keepdims=True)).max()
    tol = 1e-7
    # 1. differences of a linear potential: exact on flat complexes
    flat = m == n
    if flat:
        pos = np.asarray(c.dual_position[0]) if hasattr(c, 'dual_position') else None
        o = pos.mean(0)
        v = f(D.T.dot((pos - o).dot(A) / size))
        mon.close('gradient', v[:N], np.repeat(A[None], N, 0) / size, tol)
    else:
        mon.counts['gradient'] += 0
    # 2. the flux of a field that is uniform in every cell: through each facet, along the dual edge
    h = np.asarray(c.hodge_DP[n - 1])
    B = np.abs(ref.dense(T.matrices[-1]))          # facets x cells
    sign = np.asarray(ref.dense(T.dual.matrices[0])[:N])[:, :len(facet)] if n >= 1 else None
    # outward flux of each cell through each of its facets; consistent only if the neighbours agree
    vel = rng.normal(size=m) if flat else None
    G, rows = [], []
    for t in range(N):
        fs = np.flatnonzero(B[:, t])
        out = fc[fs] - corners[t].mean(0)
        out = out.dot(plane[t].T).dot(plane[t])
        for r, q in enumerate(fs):
            # remove the components within the facet
            tan = fx[q][1:] - fx[q][:1]
            if len(tan):
                u, s, vt = np.linalg.svd(tan, full_matrices=False)
                vt = vt[s > 1e-9 * s.max()]
                out[r] = out[r] - vt.T.dot(vt.dot(out[r]))
        out = out / np.linalg.norm(out, axis=1, keepdims=True)
        G.append(out * area[fs][:, None])
        rows.append(fs)
    # the dual edge leaves the cell where its entry is negative
    lead = -sign                                    # [cells, facets]; +1: dual edge leaves the cell
    if flat:
        q = np.zeros(len(facet))
        for t in range(N):
            q[rows[t]] = lead[t, rows[t]] * G[t].dot(vel)
        flux = np.zeros(nd[1])
        flux[:len(facet)] = h * q
        v = f(flux)
        mon.close('uniform', v[:N], np.repeat(vel[None], N, 0), tol, scale=size)
        mon.close('boundary-zero', v[N:], np.zeros((len(v) - N, m)), 0)
    # 3. any flux: least squares within each cell, with further axes, linear
    gu = [(), (2,), (2, 3)][rng.integers(3)]
    flux = rng.normal(size=(nd[1],) + gu)
    plates = d['name'].endswith('plates')
    if plates:
        # what does not fit is amplified by the square of the condition of the cell
        flux[:len(facet)] *= h.reshape((-1,) + (1,) * len(gu))
    v = f(flux)
    if not mon.eq('shape', v.shape, (nd[0], m) + gu):
        return
    p = flux[:len(facet)] / h.reshape((-1,) + (1,) * len(gu))
    want = np.zeros((N, m) + gu)
    for t in range(N):
        b = (lead[t, rows[t]][(slice(None),) + (None,) * len(gu)] * p[rows[t]]).reshape(len(rows[t]), -1)
        g = G[t].dot(plane[t].T)
        want[t] = plane[t].T.dot(np.linalg.lstsq(g, b, rcond=None)[0]).reshape((m,) + gu)
    mon.close('least-squares', v[:N], want, 1e-3 if plates else 1e-6)
    mon.close('boundary-zero', v[N:], np.zeros((len(v) - N, m) + gu), 0)
    g = rng.normal(size=flux.shape) if not plates else flux * rng.uniform(-1, 1, (len(flux),) + (1,) * len(gu))
    a = rng.normal()
    mon.close('linear', f(flux + a * g), v + a * f(g), 1e-5 if plates else 1e-8)
    if not flat:
        mon.counts['uniform'] += 0

def k_copies(mon, rng, i):
    T = 66000 if i < 2 else int(rng.choice([300, 1500]))
    if i % 2 == 0:
        many.velocity(mon, rng, T, 'flat')
    else:
        many.velocity(mon, rng, T, 'regular')


CASES = dict(simplicial=case_simplicial, regular=case_regular, copies=k_copies)
PLAN = dict(quick=dict(simplicial=2400, regular=1440, copies=10), thorough=dict(simplicial=5000, regular=2500, copies=150))
