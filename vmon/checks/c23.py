"""C23 dual multigrid transfer on the sphere"""
import numpy as np
from vmon import gen, geo
from vmon.checks import c10

PROP = 'C23'
RULE = ('well-centred spherical triangulations, closed or open, of either orientation and any radius, with exactly symmetric triangles among them, over one or two levels, small and large; the transfer is compared '
        'entry by entry with spherical polygons clipped against the bisectors of the coarse cells; a state is one pair of levels')
REQUIRED = {'overlap': 40, 'sums': 40, 'positive': 40, 'constants': 40, 'integrals': 40}


def mesh(rng):
    d = c10.mesh(rng)
    cells, x = np.array(d['cells']), c10.unit(d['x'])
    if rng.random() < .3:                                        # exactly symmetric triangles
        cells, x = (geo.ICO_CELLS, c10.unit(geo.ICO)) if rng.random() < .5 else c10.octahedron()
        cells = gen.orient(np.array(cells))
        if rng.random() < .5:
            k = gen.facet_connected_subset(rng, 'simplex', cells, int(rng.integers(1, len(cells))))
            cells, u = gen.compact(cells[k] if np.ndim(k) == 1 else k)
            x = x[u]
    cells = gen.even_permutations(rng, gen.shuffle_cells(rng, cells))
    if rng.random() < .4:
        cells = cells[:, ::-1]
    return np.ascontiguousarray(cells, dtype=np.int32), x


def margin(x, cells):
    """smallest barycentric coordinate of the spherical circumcentre"""
    return min(geo.centers(x[cells])[1].min(), 1.)


def area(poly):
    """area of spherical polygons, by a fan of solid angles"""
    a = poly[0]
    out = 0.
    for b, c in zip(poly[1:-1], poly[2:]):
        out += 2 * np.arctan2(np.linalg.det([a, b, c]), 1 + a.dot(b) + b.dot(c) + c.dot(a))
    return out


def clip(poly, n):
    out = []
    h = [p.dot(n) for p in poly]
    for k in range(len(poly)):
        p, q, hp, hq = poly[k], poly[(k + 1) % len(poly)], h[k], h[(k + 1) % len(poly)]
        if hp >= 0:
            out.append(p)
        if (hp > 0 > hq) or (hp < 0 < hq):
            out.append(c10.unit((p * hq - q * hp) * np.sign(hq - hp)))
    return out


def overlaps(x, cells, fine_x, fine_cells):
    """[coarse, fine] areas of overlap of the dual cells of a mesh and its refinement"""
    T = np.zeros((len(x), len(fine_x)))
    where = np.linalg.inv(x[cells])
    for f in fine_cells:
        v = fine_x[f]
        mid = c10.unit(v.mean(0))
        b = np.einsum('d,tdk->tk', mid, where)
        c = int(np.argmax(b.min(1)))
        cc = np.cross(v[1] - v[0], v[2] - v[0])
        cc = c10.unit(cc * np.sign(cc.dot(mid)))
        for k in range(3):
            a, p, q = v[k], v[(k + 1) % 3], v[(k + 2) % 3]
            quad = [a, c10.unit(a + p), cc, c10.unit(a + q)]
            for i in range(3):
                piece = quad
                for j in range(3):
                    if j != i and len(piece) > 2:
                        piece = clip(piece, x[cells[c, i]] - x[cells[c, j]])
                if len(piece) > 2:
                    T[cells[c, i], f[k]] += abs(area(piece))
    return T


def case_pair(mon, rng, i):
    from pycomplex.complex.simplicial.spherical import ComplexSpherical2
    cells, x = mesh(rng)
    if margin(x, cells) < .03:
        mon.skip('not well centred')
        return
    radius = float(np.exp(rng.normal()))
    coarse = ComplexSpherical2(vertices=x.copy(), simplices=cells.copy(), radius=radius)
    levels = [coarse, coarse.subdivide_loop()]
    if len(cells) < 30 and rng.random() < .4:
        levels.append(levels[-1].subdivide_loop())
    for coarse, fine in zip(levels[:-1], levels[1:]):
        E, e = np.asarray(coarse.topology.elements[-1]), np.asarray(fine.topology.elements[-1])
        if min(margin(coarse.vertices, E), margin(fine.vertices, e)) < .02:
            mon.skip('not well centred')
            return
        mon.state(fine.vertices, e, radius)
        mon.note(cells=len(E), radius=radius)
        got = coarse.multigrid_transfer_dual(coarse, fine)
        want = overlaps(coarse.vertices, E, fine.vertices, e) * radius ** 2
        mon.check('overlap', got.shape == want.shape, got=got.shape, want=want.shape)
        got = got.toarray()
        mon.close('overlap', got, want, rtol=0, atol=1e-11 * radius ** 2)
        mon.check('positive', bool(got.min() > -1e-12 * radius ** 2), worst=got.min())
        mon.close('sums', got.sum(1), coarse.dual_metric[-1], rtol=1e-10, what='coarse')
        mon.close('sums', got.sum(0), fine.dual_metric[-1], rtol=1e-10, what='fine')
        c2f, f2c = coarse.coarse_to_fine, coarse.fine_to_coarse
        nc, nf = len(coarse.vertices), len(fine.vertices)
        if not mon.check('constants', c2f.shape == (nf, nc) and f2c.shape == (nc, nf), shapes=(c2f.shape, f2c.shape)):
            return
        mon.close('constants', c2f * np.ones(nc), np.ones(nf), what='prolongation')
        mon.close('constants', f2c * np.ones(nf), np.ones(nc), what='restriction')
        A, a = want.sum(1), want.sum(0)
        p, P = rng.normal(size=nf), rng.normal(size=nc)
        mon.close('integrals', A.dot(f2c * p), a.dot(p), rtol=0, atol=1e-10 * a.dot(np.abs(p)), what='restriction')
        mon.close('integrals', a.dot(c2f * P), A.dot(P), rtol=0, atol=1e-10 * A.dot(np.abs(P)), what='prolongation')


def case_large(mon, rng, i):
    """many cells: what each domain exchanges adds up to its area"""
    from pycomplex.complex.simplicial.spherical import ComplexSpherical2
    radius = float(np.exp(rng.normal()))
    cells = gen.orient(np.array(geo.ICO_CELLS, np.int32))
    x = c10.unit(c10.unit(geo.ICO) + (rng.normal(size=(12, 3)) * .02 if i else 0)).dot(geo.rotation(rng, 3).T)
    coarse = ComplexSpherical2(vertices=x, simplices=cells, radius=radius)
    for _ in range(5 if i == 0 else int(rng.integers(3, 5))):
        coarse = coarse.subdivide_loop()
    for _ in range(2 if i == 0 else 1):
        fine = coarse.subdivide_loop()
        if min(margin(c.vertices, np.asarray(c.topology.elements[-1])) for c in (coarse, fine)) < .02:
            mon.skip('not well centred')
            return
        mon.state(fine.vertices, radius)
        nc, nf = len(coarse.vertices), len(fine.vertices)
        mon.note(vertices=(nc, nf), radius=radius)
        got = coarse.multigrid_transfer_dual(coarse, fine)
        A, a = np.asarray(coarse.dual_metric[-1]), np.asarray(fine.dual_metric[-1])
        if not mon.check('overlap', got.shape == (nc, nf), got=got.shape):
            return
        mon.check('positive', bool(got.data.min() > -1e-12 * radius ** 2), worst=got.data.min())
        mon.close('sums', np.asarray(got.sum(1)).ravel(), A, rtol=1e-8, what='coarse')
        mon.close('sums', np.asarray(got.sum(0)).ravel(), a, rtol=1e-8, what='fine')
        # domains that overlap are near each other
        q = got.tocoo()
        q = q.row[q.data > 1e-9 * A.min()], q.col[q.data > 1e-9 * A.min()]
        e = np.asarray(coarse.topology.elements[1])
        far = c10.arc(coarse.vertices[e[:, 0]], coarse.vertices[e[:, 1]]).max()
        mon.check('overlap', c10.arc(coarse.vertices[q[0]], fine.vertices[q[1]]).max() < 1.3 * far, what='near')
        c2f, f2c = coarse.coarse_to_fine, coarse.fine_to_coarse
        if not mon.check('constants', c2f.shape == (nf, nc) and f2c.shape == (nc, nf), shapes=(c2f.shape, f2c.shape)):
            return
        mon.close('constants', c2f * np.ones(nc), np.ones(nf), what='prolongation')
        mon.close('constants', f2c * np.ones(nf), np.ones(nc), what='restriction')
        mon.close('constants', np.asarray(abs(c2f).sum(1)).ravel(), np.ones(nf), rtol=1e-6, what='prolongation weights')
        p, P = rng.normal(size=nf), rng.normal(size=nc)
        mon.close('integrals', A.dot(f2c * p), a.dot(p), rtol=0, atol=1e-8 * a.dot(np.abs(p)), what='restriction')
        mon.close('integrals', a.dot(c2f * P), A.dot(P), rtol=0, atol=1e-8 * A.dot(np.abs(P)), what='prolongation')
        coarse = fine


CASES = dict(pair=case_pair, large=case_large)
PLAN = dict(quick=dict(pair=280, large=5), thorough=dict(pair=1500, large=40))
