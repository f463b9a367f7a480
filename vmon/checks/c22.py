"""C22 STL export and import"""
import os
import shutil
import struct
import tempfile
import numpy as np
from vmon import geo
from vmon.checks import c21

PROP = 'C22'
RULE = ('closed and open surfaces of any size and position, written into a scratch directory; the file is parsed byte by byte by an independent reader, and the loaded surface compared triangle by '
        'triangle in single precision; files with other headers, attributes and normals are read as well; a state is one surface')
REQUIRED = {'format': 60, 'positions': 60, 'normals': 60, 'round-trip': 60, 'merge': 60, 'foreign': 20, 'again': 40}


def read(path):
    with open(path, 'rb') as f:
        raw = f.read()
    n, = struct.unpack_from('<I', raw, 80)
    out = [struct.unpack_from('<12fH', raw, 84 + 50 * k) for k in range(n)] if len(raw) >= 84 + 50 * n else []
    return len(raw), n, np.array([r[:3] for r in out]).reshape(-1, 3), np.array([r[3:12] for r in out]).reshape(-1, 3, 3), [r[12] for r in out]


def write(path, tri, rng):
    with open(path, 'wb') as f:
        f.write(bytes(rng.integers(0, 256, size=80).astype(np.uint8)))
        f.write(struct.pack('<I', len(tri)))
        for t in tri:
            f.write(struct.pack('<12fH', *([0.] * 3 if rng.random() < .5 else rng.normal(size=3)), *t.ravel(), int(rng.integers(65536))))


def same_surface(mon, oracle, got, tri32, what):
    """loaded complex has the same corners per triangle, in the same order, and merged vertices"""
    t = np.asarray(got.topology.elements[-1])
    mon.eq(oracle, len(t), len(tri32), what=what)
    if len(t) == len(tri32):
        mon.eq(oracle, np.asarray(got.vertices)[t].astype(np.float64), tri32.astype(np.float64), what=what + ' corners')
    v = np.asarray(got.vertices)
    mon.eq('merge', len(v), len(np.unique(tri32.reshape(-1, 3), axis=0)), what=what)
    mon.eq('merge', len(np.unique(v, axis=0)), len(v), what=what + ' distinct')


def case_large(mon, rng, i):
    case_trip(mon, rng, i, c21.large(rng)[:2])


def case_trip(mon, rng, i, mesh=None):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    x, t = mesh or (c21.solid(rng) if rng.random() < .5 else c21.patch(rng, 3))
    x32 = x.astype(np.float32)
    if len(np.unique(x32, axis=0)) < len(x32) or geo.flatness(x32[t].astype(float)).min() < 1e-3:
        mon.skip('collapses in single precision')
        return
    mon.state(x, t)
    mon.note(cells=len(t))
    c = c21.build(x, t)
    tmp = tempfile.mkdtemp(prefix='vmon-stl-')
    try:
        path = os.path.join(tmp, ['a.stl', 'with space.STL', 'noext'][rng.integers(3)])
        if rng.random() < .3:
            with open(path, 'wb') as f:
                f.write(b'\xff' * 100000)                        # overwritten completely
        c.save_STL(path)
        mon.eq('format', sorted(os.listdir(tmp)), [os.path.basename(path)], what='files')
        size, n, normals, tri, attr = read(path)
        mon.eq('format', (size, n), (84 + 50 * len(t), len(t)), what='size')
        mon.check('format', not any(attr), what='attributes')
        with open(path, 'rb') as f:
            mon.check('format', f.read(5) != b'solid', what='header')      # that would announce a text file
        if len(tri) != len(t):
            return
        mon.eq('positions', tri, x32[t].astype(float))
        V = c21.vector_area(x[t])
        mon.close('normals', normals, V / np.linalg.norm(V, axis=1, keepdims=True), rtol=0, atol=1e-6 + 1e-12 * (np.abs(x).max() / np.sqrt(np.linalg.norm(V, axis=1).min())) ** 2)
        got = ComplexTriangularEuclidian3.load_STL(path)
        mon.check('round-trip', type(got) is ComplexTriangularEuclidian3)
        same_surface(mon, 'round-trip', got, x32[t], 'loaded')
        mon.eq('round-trip', (got.topology.n_elements, bool(got.topology.is_closed), bool(got.topology.is_oriented)), (c.topology.n_elements, bool(c.topology.is_closed), bool(c.topology.is_oriented)), what='topology')
        mon.close('round-trip', float(got.area()), c.area(), rtol=1e-3, atol=0 if np.abs(x).max() < 50 * np.ptp(x, axis=0).max() else np.inf, what='area')
        second = os.path.join(tmp, 'second')
        got.save_STL(second)
        mon.eq('again', read(second)[3], tri)
        same_surface(mon, 'again', ComplexTriangularEuclidian3.load_STL(second), x32[t], 'again')
        os.remove(second)
        if rng.random() < .5:
            # files written by others: other header, attributes and normals, exactly representable positions
            y = rng.integers(-4, 5, size=x.shape).astype(float) if rng.random() < .5 else x32.astype(float)
            u = t[rng.permutation(len(t))[:max(1, len(t) // 2)]]
            y = y[u]
            y = np.where((y == 0) & (rng.random(y.shape) < .5), -0., y)    # zeros of either sign
            keep = np.array([len(np.unique(q, axis=0)) == 3 for q in y])
            y = y[keep]
            names = {}
            ids = np.array([[names.setdefault(tuple(p), len(names)) for p in q] for q in (y + 0.).tolist()]).reshape(-1, 3)
            ids = np.unique(np.sort(ids, 1), axis=0, return_index=True)[1]
            y = y[np.sort(ids)]
            if not len(y):
                return
            write(path, y, rng)
            same_surface(mon, 'foreign', ComplexTriangularEuclidian3.load_STL(path), y.astype(np.float32), 'foreign')
    finally:
        shutil.rmtree(tmp)


CASES = dict(trip=case_trip, large=case_large)
PLAN = dict(quick=dict(trip=1800, large=2), thorough=dict(trip=6000, large=24))
