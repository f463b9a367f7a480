"""Monitors for purity: snapshots of everything reachable from an object, and comparable outcomes of queries"""
import contextlib
import inspect
import io
import types
import warnings
import numpy as np
import scipy.sparse

SKIP = {'parent'}          # the origin of a copy is bookkeeping, not state


def is_own(o):
    return type(o).__module__.split('.')[0] == 'pycomplex'


class Snapshot(object):
    """every array, sparse matrix, container and attribute reachable from the given roots, with their present contents"""

    def __init__(self, *roots):
        self.leaves, self.slots, self.keep = [], [], []
        seen = set()
        todo = [('%d' % i, r) for i, r in enumerate(roots)]
        while todo:
            path, o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            self.keep.append(o)
            if isinstance(o, np.ndarray):
                if o.dtype == object:
                    todo += [('%s[%d]' % (path, i), v) for i, v in enumerate(o.ravel())]
                else:
                    self.leaves.append((path, o, o.copy()))
            elif scipy.sparse.issparse(o):
                self.leaves.append((path, o, o.copy()))
            elif isinstance(o, (list, tuple)):
                if isinstance(o, list):
                    self.slots.append((path, o, list(o)))
                todo += [('%s[%d]' % (path, i), v) for i, v in enumerate(o)]
            elif isinstance(o, dict):
                self.slots.append((path, o, dict(o)))
                todo += [('%s[%r]' % (path, k), v) for k, v in o.items()]
            elif is_own(o) and hasattr(o, '__dict__'):
                self.slots.append((path, o.__dict__, {k: v for k, v in o.__dict__.items() if k not in SKIP}))
                todo += [('%s.%s' % (path, k), v) for k, v in o.__dict__.items()]

    @property
    def size(self):
        return len(self.leaves) + len(self.slots)

    def changed(self):
        """paths of everything that is no longer what it was"""
        out = []
        for path, o, c in self.leaves:
            if isinstance(o, np.ndarray):
                ok = o.shape == c.shape and o.dtype == c.dtype and np.array_equal(o, c, equal_nan=o.dtype.kind in 'fc')
            else:
                ok = o.shape == c.shape and same_sparse(o, c, 0)
            if not ok:
                out.append(path)
        for path, o, c in self.slots:
            if isinstance(o, list):
                if len(o) != len(c) or any(a is not b and not same(freeze(a), freeze(b)) for a, b in zip(o, c)):
                    out.append(path)
            else:
                for k, v in c.items():
                    if k not in o or (o[k] is not v and not same(freeze(o[k]), freeze(v))):
                        out.append('%s.%s' % (path, k))
        return sorted(set(out))


def same_sparse(a, b, rtol):
    if a.shape != b.shape:
        return False
    a, b = a.tocsr(copy=True), b.tocsr(copy=True)
    d = abs(a.astype(float) - b.astype(float))
    return d.nnz == 0 or (np.isfinite(d.data).all() and d.max() <= rtol * max(1e-300, abs(b).max())) or np.array_equal(a.toarray(), b.toarray(), equal_nan=True)


def freeze(o, depth=0):
    """a comparable description of a value"""
    if isinstance(o, np.ndarray) and o.dtype != object:
        return ('array', o.copy())
    if isinstance(o, (np.generic, bool, int, float, complex)):
        return ('array', np.array(o))
    if o is None or isinstance(o, (str, bytes, type)):
        return ('value', o)
    if scipy.sparse.issparse(o):
        return ('sparse', o.copy())
    if depth > 6:
        return ('deep',)
    if isinstance(o, np.ndarray):
        return ('list', [freeze(v, depth + 1) for v in o.ravel()])
    if isinstance(o, (list, tuple, types.GeneratorType, range, map, zip)):
        return ('list', [freeze(v, depth + 1) for v in o])
    if isinstance(o, dict):
        return ('dict', {repr(k): freeze(v, depth + 1) for k, v in o.items()})
    if is_own(o) and hasattr(o, '__dict__'):
        names = [k for k in ('vertices', 'weights', 'radius', 'scale', '_elements', '_boundary', '_orientation', 'shape') if k in o.__dict__]
        d = {k: freeze(getattr(o, k), depth + 1) for k in names if not callable(getattr(o, k))}
        if is_own(o.__dict__.get('topology')):
            d['topology'] = freeze(o.__dict__['topology'], depth + 1)
        return ('object', type(o).__name__, d)
    return ('opaque', type(o).__name__)


def same(a, b, rtol=1e-7):
    if a[0] != b[0]:
        return False
    if a[0] == 'array':
        x, y = a[1], b[1]
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind not in 'fc' or x.size == 0:
            return np.array_equal(x, y)
        f = y[np.isfinite(y)]
        return bool(np.allclose(x, y, rtol, rtol * (np.abs(f).max() if f.size else 0), equal_nan=True))
    if a[0] == 'sparse':
        return same_sparse(a[1], b[1], rtol)
    if a[0] == 'list':
        return len(a[1]) == len(b[1]) and all(same(x, y, rtol) for x, y in zip(a[1], b[1]))
    if a[0] == 'dict':
        return set(a[1]) == set(b[1]) and all(same(a[1][k], b[1][k], rtol) for k in a[1])
    if a[0] == 'object':
        return a[1] == b[1] and set(a[2]) == set(b[2]) and all(same(a[2][k], b[2][k], rtol) for k in a[2])
    return a == b


def outcome(f):
    """frozen value of a call, or the type of the exception it raised"""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            try:
                v = f()
            except Exception as e:
                return ('raises', type(e).__name__), None
    return freeze(v), v


def attributes(o, skip=()):
    """names of all public argument-free queries of an object: properties and methods without required arguments"""
    out = []
    for a in sorted(dir(type(o))):
        if a.startswith('_') or a.startswith('plot') or a in skip:
            continue
        d = inspect.getattr_static(type(o), a)
        if isinstance(d, (staticmethod, classmethod, type)):
            continue
        if callable(d) and hasattr(d, '__code__'):
            p = list(inspect.signature(d).parameters.values())[1:]
            if all(q.default is not q.empty or q.kind in (q.VAR_KEYWORD, q.VAR_POSITIONAL) for q in p):
                out.append((a, True))
        elif not callable(d) or type(d).__name__ == 'cached_property':
            out.append((a, False))
    return out


def run(o, name):
    """follow a dotted path of attributes, calling methods"""
    for part in name.split('.'):
        o = getattr(o, part)
        if callable(o) and not isinstance(o, type) and not scipy.sparse.issparse(o) and hasattr(o, '__self__'):
            o = o()
    return o
