"""Batches: the answer for an item of a batch is the answer for that item alone, however many and whichever others there are"""
import numpy as np


def size(rng):
    """mostly a few, sometimes more than small integers count"""
    if rng.random() < .97:
        return int(rng.choice([2, 3, 7, 40, 300]))
    return int(rng.integers(66000, 70000)) if rng.random() < .7 else int(rng.integers(131100, 140000))


def alone(mon, rng, name, f, args, tol=1e-9, absolute=0.):
    """f on arrays whose first axis is the batch, on the batch, on parts of it and on single items"""
    n = len(args[0])
    whole = np.asarray(f(*[a.copy() for a in args]))
    if not mon.eq('batch', whole.shape[:1], (n,), what=name, which='length'):
        return
    few = np.unique(np.concatenate([[0, n - 1], rng.integers(0, n, size=8)]))
    for k in few:
        one = np.asarray(f(*[a[k].copy() for a in args]))
        at = max(absolute, tol * np.abs(one).max()) if one.size else absolute
        mon.close('batch', whole[k], one, rtol=0, atol=at, what=name, item=int(k), of=n)
    part = rng.permutation(n)[:int(rng.integers(0, 20))]
    some = np.asarray(f(*[a[part] for a in args]))
    if len(part):
        b = whole[part]
        scale = np.abs(b).reshape(len(b), -1).max(axis=1).reshape((-1,) + (1,) * (b.ndim - 1)) if b.size else 0
        mon.eq('batch', some.shape, b.shape, what=name, which='shape')
        if some.shape == b.shape:
            mon.check('batch', bool(np.all(np.abs(some - b) <= np.maximum(absolute, tol * scale))), what=name, which='part', of=n)
    else:
        mon.eq('batch', some.shape, whole[:0].shape, what=name, which='empty')
    # more axes in front
    m = n // 2 * 2
    if 0 < m <= 300:
        fold = np.asarray(f(*[a[:m].reshape((2, m // 2) + a.shape[1:]) for a in args]))
        mon.eq('batch', fold.shape[:2], (2, m // 2), what=name, which='axes')
        b = whole[:m].reshape(fold.shape)
        scale = np.abs(b).reshape(2, m // 2, -1).max(axis=-1).reshape((2, m // 2) + (1,) * (b.ndim - 2)) if b.size else 0
        mon.check('batch', bool(np.all(np.abs(fold - b) <= np.maximum(absolute, tol * scale))), what=name, which='folded', of=n)
