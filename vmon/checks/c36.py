"""C36: objects are immutable: queries are pure and independent of history"""
import numpy as np
from .. import gen, geo, picks
from ..purity import Snapshot, attributes, freeze, outcome, run, same

PROP = 'C36'
RULE = ('random sequences of 12 to 40 of all public argument-free queries (found by reflection, of the complex, its topology, its dual topology, its boundary and its copies) mixed with picks, samples, selections, transforms and '
        'refinements with random arguments, with repeats, on simplicial, spherical, cubical, regular, stencil and bare topological objects; each answer is compared with that of a fresh equal object asked once, '
        'everything reachable from the object and from the arguments is compared before and after each step, and an object derived from a queried one answers as one derived from an unqueried one; a state is one object with its sequence')
REQUIRED = {'kin': 800, 'history': 800, 'pure': 800, 'arguments': 200, 'copy': 60, 'tables': 20, 'answers': 30}
SLOW = {'optimize_weights', 'optimize_weights_metric'}
SKIP = {'parent', 'topology', 'weights', 'load_STL', 'save_STL', 'coarse_to_fine', 'fine_to_coarse'}


def objects(rng):
    """(name, builder, family)"""
    from pycomplex import synthetic
    from pycomplex.complex.cubical import ComplexCubical
    kind = rng.choice(['flat', 'flat', 'surface', 'sphere', 'cubical', 'regular', 'regular'])
    if kind in ('flat', 'sphere'):
        d = picks.flat_mesh(rng) if kind == 'flat' else picks.sphere_mesh(rng)
        d = dict(d, cells=gen.orient(d['cells']))
        typed = bool(rng.integers(2))
        return d['name'], (lambda: picks.build(d, typed)), str(kind)
    if kind == 'surface':
        d = geo.euclidean(rng, n=2)
        if d['x'].shape[1] == 3:
            from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3 as T
            return d['name'], (lambda: T(vertices=d['x'].copy(), triangles=d['cells'].copy(), weights=None if d['w'] is None else d['w'].copy())), 'flat'
        return d['name'], (lambda: geo.build_euclidean(d)), 'flat'
    if kind == 'cubical':
        for _ in range(20):
            d = gen.random_cubical(rng, n=int(rng.integers(1, 4)), small=True)
            if d['points'] is not None:
                break
        else:
            d = dict(cells=gen.cube_grid((2, 2)), points=gen.cube_grid_points((2, 2)), name='grid')
        d['kind'] = 'cube'
        d = gen.scramble_cubical(rng, d)
        x = d['points'] + rng.normal(size=d['points'].shape) * .1
        return d['name'], (lambda: ComplexCubical(vertices=x.copy(), topology=gen.build_topology(dict(d, kind='cube')))), 'cubical'
    n = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(1, {1: 6, 2: 4, 3: 3}[n], size=n))
    cast = ['as_11', 'as_22', 'as_33'][n - 1]
    return 'regular-%s' % (shape,), (lambda: getattr(synthetic.n_cube_grid(shape), cast)().as_regular()), 'regular'


def parameters(rng, K, family):
    """queries with arguments: (name, function, arguments)"""
    T = K.topology
    N, E, dim = T.n_dim, T.n_elements, K.vertices.shape[1]
    lo, hi = K.vertices.min(0), K.vertices.max(0)
    if family == 'sphere':
        p = rng.normal(size=(5, dim))
        p /= np.linalg.norm(p, axis=1, keepdims=True)
    else:
        p = lo + (hi - lo) * rng.random((5, dim))
        c = K.vertices[T.elements[-1].reshape(E[-1], -1)]
        p[:3] = c[rng.integers(len(c), size=3)].mean(axis=1)
    form = lambda n: rng.normal(size=E[n])
    closed = outcome(lambda: T.dual.n_elements[0])[1] or E[-1]
    chain = np.zeros(E[-1])
    chain[rng.permutation(E[-1])[:max(1, E[-1] // 2)]] = 1
    k = int(rng.integers(0, N + 1))
    crease = {n: np.r_[:min(2, E[n])] for n in range(N) if rng.random() < .4}
    crease = {n: (np.arange(E[n]) < 2).astype(int) for n in crease}
    out = [
        ('pick_primal', lambda K, p: K.pick_primal(p), (p,)),
        ('pick_dual', lambda K, p: K.pick_dual(p), (p,)),
        ('pick_fundamental', lambda K, p: K.pick_fundamental(p), (p,)),
        ('pick_primal unweighted', lambda K, p: K.pick_primal(p, weighted=False), (p,)),
        ('pick_primal_brute', lambda K, p: K.pick_primal_brute(p), (p,)),
        ('sample_primal_0', lambda K, f, p: K.sample_primal_0(f, p), (form(0), p)),
        ('sample_dual_0', lambda K, f, p: K.sample_dual_0(f, p), (rng.normal(size=closed), p)),
        ('averaging_operators', lambda K, f: [A * f for A in K.topology.averaging_operators_0], (form(0),)),
        ('weighted_average_operators', lambda K, f: [A * f for A in K.weighted_average_operators[:1]], (form(0),)),
        ('smooth', lambda K, c: K.smooth(c), (crease,)),
        ('smooth_operator', lambda K, c: K.smooth_operator(c), (crease,)),
        ('select_subset', lambda K, c: K.select_subset(c), (chain,)),
        ('topology.select_subset', lambda K, c: K.topology.select_subset(c), (chain.astype(bool),)),
        ('topology.chain', lambda K, n: K.topology.chain(n, fill=2, dtype=np.float64), (k,)),
        ('topology.form', lambda K, n: K.topology.form(n), (k,)),
        ('topology.range', lambda K, n: K.topology.range(n), (k,)),
        ('topology.matrix', lambda K, n: K.topology.matrix(n), (int(rng.integers(0, N)),)),
        ('transform', lambda K, m: K.transform(m), (rng.normal(size=(dim, dim)),)),
        ('translate', lambda K, v: K.translate(v), (rng.normal(size=dim),)),
        ('affine_transform', lambda K, m: K.affine_transform(m), (np.eye(dim + 1) * 2 + rng.uniform(-.1, .1, (dim + 1, dim + 1)),)),
        ('scale', lambda K, s: K.scale(s), (float(np.exp(rng.normal())),)),
        ('copy', lambda K, v: K.copy(vertices=v), (K.vertices + 1.,)),
        ('copy.volume', lambda K, v: K.copy(vertices=v).primal_metric, (K.vertices * 2.,)),
        ('homogenize', lambda K, v: K.homogenize(v), (p,)),
        ('unsigned_volume', lambda K, v: K.unsigned_volume(v), (K.vertices[T.elements[-1]] if family != 'cubical' and family != 'regular' else p[None],)),
        ('remap_boundary_N', lambda K, f: K.remap_boundary_N(f), (rng.normal(size=(E[-1], N + 1)),)),
        ('remap_boundary_0', lambda K, f: K.remap_boundary_0(f), (rng.normal(size=(E[-1], N + 1)),)),
        ('hodge', lambda K, f: [K.hodge_DP[n] * f for n in (0,)], (form(0),)),
        ('derivative', lambda K, f: K.topology.matrices[0].T * f, (form(0),)),
        ('dual.derivative', lambda K, f: K.topology.dual.matrices[0].shape, (form(0),)),
        ('subdivide_loop', lambda K, c: K.subdivide_loop(smooth=True, creases=c), (crease,)),
        ('subdivide_loop_operator', lambda K, c: K.subdivide_loop_operator(smooth=True, creases=c), (crease,)),
        ('subdivide_cubical', lambda K, c: K.subdivide_cubical(smooth=True, creases=c), (crease,)),
        ('subdivide_operator', lambda K, c: K.subdivide_operator(smooth=True, creases=c), (crease,)),
        ('subdivide_fundamental', lambda K, o: K.subdivide_fundamental(oriented=o), (bool(rng.integers(2)),)),
        ('optimize_weights_fundamental', lambda K, o: K.subdivide_fundamental().optimize_weights_fundamental(), (0,)),
        ('extrude', lambda K, v: K.extrude(K.copy(vertices=v)), (K.vertices + np.eye(dim)[-1],)),
        ('clip', lambda K, a, b: K.clip(a, b), (K.vertices.mean(0), rng.normal(size=dim))),
        ('augment', lambda K, a: K.augment(a), (p,)),
        ('product', lambda K, n: K.product(K), (0,)) if N == 1 else ('n_dim', lambda K, n: K.n_dim, (0,)),
        ('find_correspondence', lambda K, m: K.topology.find_correspondence(K.topology, m), (np.arange(E[0], dtype=np.int32),)),
    ]
    if family == 'regular':
        out = [q for q in out if q[0] != 'pick_primal unweighted']
    return out


def interleave(mon, rng, build, name, roots, params, steps, answers):
    """ask a sequence of queries of one object, each compared with a fresh object"""
    K = build()
    queries = []
    for prefix in roots:
        v, o = outcome(lambda: run(build(), prefix) if prefix else build())
        if o is None or v[0] == 'raises':
            continue
        for a, _ in attributes(o, SKIP):
            queries.append(((prefix + '.' if prefix else '') + a, None, ()))
    queries = [q for q in queries if q[0].split('.')[-1] not in SLOW or rng.random() < .05]
    # few names at a time, so that a query is asked before and after each of the others
    queries = [queries[i] for i in rng.permutation(len(queries))[:int(rng.integers(4, 16))]]
    params = [params[i] for i in rng.permutation(len(params))[:int(rng.integers(4, 20))]]
    pool, fresh, asked = [], {}, []
    for q, f, args in queries + params:
        ask = (lambda K, *a: run(K, q)) if f is None else f
        given = Snapshot(args)
        v = outcome(lambda: ask(build(), *args))[0]
        mon.check('arguments', not given.changed(), tag=q, object=name, query=q, changed=given.changed()[:5])
        if v[0] != 'raises' or rng.random() < .15:       # keep few of those that this kind of object refuses
            fresh[len(pool)] = v
            pool.append((q, f, args))
    for step in range(steps):
        qi = int(rng.integers(len(pool)))
        q, f, args = pool[qi]
        ask = (lambda K, *a: run(K, q)) if f is None else f
        before, given = Snapshot(K), Snapshot(args)
        got, value = outcome(lambda: ask(K, *args))
        asked.append(q)
        if got[0] != 'raises':
            answers.add(q)
            if len(answers) == 3:
                mon.check('answers', True)
        mon.check('pure', not before.changed(), tag=q, object=name, query=q, changed=before.changed()[:5], history=asked[-12:])
        if args:
            mon.check('arguments', not given.changed(), tag=q, object=name, query=q, changed=given.changed()[:5])
        mon.check('history', same(got, fresh[qi]), tag=q, object=name, query=q, got=repr(got)[:500], fresh=repr(fresh[qi])[:500], history=asked[-12:])
    mon.state(name, tuple(asked))
    # a copy of the object with its history is as good as a fresh one
    c, C = outcome(lambda: K.copy())
    if C is not None:
        for q, f, args in [pool[i] for i in rng.permutation(len(pool))[:4]]:
            ask = (lambda K, *a: run(K, q)) if f is None else f
            ref = outcome(lambda: ask(build(), *args))[0]
            if 'parent' in q or ref[0] == 'raises':
                continue
            mon.check('copy', same(outcome(lambda: ask(C, *args))[0], ref), tag=q, object=name, query=q, history=asked[-12:])


def case_complex(mon, rng, i):
    name, build, family = objects(rng)
    mon.label(name)
    answers = set()
    K = build()
    params = parameters(rng, K, family)
    roots = ['', '', 'topology', 'topology.dual', 'boundary', 'copy']
    interleave(mon, rng, build, name, roots, params, int(rng.integers(12, 40)), answers)


def case_all(mon, rng, i):
    """every query of one object, in random order, and then each once more"""
    name, build, family = objects(rng)
    mon.label(name)
    K = build()
    pool = [(q, f, a) for q, f, a in parameters(rng, K, family)]
    for prefix in ['', 'topology', 'topology.dual', 'boundary']:
        v, o = outcome(lambda: run(build(), prefix) if prefix else build())
        if o is not None and v[0] != 'raises':
            for a, _ in attributes(o, SKIP | SLOW):
                q = (prefix + '.' if prefix else '') + a
                pool.append((q, lambda K, q=q: run(K, q), ()))
    fresh = []
    for q, f, a in pool:
        given = Snapshot(a)
        fresh.append(outcome(lambda: f(build(), *a))[0])
        mon.check('arguments', not given.changed(), tag=q, object=name, query=q, changed=given.changed()[:5])
    pool = [(p, v) for p, v in zip(pool, fresh) if v[0] != 'raises' or rng.random() < .1]
    asked = []
    for again in (False, True):
        for j in rng.permutation(len(pool)):
            (q, f, a), want = pool[j]
            given = Snapshot(a)
            got = outcome(lambda: f(K, *a))[0]
            asked.append(q)
            if a:
                mon.check('arguments', not given.changed(), tag=q, object=name, query=q, changed=given.changed()[:5])
            mon.check('history', same(got, want), tag=q, object=name, query=q, again=again, got=repr(got)[:500], fresh=repr(want)[:500], history=asked)
    mon.state('all', name, tuple(asked))


def relatives(rng, K, family):
    """ways to derive another complex of the same topology, or of part of it: (name, function)"""
    x = K.vertices
    size = np.ptp(x, axis=0).max()
    dim, N = x.shape[1], K.topology.n_dim
    out = []
    scale = float(np.exp(rng.normal()))
    if family == 'sphere':
        Q = geo.rotation(rng, dim)
        out += [('vertices', lambda K: K.copy(vertices=x.dot(Q))), ('radius', lambda K: K.copy(radius=scale * 2))]
    else:
        y = x * scale + rng.normal(size=dim) * size
        move = rng.normal(size=dim)
        out += [('vertices', lambda K: K.copy(vertices=y)), ('scale', lambda K: K.scale(scale)), ('translate', lambda K: K.translate(move))]
    if family in ('flat', 'sphere'):
        e = x[K.topology.elements[1]]
        w = rng.random(len(x)) * .05 * (np.linalg.norm(e[:, 0] - e[:, 1], axis=1).min() ** 2)
        out += [('weights', lambda K: K.copy(weights=w))] * 2
        out += [('no weights', lambda K: K.copy(weights=None))] if K.weights is not None else [('optimize_weights', lambda K: K.optimize_weights())]
    n = K.topology.n_elements[-1]
    chain = rng.random(n) < .6
    chain[rng.integers(n)] = True
    out += [('select_subset', lambda K: K.select_subset(chain)), ('boundary', lambda K: K.boundary), ('smooth', lambda K: K.smooth()), ('copy', lambda K: K.copy())]
    out += [('subdivide_cubical', lambda K: K.subdivide_cubical())] if n < 60 else []
    return out[int(rng.integers(len(out)))]


def queries_of(rng, build, family, share=1.):
    pool = [(q, f, a) for q, f, a in parameters(rng, build(), family)]
    for prefix in ['', 'topology', 'topology.dual', 'boundary']:
        v, o = outcome(lambda: run(build(), prefix) if prefix else build())
        if o is not None and v[0] != 'raises':
            for a, _ in attributes(o, SKIP | SLOW):
                q = (prefix + '.' if prefix else '') + a
                pool.append((q, lambda K, q=q: run(K, q), ()))
    return [pool[j] for j in rng.permutation(len(pool)) if rng.random() < share]


def case_kin(mon, rng, i):
    """what is derived from an object with a history, and that object afterwards, against the same without the history"""
    name, build, family = objects(rng)
    K = build()
    what, derive = relatives(rng, K, family)
    mon.label('%s of %s' % (what, name))
    kin = lambda: derive(build())
    v, o = outcome(kin)
    if o is None or not hasattr(o, 'topology') or o.topology.n_dim < 1:
        mon.skip('nothing to derive')
        return
    mine = queries_of(rng, build, family)
    theirs = queries_of(rng, kin, 'cubical' if what == 'subdivide_cubical' and family != 'regular' else family, .5)
    for q, f, a in mine:
        outcome(lambda: f(K, *a))
    v, L = outcome(lambda: derive(K))
    if not mon.check('kin', L is not None and type(L) is type(o), tag=what, object=name, got=repr(v)[:300]):
        return
    for q, f, a in theirs:
        got, want = outcome(lambda: f(L, *a))[0], outcome(lambda: f(kin(), *a))[0]
        mon.check('kin', same(got, want), tag='%s %s' % (what, q), object=name, query=q, got=repr(got)[:500], fresh=repr(want)[:500])
    for q, f, a in mine[:30]:
        got, want = outcome(lambda: f(K, *a))[0], outcome(lambda: f(build(), *a))[0]
        mon.check('kin', same(got, want), tag='%s from %s' % (q, what), object=name, query=q, got=repr(got)[:500], fresh=repr(want)[:500])
    mon.state('kin', name, what, tuple(q[0] for q in mine))


def case_topology(mon, rng, i):
    d = gen.nonorientable(rng) if rng.random() < .2 else gen.random_orientable(rng, small=True)
    if d['kind'] == 'simplex' and d['cells'].shape[1] == 3 and rng.random() < .5:
        build = lambda: gen.build_topology(dict(d, cells=d['cells'].copy())).as_2()
    else:
        build = lambda: gen.build_topology(dict(d, cells=d['cells'].copy()))
    given = Snapshot(d['cells'])
    with mon.calling('arguments', cells=d['cells']):
        gen.build_topology(d)
    mon.check('arguments', not given.changed(), tag='construction', cells=d['cells'])
    T = build()
    n = int(rng.integers(0, T.n_dim + 1))
    chain = np.zeros(T.n_elements[-1], int)
    chain[rng.permutation(len(chain))[:max(1, len(chain) // 2)]] = rng.choice([-1, 1])
    params = [
        ('select_subset', lambda T, c: T.select_subset(c), (chain,)),
        ('chain', lambda T, n: T.chain(n, fill=1), (n,)),
        ('form', lambda T, n: T.form(n), (n,)),
        ('matrix', lambda T, n: T.matrix(n), (min(n, T.n_dim - 1),)),
        ('subdivide_fundamental', lambda T, o: T.subdivide_fundamental(), (0,)),
        ('find_correspondence', lambda T, m: T.find_correspondence(T, m), (np.arange(T.n_elements[0], dtype=np.int32),)),
        ('product', lambda T, n: T.product(T), (0,)) if T.n_dim == 1 else ('n_dim', lambda T, n: T.n_dim, (0,)),
    ]
    answers = set()
    interleave(mon, rng, build, d['name'], ['', '', 'dual', 'boundary'], params, int(rng.integers(10, 30)), answers)


def case_stencil(mon, rng, i):
    from pycomplex.stencil.complex import StencilComplex
    n = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.choice([2, 4, 6], size=n)) if n < 3 else tuple(int(v) for v in rng.choice([2, 4], size=n))
    scale = float(np.exp(rng.normal()))
    build = lambda: StencilComplex.from_shape(shape, scale)
    K = build()
    k = int(rng.integers(0, n + 1))
    form = lambda k: rng.normal(size=K.topology.form(k).shape).astype(np.float32)
    forms = [form(m) for m in range(n + 1)]
    pts = rng.uniform(0, min(shape), size=(5, n))
    params = [('coarsen', lambda K, f: K.coarsen[k](f), (forms[k],)), ('refine', lambda K, f: K.fine.refine[k](f), (forms[k],)),
              ('hodge', lambda K, f: K.hodge[k](f), (forms[k],)), ('primal', lambda K, f: K.topology.primal[min(k, n - 1)](f), (forms[min(k, n - 1)],)),
              ('dual', lambda K, f: K.topology.dual[min(k, n - 1)](f), (forms[min(k, n - 1) + 1],)),
              ('averages', lambda K, f: [A(f) for A in K.topology.averaging_operators_0], (forms[0],)),
              ('smoothers', lambda K, f: K.smoothers(True)[k](f), (forms[k],)),
              ('sample_0', lambda K, f, p: K.sample_0(f, p), (forms[0][0], pts)),
              ('matrix', lambda K, m: K.topology.primal[m].to_coo() if hasattr(K.topology.primal[m], 'to_coo') else 0, (min(k, n - 1),))]
    answers = set()
    interleave(mon, rng, build, 'stencil-%s' % (shape,), ['', 'topology', 'coarse', 'fine'], params, int(rng.integers(10, 30)), answers)


def case_tables(mon, rng, i):
    """the tables shared by all objects are as they were when first computed"""
    from pycomplex.topology import simplicial, cubical
    from pycomplex.stencil import util
    f = lambda g: getattr(g, '__wrapped__', None)
    for n in range(0, 5):
        mon.check('tables', same(freeze(simplicial.permutation_map(n)), freeze(f(simplicial.permutation_map)(n))), n=n)
    for n in range(1, 5):
        mon.check('tables', same(freeze(cubical.permutation_map(n)), freeze(f(cubical.permutation_map)(n))), n=n)
    for n in range(1, 4):
        mon.check('tables', same(freeze(util.generate(n)), freeze(f(util.generate)(n))), n=n)
    mon.state('tables', i)


CASES = dict(complex=case_complex, all=case_all, kin=case_kin, topology=case_topology, stencil=case_stencil, tables=case_tables)
PLAN = dict(quick=dict(complex=200, all=32, kin=60, topology=80, stencil=40, tables=3), thorough=dict(complex=4000, all=800, kin=1500, topology=1500, stencil=600, tables=3))
