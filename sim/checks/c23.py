"""C23  Estimators answer every query from their own training data only.

Clients query a common fitted estimator of every kind and fit, refit and query their
own; the oracle recomputes each answer from the training data by brute force."""
import copy

import numpy as np

PROP = 'C23'
RUNS = {'quick': 1500, 'thorough': 50000}
RULE = ('one run = 1-3 clients applying 3-10 operations each (queries, one-call estimates, refits, reductions, scalings, rejected requests) to common and own estimators '
        'under a line-level schedule with failing reductions and kernels and interrupts followed by a retry; non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (operation, dimensions, number of neighbours, kernel, weights, outcome)'
REAL = ['pyhipp.stats.regression', 'pyhipp.stats.density_estimation', 'pyhipp.stats.reduction', 'pyhipp.stats.kernel', 'pyhipp.stats.preprocessing', 'pyhipp.core.dataproc.grid', 'pyhipp.plot.two_dim', 'sklearn KDTree', 'numpy']
STUB = ['thread choice and interruption points (simulated scheduler)', 'reductions and kernels that fail (harness)']
ASSUME = ['a call into sklearn or numpy is atomic']
RED = ['count', 'cnt', 'sum', 'mean', 'std', 'std_dev', 'median', 'quantile', 'errorbar', 'errorbar-sd', 'q-scalar', 'q-list', 'q-2', 'obj-mean', 'obj-q', 'own']


def warmup(tmp):
    import pyhipp.stats
    from pyhipp.stats.regression import KernelRegressionND  # noqa: F401
    x = np.random.default_rng(1).random((9, 2))
    KernelRegressionND.by_knn(x, x[:, 0], x, k=3)
    KernelRegressionND.by_local_kernel(x, x[:, 0], x, max_dx=.3)


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(3, 11)):
            k = rng.choice(['knn', 'knn', 'knn', 'loc', 'loc', 'loc', 'knn1', 'loc1', 'dknn', 'dloc', 'dknn1', 'dloc1', 'hist', 'hist1', 'frac', 'red', 'red', 'std', 'fit', 'fit', 'bad', 'grid', 'repr', 'exact', 'exact', 'dflt', 'dflt', 'axes', 'axes', '2d', '2d'])
            o = {'k': k, 's': rng.randrange(3), 'd': rng.randrange(4), 'x': rng.randrange(10000), 'r': [rng.choice(RED) for _ in range(rng.choice([1, 1, 2, 3]))], 'it': rng.choice(['one', 'list', 'gen', 'list']),
                 'kern': rng.choice([None, None, 'g', 'gs', 'f', 't', 'obj', 'gname', 'tname']), 'n': rng.choice([1, 2, 3, 5, 8]), 'dx': rng.choice([None, None, .1, .3, .8]), 'q': rng.randrange(1, 8) if rng.random() < .998 else 600, 'fail': rng.randrange(1, 6) if rng.random() < .1 else 0}
            ops.append(o)
            if rng.random() < .1:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 60), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    sets = [{'n': rng.choice([8, 20, 50]) if rng.random() < .996 else 2001, 'dim': rng.choice([1, 1, 2, 3]), 'w': rng.random() < .6, 'seed': rng.randrange(1 << 30), 'as1d': rng.random() < .5} for _ in range(4)]
    return {'sets': sets, 'clients': clients, 'faults': faults, 'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .4])} if nc > 1 else {'mode': 'serial'}}


def run(sc, ctx):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, ctx)


def ball(n, r):
    return {1: 2 * r, 2: np.pi * r**2, 3: 4 / 3 * np.pi * r**3}[n]


# ---- the oracle -----------------------------------------------------------
FILL = -1e10


class Ambiguous(Exception):
    pass


def reduce1(name, y, w):
    """reduction of one set of neighbours"""
    n = len(y)
    if name in ('count', 'cnt'):
        return n
    if name == 'sum':
        return float((y if w is None else y * w).sum())
    if name == 'own':
        return float((y if w is None else y * w).sum()) + n
    if name in ('mean', 'std', 'std_dev', 'obj-mean', 'errorbar-sd'):
        if n == 0:
            f = -7. if name == 'obj-mean' else FILL
            return [f] * 3 if name == 'errorbar-sd' else f
        ww = np.ones(n) if w is None else w
        m = (y * ww).sum() / ww.sum()
        s = np.sqrt(((y - m)**2 * ww).sum() / ww.sum())
        return [m, s, s] if name == 'errorbar-sd' else m if name in ('mean', 'obj-mean') else s
    ps = {'median': .5, 'quantile': [.16, .5, .84], 'errorbar': [.16, .5, .84], 'q-scalar': .25, 'q-list': [.1, .7], 'q-2': [.025, .5, .975], 'obj-q': [.5]}[name]
    if n == 0:
        v = np.full(np.shape(ps), FILL)
    elif w is None:
        v = np.quantile(y, ps)
    else:
        o = np.argsort(y)
        c = np.cumsum(w[o] / w.sum())
        flat = np.concatenate([np.diff(c) < 1e-9, [False]])
        if (flat[:, None] & (np.abs(c[:, None] - np.ravel(ps)) < 1e-9)).any():
            raise Ambiguous         # the rank falls on a step of no weight
        v = np.interp(ps, c, y[o])
    return [v[1], v[1] - v[0], v[2] - v[1]] if name == 'errorbar' else v


def kernel1(kern, d):
    k, p = kern
    return np.exp(-.5 * (d / p)**2) if k == 'g' else (d < p).astype(float)


def _run(sc, ctx):
    from pyhipp import stats
    from pyhipp.stats import reduction as R, kernel as K
    from pyhipp.stats.regression import KernelRegressionND as KR, _KnnRegression, _LocalKernelRegression
    from pyhipp.stats.density_estimation import DensityEstimationND as DE, _KnnDensityEstimation, _LocalKernelDensityEstimation, _Histogram
    from pyhipp.stats.preprocessing import Standardize
    from pyhipp.core.dataproc import GridMd
    from pyhipp.core.dataproc.grid import Grid1d
    if len(sc['sets']) < 4:
        return
    D = []
    for s in sc['sets']:
        g = np.random.default_rng(s['seed'])
        x = g.random((s['n'], s['dim']))
        D.append((x, g.normal(size=s['n']) * 3 + 1, g.random(s['n']) + .05 if s['w'] else None, x[:, 0].copy() if s['dim'] == 1 and s['as1d'] else x.copy()))
    keep = [copy.deepcopy(d) for d in D]

    class Own(R.Reduce):
        """a reduction of the user"""
        key = 'own'
        fails, exc = 0, None

        def _impl(self, x, weight=None, mask=None):
            if self.fails:
                self.fails -= 1
                if not self.fails:
                    raise self.exc
            if mask is None:
                mask = np.ones(x.shape, bool)
            return ((x if weight is None else x * weight) * mask).sum(-1) + mask.sum(-1)

    class BadKernel(K.Gaussian):
        exc = None

        def _impl(self, d):
            raise self.exc

    objs = {'mean': R.Mean(empty_fill=-7.), 'q': R.Quantile([.5]), 'own': Own()}

    def spec(o, own=None):
        m = {'errorbar-sd': ('errorbar', {'reduce': 'mean+sd'}), 'q-scalar': ('quantile', {'ps': .25}), 'q-list': ('qs', {'ps': [.1, .7]}), 'q-2': ('quantile', {'ps': 'median+2sigma'}), 'obj-mean': objs['mean'], 'obj-q': objs['q'], 'own': own or objs['own']}
        names = o['r']
        rs = [m.get(n, n) for n in names]
        keys = [r if isinstance(r, str) else r[0] if isinstance(r, tuple) else r.key for r in rs]
        it = o['it']
        if it == 'one':
            return rs[0], names[:1], keys[:1]
        return {'list': rs, 'gen': (r for r in rs)}[it], names, keys

    kobj = K.Gaussian(.21)

    def kern(o):
        return {None: (None, None), 'g': (('gaussian', {'sigma': .2}), ('g', .2)), 'gs': (('gaussian', {'sigma': .07}), ('g', .07)), 'f': (.15, ('g', .15)), 't': (('tophat', {'radius': .4}), ('t', .4)), 'obj': (kobj, ('g', .21)),
                'gname': ('gaussian', ('g', 1.)), 'tname': ('tophat', ('t', 1.))}[o['kern']]

    def fit(kind, d):
        x, y, w, xa = D[d]
        if kind == 'knn':
            return _KnnRegression().fit(xa, y, weight=w)
        if kind == 'loc':
            return _LocalKernelRegression({'leaf_size': 3}).fit(xa, y, weight=w)
        if kind == 'dknn':
            return _KnnDensityEstimation().fit(xa, weight=w)
        if kind == 'dloc':
            return _LocalKernelDensityEstimation({'leaf_size': 2}).fit(xa, weight=w)
        return _Histogram(grid(d), d % 2 == 0).fit(xa, weight=w)

    def grid(d):
        return GridMd(*([np.linspace(0., 1., 4 + q) for q in range(D[d][0].shape[1])]))
    KINDS = ('knn', 'loc', 'dknn', 'dloc', 'hist')
    common = {k: (fit(k, 0), 0) for k in KINDS}

    # expected answers
    def near(d, xq, k=None, r=None):
        x = D[d][0]
        for p in xq:
            dist = np.sqrt(((x - p)**2).sum(-1))
            ids = np.argsort(dist, kind='stable')[:k] if k is not None else np.nonzero(dist <= r)[0]
            yield ids, dist[ids]

    def ambiguous(d, xq, radii):
        x = D[d][0]
        for p in xq:
            dist = np.sqrt(((x - p)**2).sum(-1))
            if any(r is not None and np.abs(dist - r).min() < 1e-9 for r in radii):
                return True
        return False

    def exp_reg(d, xq, names, k, r, kn, local):
        y, w = D[d][1], D[d][2]
        rows = [[] for _ in names]
        for ids, dist in near(d, xq, None if local else k, r):
            ww = None if w is None else w[ids]
            if kn:
                kk = kernel1(kn, dist)
                ww = kk if ww is None else ww * kk
            yy = y[ids]
            if not local and r is not None:
                s = dist < r
                yy, ww = yy[s], None if ww is None else ww[s]
            for q, n in enumerate(names):
                rows[q].append(reduce1(n, yy, ww))
        return [np.array(z) for z in rows]

    def exp_den(d, xq, k, r, kn, local):
        x, _, w, _ = D[d]
        n, dim = x.shape
        w = np.full(n, 1. / n) if w is None else w / w.sum()
        h, nn, mx = [], [], []
        for ids, dist in near(d, xq, None if local else k, r):
            rr = r
            if not local:
                rr = dist.max() if r is None else min(dist.max(), r)
                if r is not None:
                    s = dist < r
                    ids, dist = ids[s], dist[s]
            ww = w[ids]
            if kn and len(ids):
                kk = kernel1(kn, dist)
                ww = ww * kk * (len(ids) / kk.sum())
            h.append(ww.sum() / ball(dim, rr))
            nn.append(len(ids))
            mx.append((dist.max() if len(ids) else 0.) if local else rr)
        return {'h': np.array(h), 'n_neighbors': np.array(nn), 'neighbor_max_dx': np.array(mx)}

    def exp_hist(d, xq, density):
        x, _, w, _ = D[d]
        bins = [np.linspace(0., 1., 4 + q) for q in range(x.shape[1])]
        H = np.histogramdd(x, bins=bins, density=density, weights=w)[0]
        out = []
        for p in xq:
            if ((p < 0) | (p >= 1)).any():
                out.append(-3.)
            else:
                out.append(H[tuple(int(np.searchsorted(b, z, side='right')) - 1 for b, z in zip(bins, p))])
        return np.array(out)

    def close(a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)

    def body(c, cl):
        with ctx.quiet():
            own = {k: None for k in KINDS}
            past = []
        for j, o in enumerate(cl['ops']):
            with ctx.quiet():
                k, d, x = o['k'], o['d'], o['x']
                g = np.random.default_rng(x)
                fault, retry, res, fits, err, wants, snap, f = None, True, None, None, None, None, None, None
                base = k.rstrip('1')
                if k in KINDS and o['s']:
                    est, d = own[k] if own[k] and o['s'] == 2 else common[k]
                what = f'client {c} step {j}: {k} {o["r"] if base in ("knn", "loc", "red") else ""} kernel {o["kern"]} k {o["n"]} max_dx {o["dx"]} on set {d}'
                X, Y, W, XA = D[d]
                n, dim = X.shape
                xq = g.random((o['q'], dim)) * 1.4 - .2
                xarg = xq[:, 0].copy() if dim == 1 and x % 2 else xq.copy()
                ks, kn = kern(o)
                kw = {} if ks is None else {'kernel': ks}
                kk, r = min(o['n'], n), o['dx']
                pad = r if r is not None else None
                if k in KINDS and not o['s']:
                    own[k] = (fit(k, d), d)
                    est = own[k][0]
                if base in ('knn', 'loc'):
                    if o['fail'] and 'own' in (o['r'][:1] if o['it'] == 'one' else o['r']):
                        f = Own()
                        f.fails, f.exc = o['fail'], RuntimeError('reduction failed')
                    rs, names, keys = spec(o, f)
                    snap = list(rs) if isinstance(rs, list) else None
                    local = base == 'loc'
                    if local:
                        rad = r if r is not None else float(xq.std(0).mean() / 10.)
                    if x % 11 == 0 and not f:
                        bk = BadKernel()
                        bk.exc = fault = RuntimeError('kernel failed')
                        kw['kernel'] = bk
                        kn = None
                    if x % 7 == 0:
                        kw['impl_query_kw'] = {} if local else {'dualtree': False}
                    if r is not None:
                        kw['max_dx'] = r
                    if not local:
                        kw['k'] = kk
                    if len(rs if isinstance(rs, list) else ()) != 1 or x % 3 or names != ['mean']:
                        kw['reduce'] = rs
                    if k in KINDS:
                        call = lambda: est(xarg, **kw)
                    elif local:
                        call = lambda: KR.by_local_kernel(XA, Y, xarg, weight=W, **kw)
                    else:
                        call = lambda: stats.KernelRegression1D.by_knn(XA, Y, xarg, weight=W, **kw)
                    if fault is None and not ambiguous(d, xq, [rad if local else r, kn and kn[0] == 't' and kn[1]]):
                        try:
                            wants = exp_reg(d, xq, names, kk, rad if local else r, kn, local)
                        except Ambiguous:
                            wants = None

                    def res(v):
                        if wants is None:
                            return
                        for q, (nm, key, w) in enumerate(zip(names, keys, wants)):
                            ctx.check(close(v['y'][q], w), 'answer-differs', lambda: f'{what}: {nm} is {np.asarray(v["y"][q]).tolist()!r:.300}, expected {w.tolist()!r:.300}')
                            if keys.count(key) == 1:
                                ctx.check(v[f'y_{key}'] is v['y'][q] or close(v[f'y_{key}'], w), 'answer-differs', f'{what}: y_{key} is not {nm}')
                        ctx.check(len(v['y']) == len(names) and close(v['x'], xq), 'answer-differs', f'{what}: {len(v["y"])} answers at {v["x"]!r:.100}')
                        past.append((what, v, copy.deepcopy(dict(v))))
                elif base in ('dknn', 'dloc'):
                    local = base == 'dloc'
                    if kn and kn[0] == 't' or kn == ('g', .07):         # the sum of the kernel may vanish
                        ks, kn = ('gaussian', {'sigma': .3}), ('g', .3)
                        kw = {'kernel': ks}
                    if local:
                        rad = r if r is not None else float(xq.std(0).mean() / 10.)
                        if o['q'] == 1 and r is None:
                            r = rad = .35
                    if r is not None:
                        kw['max_dx'] = r
                    if not local:
                        kw['k'] = kk
                    if x % 11 == 0:
                        bk = BadKernel()
                        bk.exc = fault = RuntimeError('kernel failed')
                        kw['kernel'] = bk
                        if local and not any(len(i) for i, _ in near(d, xq, None, rad)):
                            pass
                    if k in KINDS:
                        call = lambda: est(xarg, **kw)
                    elif local:
                        call = lambda: stats.DensityEstimation1D.by_local_kernel(XA, xarg, weight=W, **kw)
                    else:
                        call = lambda: DE.by_knn(XA, xarg, weight=W, **kw)
                    if fault is None and not ambiguous(d, xq, [rad if local else r]):
                        wants = exp_den(d, xq, kk, rad if local else r, kn, local)

                    def res(v):
                        if wants is None:
                            return
                        for z, w in wants.items():
                            ctx.check(close(v[z], w), 'answer-differs', lambda: f'{what}: {z} is {np.asarray(v[z]).tolist()!r:.300}, expected {w.tolist()!r:.300}')
                        past.append((what, v, copy.deepcopy(dict(v))))
                elif base == 'hist':
                    if k == 'hist':
                        call = lambda: est(xarg, out_fill=-3.)
                    else:
                        call = lambda: DE.by_histogram(XA, xarg, grid(d), density=d % 2 == 0, weight=W, out_fill=-3.)
                    wants = exp_hist(d, xq, d % 2 == 0)

                    def res(v):
                        ctx.check(close(v['h'], wants), 'answer-differs', lambda: f'{what}: {v["h"].tolist()}, expected {wants.tolist()}')
                        past.append((what, v, copy.deepcopy(dict(v))))
                elif k == 'frac':
                    mask = g.random(n) < .4
                    mc = [0, 2, 10][x % 3]
                    if r is not None:
                        kw['max_dx'] = r
                    if x % 2:
                        kw['weight'] = W
                    if mc != 10:
                        kw['min_count'] = mc
                    call = lambda: KR.masked_fraction_by_knn(XA, mask, xarg, k=kk, **kw)
                    if not ambiguous(d, xq, [r, kn and kn[0] == 't' and kn[1]]):
                        ww = W if x % 2 and W is not None else np.ones(n)
                        wants = [[], []]
                        for ids, dist in near(d, xq, kk):
                            kv = np.ones(len(ids)) if not kn else kernel1(kn, dist)
                            s = dist < r if r is not None else np.ones(len(ids), bool)
                            wants[0].append((ww[ids] * mask[ids] * kv * s).sum() / max((ww[ids] * kv * s).sum(), 1e-10))
                            wants[1].append(s.sum() < mc)

                    def res(v):
                        if wants is not None:
                            ctx.check(close(v.values, wants[0]) and np.array_equal(v.invalid, wants[1]) and np.array_equal(np.ma.getmaskarray(v.values_ma), wants[1]) and close(v.values_ma.data, wants[0]), 'answer-differs',
                                      lambda: f'{what}: {v!r:.300}, expected {wants!r:.300}')
                elif k == 'red':
                    f = None
                    rs, names, keys = spec({**o, 'it': 'one'})
                    two = x % 3 == 0
                    a = g.normal(size=(3, 6)) if two else g.normal(size=o['n'] - 1)
                    w = g.random(a.shape) + .1 if x % 2 else None
                    m = g.random(a.shape) < .5 if x % 5 < 2 else None
                    if names[0] == 'own' and m is None:
                        m = np.ones(a.shape, bool)
                    a0, w0, m0 = copy.deepcopy((a, w, m))
                    call = lambda: R.predefined.create(rs)[1](a, w, m) if x % 7 else R.predefined.create(rs)[1](list(a), weight=w, mask=m)
                    rows = [(a, w, m)] if not two else [(a[q], w if w is None else w[q], m if m is None else m[q]) for q in range(3)]
                    e = [reduce1(names[0], y_ if m_ is None else y_[m_], w_ if w_ is None or m_ is None else w_[m_]) for y_, w_, m_ in rows]
                    wants = np.array(e if two else e[0])

                    def res(v):
                        ctx.check(close(v, wants), 'answer-differs', lambda: f'{what}: {names[0]} of {a0.tolist()!r:.200} is {np.asarray(v).tolist()}, expected {wants.tolist()}')
                        ctx.check(np.array_equal(a, a0) and (w is None or np.array_equal(w, w0)) and (m is None or np.array_equal(m, m0)), 'input-changed', f'{what}: arguments of {names[0]} changed')
                elif k == 'std':
                    t = X.copy()
                    if x % 5 == 0:
                        t[:, 0] = .5
                    lb = [1e-10, .2][x % 2]
                    call = lambda: (lambda s: (s(xq), s(xq, backward=True), s(s(xq), backward=True), s.to_simple_repr()))(Standardize(t, lb) if x % 2 else Standardize(t))
                    if x % 7 == 0:
                        t = t * np.array([1e13, 1., 1e-3])[:dim]
                        xq = xq * np.array([1e13, 1., 1e-3])[:dim]
                    sd, mu = np.maximum(t.std(0), lb), t.mean(0)
                    res = lambda v: ctx.check(close(v[0], (xq - mu) / sd) and close(v[1], xq * sd + mu) and close(v[2], xq) and v[3]['type'] == 'Standardize', 'answer-differs', lambda: f'{what}: {v[0].tolist()!r:.200}')
                elif k == 'fit':
                    kind = KINDS[x % 5]
                    e0 = own[kind]
                    if e0 is None or kind == 'hist' and D[e0[1]][0].shape[1] != dim:
                        call = lambda: fit(kind, d)
                        fits = lambda v: own.__setitem__(kind, (v, d))
                    else:
                        reg = kind in ('knn', 'loc')
                        if kind == 'hist' and d % 2 != e0[1] % 2:
                            d = e0[1]
                            X, Y, W, XA = D[d]
                        call = lambda: e0[0].fit(XA, Y, weight=W) if reg else e0[0].fit(XA, weight=W)

                        def fits(v):
                            ctx.check(v is e0[0], 'not-chained', f'{what}: fit of {kind} returned another object')
                            own[kind] = (e0[0], d)
                elif k == 'exact':          # points on a lattice, distances and sums without rounding
                    m = [2, 4, 8][x % 3]
                    px = g.permutation(m) / 4.
                    py, px2 = g.normal(size=m), g.permutation(px)
                    pw = [None, np.full(m, 1. / m), np.ones(m), g.random(m) + .1][x // 3 % 4]
                    qs = g.integers(-1, m + 1, o['q']) / 4.
                    rad = [.25, .5, 1.][x // 12 % 3]
                    px0, py0, pw0 = copy.deepcopy((px, py, pw))
                    kind = x // 36 % 4

                    def call():
                        if kind == 0:
                            e = _LocalKernelRegression().fit(px, py, weight=pw)
                        elif kind == 1:
                            e = _KnnRegression().fit(px, py, weight=pw)
                        else:
                            e = (_LocalKernelDensityEstimation if kind == 2 else _KnnDensityEstimation)().fit(px, weight=pw)
                        def ask():
                            if kind == 0:
                                return e(qs, ['count', 'sum'], max_dx=rad)['y']
                            if kind == 1:
                                return e(qs + 1 / 16, ['sum', 'count'], k=1)['y']
                            return e(qs, max_dx=rad)['h'] if kind == 2 else e(qs + 1 / 16, k=2)['h']
                        a = copy.deepcopy(ask())
                        py[:] = -50.
                        if pw is not None:
                            pw[:] = 70.
                        b = copy.deepcopy(ask())
                        py[:] = py0
                        if pw is not None:
                            pw[:] = pw0
                        e.fit(px2, **({'y': py} if kind < 2 else {}), weight=pw)
                        return a, b, ask()

                    def res(v):
                        for vv, p, t in zip(v, (px0, px0, px2), ('', ' after the caller reused its arrays', ' after a second fit')):
                            w_ = np.ones(m) if pw0 is None else pw0
                            dist = np.abs(p[None] - (qs if kind in (0, 2) else qs + 1 / 16)[:, None])
                            sel = dist <= rad if kind in (0, 2) else dist <= np.sort(dist, 1)[:, [0 if kind == 1 else 1]]
                            if kind < 2:
                                e = [(sel * 1).sum(1), (sel * w_ * py0).sum(1)][::1 if kind == 0 else -1]
                            else:
                                e = (sel * w_).sum(1) / w_.sum() / (2. * (rad if kind == 2 else np.sort(dist, 1)[:, 1]))
                            ctx.check(close(vv, e), 'answer-differs', lambda: f'{what} kind {kind} radius {rad} of points {p.tolist()} weights {w_.tolist()} at {qs.tolist()}{t}: {np.asarray(vv).tolist()!r:.300}, expected {np.asarray(e).tolist()!r:.300}')
                        ctx.check(np.array_equal(px, px0), 'input-changed', f'{what}: points of the caller changed')
                elif k == 'dflt':           # default arguments, limits and shapes
                    px, py = g.permutation(40) / 8., g.integers(-9, 9, 40) * 1.
                    pw = None if x % 2 else g.integers(1, 5, 40) * 1.
                    w_ = np.ones(40) if pw is None else pw
                    qs = g.integers(0, 40, o['q']) / 8. + 1 / 32
                    dist = np.abs(px[None] - qs[:, None])
                    rk = np.argsort(np.argsort(dist, 1), 1)
                    kind = x // 2 % 8
                    rep = x // 16 % 4
                    if kind == 0:
                        call = lambda: (KR.by_knn(px, py, qs, weight=pw), KR.by_knn(px, py, qs, weight=pw, reduce=['sum', 'count']), _KnnRegression().fit(px, py, weight=pw)(qs, 'sum'))
                        s = rk < 32
                        wants = [(s * w_ * py).sum(1) / (s * w_).sum(1), (s * w_ * py).sum(1), s.sum(1), (s * w_ * py).sum(1)]
                        got = lambda v: [v[0]['y_mean'], v[1]['y_sum'], v[1]['y_count'], v[2]['y_sum']]
                    elif kind == 1:
                        call = lambda: (DE.by_knn(px, qs, weight=pw), _KnnDensityEstimation().fit(px, weight=pw)(qs))
                        e = ((rk < 32) * w_).sum(1) / w_.sum() / (2 * np.sort(dist, 1)[:, 31])
                        wants = [e, e, np.full(len(qs), 32)]
                        got = lambda v: [v[0]['h'], v[1]['h'], v[0]['n_neighbors']]
                    elif kind == 2:         # neighbours exactly at the limit do not count, nor does a point outside
                        q2 = g.integers(-2, 43, o['q']) / 8.
                        d2 = np.abs(px[None] - q2[:, None])
                        r2 = [.5, 1., 2.][rep % 3]
                        call = lambda: (KR.by_knn(px, py, q2, k=40, max_dx=r2, weight=pw, reduce=['sum', 'count']), DE.by_knn(px, q2, k=40, max_dx=r2, weight=pw))
                        s = d2 < r2
                        wants = [(s * w_ * py).sum(1), s.sum(1), s.sum(1), (s * w_).sum(1) / w_.sum() / 2 / r2]
                        got = lambda v: [v[0]['y_sum'], v[0]['y_count'], v[1]['n_neighbors'], v[1]['h']]
                    elif kind == 3:         # the least count of a fraction is 10
                        mask = g.random(40) < .4
                        r3 = [9 / 16, .61, None, .61][rep]
                        call = lambda: KR.masked_fraction_by_knn(px, mask, qs, max_dx=r3, weight=pw)
                        s = (dist < (r3 or 99.)) & (rk < 32)
                        wants = [(s * w_ * mask).sum(1) / (s * w_).sum(1), s.sum(1) < 10]
                        got = lambda v: [v.values, v.invalid]
                    elif kind == 4:
                        gr = GridMd(np.array([0., 1., 2.5, 4.]))
                        q4 = np.concatenate([qs, [-1., 0., 4., 4.5, 2.5]])
                        b4 = np.array([0., 1., 2.5, 4.])
                        h1, h0 = np.histogram(px, b4, weights=pw, density=True)[0], np.histogram(px, b4, weights=pw)[0]
                        call = lambda: (DE.by_histogram(px, q4, gr, weight=pw), _Histogram(gr).fit(px, weight=pw)(q4), _Histogram(gr, False).fit(px, weight=pw)(q4, out_fill=-9.))
                        ix = np.searchsorted(b4, q4, side='right') - 1
                        inn = (ix >= 0) & (ix < 3)
                        e = np.where(inn, h1[ix.clip(0, 2)], 0.)
                        wants = [e, e, np.where(inn, h0[ix.clip(0, 2)], -9.), ~inn]
                        got = lambda v: [v[0]['h'], v[1]['h'], v[2]['h'], v[0]['is_out']]
                    elif kind == 5:         # options of the search reach it, shapes are checked
                        z = np.zeros((2, 2, 2))
                        call = [lambda: KR.by_knn(px, py, qs, impl_kw={'nothing': 1}), lambda: KR.by_local_kernel(px, py, qs, max_dx=1., impl_kw={'nothing': 1}), lambda: DE.by_knn(px, qs, impl_kw={'nothing': 1}), lambda: DE.by_local_kernel(px, qs, max_dx=1., impl_kw={'nothing': 1}),
                                lambda: KR.by_knn(px, py, qs, impl_query_kw={'nothing': 1}), lambda: KR.by_local_kernel(px, py, qs, max_dx=1., impl_query_kw={'nothing': 1}), lambda: DE.by_knn(px, qs, impl_query_kw={'nothing': 1}), lambda: DE.by_local_kernel(px, qs, max_dx=1., impl_query_kw={'nothing': 1}),
                                lambda: KR.masked_fraction_by_knn(px, py > 0, qs, impl_query_kw={'nothing': 1}), lambda: KR.masked_fraction_by_knn(px, py > 0, qs, impl_kw={'nothing': 1}), lambda: KR.by_knn(px, py, qs, k=1, impl_kw={'leaf_size': 0}),
                                lambda: _KnnRegression().fit(z, py[:2]), lambda: _LocalKernelRegression().fit(z, py[:2]), lambda: _KnnDensityEstimation().fit(z), lambda: _Histogram(GridMd(np.array([0., 1.]))).fit(np.zeros((3, 2))),
                                lambda: R.Mean()(py, mask=py[:-1] > 0), lambda: R.Sum()(py, weight=py[:-1]), lambda: R.Count()(z), lambda: R.Sum()(py, mask=np.array(True)), lambda: R.Sum()(py, weight=np.ones((2, 40))), lambda: R.Count()(1.)][x // 16 % 21]
                        err = Exception
                    elif kind == 6:         # given ranks of unsorted values, and a reduction of the user
                        class Least(R.Reduce):
                            key = 'least'
                            _impl_without_weight = staticmethod(lambda v: np.asarray(v.min()))
                            _impl_with_weight = staticmethod(lambda v, w: np.asarray((v * w).min()))
                        v6, w6 = np.sort(py[:9]), g.integers(1, 5, 9) * 1.
                        m6 = np.zeros(9, bool)
                        ps6, fl6 = np.array([.2, .6]), np.array([4., 5.])

                        def reuse():        # arrays passed in and given out stay of the caller
                            rq, rl = R.Quantile(ps6, empty_fill=fl6), Least(empty_fill=fl6)
                            ps6[:] = .9
                            fl6[:] = -1.
                            a = [rq(v6[:0]), rl(v6[:0]), rq(v6, mask=m6)]
                            for z in a:
                                z[:] = 77.
                            b_ = [rq(v6[:0]), rl(v6, w6, mask=[0] * 9), rq(v6), rq(v6, mask=[1] * 9)]
                            return np.stack(b_)
                        call = lambda: (reuse(), R.Median(sort=False)(v6[::-1], w6), R.Quantile([.2, .6], sort=False)(v6, w6), R.Quantile('1sigma', sort=False)(v6[::-1], w6), Least()(v6, mask=m6), Least(empty_fill=3)(v6, w6, mask=m6), Least()(v6), Least()(v6, w6), R.Quantile('3sigma')(v6, mask=m6),
                                        R.Quantile('lower_3sigmas')(v6), R.Quantile('upper_3sigmas')(v6), R.Quantile('2sigma')(v6), R.Errorbar('median+3sigma')(v6), R.Errorbar('median+2sigma')(v6), R.Median()(v6, mask=m6), R.Quantile('3sigma')(v6), R.Quantile('1sigma')(v6), R.Quantile('median+3sigma')(v6))
                        cd = np.cumsum(w6 / w6.sum())
                        qq = lambda *p: np.quantile(v6, p)
                        e3, e2 = qq(.005, .5, .995), qq(.025, .5, .975)
                        wants = [[[4., 5.]] * 2 + [qq(.2, .6)] * 2, np.interp(.5, cd, v6[::-1]), np.interp([.2, .6], cd, v6), np.interp([.16, .84], cd, v6[::-1]), 0., 3., v6[0], (v6 * w6 / w6.sum()).min(), [FILL] * 2, qq(.68, .95, .99), qq(.01, .05, .32), qq(.025, .975), [e3[1], e3[1] - e3[0], e3[2] - e3[1]], [e2[1], e2[1] - e2[0], e2[2] - e2[1]], FILL, qq(.005, .995), qq(.16, .84), e3]
                        got = lambda v: v
                    else:                   # the default radius follows the queries, one reduction per name
                        q7 = np.concatenate([qs, [0., 5.]])
                        r7 = q7.std() / 10.
                        call = lambda: (KR.by_local_kernel(px, py, q7, weight=pw, reduce='sum'), DE.by_local_kernel(px, q7, weight=pw))
                        s = np.abs(px[None] - q7[:, None]) <= r7
                        wants = [(s * w_ * py).sum(1), (s * w_).sum(1) / w_.sum() / 2 / r7, s.sum(1)]
                        got = lambda v: [v[0]['y_sum'], v[1]['h'], v[1]['n_neighbors']]
                        if np.abs(np.abs(px[None] - q7[:, None]) - r7).min() < 1e-9:
                            wants = []
                    def res(v, kind=kind):
                        for a, b in zip(got(v), wants):
                            ctx.check(close(a, b), 'answer-differs', lambda: f'{what} default arguments {kind}: points {px.tolist()} at {qs.tolist()}: {np.asarray(a).tolist()!r:.300}, expected {np.asarray(b).tolist()!r:.300}')
                elif k == 'axes':           # grids and kernels by themselves
                    nd = 1 + x % 3
                    ax = [np.sort(g.integers(-8, 9, g.integers(2, 7))) / 4. for _ in range(nd)]
                    pts = g.integers(-10, 11, (o['q'], nd)) / 4.
                    kind = x // 3 % 8
                    if kind == 0:       # one axis
                        a = ax[0].copy()
                        form = [a, a.tolist(), Grid1d(a), (a * 4).astype(int), slice(-1., 2., .25), slice(0., 3., 5j), range(4), a.astype('f4')][x // 24 % 8]
                        w_ = [ax[0], ax[0], ax[0], ax[0] * 4, np.arange(-1., 2., .25), np.linspace(0., 3., 5), np.arange(4.), ax[0]][x // 24 % 8]

                        def call():
                            gr = Grid1d(form)
                            before = gr.locs.copy()
                            if isinstance(form, np.ndarray):
                                form[:] = form[::-1].copy()
                            elif isinstance(form, list):
                                form[0] = 99.
                            elif isinstance(form, Grid1d):
                                form.locs[:] = 7.
                            return gr, before
                        xs = pts[:, 0]

                        def got(v):
                            gr = v[0]
                            ctx.check(gr.locs.dtype == np.float64 and type(gr.extent) is tuple and type(gr.extent[0]) is float and type(gr.n_locs) is int and isinstance(gr.centers, Grid1d) and 'locs' in repr(gr), 'answer-differs', f'{what} axis {form!r:.100}: types')
                            return [gr.locs, v[1], gr.n_locs, gr.extent, gr.centers.locs, gr.locate(xs), gr.locate(float(xs[0])), gr.locate(xs.tolist()), gr.locate(np.array([-np.inf, np.inf]))]
                        ix = np.array([(w_ <= z).sum() - 1 for z in xs])
                        wants = [w_, w_, len(w_), [w_[0], w_[-1]], (w_[1:] + w_[:-1]) / 2, ix, ix[0], ix, [-1, len(w_) - 1]]
                    elif kind == 1:     # what is no axis
                        dec = ax[0] - np.arange(len(ax[0])) * 9.
                        call = [lambda: Grid1d(dec), lambda: Grid1d([]), lambda: Grid1d(2.), lambda: Grid1d(np.zeros((2, 2))), lambda: GridMd(), lambda: GridMd(ax[0], dec), lambda: GridMd.at[0.:1.:3j, [2., 1.]], lambda: GridMd(np.array([1., np.nan])), lambda: Grid1d(['a']), lambda: Grid1d([1.]).centers][x // 24 % 10]
                        err = Exception
                    elif kind in (2, 3):    # several axes
                        if nd == 1 and x // 24 % 2:
                            call = lambda: GridMd.at[ax[0]]
                        elif x // 24 % 3 == 0:
                            call = lambda: GridMd(*[Grid1d(a) for a in ax])
                        elif x // 24 % 3 == 1:
                            call = lambda: GridMd.at[tuple(ax)]
                        else:
                            ax[0] = np.linspace(-1., 2., 4)
                            call = lambda: GridMd.at[(slice(-1., 2., 4j), *(a.tolist() for a in ax[1:]))]
                        lo = np.meshgrid(*ax, indexing='ij')
                        ixs = [np.array([(a <= z).sum() - 1 for z in pts[:, q]]) for q, a in enumerate(ax)]
                        wants = [nd, [len(a) for a in ax], *ax, *lo, *np.meshgrid(*ax), *[(a[1:] + a[:-1]) / 2 for a in ax], [[a[0], a[-1]] for a in ax], *ixs]

                        def got(v):
                            ctx.check(type(v) is GridMd and type(v.centers) is GridMd and all(type(z) is tuple and len(z) == nd for z in (v.n_locs, v.locs_1d, v.locs, v.locs_xy, v.extent, v.locate(pts), v.grids_1d)), 'answer-differs', f'{what} grid: types')
                            return [v.n_dims, v.n_locs, *v.locs_1d, *v.locs, *v.locs_xy, *v.centers.locs_1d, v.extent, *v.locate(pts if x % 2 else pts.tolist())]
                    elif kind == 4:     # of the range of data
                        data = [g.integers(-8, 9, 21) / 4. for _ in range(nd)]
                        ns = [None, 5, list(range(3, 3 + nd)), np.full(nd, 4)][x // 24 % 4]
                        pp = [{}, {'p_lo': .1}, {'p_hi': .9}, {'p_lo': .25, 'p_hi': .75}][x // 96 % 4]
                        call = lambda: GridMd.from_data_range(*[d_ if q % 2 else d_.tolist() for q, d_ in enumerate(data)], **pp, **({} if ns is None else {'n': ns}))
                        nn = [32] * nd if ns is None else [5] * nd if type(ns) is int else list(ns)
                        wants = [np.linspace(*np.quantile(d_, [pp.get('p_lo', 0.), pp.get('p_hi', 1.)]), m) for d_, m in zip(data, nn)]
                        got = lambda v: list(v.locs_1d)
                    elif kind == 5:     # functions over a grid: xy order and stacked points unless told otherwise
                        gr = GridMd(*ax)
                        kw5 = [{}, {'xy_indexing': False}, {'stack_input': False}, {'xy_indexing': False, 'stack_input': False}][x // 24 % 4]
                        shapes = []
                        tail = [(), (2,), (2, 3)][x // 96 % 3]

                        def f5(*a):
                            shapes.append([np.shape(z) for z in a])
                            p = a[0] if kw5.get('stack_input', True) else np.stack(a, -1)
                            return (p @ np.arange(1., nd + 1)).reshape((-1,) + (1,) * len(tail)) * np.ones(tail)
                        if x // 288 % 2:
                            call = lambda: (lambda r_: (r_.values[1], r_.locs, r_.locs_1d))(gr.applied(lambda *a: [f5(*a), f5(*a)], **kw5))
                        else:
                            call = lambda: (lambda r_: (r_.values, r_.locs, r_.locs_1d))(gr.applied(f5, **kw5))
                        lo = np.meshgrid(*ax, indexing='xy' if kw5.get('xy_indexing', True) else 'ij')
                        e = sum(z * (q + 1) for q, z in enumerate(lo))
                        wants = [e.reshape(e.shape + (1,) * len(tail)) * np.ones(tail), *lo, *ax]
                        got = lambda v: [v[0], *v[1], *v[2]]
                        n5 = e.size
                    elif kind == 6:
                        d_ = g.integers(0, 9, 12) / 4.
                        r_ = [1., .5, 2.][x // 24 % 3]
                        m_ = [None, .25, 1., 4.][x // 72 % 4]
                        call = lambda: (K.Tophat(r_)(d_), K.Tophat()(d_.tolist()), K.Gaussian(r_)(d_), K.Gaussian()(d_), K.Tophat(radius=r_).volume(nd, m_), K.Tophat(r_).volume(4, m_), K.Tophat(r_).volume(5, m_), K.Tophat(r_).volume(0, m_), K.Tophat(r_)(-d_), K.Gaussian(r_)(-d_), K.Tophat(r_)(d_).dtype.kind == 'f',
                                        K.predefined.create(r_)[1](d_), K.predefined.create(('tophat', {'radius': r_}))[1](d_), K.predefined.create('gaussian')[1](d_), K.predefined.create(('gaussian', {}))[0] == 'gaussian')
                        rr = r_ if m_ is None else min(m_, r_)
                        t_, g_ = (d_ < r_) * 1., np.exp(-d_**2 / 2 / r_**2)
                        g1 = np.exp(-d_**2 / 2)
                        wants = [t_, (d_ < 1.) * 1., g_, g1, ball(nd, rr), np.pi**2 / 2 * rr**4, 8 * np.pi**2 / 15 * rr**5, 1., np.ones(12), g_, True, g_, t_, g1, True]
                        got = lambda v: v
                    else:
                        tr = g.integers(-9, 9, (7, nd)) * 1.
                        tr[:, 0] = tr[:, 0] if x // 24 % 2 else 3.
                        bad = x // 48 % 4
                        y_ = g.integers(-9, 9, (5, nd)) * 1.
                        lb = [1e-10, .5, 2.][x // 192 % 3]
                        st_ = np.maximum(tr.std(0), lb)
                        if bad == 0:
                            call = [lambda: Standardize(tr[:, 0]), lambda: Standardize(tr[None]), lambda: Standardize(3.)][x // 192 % 3]
                            err = Exception
                        else:
                            call = lambda: (lambda s_: (s_(y_), s_(s_(y_), backward=True), s_.mean, s_.sd, s_(y_.tolist(), backward=True), s_(y_[0]), s_.sd_lb, s_.mean))(Standardize(tr if bad == 1 else tr.tolist(), **({} if lb == 1e-10 else {'sd_lb': lb})))
                            wants = [(y_ - tr.mean(0)) / st_, y_, tr.mean(0), st_, y_ * st_ + tr.mean(0), (y_[0] - tr.mean(0)) / st_, lb, tr.mean(0)]
                            got = lambda v: v
                    def res(v, kind=kind):
                        for q, (a, b) in enumerate(zip(got(v), wants, strict=True)):
                            ctx.check(np.shape(a) == np.shape(b) and close(a, b), 'answer-differs', lambda: f'{what} grids and kernels {kind}, result {q}: {np.asarray(a).tolist()!r:.300}, expected {np.asarray(b).tolist()!r:.300}')
                        if kind == 5:
                            ctx.check(shapes[-1] == ([(n5, nd)] if kw5.get('stack_input', True) else [(n5,)] * nd), 'answer-differs', f'{what}: the function got {shapes}')
                elif k == '2d':             # the two-dimensional estimators of the plotting package
                    from pyhipp.plot import Histogram2D, KNearestNeighbor2D
                    m = [1, 7, 30][x % 3]
                    tw = [None, 'f', 'i', 'l'][x // 3 % 4]
                    hist = x // 12 % 2 == 0
                    bx = [4, np.array([0., .5, .75, 2.]), 10][x // 24 % 3]
                    rx = [(0., 1.), (-1., 3.)][x // 72 % 2]
                    oor = ['zero', 'fixed'][x // 144 % 2]
                    kq = [None, 1, 3, 40][x // 24 % 4]
                    h2 = {} if x % 13 == 0 else dict(x_bins=bx, y_bins=5, x_range=rx, y_range=(0., 2.5), out_of_range=oor)
                    e_x = np.linspace(0., 1., 11) if not h2 else np.linspace(*rx, bx + 1) if isinstance(bx, int) else bx
                    e_y = np.linspace(0., 1., 11) if not h2 else np.linspace(0., 2.5, 6)
                    trains = []
                    for q in range(2):
                        if q and x % 4:         # fewer or more points than before
                            m = [1, 7, 30][x // 3 % 3]
                        tx, ty = (g.integers(-4, 13, m) / 4., g.integers(-1, 6, m) / 2.) if hist else (g.random(m) * 2, g.random(m))
                        tx[0], ty[0] = .5, .5
                        trains.append((tx, ty, None if tw is None else g.integers(1, 5, m) * (1 if tw == 'i' else .5)))
                    n_q = o['q'] + 2
                    qx, qy = (g.integers(-5, 14, n_q) / 4., g.integers(-2, 7, n_q) / 2.) if hist else (g.random(n_q) * 3 - 1, g.random(n_q) * 3 - 1)
                    if hist and x % 2:
                        qx[0], qy[0] = e_x[-1], e_y[-1]
                        qx[1], qy[1] = e_x[0], e_y[0]
                    mx, my = np.array([.25, .75, 1.5]), np.array([.25, .6])
                    mk = [{}, {'indexing': 'ij'}][x // 288 % 2]

                    def call():
                        e = Histogram2D(**h2) if hist else KNearestNeighbor2D(**({} if kq is None else {'k': kq}))
                        out = []
                        for q, (tx, ty, t_w) in enumerate(trains):
                            a, b, c_ = copy.deepcopy((tx, ty, t_w))
                            if tw == 'l':
                                c_ = c_.tolist()
                            got_ = e.fit(a, b) if c_ is None and x % 2 else e.fit(a, b, c_) if x % 4 > 1 else e.fit(a, b, weight=c_)
                            if got_ is not e:
                                out.append('not chained')
                            a[:], b[:] = 9., 9.
                            if tw is not None:
                                c_[:] = [50.] * len(tx)
                            out.append((e.on(qx, qy), e.on_meshgrid(mx, my, **mk), e.on_meshgrid(x_range=(.05, 1.), n_x=3, y_range=(.1, .9), n_y=2), e.on_meshgrid(y=my), e.on(qx.copy(), qy.copy()), [e.x_e, e.y_e, e.x_c, e.y_c, e.z] if hist else []))
                        return out

                    def dens(q, ax_, ay_):
                        tx, ty, t_w = trains[q]
                        m = len(tx)
                        t_w = np.ones(m) if t_w is None else t_w
                        if not hist:
                            dd = (tx[None] - ax_[:, None])**2 + (ty[None] - ay_[:, None])**2
                            kk_ = min(10 if kq is None else kq, m)
                            o_ = np.argsort(dd, 1, kind='stable')[:, :kk_]
                            return t_w[o_].sum(1) / (np.pi * np.take_along_axis(dd, o_, 1)[:, -1])

                        def ix(e, z):       # bins are closed on the left, the last one on both sides
                            r_ = np.array([int((e <= v).sum()) - 1 for v in z])
                            return np.where(z == e[-1], len(e) - 2, r_)
                        H = np.zeros((len(e_x) - 1, len(e_y) - 1))
                        for i_, j_, v in zip(ix(e_x, tx), ix(e_y, ty), t_w):
                            if 0 <= i_ < H.shape[0] and 0 <= j_ < H.shape[1]:
                                H[i_, j_] += v
                        H /= H.sum() * np.diff(e_x)[:, None] * np.diff(e_y)[None]
                        if ax_ is None:
                            return H
                        i_, j_ = ix(e_x, ax_), ix(e_y, ay_)
                        r_ = H[i_.clip(0, H.shape[0] - 1), j_.clip(0, H.shape[1] - 1)]
                        if h2.get('out_of_range', 'zero') == 'zero':
                            r_ = np.where((i_ < 0) | (j_ < 0) | (i_ >= H.shape[0]) | (j_ >= H.shape[1]), 0., r_)
                        return r_
                    # a bin edge without exact representation is no query
                    safe = lambda e, z: (not hist) | (np.abs(z[:, None] - e[None]).min(1) > 1e-9) | np.isin(z, e)

                    def res(v):
                        ctx.check('not chained' not in v, 'not-chained', f'{what}: fit returned another object')
                        with np.errstate(all='ignore'):
                            for q, (a, m1, m2, m3, b, hs) in enumerate(v):
                                w2 = f'{what} {"histogram " + repr(h2) if hist else f"{kq} nearest"} of {trains[q]} fit {q}'
                                ok = safe(e_x, qx) & safe(e_y, qy)
                                want = dens(q, qx, qy)
                                ctx.check(close(a[ok], want[ok]) and np.array_equal(a, b, equal_nan=True), 'answer-differs', lambda: f'{w2}: at {qx.tolist()}, {qy.tolist()}: {a.tolist()}, expected {want.tolist()}')
                                for mg, gx, gy, ind in ((m1, mx, my, mk.get('indexing', 'xy')), (m2, np.linspace(.05, 1., 3), np.linspace(.1, .9, 2), 'xy'), (m3, np.linspace(0., 1., 10), my, 'xy')):
                                    XM, YM = np.meshgrid(gx, gy, indexing=ind)
                                    ok = (safe(e_x, XM.ravel()) & safe(e_y, YM.ravel())).reshape(XM.shape)
                                    want = dens(q, XM.ravel(), YM.ravel()).reshape(XM.shape)
                                    ctx.check(all(np.array_equal(*z) for z in ((mg.x, gx), (mg.y, gy), (mg.x_m, XM), (mg.y_m, YM))) and mg.z_m.shape == XM.shape and close(mg.z_m[ok], want[ok]), 'answer-differs', lambda: f'{w2}: on a mesh {mg!r:.300}, expected {want.tolist()}')
                                if hist:
                                    want = [e_x, e_y, (e_x[1:] + e_x[:-1]) / 2, (e_y[1:] + e_y[:-1]) / 2, dens(q, None, None)]
                                    ctx.check(all(close(*z) for z in zip(hs, want)), 'answer-differs', lambda: f'{w2}: {hs}, expected {want}')
                elif k == 'bad':
                    err = Exception
                    est, dd = common[['knn', 'loc', 'dknn', 'dloc'][x % 4]]
                    xq2 = g.random((2, D[dd][0].shape[1]))
                    call = {0: lambda: est(xq2, reduce='nothing'), 1: lambda: est(xq2, kernel='nothing'), 2: lambda: est(np.zeros((2, 2, 2))), 3: lambda: est(np.zeros((2, 7))), 4: lambda: KR.by_knn(XA, Y, xarg, k=n + 1),
                            5: lambda: KR.by_knn(XA, Y, xarg, k=1, reduce=['mean', 'nothing']), 6: lambda: KR.by_local_kernel(XA, Y, xarg, max_dx=.5, kernel=('gaussian', {'width': 2}))}[x % 7]
                    if x % 7 == 0 and x % 4 > 1:
                        call = lambda: est(xq2, reduce='nothing')
                elif k == 'grid':
                    gr = GridMd(*([np.linspace(0., 1., 3 + q) for q in range(dim)]))
                    xy = x % 2 == 0
                    stack = x % 3 != 0
                    fl = RuntimeError('function failed') if x % 5 == 0 else None
                    fault = fl

                    def fn(*a):
                        if fl:
                            raise fl
                        p = a[0] if stack else np.column_stack(a)
                        v = (p * np.arange(1, dim + 1)).sum(-1)
                        return (v, np.stack([v, -v], -1)) if x % 7 == 0 else v
                    call = lambda: gr.applied(fn, xy_indexing=xy, stack_input=stack)

                    def res(v):
                        loc = np.meshgrid(*[np.linspace(0., 1., 3 + q) for q in range(dim)], indexing='xy' if xy else 'ij')
                        e = sum(l * (q + 1) for q, l in enumerate(loc))
                        got = v.values if x % 7 else v.values[0]
                        ctx.check(close(got, e) and all(close(p, q) for p, q in zip(v.locs, loc)) and (x % 7 or close(v.values[1], np.stack([e, -e], -1))), 'answer-differs', f'{what}: grid values {np.asarray(got).tolist()!r:.200}')
                else:
                    rs = [objs['mean'], objs['q'], R.Errorbar(), K.Gaussian(.3), K.Tophat(2.), R.Median(), Standardize(X)][x % 7]
                    call = lambda: (rs.to_simple_repr(), repr(rs))
                    res = lambda v: ctx.check(v[0]['type'] == type(rs).__name__ and type(rs).__name__ in v[1], 'print-differs', f'{what}: {v[1]!r:.100}')
                xs0, kw0 = (xarg.copy(), {z: v for z, v in kw.items()})
            out = ctx.call(f'{c}.{j}', call)
            with ctx.quiet():
                if f and not f.fails and fault is None:       # the reduction of the user has failed
                    fault = f.exc
                ctx.event(c, j, k, out.kind)
                ctx.state((k, dim, o['n'], o['kern'], W is not None, o['dx'], out.kind))
                if out.injected:
                    pass
                elif fault is not None:
                    ctx.fault('callback-error')
                    if not (out.ok and base == 'dloc'):
                        ctx.check(not out.ok and out.exc is fault, 'error-lost', f'{what}: the user code failed with {fault!r}, the call ended with {out!r}')
                elif err:
                    ctx.nontrivial = True
                    ctx.check(out.isa(err), 'bad-accepted', f'{what}: {out!r}')
                else:
                    ctx.check(out.ok, 'legal-rejected', f'{what}: {out!r}')
                if out.ok and res is not None and fault is None:
                    res(out.value)
                if fits is not None:
                    fits(out.value if out.ok else call())
                ctx.check(np.array_equal(xarg, xs0) and list(kw) == list(kw0) and (snap is None or [*map(id, rs)] == [*map(id, snap)]), 'input-changed', f'{what}: the arguments of the call changed')
                for q, (a, b) in enumerate(zip(D, keep)):
                    ctx.check(all(u is None and v is None or np.array_equal(u, v) for u, v in zip(a, b)), 'input-changed', f'{what}: data set {q} of the caller changed')
                for w, v, v0 in past:
                    for z in v0:
                        ctx.check(all(close(p, q) for p, q in zip(v[z], v0[z])) if isinstance(v0[z], (list, tuple)) else close(v[z], v0[z]), 'answer-changed', f'{what}: the earlier answer of {w} changed')
        with ctx.quiet():
            for kind, e in own.items():
                if e is not None:
                    answers(kind, e[0], e[1], f'client {c} at the end')

    def answers(kind, est, d, what):
        g = np.random.default_rng(77)
        xq = g.random((3, D[d][0].shape[1]))
        if kind in ('knn', 'loc'):
            r = None if kind == 'knn' else .6
            v = est(xq, k=4, reduce=['mean', 'count']) if kind == 'knn' else est(xq, max_dx=.6, reduce=['mean', 'count'])
            if not ambiguous(d, xq, [r]):
                e = exp_reg(d, xq, ['mean', 'count'], 4, r, None, kind == 'loc')
                ctx.check(close(v['y'][0], e[0]) and close(v['y'][1], e[1]), 'answer-differs', lambda: f'{what}: the {kind} estimator of set {d} answers {v["y"]!r:.300}, expected {e!r:.300}')
        elif kind in ('dknn', 'dloc'):
            v = est(xq, k=4) if kind == 'dknn' else est(xq, max_dx=.6)
            if not ambiguous(d, xq, [.6]):
                e = exp_den(d, xq, 4, None if kind == 'dknn' else .6, None, kind == 'dloc')
                ctx.check(close(v['h'], e['h']), 'answer-differs', lambda: f'{what}: the {kind} estimator of set {d} answers {v["h"]!r:.300}, expected {e["h"]!r:.300}')
        else:
            ctx.check(close(est(xq, out_fill=-3.)['h'], exp_hist(d, xq, d % 2 == 0)), 'answer-differs', f'{what}: the histogram of set {d}')

    ctx.run_clients([(lambda c=c, cl=cl: body(c, cl)) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    for kind, (e, d) in common.items():
        answers(kind, e, d, 'after all clients')
