"""C12  Binned accumulation is independent of batching and loses nothing.

Worker clients push batches into own and shared accumulators over own and shared
bins; some batches are rejected or interrupted and pushed again.  A brute-force
count over all accepted samples is the model."""
import numpy as np

PROP = 'C12'
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('one run = 1-3 workers pushing 2-10 batches of 0-60 samples into 1-4 accumulators over 1-3 binnings, under a line-level schedule '
        'with rejected batches and interruptions; non-trivial = client switch, rejection or fault fired')
STATE = 'distinct (binning, accumulator type, batch kind, outcome)'
REAL = ['pyhipp.stats.binning (numba)']
STUB = ['thread choice and interruption points (simulated scheduler)']
ASSUME = ['one compiled accumulation call is atomic for the scheduler (it holds the GIL)',
          'samples closer than 1e-6 bin widths to an edge that is not exactly representable are not generated']


def bins_of(b):
    from pyhipp.stats import binning as B
    if b['k'] == 'eq':
        return B.EqualSpaceBins(tuple(b['r']), b['n'])
    if b['k'] == 'def':
        return None
    e = np.array(b['e'], dtype='f8')
    x = e.copy()
    out = B.BiSearchBins(x)
    if not np.array_equal(x, e):
        return 'edges given to BiSearchBins were reordered or changed'
    x += 1e3          # the caller's edges are his own
    return out


def edges_of(b):
    if b['k'] == 'eq':
        lo, hi = b['r']
        return [lo + (hi - lo) * k / b['n'] for k in range(b['n'] + 1)]
    if b['k'] == 'def':
        return [k / 10 for k in range(11)]
    return sorted(b['e'])


def warmup(tmp):
    from pyhipp.stats import binning as B
    x = np.linspace(0, 1, 7)
    for dt in ('f8', 'i8', 'c16', 'f4'):
        for sh in ((), (2,)):
            d = B.BinnedData(dtype=np.dtype(dt).type, shape=sh)
            d.add(x)
            for wt in ('f8', 'i8'):
                if wt == 'f8' and dt == 'i8':
                    continue
                w = np.ones((7,) + sh, wt)
                d.add(x, w)
                d.add(x[::2], w[::2])
                d.add(np.zeros(0), np.ones((0,) + sh, wt))
                try:
                    d.add(x, w[:3])
                except Exception:
                    pass
            d.add(x[::2])


def gen(rng, tier, i):
    bins = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < .45:
            n = rng.choice([1, 2, 3, 4, 7, 10, 16, 50])
            exact = rng.random() < .6
            lo = rng.choice([0., -1., 4., -8.]) if exact else rng.uniform(-5, 5)
            hi = lo + n * rng.choice([.25, .5, 1., 2., 64.]) if exact else lo + rng.choice([1e-3, 1., 37.7]) * rng.uniform(.5, 2)
            bins.append({'k': 'eq', 'r': [lo, hi], 'n': n, 'exact': exact})
        elif r < .55:
            bins.append({'k': 'def', 'exact': False})
        else:
            e = [round(rng.uniform(-4, 9), 3) for _ in range(rng.randrange(2, 12))]
            if rng.random() < .3:
                e.append(e[0])
            if rng.random() < .5:
                e.sort()
            bins.append({'k': 'bi', 'e': e, 'exact': True})
    accs = [{'b': rng.randrange(len(bins)), 'd': rng.choice(['f8', 'f8', 'i8', 'c16', 'f4']), 's': rng.choice([[], [], [2]])} for _ in range(rng.choice([1, 2, 2, 4]))]
    gone = [dict(rng.choice(accs), v=rng.randrange(1 << 30)) for _ in range(rng.choice([0, 1, 2]))]
    nc = rng.choice([1, 2, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(2, 11)):
            ops.append({'a': rng.randrange(len(accs)), 'n': rng.choice([0, 1, 2, 5, 20, 60, 100]) if rng.random() < .995 else rng.choice([1100, 5000, 70000]), 'v': rng.randrange(1 << 30), 'w': rng.random() < .6,
                        'k': rng.choice(['ok'] * 6 + ['short', 'long', 'list', 'scalar', 'text']), 'lay': rng.choice('CCSI4'), 'loc': rng.random() < .4})
            if rng.random() < .08:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 9), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'bins': bins, 'accs': accs, 'gone': gone, 'clients': clients, 'faults': faults,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.05, .2, .5, .8])} if nc > 1 else {'mode': 'serial'}}


def samples(o, b, edges):
    rs = np.random.RandomState(o['v'] & 0x7fffffff)
    lo, hi = edges[0], edges[-1]
    n = o['n']
    x = lo + (hi - lo) * (rs.random_sample(n) * 1.4 - .2)
    m = rs.random_sample(n)
    if b['exact'] and n:
        x = np.where(m < .4, np.array(edges)[rs.randint(0, len(edges), n)], x)
    if b['exact'] and n and o['v'] & 8:          # right beside an edge
        e = np.array(edges)[rs.randint(0, len(edges), n)]
        s = rs.choice([-1., 1.], n)
        y = np.nextafter(e, s * np.inf) if b['k'] == 'bi' else e + s * 1e-9 * (hi - lo) / (len(edges) - 1)
        x = np.where(rs.random_sample(n) < .5, y, x)
    ext = np.array([np.inf, -np.inf, np.nan, 1e300, -1e300, 1e20, -1e20])
    x = np.where(m > .93, ext[rs.randint(0, len(ext), n)], x)
    step = (hi - lo) / max(1, len(edges) - 1)
    if not b['exact']:
        near = np.abs(x[:, None] - np.array(edges)[None, :]).min(axis=1) < 1e-6 * step if n else np.zeros(0, bool)
        x[near] = hi + 10 * step
    return x


def place(x, edges):
    """brute force: index of the enclosing bin, -1 below, n_bins above"""
    nb = len(edges) - 1
    if np.isnan(x):
        return None
    if x < edges[0]:
        return -1
    if x >= edges[-1]:
        return nb
    for k in range(nb):
        if edges[k] <= x < edges[k + 1]:
            return k


def run(sc, ctx):
    from pyhipp.stats import binning as B
    if not sc['bins'] or not sc['accs']:
        return
    specs = sc['bins']
    bs = [bins_of(b) for b in specs]
    for b in bs:
        ctx.check(not isinstance(b, str), 'input-changed', b)
    kept = []           # results of accumulators that are gone
    for a in sc.get('gone', ()):
        k = a['b'] % len(specs)
        edges = edges_of(specs[k])
        d = B.BinnedData(bs[k] if bs[k] is not None else B.EqualSpaceBins((0., 1.), 10), dtype=np.dtype(a['d']).type, shape=tuple(a['s']))
        x = samples({'n': 20, 'v': a['v']}, specs[k], edges)
        d.add(x)
        kept.append((d.data, d.data.copy()))
        d = None
    accs, model, scale, meta = [], [], [], []
    for a in sc['accs']:
        k = a['b'] % len(specs)
        d = B.BinnedData(bs[k], dtype=np.dtype(a['d']).type, shape=tuple(a['s'])) if bs[k] is not None else \
            B.BinnedData(dtype=np.dtype(a['d']).type, shape=tuple(a['s']))
        accs.append(d)
        nb = len(edges_of(specs[k])) - 1
        model.append(np.zeros([nb] + a['s'], dtype='c16' if a['d'] == 'c16' else 'i8' if a['d'] == 'i8' else 'f8'))
        scale.append(0.)
        meta.append(k)
    handed = [(d.bins, d.bins.x_edges, np.array(d.bins.x_edges), d.bins.x_centers, np.array(d.bins.x_centers)) for d in accs[:2]]
    for d, k in zip(accs, meta):
        e = np.array(edges_of(specs[k]))
        ctx.check(d.bins.n_bins == len(e) - 1 and np.allclose(d.bins.x_edges, e, rtol=1e-12, atol=1e-12 * (e[-1] - e[0])), 'edges-differ',
                  f'{specs[k]}: n_bins {d.bins.n_bins}, edges {d.bins.x_edges}')
        ctx.check(np.allclose(d.bins.x_centers, (e[1:] + e[:-1]) / 2, rtol=1e-12, atol=1e-9), 'edges-differ', f'{specs[k]}: centres {d.bins.x_centers}')

    def close(i, want):
        g = accs[i].data
        if g.dtype.kind == 'i':
            return np.array_equal(g, want)
        tol = (1e-4 if g.dtype == np.float32 else 1e-9) * max(1., scale[i])
        return g.shape == want.shape and (not g.size or np.abs(g - want).max() <= tol)

    def verify(what):
        for i in range(len(accs)):
            ctx.check(close(i, model[i]), 'counts-differ', f'{what}: accumulator {i} ({sc["accs"][i]}, {specs[meta[i]]}) holds {accs[i].data.tolist()}, expected {model[i].tolist()}')

    def body(c, cl):
        for j, o in enumerate(cl['ops']):
            i = o['a'] % len(accs)
            a, k = sc['accs'][i], meta[i]
            edges = edges_of(specs[k])
            if specs[k]['k'] == 'bi' and o['k'] in ('list', 'text'):      # numpy compares text with numbers as text
                o = dict(o, k='scalar')
            with ctx.quiet():
                x = samples(o, specs[k], edges)
                rs = np.random.RandomState(o['v'] % 65537)
                w = rs.randint(-5, 9, [len(x)] + a['s']) if a['d'] == 'i8' or rs.random_sample() < .3 else rs.standard_normal([len(x)] + a['s']) * 10
                w = w.astype('i8' if w.dtype.kind == 'i' else 'f8')
                if o['lay'] == 'S':        # every second element of a larger array
                    X = np.zeros(2 * len(x))
                    X[::2] = x
                    Wt = np.zeros([2 * len(x)] + a['s'], w.dtype)
                    Wt[::2] = w
                    xx, ww = X[::2], Wt[::2]
                else:
                    xx, ww = x.copy(), w.copy()
                bad = o['k'] != 'ok'
                if o['k'] == 'short':
                    bad = len(x) > 0
                    ww = ww[:-1]
                elif o['k'] == 'long':
                    ww = np.concatenate([ww, np.ones([2] + a['s'], w.dtype)])
                args = (xx, ww) if o['w'] or o['k'] in ('short', 'long') else (xx,)
                if o['k'] == 'list':
                    args = ([['a', 'b']],) + args[1:]
                elif o['k'] == 'text':
                    args = (np.array(['x', 'y']),) + args[1:]
                elif o['k'] == 'scalar':
                    args = (None,) + args[1:]
                x0, w0 = np.array(xx), np.array(ww)
                add = np.zeros_like(model[i])
                for q in range(len(x)):
                    p = place(x[q], edges)
                    if p is not None and 0 <= p < len(add):
                        add[p] += w[q] if len(args) > 1 else 1
                if o['k'] == 'short' and not bad:
                    add[...] = 0
                mag = float(np.abs(w).sum() if len(args) > 1 else len(x))
            call = lambda: accs[i].add(*args) if len(args) == 1 or o['v'] & 1 else accs[i].add(args[0], weight=args[1])
            out = ctx.call(f'{c}.{j}', call)
            with ctx.quiet():
                what = f'client {c} batch {j}: {len(x)} samples, {"weighted" if len(args) > 1 else "unweighted"}, {o["k"]}: {out!r}'
                ctx.event(c, j, o['k'], out.kind)
                ctx.state((specs[k]['k'], a['d'], a['s'], o['k'], len(args), len(x) > 0, out.kind))
                ctx.check(np.array_equal(x0, xx, equal_nan=True) and np.array_equal(w0, ww), 'input-changed', what)
                if bad:
                    ctx.nontrivial = True
                    ctx.check(not out.ok, 'not-rejected', what)
                elif not out.ok:
                    ctx.check(out.injected, 'call-failed', what)
                    scale[i] += mag
                    if close(i, model[i] + add) and not close(i, model[i]):
                        model[i] += add
                    else:
                        verify(what)
                        o2 = ctx.call(f'{c}.{j}r', call)
                        ctx.check(o2.ok, 'retry-failed', f'{what}; again: {o2!r}')
                        model[i] += add
                else:
                    scale[i] += mag
                    model[i] += add
                verify(what)
                if o['loc'] and len(x):
                    bn = accs[i].bins
                    nb = len(edges) - 1
                    fin = np.array([q for q in x if not np.isnan(q)])
                    want = np.array([place(q, edges) for q in fin], dtype=int)
                    got = bn.locate(fin)
                    ctx.check(np.array_equal(got, want), 'located-wrong', f'{specs[k]}: locate({fin.tolist()}) = {got.tolist()}, expected {want.tolist()}')
                    got = bn.locate_bound(fin)
                    ctx.check(np.array_equal(got, np.clip(want, 0, nb - 1)), 'located-wrong', f'{specs[k]}: locate_bound({fin.tolist()}) = {got.tolist()}')
                    ed = np.array(edges)
                    near = bn.locate_nearest(fin)
                    ctx.check(np.asarray(near).dtype.kind == 'i' and np.shape(near) == fin.shape and all(0 <= z <= nb for z in near), 'located-wrong', f'{specs[k]}: locate_nearest({fin.tolist()}) = {np.asarray(near).tolist()}')
                    for q, z in zip(fin, near):
                        d0 = np.abs(np.clip(q, ed[0], ed[-1]) - ed)
                        ctx.check(d0[z] <= d0.min() + 1e-9 * (ed[-1] - ed[0]), 'located-wrong', f'{specs[k]}: the edge nearest to {q!r} is not {z}')
                    if o['v'] & 2 and len(fin):
                        lo_, hi_ = bn.locate_bound(fin, upper=False), bn.locate_bound(fin, lower=False)
                        ctx.check(np.array_equal(lo_, want.clip(0, None)) and np.array_equal(hi_, want.clip(None, nb - 1)), 'located-wrong', f'{specs[k]}: one-sided bounds of {fin.tolist()}: {lo_.tolist()}, {hi_.tolist()}')
                        one = fin[:1]
                        ctx.check(bn.locate_bound(one)[0] == min(max(want[0], 0), nb - 1) and bn.locate_nearest(one)[0] == near[0], 'located-wrong', f'{specs[k]}: {one!r} by itself')
                    rp, rd = bn.to_simple_repr(), accs[i].to_simple_repr()
                    eqs = specs[k]['k'] != 'bi'
                    sp, st = ed[-1] - ed[0], (ed[-1] - ed[0]) / nb
                    we = {'type': type(bn).__name__, 'n_bins': nb, 'x_span': sp, **({'x_range': (ed[0], ed[-1]), 'x_step': st} if eqs else {'x_edges': ed, 'x_step_mean': st})}
                    num = lambda g, w: g == w if isinstance(w, str) else np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=1e-9, atol=1e-9 * sp)
                    ctx.check(set(rp) == set(we) and all(num(rp[z], we[z]) for z in we), 'edges-differ', lambda: f'{specs[k]} shown as {rp}, expected {we}')
                    if eqs:
                        ctx.check(num(bn.x_range, we['x_range']) and num(bn.x_span, sp) and num(bn.x_step, st), 'edges-differ', f'{specs[k]}: range {bn.x_range}, span {bn.x_span}, step {bn.x_step}')
                    ctx.check(rd['type'] == type(accs[i]).__name__ and np.array_equal(rd['data'], accs[i].data) and set(rd['bins']) == set(we) and num(rd['bins']['n_bins'], nb), 'counts-differ', f'{what}: accumulator shown as {rd!r:.200}')
                ctx.check(all(np.array_equal(x, y) for x, y in kept), 'counts-differ', f'{what}: the counts of an earlier accumulator have changed')
                for bn, e, e0, m, m0 in handed:
                    ctx.check(np.array_equal(e, e0) and np.array_equal(m, m0) and np.array_equal(bn.x_edges, e0) and np.array_equal(bn.x_centers, m0),
                              'edges-differ', f'{what}: edges or centres handed out before have changed')
            ctx.pause()
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    ctx.fault('rejected batch', sum(o['k'] != 'ok' for cl in sc['clients'] for o in cl['ops']))
