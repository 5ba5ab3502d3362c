"""C14  Resampling statistics are reproducible and keep rows together.

Clients run bootstraps, noise generation and binned densities side by side; the
statistic is the harness's own, so it sees every resample.  A statistic may fail or
be interrupted; every finished computation is repeated alone and must agree."""
import numpy as np

PROP = 'C14'
RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ('one run = 1-3 clients doing 1-5 computations each (bootstrap with a recording statistic, noise, binned volume density) on shared or own '
        'data under a line-level schedule, with statistics that fail, global reseeding and interruptions; non-trivial = client switch or fault fired')
STATE = 'distinct (computation, data layout, options, outcome)'
REAL = ['pyhipp.stats.sampling', 'pyhipp.stats.random', 'pyhipp.stats.stacking', 'pyhipp.stats.binning (Bin, Hist1D)', 'pyhipp.astro.stats.lss']
STUB = ['the statistic (harness function recording its arguments)', 'thread choice and interruption points (simulated scheduler)']
ASSUME = ['one numpy call is atomic for the scheduler']


def warmup(tmp):
    from pyhipp.astro.stats.lss import BinnedVolumeDensity
    BinnedVolumeDensity.from_raw(np.arange(30.), rng=1)


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    data = []
    for _ in range(rng.choice([1, 2])):
        data.append([{'n': rng.choice([1, 2, 5, 24, 24, 60]) if rng.random() < .994 else rng.choice([300, 5000, 70000]), 'cols': [rng.choice(['f', 'i', 'f2', 's', 'b']) for _ in range(rng.randrange(1, 4))]} for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(1, 6)):
            k = rng.choice(['boot'] * 5 + ['noise', 'noise', 'bvd', 'reseed'])
            o = {'k': k, 'd': rng.randrange(len(data)), 'seed': rng.choice([0, 1, 10086, rng.randrange(1 << 40)]), 'v': rng.randrange(1 << 30),
                 'how': rng.choice(['list', 'tuple', 'iter', 'gen']), 'init': rng.choice(['int', 'int', 'rng', 'gen', 'default'])}
            if k == 'boot':
                o.update(n=rng.choice([1, 2, 3, 6, 10]) if rng.random() < .97 else 120, keep=rng.random() < .5, kw=rng.random() < .6, mx=rng.choice([None, None, 'big', 'small', 'mixed', 'iter', 'zero', 'short']),
                         fail=rng.randrange(0, 7) if rng.random() < .25 else None, clash=rng.random() < .2, mut=rng.random() < .4, extra=rng.random() < .5, nan=rng.choice([None, None, None, None, 0, 1, 2]))
            if rng.random() < .15:
                faults.append({'op': f'{c}.{j}', 'line': rng.choice([1, 2, 3, rng.randrange(1, 20), rng.randrange(1, 90)]), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
            ops.append(o)
        clients.append({'ops': ops})
    return {'data': data, 'clients': clients, 'faults': faults,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.05, .2, .5])} if nc > 1 else {'mode': 'serial'}}


def columns(spec, tag):
    """datasets whose every cell names its row"""
    out, enc = [], {}
    for q, d in enumerate(spec):
        n = d['n']
        r = np.arange(n)
        ds = {}
        for z, t in enumerate(d['cols']):
            name = f'{tag}{q}_{z}'
            if t == 'f':
                x = r * 1.5 + z
            elif t == 'i':
                x = r + 1000 * (z + 1)
            elif t == 'f2':
                x = np.stack([r * 2., r * 3., r + .25], axis=-1)
            elif t == 'b':
                x = r % 2 == 1
            else:
                x = np.array([f'row{k}' for k in range(n)])
            ds[name] = x
            enc[name] = (q, z, t)
        out.append(ds)
    return out, enc


def row_ids(x, z, t):
    if t == 'f':
        return np.rint((x - z) / 1.5).astype(int)
    if t == 'i':
        return x - 1000 * (z + 1)
    if t == 'f2':
        i = np.rint(x[:, 0] / 2).astype(int)
        return i if np.array_equal(x[:, 1], i * 3.) and np.array_equal(x[:, 2], i + .25) else None
    if t == 's':
        return np.array([int(s[3:]) for s in x], dtype=int)


class StatError(Exception):
    pass


ERRORS = [StatError, StatError, ValueError, KeyError, IndexError, TypeError, ZeroDivisionError, FloatingPointError, ArithmeticError, AttributeError,
          RuntimeError, LookupError, OSError, AssertionError, NotImplementedError, np.linalg.LinAlgError]


def same(a, b):
    if isinstance(a, dict) or hasattr(a, 'keys'):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a.keys())
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and (a.tobytes() == b.tobytes() if a.dtype != object else a.tolist() == b.tolist())


def run(sc, ctx):
    from pyhipp.stats import Bootstrap, RandomNoise, Rng
    from pyhipp.astro.stats.lss import BinnedVolumeDensity
    if not sc['data']:
        return
    data, encs, orig = [], [], []
    for q, spec in enumerate(sc['data']):
        d, e = columns(spec, 'ab'[q % 2])
        data.append(d)
        encs.append(e)
        orig.append([{k: v.copy() for k, v in ds.items()} for ds in d])

    def data_same(what):
        for d, d0 in zip(data, orig):
            ctx.check(all(list(a) == list(b) and all(same(a[k], b[k]) for k in a) for a, b in zip(d, d0)), 'input-changed', f'{what}: a dataset was modified')

    def init(o):
        return {'int': o['seed'], 'rng': lambda: Rng(o['seed']), 'gen': lambda: np.random.default_rng(o['seed']), 'default': None}[o['init']]

    def mkinit(o):
        v = init(o)
        return v() if callable(v) else v

    def pack(seq, how):
        seq = list(seq)
        return seq if how == 'list' else tuple(seq) if how == 'tuple' else iter(seq) if how == 'iter' else (x for x in seq)

    def max_sizes(o, spec):
        m = o['mx']
        if m is None:
            return None, [d['n'] for d in spec], False
        if m == 'short':
            return [3] * (len(spec) + 1), None, True
        rs = np.random.RandomState(o['v'])
        v = [1000 if m == 'big' else 1 if m == 'small' else 0 if m == 'zero' else int(rs.choice([1, 4, 23, 200])) for d in spec]
        return iter(v) if m == 'iter' else v, [min(a, d['n']) for a, d in zip(v, spec)], False

    def boot(o, op, fault=True):
        """one bootstrap; returns (Outcome, recorded calls, recorded results)"""
        q = o['d'] % len(data)
        spec, enc = sc['data'][q], encs[q]
        mx, sizes, bad = max_sizes(o, spec)
        fixed = {'scale': np.arange(3.), 'label': 'fixed'} if o['kw'] else None
        clash = None
        if fixed is not None and o.get('clash') and enc:       # a fixed argument named as a column: the caller's argument is the one passed
            clash = sorted(enc)[o['v'] % len(enc)]
            fixed[clash] = np.full(2, 5e5)
        fixed0 = None if fixed is None else {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in fixed.items()}
        calls, results = [], []
        own = sorted(a for a, (_, _, t) in enc.items() if t in ('f', 'f2') and a != clash)
        own = own[0] if own and o['v'] % 5 < 2 else None
        err = ERRORS[o['v'] % len(ERRORS)]('statistic failed')

        def stat(**kw):
            k = len(calls)
            ids = {}
            with ctx.quiet():
                calls.append(None)
                want = set(enc) | set(fixed or ())
                ctx.check(set(kw) == want, 'resample-wrong', lambda: f'{op}: the statistic got the arguments {sorted(kw)}, expected {sorted(want)}')
                for name, (qq, z, t) in enc.items():
                    if name == clash:
                        continue
                    x = kw[name]
                    ctx.check(isinstance(x, np.ndarray) and x.dtype == data[q][qq][name].dtype and x.shape == (sizes[qq],) + data[q][qq][name].shape[1:], 'resample-wrong',
                              lambda: f'{op}: resample {k} of column {name} has type {getattr(x, "dtype", type(x))} and shape {np.shape(x)}, expected {sizes[qq]} rows')
                    if t == 'b':
                        continue
                    i = row_ids(x, z, t)
                    ctx.check(i is not None and (not i.size or (i.min() >= 0 and i.max() < spec[qq]['n'])), 'resample-wrong', lambda: f'{op}: resample {k} of column {name} holds values not in the dataset: {x}')
                    if qq in ids:
                        ctx.check(np.array_equal(ids[qq], i), 'rows-torn', lambda: f'{op}: resample {k}: column {name} has rows {i.tolist()}, another column of its dataset {ids[qq].tolist()}')
                    ids[qq] = i
                for name, (qq, z, t) in enc.items():
                    if t == 'b' and qq in ids and name != clash:
                        ctx.check(np.array_equal(kw[name], ids[qq] % 2 == 1), 'rows-torn', lambda: f'{op}: resample {k}: column {name} is not aligned with its dataset')
                if fixed is not None:
                    ctx.check(all(kw[a] is fixed[a] for a in fixed0), 'resample-wrong', f'{op}: fixed arguments were not passed on')
                calls[k] = {a: b.tolist() for a, b in ids.items()}
                if o['mut']:
                    for name in enc:
                        if name != clash and kw[name].dtype.kind == 'f':
                            kw[name][...] = -77.
            ctx.pause()
            if fault and o['fail'] == k:
                raise err
            h = sum((a + 1) * sum(b) for a, b in calls[k].items())
            r = {'m': float(h), 'w': np.array([h, k, 1.]) / 3}
            if o.get('nan') == k:                 # no value for this resample
                r['m'] = r['w'][1] = [np.nan, np.inf][o['v'] & 1]
            if o['extra']:
                r['note'] = f'call {k}'
                r['m_sd'] = None if o['v'] & 1 else -1.
                if r['m_sd'] is None:
                    del r['m_sd']
            if own:                    # the statistic gives back what it was given
                r['x'] = kw[own]
            results.append({a: (b.copy() if isinstance(b, np.ndarray) else b) for a, b in r.items()})
            return r
        keys = (['m', 'w'] if o['v'] % 3 else ['w']) + ['x'] * bool(own)
        kw = dict(keys_out=pack(keys, o['how']), stats_kw=fixed, n_resample=o['n'], keep_samples=o['keep'])
        if o['init'] != 'default':
            kw['rng'] = mkinit(o)
        if mx is not None:
            kw['dsets_max_sizes'] = mx
        out = ctx.call(op, lambda: Bootstrap.resampled_call(stat, pack(data[q], o['how']), **kw))
        with ctx.quiet():
            what = f'{op}: bootstrap of datasets {spec} with {o}: {out!r}'
            if fixed is not None:
                ctx.check(list(fixed) == list(fixed0) and all(same(fixed[k], fixed0[k]) for k in fixed), 'input-changed', f'{what}: fixed arguments modified')
            data_same(what)
            if out.ok:
                ctx.check(not bad, 'not-rejected', what)
                ctx.check(len(calls) == o['n'] and len(results) == o['n'], 'call-count', f'{what}: statistic called {len(calls)} times for {o["n"]} resamples')
                r = out.value
                for k in keys:
                    v = np.array([x[k] for x in results])
                    ctx.check(k in r and np.allclose(r[k], v.mean(0), rtol=1e-9, atol=1e-9, equal_nan=True), 'summary-wrong', lambda: f'{what}: {k} = {r.get(k)}, mean over the resamples {v.mean(0)}')
                    sd = ((v - v.mean(0)) ** 2).mean(0) ** .5
                    ctx.check(f'{k}_sd' in r and np.allclose(r[f'{k}_sd'], sd, rtol=1e-6, atol=1e-6, equal_nan=True), 'summary-wrong', lambda: f'{what}: {k}_sd = {r.get(k + "_sd")}, spread over the resamples {sd}')
                    if o['keep']:
                        ctx.check(same(r[f'{k}_samples'], v), 'summary-wrong', f'{what}: {k}_samples are not the values of the resamples')
                    else:
                        ctx.check(f'{k}_samples' not in r, 'summary-wrong', f'{what}: samples kept without being asked for')
                if o['extra']:
                    ctx.check(r['note'] == 'call 0', 'summary-wrong', f'{what}: note = {r["note"]!r}')
                for qq in range(len(spec)):
                    i = [c[qq] for c in calls if qq in c]
                    if i and sizes[qq]:             # every row is as likely as the others
                        nr, i = spec[qq]['n'], np.concatenate(i).astype(int)
                        if len(i) * np.log(max(1, nr) / sizes[qq]) > 25:
                            ctx.check(i.max() >= sizes[qq] and i.min() < nr - sizes[qq], 'resample-wrong', f'{what}: {len(i)} rows drawn from dataset {qq} lie between {i.min()} and {i.max()}')
                        if len(i) >= 4000 and nr >= 50:
                            f, e = np.histogram(i, 50, (0, nr))[0], len(i) * np.diff(np.ceil(np.linspace(0, nr, 51))) / nr
                            ctx.check(bool((np.abs(f - e) < 9 * e**.5 + 1).all()), 'resample-wrong', f'{what}: {len(i)} rows drawn of dataset {qq} fall unevenly: {f.tolist()}')
                        if len(i) / nr > 60:
                            f = np.bincount(i, minlength=nr)
                            ctx.check(bool((np.abs(f - len(i) / nr) < 9 * (len(i) / nr) ** .5).all()), 'resample-wrong', f'{what}: rows of dataset {qq} were drawn {f.tolist()} times')
                for qq in range(len(spec)):
                    i = [c[qq] for c in calls if qq in c]
                    if i and sizes[qq] >= 23:
                        ctx.check(o['n'] == 1 or any(x != i[0] for x in i), 'resample-wrong', f'{what}: all resamples of dataset {qq} are the same')
                        if sizes[qq] ** 2 * o['n'] > 50 * spec[qq]['n']:
                            ctx.check(any(len(set(x)) < len(x) for x in i), 'resample-wrong', f'{what}: rows of dataset {qq} are not drawn with replacement')
            elif bad:
                ctx.check(not calls or out.injected, 'call-count', f'{what}: statistic called although the sizes do not fit')
            elif not out.injected:
                ctx.check(fault and o['fail'] is not None and o['fail'] < o['n'] and out.exc is err, 'call-failed', what)
                ctx.check(len(calls) == o['fail'] + 1, 'call-count', f'{what}: statistic called {len(calls)} times, it failed in call {o["fail"]}')
                ctx.fault('statistic failed')
            if o['fail'] is not None and fault and o['fail'] < o['n'] and out.ok:
                ctx.violate('error-lost', what)
        return out, calls, bad

    def noise(o, op):
        rs = np.random.RandomState(o['v'])
        n = int(rs.choice([0, 1, 4, 20]))
        x = rs.standard_normal(n) * 5
        kind = ['f8', 'f8', 'f8', 'i8', 'f4', 'i2'][o['v'] // 8 % 6]
        x = x.astype(kind) if kind[0] == 'f' else np.rint(np.abs(x)).astype(kind) + 1
        xs = x.tolist() if o['v'] & 1 else x.copy()
        sg = float(rs.choice([0., .1, 2.]))
        lg, rep = bool(rs.randint(2)), int(rs.choice([1, 1, 2, 5]))

        def go():
            a = {} if o['init'] == 'default' else {'rng': mkinit(o)}
            r = RandomNoise(sg, noise_in_lg=lg, **a) if o['v'] & 2 else RandomNoise(sg, 'normal', lg, **a)
            y1 = r.add_to(xs, n_repeats=rep) if rep > 1 else r.add_to(xs)
            y2 = r.add_to(xs, rep)
            return y1, y2
        out = ctx.call(op, go)
        with ctx.quiet():
            what = f'{op}: noise sigma={sg} lg={lg} n_repeats={rep} on {x.tolist()} ({o}): {out!r}'
            ctx.check(xs == x.tolist() if isinstance(xs, list) else same(xs, x), 'input-changed', what)
            if not out.ok:
                ctx.check(out.injected, 'call-failed', what)
                return out
            for y in out.value:
                ctx.check(y.shape == ((n,) if rep == 1 else (rep, n)), 'noise-wrong', f'{what}: shape {y.shape}')
                if sg == 0.:
                    ctx.check(np.allclose(y, x), 'noise-wrong', f'{what}: noise of zero width changed the values to {y}')
                elif not lg:
                    ctx.check(bool(np.all(np.abs(y - x) < 12 * sg)) and (not n or not np.any(y == x)), 'noise-wrong', f'{what}: {y}')
                else:
                    ctx.check(bool(np.all(np.abs(np.log10(y / x)) < 12 * sg)) and (not n or not np.any(y == x)), 'noise-wrong', f'{what}: {y}')
            if n > 1 and sg:
                y1, y2 = out.value
                ctx.check(not np.array_equal(y1, y2), 'noise-wrong', f'{what}: the same noise twice')
            if lg and sg:
                a = {} if o['init'] == 'default' else {'rng': mkinit(o)}
                z = RandomNoise(sg, **a).add_to(np.zeros(n), rep)
                ctx.check(np.allclose(out.value[0], x * 10 ** z, rtol=1e-9), 'noise-wrong', f'{what}: {out.value[0]} is not x 10**dx with dx = {z}')
        return out

    def bvd(o, op, wt=None):
        rs = np.random.RandomState(o['v'])
        n = int(rs.choice([5, 30, 80]))
        edges = rs.rand() < .4
        sub = int(rs.choice([1, 2, 3]))
        nb = int(rs.choice([1, 3, 6]))
        x = rs.randint(-6, 8 * nb + 6, n) / 8. if o['v'] & 4 else rs.randint(0, 8 * nb, n) / 8.
        n_in = int(((x >= 0) & (x < nb)).sum())
        kw = {'sub_bins': sub, 'n_bootstrap': int(rs.choice([1, 2, 4])), 'volume': float(rs.choice([1., 2.5])), 'bins': nb}
        if edges:
            kw['bins'] = np.arange(nb + 1.)
        else:
            kw['range'] = (0., float(nb))
        if o['init'] != 'default':
            kw['rng'] = mkinit(o)
        weighted = (o['v'] >> 3) & 1 if wt is None else wt
        if weighted:
            kw['weights'] = 1. + np.floor(x * sub)
        if rs.rand() < .3 and wt is None:
            kw['noise'] = RandomNoise(.01, rng=o['seed'])
        x0, kw0 = x.copy(), {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        out = ctx.call(op, lambda: BinnedVolumeDensity.from_raw(x, **kw))
        with ctx.quiet():
            what = f'{op}: binned density of {x.tolist()} with { {k: v for k, v in kw.items() if k not in ("rng", "noise")} } ({o}): {out!r}'
            ctx.check(same(x, x0) and all(same(kw[k], kw0[k]) for k in kw if isinstance(kw[k], np.ndarray)), 'input-changed', what)
            if not out.ok:
                ctx.check(out.injected, 'call-failed', what)
                return out
            r = out.value
            hs = r['h_samples']
            ctx.check(len(hs) == kw['n_bootstrap'], 'call-count', f'{what}: {len(hs)} resamples')
            for k in ('h', 'y', 'lg_y'):
                v = r[f'{k}_samples']
                ctx.check(np.allclose(r[k], v.mean(0)) and np.allclose(r[f'{k}_sd'], v.std(0), atol=1e-9), 'summary-wrong', f'{what}: {k} is not the mean of its samples')
            ctx.check(np.allclose(r['y_samples'], hs / kw['volume'] / 1.), 'summary-wrong', lambda: f'{what}: y = {r["y_samples"]}, h = {hs}')
            if not weighted and 'noise' not in kw and sub == 1:
                ctx.check(bool(np.all(hs.sum(-1) == n_in)), 'resample-wrong', lambda: f'{what}: resamples of {n_in} values in range hold {hs.sum(-1)}')
            if sub == 1 and weighted and 'noise' not in kw:      # the weight is the bin number + 1: rows kept together show in the ratio
                if wt is None:
                    u = bvd(o, op + 'u', 0)
                    ctx.check(u.ok and np.allclose(hs, u.value['h_samples'] * (1. + np.arange(nb))), 'rows-torn', lambda: f'{what}: weighted counts {hs} do not follow the counts {u.value["h_samples"]}')
        return out
    done = []

    def body(c, cl):
        for j, o in enumerate(cl['ops']):
            op = f'{c}.{j}'
            if o['k'] == 'reseed':
                np.random.seed(o['v'] % 100)
                np.random.random(3)
                ctx.fault('global reseeding')
                continue
            ctx.state((o['k'], o['d'] % len(data), o['how'], o['init'], o.get('mx'), o.get('fail') is not None))
            if o['k'] == 'boot':
                out, calls, bad = boot(o, op)
                if out.ok:
                    done.append((o, out.value, calls, op))
                elif not bad:
                    out, calls, _ = boot(o, op + 'again', fault=False)
                    if ctx.sched is not None and not out.ok:
                        ctx.violate('call-failed', f'{op}: the computation fails when repeated: {out!r}')
                    done.append((o, out.value, calls, op))
            elif o['k'] == 'noise':
                out = noise(o, op)
                if not out.ok:
                    out = noise(o, op + 'again')
                done.append((o, out.value, None, op))
            else:
                out = bvd(o, op)
                if not out.ok:
                    out = bvd(o, op + 'again')
                done.append((o, out.value, None, op))
            ctx.event(c, j, o['k'], out.kind)
            ctx.pause()
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    np.random.seed(99)
    for o, value, calls, op in done:
        if o['k'] == 'boot':
            out, calls2, _ = boot(o, op + 'alone', fault=False)
            ctx.check(out.ok and same(out.value, value) and calls2 == calls, 'not-reproducible', lambda: f'{op}: {o}: {value} when run with others, {out.value} alone')
        elif o['k'] == 'noise':
            out = noise(o, op + 'alone')
            ctx.check(out.ok and same(out.value, value), 'not-reproducible', lambda: f'{op}: {o}: {value} when run with others, {out.value} alone')
        else:
            out = bvd(o, op + 'alone')
            ctx.check(out.ok and same(out.value, value), 'not-reproducible', lambda: f'{op}: {o}: {value} when run with others, {out.value} alone')
    data_same('at the end')
