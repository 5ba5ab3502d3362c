"""C13  Random streams are reproducible and isolated.

Clients draw from own and shared streams through several handles while failing
requests, global reseeding and other generators get in between.  Afterwards each
stream is replayed alone: some order of its requests consistent with their real
time order must give exactly the recorded variates."""
import random as pyrandom
import numpy as np

PROP = 'C13'
RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('one run = 1-4 clients issuing 3-12 requests each on 1-4 streams (own or shared through several handles: Rng, Rng of Rng, Rng of Generator, '
        'compiled _Rng), mixed with invalid requests, global reseeding, unrelated generators and interruptions under a line-level schedule; '
        'non-trivial = client switch, invalid request or fault fired')
STATE = 'distinct (request kind, handle kind, shared, outcome)'
REAL = ['pyhipp.stats.random (Rng, compiled _Rng)', 'numpy generators']
STUB = ['thread choice and interruption points (simulated scheduler)']
ASSUME = ['one call into the numpy generator is atomic for the scheduler (it holds the generator\'s lock)',
          'requests made of several draws (sphere) are issued on streams used by one client at a time']

SINGLE = ['r', 'u', 'sn', 'n', 'c', 'p', 's', 'ci']
JIT = ['r', 'u', 'sn', 'n', 'lg']


def warmup(tmp):
    from pyhipp.stats.random import _Rng, Rng
    j = _Rng(np.random.default_rng(1))
    for s in (None, 3):
        a = () if s is None else (s,)
        if s is None:
            j.random(), j.standard_normal(), j.uniform(-1., 2.), j.normal(1., 2.), j.lg_normal(1., .1), j.uniform_sphere_polar(), j.uniform_sphere_cart()
        else:
            j.random(3), j.standard_normal(3), j.uniform(-1., 2., 3), j.normal(1., 2., 3), j.lg_normal(1., .1, 3), j.uniform_sphere_polar(3), j.uniform_sphere_cart(3)
    Rng(1).uniform_sphere()
    Rng(1).uniform_circle()


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3, 4])
    streams = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        streams.append({'seed': rng.choice([0, 0, 1, 2, 10086, 2**31, 2**40 + 1, rng.randrange(1 << 62)]), 'gen': rng.random() < .5,
                        'own': None if nc > 1 and rng.random() < .6 else rng.randrange(nc)})
    clients, faults = [], []
    for c in range(nc):
        mine = [k for k, s in enumerate(streams) if s['own'] in (None, c)]
        ops = []
        for j in range(rng.randrange(3, 13)):
            r = rng.random()
            v = rng.randrange(1 << 30)
            if r < .12:
                ops.append({'k': 'noise', 't': rng.choice(['npseed', 'pyseed', 'npdraw', 'other', 'none', 'badseed', 'twin']), 'v': v})
                continue
            if not mine:
                ops.append({'k': 'noise', 't': 'other', 'v': v})
                continue
            s = rng.choice(mine)
            shared = streams[s]['own'] is None
            h = rng.choice(['rng', 'rng', 'of', 'of', 'ofgen', 'jit', 'jit'] if streams[s]['gen'] else ['rng', 'of'])
            if h == 'jit':
                k = rng.choice(JIT if shared else JIT + ['spp', 'spc'])
            elif r < .3:
                k = 'bad'
            else:
                k = rng.choice(SINGLE if shared else SINGLE + ['sp', 'sp'])
            ops.append({'k': k, 's': s, 'h': h, 'v': v, 'kw': rng.random() < .5})
            if rng.random() < .07:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 6), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'streams': streams, 'clients': clients, 'faults': faults,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.1, .3, .5, .8])} if nc > 1 else {'mode': 'serial'}}


SIZES = [None, None, 0, 1, 3, 7, (2, 3)]


def request(o):
    """(method name, args dict, validity check on (value, args)) of a request"""
    rs = np.random.RandomState(o['v'])
    k = o['k']
    size = SIZES[rs.randint(len(SIZES))]
    if o['h'] == 'jit':
        size = [None, 3][rs.randint(2)]
    shape = () if size is None else (size,) if isinstance(size, int) else size

    def shp(x):
        return np.shape(x) == shape
    if k == 'r':
        return 'random', {'size': size}, lambda x, a: shp(x) and np.all((x >= 0) & (x < 1))
    if k == 'u':
        lo = float(rs.randint(-5, 5))
        hi = lo + float(rs.choice([.5, 1., 100.]))
        if o['h'] != 'jit' and rs.rand() < .25:
            n = 4
            lo, hi = np.full(n, lo), np.full(n, hi) + np.arange(n)
            return 'uniform', {'low': lo, 'high': hi}, lambda x, a: x.shape == (n,) and np.all((x >= a['low']) & (x <= a['high']))
        return 'uniform', {'low': lo, 'high': hi, 'size': size}, lambda x, a: shp(x) and np.all((x >= lo) & (x <= hi))
    if k == 'sn':
        return 'standard_normal', {'size': size}, lambda x, a: shp(x) and np.all(np.abs(x) < 12)
    if k in ('n', 'lg'):
        loc, sc = float(rs.randint(-5, 5)), float(rs.choice([1e-3, 1., 3.]))
        if k == 'lg':
            return 'lg_normal', {'loc': loc, 'scale': sc, 'size': size}, lambda x, a: shp(x) and np.all(np.abs(np.log10(x) - loc) < 12 * sc)
        if o['h'] != 'jit' and rs.rand() < .25:
            return 'normal', {'loc': np.arange(4.) * 100, 'scale': np.full(4, sc)}, lambda x, a: x.shape == (4,) and np.all(np.abs(x - a['loc']) < 12 * a['scale'])
        return 'normal', {'loc': loc, 'scale': sc, 'size': size}, lambda x, a: shp(x) and np.all(np.abs(x - loc) < 12 * sc)
    if k == 'c':
        n = int(rs.randint(1, 9))
        kind = rs.randint(4)
        rep = bool(rs.randint(2))
        if not rep and not isinstance(size, tuple) and size is not None:
            size = min(size, n)
        elif not rep and isinstance(size, tuple):
            size = (1, n)
        a = {'a': n if kind == 0 else [3 * q for q in range(n)] if kind == 1 else np.arange(n) * 1.5 if kind == 2 else np.arange(2 * n).reshape(2, n), 'size': size, 'replace': rep}
        axis = 0
        if kind == 3:
            axis = a['axis'] = 1
        if rs.rand() < .4:
            p = rs.randint(0, 4, n).astype(float)
            if (p > 0).sum() < n and not rep or p.sum() == 0:
                p[:] = 1.
            a['p'] = p / p.sum()
        if rs.rand() < .3:
            a['shuffle'] = bool(rs.randint(2))
        shape2 = () if size is None else (size,) if isinstance(size, int) else tuple(size)

        def ok(x, a):
            x = np.asarray(x)
            src = np.arange(n) if kind == 0 else np.asarray(a['a'])
            if kind == 3:
                if x.shape != (2,) + shape2 or not np.array_equal(x[0] + n, x[1]):
                    return False
                x, src = x[0], src[0]
            if x.shape != shape2:
                return False
            idx = np.searchsorted(src, x.ravel())
            if x.size and (idx.max() >= n or not np.array_equal(src[idx], x.ravel())):
                return False
            if not rep and len(set(idx.tolist())) != x.size:
                return False
            return a.get('p') is None or bool(np.all(a['p'][idx] > 0))
        return 'choice', a, ok
    if k == 'p':
        n = int(rs.randint(0, 9)) if rs.rand() < .7 else 30
        kind = rs.randint(4)
        if kind == 0:
            return 'permutation', {'a': n}, lambda x, a: np.array_equal(np.sort(x), np.arange(n)) and (n < 30 or not np.array_equal(x, np.arange(n)))
        if kind == 1:
            return 'permutation', {'a': [2 * q for q in range(n)]}, lambda x, a: np.array_equal(np.sort(x), np.array(a['a']))
        A = np.arange(n) * 2. if kind == 2 else np.arange(3 * n).reshape(3, n)
        if kind == 2:
            return 'permutation', {'a': A}, lambda x, a: np.array_equal(np.sort(x), A) and not np.shares_memory(x, a['a'])
        return 'permutation', {'a': A, 'axis': 1}, lambda x, a: np.array_equal(x[:, np.argsort(x[0], kind='stable')] if n else x, A) and not np.shares_memory(x, a['a'])
    if k == 's':
        n = int(rs.randint(0, 9)) if rs.rand() < .7 else 30
        kind = rs.randint(3)
        A = list(range(n)) if kind == 0 else np.arange(n) * 2. if kind == 1 else np.arange(3 * n).reshape(n, 3).T.copy()
        a = {'a': A}
        if kind == 2:
            a['axis'] = 1
        ref = A.copy() if kind else list(A)

        def ok(x, a):
            t = a['a']
            if x is not None or n == 30 and np.array_equal(t, ref):
                return False
            if kind == 0:
                return sorted(t) == ref
            if kind == 1:
                return np.array_equal(np.sort(t), ref)
            return np.array_equal(t[:, np.argsort(t[0])], ref)
        return 'shuffle', a, ok
    if k == 'ci':
        a = {'size': size, 'stack': bool(rs.randint(2)), 'cartesian': bool(rs.randint(2))}

        def ok(x, a):
            if not a['cartesian']:
                return shp(x) and np.all((x >= 0) & (x <= 2 * np.pi))
            if a['stack']:
                if x.shape != shape + (2,):
                    return False
                return np.allclose((x ** 2).sum(-1), 1.)
            return len(x) == 2 and shp(x[0]) and shp(x[1]) and np.allclose(x[0] ** 2 + x[1] ** 2, 1.)
        return 'uniform_circle', a, ok
    if k == 'sp':
        a = {'size': size, 'stack': bool(rs.randint(2)), 'cartesian': bool(rs.randint(2))}
        if rs.rand() < .1:
            a['size'], shape = 3000, (3000,)

        def ok(x, a):
            m = 3 if a['cartesian'] else 2
            if a['stack']:
                if x.shape != shape + (m,):
                    return False
                x = [x[..., q] for q in range(m)]
            if len(x) != m or any(np.shape(q) != shape for q in x):
                return False
            if m == 2:
                return bool(np.all((x[0] >= 0) & (x[0] <= np.pi) & (x[1] >= 0) & (x[1] <= 2 * np.pi)))
            if not np.allclose(x[0] ** 2 + x[1] ** 2 + x[2] ** 2, 1.):
                return False
            if shape == (3000,):       # every octant gets its share: 375 +- 18
                o8 = np.bincount(((x[0] > 0) * 4 + (x[1] > 0) * 2 + (x[2] > 0)).astype(int), minlength=8)
                cap = np.count_nonzero(np.abs(x[2]) < .5)       # half of the area: 1500 +- 27
                return o8.min() > 230 and o8.max() < 520 and 1280 < cap < 1720
            return True
        return 'uniform_sphere', a, ok
    if k == 'spp':
        return 'uniform_sphere_polar', {'size': size}, lambda x, a: len(x) == 2 and all(shp(q) for q in x)
    if k == 'spc':
        return 'uniform_sphere_cart', {'size': size}, lambda x, a: len(x) == 3 and np.allclose(x[0] ** 2 + x[1] ** 2 + x[2] ** 2, 1.)
    ro = np.arange(5.)
    ro.flags.writeable = False
    bad = [('normal', {'loc': 0., 'scale': -1.}), ('normal', {'loc': 0., 'scale': -1., 'size': 4}), ('uniform', {'low': 0., 'high': np.inf}),
           ('uniform', {'low': 'a', 'high': 1.}), ('random', {'size': -3}), ('random', {'size': 'x'}), ('standard_normal', {'size': (2, -1)}),
           ('choice', {'a': 3, 'size': 5, 'replace': False}), ('choice', {'a': 0}), ('choice', {'a': 3, 'p': np.array([.5, .6, .1])}),
           ('choice', {'a': 3, 'p': np.array([.5, .5])}), ('choice', {'a': [], 'size': 2}), ('choice', {'a': 3, 'size': 3, 'replace': False, 'p': np.array([.5, .5, 0.])}),
           ('choice', {'a': 3, 'p': np.array([1.5, -.5, 0.])}), ('choice', {'a': 3, 'p': np.array([np.nan, .5, .5])}), ('permutation', {'a': 'abc'}), ('permutation', {'a': np.arange(4), 'axis': 3}), ('shuffle', {'a': ro}), ('shuffle', {'a': np.arange(4), 'axis': 2}),
           ('uniform_sphere', {'size': -1}), ('uniform_circle', {'size': 'q'}), ('choice', {'a': np.arange(4), 'axis': 2})]
    m, a = bad[rs.randint(len(bad))]
    return m, a, None


def frozen(a):
    return {k: v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v for k, v in a.items()}


def same(x, y):
    if isinstance(x, (tuple, list)) or isinstance(y, (tuple, list)):
        return type(x) is type(y) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if x is None or y is None:
        return x is y
    x, y = np.asarray(x), np.asarray(y)
    return x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes()


def args_same(a, b):
    return all(same(a[k], b[k]) if isinstance(a[k], (np.ndarray, list)) else a[k] == b[k] for k in a if k is not None)


ORDER = {'random': ['size'], 'uniform': ['low', 'high', 'size'], 'standard_normal': ['size'], 'normal': ['loc', 'scale', 'size'], 'lg_normal': ['loc', 'scale', 'size'],
         'choice': ['a', 'size', 'replace', 'p', 'axis', 'shuffle'], 'permutation': ['a', 'axis'], 'shuffle': ['a', 'axis'],
         'uniform_sphere': ['size', 'stack', 'cartesian'], 'uniform_circle': ['size', 'stack', 'cartesian'], 'uniform_sphere_polar': ['size'], 'uniform_sphere_cart': ['size']}


def invoke(h, m, a, kw):
    f = getattr(h, m)
    if kw == 'jit':
        v = [a[n] for n in ORDER[m] if n in a]
        if v and v[-1] is None:
            v.pop()
        return f(*v)
    if kw:
        return f(**a)
    v = []
    rest = dict(a)
    for n in ORDER[m]:
        if n not in rest:
            break
        v.append(rest.pop(n))
    return f(*v, **rest)


def run(sc, ctx):
    from pyhipp.stats.random import Rng, _Rng
    if not sc['streams']:
        return
    pyrandom.seed(sc['seed'])
    np.random.seed(sc['seed'] & 0xffff)
    roots, gens = [], []
    for s in sc['streams']:
        g = np.random.default_rng(s['seed']) if s['gen'] else None
        r = Rng(g) if s['gen'] else Rng(s['seed'])
        gens.append(g)
        roots.append(r)
    hist = [[] for _ in roots]
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def body(c, cl):
        handles = {}
        for s, st in enumerate(sc['streams']):
            if st['own'] == c:           # created while the others are running
                roots[s] = ctx.call(f'{c}.new{s}', Rng, gens[s] if st['gen'] else st['seed']).value
        for j, o in enumerate(cl['ops']):
            if o['k'] == 'noise':
                with ctx.quiet():
                    noise(o)
                ctx.event(c, j, o['t'])
                ctx.pause()
                continue
            s = o['s'] % len(roots)
            hk = (s, o['h'])
            if hk not in handles:
                if o['h'] == 'rng':
                    handles[hk] = roots[s]
                elif o['h'] == 'of':
                    handles[hk] = Rng(roots[s])
                elif o['h'] == 'ofgen':
                    handles[hk] = Rng(gens[s])
                else:
                    handles[hk] = _Rng(gens[s])
            h = handles[hk]
            with ctx.quiet():
                m, a, ok = request(o)
                a0 = frozen(a)
            t0 = tick()
            out = ctx.call(f'{c}.{j}', lambda: invoke(h, m, a, 'jit' if o['h'] == 'jit' else o['kw']))
            t1 = tick()
            with ctx.quiet():
                what = f'client {c} request {j}: {m}({ {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in a0.items()} }) on stream {s} (seed {sc["streams"][s]["seed"]}): {out!r}'
                ctx.event(c, j, m, s, out.kind)
                ctx.state((o['k'], o['h'], sc['streams'][s]['own'] is None, out.kind))
                if m != 'shuffle':
                    ctx.check(args_same(a0, a), 'argument-changed', what)
                if ok is None:
                    ctx.nontrivial = True
                    if out.ok:
                        ctx.violate('not-rejected', what)
                    if m == 'shuffle':
                        ctx.check(args_same(a0, a), 'argument-changed', what)
                    if out.injected:      # cannot tell at which draw
                        hist[s].append((t0, t1, m, a0, o, 'maybe', None, what))
                    continue
                if not out.ok:
                    ctx.check(out.injected, 'request-failed', what)
                    res = 'maybe'
                else:
                    ctx.check(ok(out.value, a), 'variate-wrong', lambda: f'{what} gave {out.value!r} (argument now {a.get("a")!r})')
                    res = 'done'
                    v = out.value
                    if isinstance(v, np.ndarray):
                        out.value = v.copy()
                hist[s].append((t0, t1, m, a0, o, res, (out.value, frozen(a).get('a')) if m == 'shuffle' else (out.value, None), what))
            ctx.pause()

    def noise(o):
        t, v = o['t'], o['v']
        if t == 'npseed':
            np.random.seed(v % 1000)
        elif t == 'pyseed':
            pyrandom.seed(v)
        elif t == 'npdraw':
            np.random.random(3)
            np.random.permutation(4)
        elif t == 'other':
            Rng(v).random(3)
        elif t == 'none':
            x = Rng(None).random(4)
            ctx.check(bool(np.all((x >= 0) & (x < 1))), 'variate-wrong', f'Rng(None).random(4) = {x}')
            Rng()
        elif t == 'twin':          # another generator of the same seed starts its own stream and must not disturb ours
            s = sc['streams'][v % len(sc['streams'])]
            ctx.check(same(Rng(s['seed']).random(5), Rng(s['seed']).random(5)), 'stream-differs',
                      f'two generators of seed {s["seed"]} give different variates')
        else:
            for bad in ('x', 1.5, -1, [1, 2], None.__class__):
                try:
                    Rng(bad)
                except Exception:
                    pass
        ctx.nontrivial = True
        ctx.fault('noise:' + t)
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    np.random.seed(7)
    for s, (st, hs) in enumerate(zip(sc['streams'], hist)):
        n = len(hs)
        budget = [4000]
        best = [-1, '']
        now = {}

        def rebuild(prefix):
            g = np.random.default_rng(st['seed']) if st['gen'] else None
            now['rng'] = Rng(g) if st['gen'] else Rng(st['seed'])
            now['jit'] = _Rng(g) if st['gen'] else None
            for e, mode in prefix:
                attempt(e, mode)

        def attempt(e, mode):
            _, _, m, a0, o, res, got, what = e
            if mode == 'skip':
                return True
            if mode == 'half':
                now['rng'].uniform(-1., 1., a0.get('size'))
                return True
            a = frozen(a0)
            hd, kw = (now['jit'], 'jit') if o['h'] == 'jit' else (now['rng'], o['kw'])
            if res == 'maybe':
                try:
                    invoke(hd, m, a, kw)
                except Exception:
                    pass
                return True
            r = invoke(hd, m, a, kw)
            return same(a['a'], got[1]) if m == 'shuffle' else same(r, got[0])

        def search(done, prefix):
            if len(done) == n:
                return True
            if budget[0] <= 0:
                return None
            budget[0] -= 1
            bound = min(e[1] for q, e in enumerate(hs) if q not in done)
            first = True
            for q, e in enumerate(hs):
                if q in done or e[0] > bound:
                    continue
                for mode in (['skip', 'full'] + (['half'] if e[2] == 'uniform_sphere' else []) if e[5] == 'maybe' else ['full']):
                    if not first:
                        rebuild(prefix)
                    first = False
                    if attempt(e, mode):
                        r = search(done | {q}, prefix + [(e, mode)])
                        if r is not False:
                            return r
                    elif len(done) > best[0]:
                        best[:] = [len(done), e[7]]
            return False
        rebuild([])
        r = search(frozenset(), [])
        ctx.probe('replays', 1)
        if r is None:
            ctx.probe('replay budget exhausted')
        ctx.check(r is not False, 'stream-differs', lambda: f'stream {s} ({st}) replayed alone does not give the recorded variates; after {best[0]} matching requests: {best[1]}')
    ctx.fault('invalid request', sum(o['k'] == 'bad' for cl in sc['clients'] for o in cl['ops']))
