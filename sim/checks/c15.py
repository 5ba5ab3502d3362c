"""C15  Caches and lazy values never mix, lose or invent entries.

Clients look keys up in shared and own caches with fallbacks that pause, look up
other entries, fail or are interrupted; each key's history must be linearizable
against 'first value stored wins, put replaces'.  Lazy properties of immutable
objects are asked for in random orders and compared with eager values."""
import numpy as np

PROP = 'C15'
RUNS = {'quick': 3000, 'thorough': 80000}
RULE = ('one run = 2-4 clients with 3-12 cache operations or lazy property reads each on 1-3 shared objects under a line-level schedule, '
        'with failing, nested and interrupted computations; non-trivial = client switch, failing computation or fault fired')
STATE = 'distinct (object kind, operation, outcome, overlapping)'
REAL = ['pyhipp.core.abc (HasCache, HasMultiCache)', 'functools.cached_property users: stats.binning, stats.summary, field.cubic_box.cosmic_web, astro.cosmology']
STUB = ['the computations cached (harness functions)', 'thread choice and interruption points (simulated scheduler)']
ASSUME = ['one dictionary operation of the interpreter is atomic']

LAZY = {'eq': ['x_edges', 'x_centers', 'n_bins'], 'bi': ['x_centers', 'x_edges', 'n_bins'],
        'sum': ['mean', 'stddev', 'median', '_1sigma', '_2sigma', '_3sigma', 'size', 'repr'],
        'web': ['is_knot', 'is_filament', 'is_sheet', 'is_void', 'f_knot', 'f_filament', 'f_sheet', 'f_void', 'points'],
        'cosm': ['distances', 'times', 'redshifts', 'nfw', 'hubble']}
KEYS = ['a', 'b', 'ab', 'bytes', 'int', 'strint', 'tuple', 'strtuple', 'none', 'frozen', 'h1', 'h2', 'nan', 'strnan', '', 'zero']
SUBS = ['', 'a', 'b', 'bb', 'none', 'int', 'nan', 'strnan', 'strnone', 'strint', 'h1', 'h2', 'tuple']


class Clash:
    """distinct keys with one hash value"""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Clash) and o.n == self.n

    def __repr__(self):
        return f'Clash({self.n})'


NAN = float('nan')
REALKEY = {'a': 'a', 'b': 'b', 'ab': 'ab', 'bb': 'bb', 'bytes': b'a', 'int': 1, 'strint': '1', 'tuple': (1, 'a'), 'strtuple': "(1, 'a')", 'none': None,
           'frozen': frozenset([1]), 'strnan': 'nan', 'strnone': 'None', 'h1': Clash(1), 'h2': Clash(2), 'nan': NAN, '': '', 'zero': 0}


class Token:
    """a computed value; some are false in a truth test, none compare equal"""

    def __init__(self, what, falsy):
        self.what, self.falsy = what, falsy

    def __bool__(self):
        return not self.falsy

    def __eq__(self, o):
        return self is o

    __hash__ = None

    def __repr__(self):
        return f'<{self.what}>'


class CompError(Exception):
    pass


def make(k, v, near=0.):
    rs = np.random.RandomState(v)
    if k == 'eq':
        from pyhipp.stats.binning import EqualSpaceBins
        return EqualSpaceBins((float(rs.randint(-5, 0)) + near, float(rs.randint(1, 9))), int(rs.randint(1, 9)))
    if k == 'bi':
        from pyhipp.stats.binning import BiSearchBins
        return BiSearchBins(np.unique(rs.randint(-50, 50, 7)) / 4. if v % 3 else [0., 1.])
    if k == 'sum':
        from pyhipp.stats.summary import SummaryFloatArray1D
        return SummaryFloatArray1D(rs.standard_normal(int(rs.choice([1, 2, 50]))))
    if k == 'web':
        from pyhipp.field.cubic_box.cosmic_web import TidalClassifier
        from pyhipp.field.cubic_box.mesh import Mesh
        n = int(rs.choice([1, 2, 3]))
        lam = np.sort(rs.randint(-3, 4, (n, n, n, 3)).astype('f4'), axis=-1)
        return TidalClassifier(lam, Mesh.new(n, 4.), lam_th=float(rs.choice([0., 1.])))
    from pyhipp.astro.cosmology.model import LambdaCDM
    return LambdaCDM.from_parameters({'hubble': float(rs.choice([.7, .6774])), 'omega_m0': .3, 'omega_l0': .7, 'omega_b0': .045, 't_cmb': 2.7255})


def ask(o, k, name):
    if k == 'sum' and name == 'repr':
        return repr(o)
    if k == 'web' and name == 'points':
        return np.concatenate([o.grid_points_of_web_type(t) for t in ('void', 'sheet', 'f', 'k')])
    if k == 'cosm':
        if name == 'distances':
            return np.array(o.distances.comoving_at(.5))
        if name == 'times':
            return np.array(o.times.lookback_at(1.))
        if name == 'redshifts':
            return np.array(o.redshifts.hubble)
        if name == 'nfw':
            return np.array(o.halo_theory.nfw_profile.v_max2vir_to_c(np.array([1.1, 1.3])))
    return getattr(o, name)


def eager(o, k, name, v, near=0.):
    """the value by its definition, where it has a simple one"""
    rs = np.random.RandomState(v)
    if k == 'eq':
        b, e, n = float(rs.randint(-5, 0)) + near, float(rs.randint(1, 9)), int(rs.randint(1, 9))
        ed = b + (e - b) * np.arange(n + 1) / n
    elif k == 'bi':
        ed = np.unique(rs.randint(-50, 50, 7)) / 4. if v % 3 else np.array([0., 1.])
    if k in ('eq', 'bi'):
        return {'x_edges': ed, 'x_centers': (ed[1:] + ed[:-1]) / 2, 'n_bins': len(ed) - 1}[name]
    if k == 'sum':
        a = rs.standard_normal(int(rs.choice([1, 2, 50])))
        q = lambda x: np.quantile(a, [(1 - x) / 2, (1 + x) / 2])
        return {'mean': a.sum() / len(a), 'stddev': (((a - a.mean()) ** 2).mean()) ** .5, 'median': np.quantile(a, .5), '_1sigma': q(.68), '_2sigma': q(.95), '_3sigma': q(.99), 'size': len(a)}.get(name)
    if k == 'web':
        n = int(rs.choice([1, 2, 3]))
        lam = np.sort(rs.randint(-3, 4, (n, n, n, 3)).astype('f4'), axis=-1)
        th = float(rs.choice([0., 1.]))
        t = (lam > th).sum(-1)
        q = {'knot': 3, 'filament': 2, 'sheet': 1, 'void': 0}
        if name == 'points':
            h = 4. / n
            return np.concatenate([np.argwhere(t == m) * h for m in range(4)]).astype('f4')
        w = t == q[name.split('_')[1]]
        return w if name.startswith('is') else w.mean()
    return None


def warmup(tmp):
    for k in LAZY:
        for v in (1, 2):
            o = make(k, v)
            for n in LAZY[k]:
                ask(o, k, n)


def gen(rng, tier, i):
    nc = rng.choice([2, 2, 3, 4])
    objs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['cache', 'cache', 'multi', 'multi', 'multi', rng.choice(sorted(LAZY))])
        objs.append({'k': k, 'v': rng.randrange(1000)})
        if k == 'eq' and rng.random() < .5:           # and one that is nearly equal
            objs.append({'k': k, 'v': objs[-1]['v'], 'near': rng.choice([0., 3e-7, 2e-9])})
    pool = rng.sample(KEYS, rng.choice([1, 2, 4]))
    subs = rng.sample(SUBS, rng.choice([1, 2, 3]))
    clients, faults = [], []

    def op(depth):
        q = rng.randrange(len(objs))
        k = objs[q]['k']
        if k in LAZY:
            return {'t': 'lazy', 'o': q, 'a': rng.choice(LAZY[k])}
        if rng.random() < .015 and not depth:
            return {'t': 'bulk', 'o': q, 'n': rng.choice([20, 70, 150, 300, 1100]), 'tag': rng.randrange(3), 'wide': rng.random() < .5, 'put': rng.random() < .3}
        o = {'t': rng.choice(['get'] * 6 + (['put'] if k == 'cache' else [])), 'o': q, 'key': rng.choice(pool), 'sub': rng.choice(subs),
             'val': rng.choice(['t', 't', 'f', 'none']), 'fail': rng.random() < .15, 'p': rng.choice([0, 1, 1, 3])}
        if rng.random() < .04:
            o['key'] = 'unhashable'
        if depth < 2 and rng.random() < .15:
            o['in'] = op(depth + 1)
        return o
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(3, 13)):
            ops.append(op(0))
            if rng.random() < .08:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 9), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'objs': objs, 'clients': clients, 'faults': faults, 'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.1, .3, .5, .8])}}


def same(a, b, exact=True):
    if isinstance(a, str) or a is None or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if exact is True:
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return a.shape == b.shape and np.allclose(a, b, rtol=exact, atol=exact)


class H:
    __slots__ = ('t0', 't1', 'kind', 'own', 'ret', 'must', 'what')

    def __init__(self, t0, kind, what):
        self.t0, self.t1, self.kind, self.own, self.ret, self.must, self.what = t0, None, kind, None, None, True, what


EMPTY = object()


def linearizable(hs):
    """some order of the operations, respecting real time, explains every returned value"""
    n = len(hs)
    seen = set()
    budget = [20000]

    def go(done, state):
        if len(done) == n:
            return True
        key = (done, id(state))
        if key in seen:
            return False
        seen.add(key)
        budget[0] -= 1
        if budget[0] < 0:
            return True
        bound = min(h.t1 for q, h in enumerate(hs) if q not in done)
        for q, h in enumerate(hs):
            if q in done or h.t0 > bound:
                continue
            d = done | {q}
            if h.kind == 'put':
                if go(d, h.own):
                    return True
                if not h.must and go(d, state):
                    return True
                continue
            if not h.must:                 # failed or interrupted lookup
                if go(d, state):
                    return True
                if h.own is not EMPTY and state is EMPTY and go(d, h.own):
                    return True
                continue
            if state is EMPTY:
                if h.own is not EMPTY and h.ret is h.own and go(d, h.own):
                    return True
            elif h.ret is state and go(d, state):
                return True
        return False
    return go(frozenset(), EMPTY)


def run(sc, ctx):
    from pyhipp.core import abc
    if not sc['objs']:
        return

    objs = []
    for q in sc['objs']:
        objs.append(abc.HasCache() if q['k'] == 'cache' else abc.HasMultiCache() if q['k'] == 'multi' else make(q['k'], q['v'], q.get('near', 0.)))
    hist = {}
    clock = [0]
    last_done = {}        # entry -> time the first successful lookup or put of it had completed
    given = {}
    many, pending = {}, set()

    def tick():
        clock[0] += 1
        return clock[0]

    def value(o, what):
        return None if o['val'] == 'none' else Token(what, o['val'] == 'f')

    def do(c, name, o, top):
        """one operation; nested ones run inside the computation of their parent"""
        q = o['o'] % len(objs)
        ob, kind = objs[q], sc['objs'][q]['k']
        if kind in LAZY:
            if o['t'] != 'lazy' or o['a'] not in LAZY[kind]:
                return
            lazy(c, name, o, q, top)
            return
        if o['t'] == 'lazy':
            return
        if o['t'] == 'bulk':
            bulk(c, name, o, q)
            return
        if o['key'] == 'unhashable':
            args = ([1],) if kind == 'cache' else ([1], 'a')
            f = (lambda: ob.get_cache_or(*args, lambda: 1)) if o['t'] == 'get' else (lambda: ob.put_cache([1], 1))
            if top:
                out = ctx.call(name, f)
                ctx.check(not out.ok, 'not-rejected', f'{name}: unhashable key accepted')
            return
        key = REALKEY[o['key']]
        if kind == 'multi':
            e = (q, o['key'], o['sub'])
            args = (key, REALKEY[o['sub']])
        else:
            e = (q, o['key'])
            args = (key,)
        t0 = tick()
        h = H(t0, o['t'], f'{name}: {o["t"]} {e[1:]}')
        if o['t'] == 'put':
            h.own = value(o, name)
            out = call(name, lambda: ob.put_cache(*args, h.own), top)
            h.t1 = tick()
            h.must = out.ok
            if not out.ok and not out.injected and top:
                ctx.violate('call-failed', f'{h.what}: {out!r}')
            hist.setdefault(e, []).append(h)
            if out.ok:
                last_done.setdefault(e, h.t1)
            elif not top:
                raise out.exc
            return
        h.own = EMPTY
        err = CompError(name)

        def compute():
            known = last_done.get(e)
            if known is not None and known < t0:
                ctx.violate('computed-again', f'{h.what}: computed again although it had been looked up or stored before')
            if h.own is not EMPTY:
                ctx.violate('computed-again', f'{h.what}: computed twice within one lookup')
            for _ in range(o['p']):
                ctx.pause()
            if o.get('in'):
                do(c, name + 'i', o['in'], False)
            if o['fail']:
                ctx.fault('computation failed')
                raise err
            h.own = value(o, name)
            return h.own
        out = call(name, lambda: ob.get_cache_or(*args, compute), top)
        h.t1 = tick()
        if out.ok:
            h.ret = out.value
            last_done.setdefault(e, h.t1)
        else:
            h.must = False
            if not out.injected:
                ctx.check(out.exc is err, 'error-lost', f'{h.what}: the computation failed, the lookup gave {out!r}')
        hist.setdefault(e, []).append(h)
        ctx.state((kind, o['t'], out.kind, h.own is EMPTY, o['val']))
        if out.injected and not top:
            raise out.exc

    def bulk(c, name, o, q):
        """many entries at once: one lookup each, stored for the final check"""
        ob, kind = objs[q], sc['objs'][q]['k']
        wide = kind == 'multi' and o['wide']
        for z in range(o['n']):
            kz = ('many', o['tag'], z)
            a = (kz,) if kind == 'cache' else (('many', o['tag']), kz) if wide else (kz, 'a')
            if a in (b := many.setdefault(q, {})) or (q, a) in pending:
                continue                   # another client's
            pending.add((q, a))
            t = Token(f'{name}/{z}', z % 3 == 0)
            if o['put'] and kind == 'cache':
                out = ctx.call(f'{name}/{z}', lambda: ob.put_cache(*a, t))
            else:
                out = ctx.call(f'{name}/{z}', lambda: ob.get_cache_or(*a, lambda: t))
                ctx.check(not out.ok or out.value is t, 'entry-invented', f'{name}: first lookup of {a} gave {out.value if out.ok else out!r}')
            if out.ok:
                b[a] = t
            if z % 16 == 5:
                ctx.pause()
        ctx.state((kind, 'bulk', o['n']))

    class Res:
        pass

    def call(name, f, top):
        if top:
            return ctx.call(name, f)
        r = Res()
        r.injected = None
        try:
            r.ok, r.value, r.exc = True, f(), None
        except (KeyboardInterrupt, MemoryError) as e:       # belongs to the outermost call
            r.ok, r.value, r.exc, r.injected = False, None, e, True
        except CompError as e:
            r.ok, r.value, r.exc = False, None, e
        r.kind = 'ok' if r.ok else 'CompError'
        return r

    def lazy(c, name, o, q, top):
        k, v = sc['objs'][q]['k'], sc['objs'][q]['v']
        if not top:
            got = ask(objs[q], k, o['a'])
        else:
            out = ctx.call(name, lambda: ask(objs[q], k, o['a']))
            if not out.ok:
                ctx.check(out.injected, 'lazy-failed', f'{name}: {o["a"]} of {k}({v}): {out!r}')
                ctx.event(c, name, 'interrupted')
                return
            got = out.value
        with ctx.quiet():
            near = sc['objs'][q].get('near', 0.)
            want = eager(objs[q], k, o['a'], v, near)
            what = f'{name}: {o["a"]} of {k}({v})'
            if want is not None:
                ctx.check(same(got, want, 1e-12 if k in ('eq', 'bi', 'sum') else 1e-6), 'lazy-wrong', lambda: f'{what} is {got!r}, computed directly {want!r}')
            tw = ask(make(k, v, near), k, o['a'])
            ctx.check(same(got, tw), 'lazy-wrong', lambda: f'{what} is {got!r}, of an equal fresh object {tw!r}')
            if isinstance(got, np.ndarray):
                if (q, o['a']) in given:
                    ctx.check(same(given[q, o['a']], got), 'lazy-wrong', lambda: f'{what} is {got!r}, before {given[q, o["a"]]!r}')
                given[q, o['a']] = got.copy()
            ctx.state((k, o['a']))

    def body(c, cl):
        for j, o in enumerate(cl['ops']):
            do(c, f'{c}.{j}', o, True)
            ctx.event(c, j, o['t'], clock[0])
            ctx.pause()
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    for e in sorted(hist, key=repr):
        q = e[0]
        args = (REALKEY[e[1]],) if len(e) == 2 else (REALKEY[e[1]], REALKEY[e[2]])
        hs = hist[e]
        if e in last_done:
            def lost():
                ctx.violate('entry-lost', f'{e}: looked up or stored before ({[h.what for h in hs][:6]}), gone at the end')
            h = H(tick(), 'get', 'final lookup')
            h.own = EMPTY
            h.ret = objs[q].get_cache_or(*args, lost)
            h.t1 = tick()
            hs.append(h)
        ctx.check(linearizable(hs), 'history-inconsistent', lambda: f'{e}: no order of these operations explains the values: ' +
                  '; '.join(f'[{h.t0}-{h.t1}] {h.what} own={h.own if h.own is not EMPTY else "-"} ret={h.ret if h.must else "failed"}' for h in hs))
        ctx.probe('entries checked')
    for q in sorted(many):
        for a, t in many[q].items():
            def lost():
                ctx.violate('entry-lost', f'{q} {a}: one of {len(many[q])} entries stored before, gone at the end')
            ctx.check(objs[q].get_cache_or(*a, lost) is t, 'history-inconsistent', lambda: f'{q} {a}: not the value stored')
    # entries never asked for are not there
    for q, (spec, ob) in enumerate(zip(sc['objs'], objs)):
        if spec['k'] in ('cache', 'multi'):
            fresh = Token('fresh', False)
            for kn in KEYS[:6] + ['h1', 'h2']:
                for sub in ([None] if spec['k'] == 'cache' else SUBS[:3] + ['nan', 'strnan']):
                    e = (q, kn) if sub is None else (q, kn, sub)
                    if e in hist:
                        continue
                    a = (REALKEY[kn],) if sub is None else (REALKEY[kn], REALKEY[sub])
                    got = ob.get_cache_or(*a, lambda: fresh)
                    ctx.check(got is fresh, 'entry-invented', f'{e}: never stored, lookup gave {got!r}')
