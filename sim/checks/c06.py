"""C06  HDF5 attributes behave as a persistent typed dictionary.

Clients work on the attributes of their own objects (file, groups, datasets) of
their own file - closing and reopening it - or of one shared open file; every
operation is compared with a dict of typed values, and so is what a plain h5py
reader finds at the end."""
import os, re
import numpy as np
from sim import h5data as D

PROP = 'C06'
RUNS = {'quick': 2200, 'thorough': 50000}
RULE = ('one run = 1-3 clients executing 3-16 attribute operations on 1-3 objects each, under a line-level schedule, with '
        'interruptions and short transfers; non-trivial = client switch or fault fired')
STATE = 'distinct (client, attribute dictionaries) after each operation'
REAL = ['pyhipp.io.h5', 'h5py + libhdf5', 'kernel file system (scratch directory)']
STUB = ['thread choice and interruption points (simulated scheduler)', 'short read/write (libc shim)']
ASSUME = ['a call into h5py is atomic for the scheduler', 'bytes given as attribute value come back as text (h5py convention)']
NAMES = ['n', 'note', 'redshift', 'box size', 'été', 'Z0', 'unit', 'a.b', 'keys_', 'count', 'Omega_m', 'x' * 60, ' in', 'out ', 'N', 'e\u0301te\u0301', 'n_*', '_a', '__x']
KINDS = ['create', 'create', 'create', 'set', 'set', 'ow', 'dump', 'dumpow', 'load', 'list', 'match', 'get', 'multi', 'dot', 'miss',
         'dup', 'empty', 'badshape', 'reopen', 'reopen', 'renew', 'renew']


def warmup(tmp):
    from sim.checks import c01
    c01.warmup(tmp)


def gen_val(rng):
    r = rng.random()
    if r < .45:
        d = rng.choice(D.DT)
        s = rng.choice([[], [1], [3], [2, 2], [0], [5], [1, 3, 2]])
        return {'t': 'arr', 'd': d, 's': s, 'v': rng.randrange(1 << 30), 'lay': rng.choice('CFVR')}
    if r < .65:
        return {'t': 'py', 'k': rng.choice(['int', 'float', 'bool', 'complex', 'negint', 'nan', 'inf']), 'v': rng.randrange(1 << 30)}
    if r < .75:
        return {'t': 'np', 'd': rng.choice(D.DT[:14]), 'v': rng.randrange(1 << 30)}
    if r < .78:
        return {'t': 'arr', 'd': '<f8', 's': [9000], 'v': 1, 'lay': 'C'}      # too large for an attribute
    return {'t': 'str', 'v': rng.randrange(len(D.TEXT)), 'n': rng.randrange(1000)}


def gen(rng, tier, i):
    nc = rng.choice([1, 1, 2, 2, 3])
    shared = nc > 1 and rng.random() < .6
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(3, 17)):
            k = rng.choice(KINDS)
            ops.append({'k': k, 'o': rng.randrange(3), 'n': rng.randrange(1 << 20), 'v': gen_val(rng), 'w': [gen_val(rng) for _ in range(3)]})
            if rng.random() < .08:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 14), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    io = []
    if rng.random() < .3:
        io.append({'op': rng.choice(['READ', 'WRITE']), 'nth': rng.randrange(40), 'n': rng.choice([1, 20, 200]), 'max': rng.choice([1, 9, 300])})
    plan = {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3, .6])} if nc > 1 else {'mode': 'serial'}
    return {'shared': shared, 'clients': clients, 'faults': faults, 'io': io, 'plan': plan}


SHRINK = ('io',)


def want_of(v):
    if isinstance(v, (str, bytes)):
        return v if isinstance(v, str) else v.decode()
    return np.array(v)


def same(got, want):
    if isinstance(want, str):
        return None if isinstance(got, str) and got == want else f'{got!r:.80} != {want!r:.80}'
    return D.same(got, want)


def dig(v):
    return 'S' + v if isinstance(v, str) else D.digest(v)


class Client:
    def __init__(self, ctx, c, path, shared):
        self.ctx, self.c, self.path, self.shared = ctx, c, path, shared
        self.model = [{}, {}, {}]
        self.f = None

    def objs(self):
        f = self.f
        base = f'c{self.c}'
        return [f[base] if self.shared else f, f[f'{base}/ds'], f[f'{base}/sub']]

    def setup(self, f):
        g = f.create_group(f'c{self.c}')
        g.datasets.create('ds', np.arange(4))
        g.create_group('sub')

    def bad(self, what, d):
        self.ctx.violate('attr-mismatch', f'client {self.c}: {what}: {d}', what=what.split()[0])

    def resync(self, A, m, touched):
        """after an interrupted call: each touched attribute is wholly old or wholly new"""
        raw = D.raw(A)
        for k, new in touched.items():
            if k in raw:
                ds = [same(raw[k], x) for x in (m.get(k), new) if x is not None]
                if not ds or all(ds):
                    self.bad('interrupted call', f'{k!r} is neither old nor new: {ds}')
                m[k] = new if same(raw[k], new) is None else m[k]
            elif k in m:
                self.bad('interrupted call', f'{k!r} lost')

    def op(self, i, o):
        from pyhipp.core import DataDict
        ctx, k, n = self.ctx, o['k'], o['n']
        oid = f'{self.c}.{i}'
        if k == 'renew':
            # the object is deleted and another one put under its name
            if o['o'] == 0 or any(f['op'] == oid for f in self.ctx.sc['faults']):
                return
            base = f'c{self.c}/' + ['', 'ds', 'sub'][o['o']]

            def renew():
                self.objs()[o['o']].attrs.keys()
                del self.f[base]
                if o['o'] == 1:
                    self.f[f'c{self.c}'].datasets.create('ds', np.arange(4))
                else:
                    self.f[f'c{self.c}'].create_group('sub')
            out = ctx.call(oid, renew)
            ctx.check(out.ok, 'call-failed', f'client {self.c}: delete and create anew: {out!r}')
            self.model[o['o']].clear()
            with ctx.quiet():
                self.verify(f'renew call {i} on object {o["o"]}')
            return
        if k == 'reopen':
            if not self.shared:
                from pyhipp.io import h5
                self.f.close()
                self.f = h5.File(self.path, 'a')
            return
        m = self.model[o['o']]
        A = self.objs()[o['o']].attrs
        free = [x for x in NAMES if x not in m]
        have = sorted(m)
        val = D.build(o['v'])
        want = want_of(val)
        big = isinstance(want, np.ndarray) and want.nbytes > 60000
        touched, exp, check = {}, None, None
        if k in ('create', 'empty', 'dump') and not free or k in ('set', 'ow', 'dup', 'get', 'badshape', 'dumpow') and not have:
            return
        if k == 'create':
            x = free[n % len(free)]
            fn = lambda: A.create(x, val, flag=['x', 'ac', 'ca'][n % 3])
            touched = {x: want}
            exp = Exception if big else None
        elif k == 'empty':
            x = free[n % len(free)]
            fn = lambda: A.create_empty(x, (2, 3), 'i4')
            touched = {x: np.zeros((2, 3), 'i4')}

            def check(v):
                if A[x].shape != (2, 3) or A[x].dtype != np.dtype('i4'):
                    return f'{A[x]!r}'
        elif k in ('set', 'ow'):
            x = have[n % len(have)]
            old = m[x]
            if isinstance(old, str):
                val = want = f'new text {n}'
            elif old.dtype.kind in 'iuf' and n & 1:
                # another type of the same shape: the stored type stays
                val = (np.arange(old.size).reshape(old.shape) % 50).astype(['i8', 'f8', 'u1'][n % 3])
                want = val.astype(old.dtype)
            else:
                val = D.fill('rec' if old.dtype == D.REC else old.dtype.str, list(old.shape), n)
                want = np.array(val)
            fn = (lambda: A.__setitem__(x, val)) if k == 'set' else (lambda: A.create(x, val, flag=['ac', 'ca'][n & 1]))
            touched = {x: want}
        elif k == 'badshape':
            x = have[n % len(have)]
            old = m[x]
            val = np.zeros(7) if isinstance(old, np.ndarray) and old.shape != (7,) else None
            if val is None:
                return
            fn, exp = (lambda: A.__setitem__(x, val)) if n & 1 else (lambda: A.create(x, val, flag='ac')), Exception
        elif k == 'dup':
            x = have[n % len(have)]
            fn, exp = [lambda: A.create(x, val), lambda: A.create_empty(x, (1,), 'f4'), lambda: A.dump({x: val})][n % 3], ValueError
        elif k == 'miss':
            x = free[n % len(free)] if free else 'never'
            fn, exp = [lambda: A.__setitem__(x, 1), lambda: A[x], lambda: A.load(keys=[x]), lambda: A['n', x]][n % 4], KeyError
        elif k in ('dump', 'dumpow'):
            if k == 'dump':
                d = {x: D.build(v) for x, v in zip(free[n % len(free):], o['w'])}
                if n % 31 == 5 and 'z00' not in m and len(have) < 40:     # many at once
                    d |= {f'z{y:02}': y for y in range(68)}
                flag = 'x'
            else:
                x = have[n % len(have)]
                d = {x: f't{n}' if isinstance(m[x], str) else D.fill('rec' if m[x].dtype == D.REC else m[x].dtype.str, list(m[x].shape), n)}
                for y, v in zip(free, o['w'][:1]):
                    d[y] = D.build(v)
                flag = 'ac'
            if any(isinstance(want_of(v), np.ndarray) and want_of(v).nbytes > 60000 for v in d.values()):
                exp = Exception
            src = [d, DataDict(d)][n & 1]
            fn = lambda: A.dump(src, flag=flag)
            touched = {x: want_of(v) for x, v in d.items()}
        elif k == 'load':
            sel = [x for j, x in enumerate(have) if n >> j & 1]
            pat = ['n', '.*', '^[A-Z]', r'\w+$'][n % 4]
            fn = [lambda: A.load(), lambda: A.load(keys=sel), lambda: A.load(pat, keys=sel), lambda: A.load(key_re=pat, keys=tuple(sel))][n // 4 % 4]
            wk = [have, sel][n // 4 % 4 > 0]
            if n // 4 % 4 > 1:
                wk = [x for x in wk if re.match(pat, x)]
            check = lambda v: self.cmpdict(v, {x: m[x] for x in wk}) or (None if type(v) is DataDict else type(v).__name__)
        elif k == 'match':
            pat = ['n', '.*', '^[A-Z]', r'\w+$', 'x+', 'b|k', r'.*\.'][n % 7]
            fn = lambda: A.load(pat)
            check = lambda v: self.cmpdict(v, {x: m[x] for x in have if re.match(pat, x)})
        elif k == 'get':
            x = have[n % len(have)]
            fn = lambda: A[x]
            check = lambda v: same(v, m[x])
        elif k == 'multi':
            sel = [have[(n + j * 5) % len(have)] for j in range(1 + n % 3)] if have else []
            fn = lambda: A[tuple(sel)] if n & 1 else A[sel]

            def check(v):
                if not isinstance(v, tuple) or len(v) != len(sel):
                    return f'{v!r}'
                return next((d for d in (same(a, m[x]) for a, x in zip(v, sel)) if d), None)
        elif k == 'dot':
            def fn():
                out = {}
                for x in have:
                    if x.isidentifier() and not hasattr(type(A), x):
                        out[x] = getattr(A, x)
                near = {y for x in NAMES + ['surely_missing'] for y in
                        (x, x + '_', '_' + x, x[:-1], x.strip('_'), x.lower(), x.upper(), x.title(), x.replace('_', ' '), x.replace(' ', '_'))}
                for y in sorted(near):
                    if y in m or not y or hasattr(type(A), y) or y in vars(A):
                        continue
                    if hasattr(A, y) or getattr(A, y, A) is not A:
                        raise RuntimeError(f'missing attribute {y!r} found')
                    if y in A:
                        raise RuntimeError(f'missing attribute {y!r} in the dictionary')
                return out, dir(A)

            def check(v):
                if not set(have) <= set(v[1]):
                    return 'dir() lacks attributes'
                return next((f'{x}: {d}' for x, d in ((x, same(a, m[x])) for x, a in v[0].items()) if d), None)
        else:
            def fn():
                return list(A.keys()), list(A.values()), list(A.items()), len(A), [x in A for x in NAMES], A.what(), repr(A)

            def check(v):
                ks, vs, its, ln, ins, wh, rp = v
                if sorted(ks) != have or ln != len(m) or [x for x, _ in its] != ks or len(vs) != ln:
                    return f'keys {ks} / {ln}, expected {have}'
                if ins != [x in m for x in NAMES]:
                    return 'membership'
                for (x, a), b in zip(its, vs):
                    d = same(a, m[x]) or same(b, m[x])
                    if d:
                        return f'{x}: {d}'
                if any(x not in wh or x not in rp for x in have) or (not have and wh):
                    return 'what()'
        out = ctx.call(oid, fn)
        what = f'{k} call {i} on object {o["o"]}'
        with ctx.quiet():
            if out.injected:
                self.resync(A, m, touched)
            elif exp is not None:
                ctx.check(not out.ok, 'not-rejected', f'client {self.c}: {what} succeeded', op=k)
                ctx.check(out.isa(exp), 'wrong-error', f'client {self.c}: {what}: {out!r}, expected {exp.__name__}', op=k)
                if touched:
                    self.resync(A, m, touched)
            else:
                ctx.check(out.ok, 'call-failed', f'client {self.c}: {what}: {out!r}', op=k)
                if k == 'empty':
                    d = check(None)
                    if d:
                        self.bad(what, d)
                    touched = {x: np.array(D.raw(A)[x])}
                m.update(touched)
                d = check(out.value) if check else None
                if d:
                    self.bad(what, d)
            self.verify(what)
        ctx.event(self.c, i, k, out.kind, [sorted((a, dig(b)) for a, b in mm.items()) for mm in self.model])
        ctx.state((self.c, [sorted((a, dig(b)) for a, b in mm.items()) for mm in self.model]))

    def verify(self, what):
        for j, H in enumerate(self.objs()):
            d = self.cmpdict(dict(D.raw(H).attrs.items()), self.model[j])
            if d:
                self.bad(what, f'object {j}: {d}')

    def cmpdict(self, got, want):
        if set(got.keys()) != set(want):
            return f'keys {sorted(got.keys())} != {sorted(want)}'
        for x in want:
            d = same(got[x], want[x])
            if d:
                return f'{x!r}: {d}'


def run(sc, ctx):
    from pyhipp.io import h5
    import h5py
    sh = ctx.shim
    sh.enable(ctx.scratch, False)
    cs = []
    sp = os.path.join(ctx.scratch, 'shared.h5')
    sf = h5.File(sp, 'x') if sc['shared'] else None
    for c in range(len(sc['clients'])):
        p = sp if sc['shared'] else os.path.join(ctx.scratch, f'f{c}.h5')
        k = Client(ctx, c, p, sc['shared'])
        k.f = h5.File(p, 'x') if sf is None else sf
        k.setup(k.f)
        cs.append(k)
    rules = [sh.rule(f['op'], sh.count(f['op']) + f['nth'], f['n'], 2, f['max']) for f in sc['io']]

    def body(k, cl):
        for i, o in enumerate(cl['ops']):
            k.op(i, o)
            ctx.pause()
    ctx.run_clients([lambda k=k, cl=cl: body(k, cl) for k, cl in zip(cs, sc['clients'])], faults=sc['faults'])
    for k in cs:
        k.f.close()
    for f, r in zip(sc['io'], rules):
        ctx.fault('short-' + f['op'].lower(), sh.fired(r))
    for k in cs:
        with h5py.File(k.path, 'r') as f:
            g = f[f'c{k.c}']
            for j, H in enumerate([g if sc['shared'] else f, g['ds'], g['sub']]):
                d = k.cmpdict(dict(H.attrs.items()), k.model[j])
                ctx.check(not d, 'attr-mismatch', f'client {k.c}, independent reader, object {j}: {d}')
            if not np.array_equal(g['ds'][()], np.arange(4)) or sorted(g.keys()) != ['ds', 'sub']:
                ctx.violate('attr-mismatch', f'client {k.c}: contents changed by attribute operations')
