"""C18  Column tables own their data and keep rows aligned.

Each client works on tables of its own, built from its own sources and from
sources other clients keep changing; the model is dictionaries of arrays with the
same sharing, and every version a shared source went through."""
from collections import OrderedDict
from collections.abc import Mapping
import copy
import pickle

import numpy as np

PROP = 'C18'
RUNS = {'quick': 2500, 'thorough': 80000}
RULE = ('one run = 1-3 clients applying 5-22 operations each (construction, assignment, updates, copies, row and column selection, concatenation, '
        'stacking, export, in-place changes) to their tables, built from own sources and from sources all clients change, under a line-level schedule '
        'with failing values and interrupts; non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (operation, columns, rows, copying, outcome)'
REAL = ['pyhipp.core.containers.data_table', 'numpy']
STUB = ['thread choice and interruption points (simulated scheduler)', 'values and mappings that fail while being read (harness)']
ASSUME = ['one numpy call on plain arrays is atomic']
NAMES = ['a', 'b', 'c', 'é', 'x y', '_dat', 'id', ' a', 'b ', 'A', 'a.b', 'a/b']
DT = ['i8', 'f8', 'f4', '?', 'S3', 'v', 'u1', 'f8,i4']


def warmup(tmp):
    from pyhipp.core import DataTable  # noqa: F401


def cols(rng, n, k=None):
    return [[c, rng.choice(DT), n if rng.random() < .93 else n + 1, rng.choice(['nd', 'nd', 'nd', 'list', 'ro'])] for c in rng.sample(NAMES, rng.randrange(0, 5) if k is None else k)]


def sel(rng, n):
    k = rng.choice(['slice', 'slice', 'idx', 'idx', 'mask', 'list', 'bad', 'scalar', 'tuple', 'empty'])
    if k == 'slice':
        return [k, rng.choice([None, 0, 1, 2, -1, -2]), rng.choice([None, 0, 1, 3, -1, 9]), rng.choice([None, 1, 2, -1])]
    if k in ('idx', 'list'):
        return [k] + [rng.randrange(-n, n) for _ in range(rng.randrange(0, 6))] if n else [k]
    if k == 'mask':
        return [k] + [rng.random() < .5 for _ in range(n if rng.random() < .9 else n + 1)]
    return [k, rng.randrange(n or 1)]


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    n = rng.choice([0, 1, 2, 3, 3, 4, 6])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(5, 23)):
            k = rng.choice(['new'] * 3 + ['set'] * 4 + ['mset'] * 3 + ['setbad', 'del', 'mdel', 'clear', 'pop', 'popitem', 'get', 'mget', 'attr', 'update', 'update', 'updbad', 'ior', 'or', 'copy', 'copy', 'deepcopy', 'pickle',
                            'mut', 'mut', 'mut', 'msrc', 'msrc', 'mshared', 'mshared', 'mshared', 'mres', 'mres', 'mres', 'subset', 'subset', 'subset', 'iloc', 'subcol', 'subcol', 'concat', 'concat', 'cstack', 'rstack', 'todict', 'todict', 'tolist', 'repr',
                            'list', 'dir', 'own'])
            o = {'k': k, 'd': rng.randrange(3), 'e': rng.randrange(3), 'f': rng.randrange(3), 's': rng.randrange(4), 'c': rng.sample(NAMES, rng.choice([1, 1, 2, 3])), 'cp': rng.random() < .65, 'v': rng.randrange(8), 'x': rng.randrange(100)}
            if k in ('subset', 'iloc'):
                o['sel'] = sel(rng, n)
            ops.append(o)
            if rng.random() < .1:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 16), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops, 'src': [cols(rng, n) for _ in range(2)]})
    return {'n': n, 'shared': cols(rng, n, 4), 'clients': clients, 'faults': faults,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.05, .2, .5])} if nc > 1 else {'mode': 'serial'}}


class Boom:
    def __array__(self, *a, **kw):
        raise RuntimeError('value failed')


class Failing(Mapping):
    def __init__(self, d, at):
        self.d, self.at = d, at

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for i, k in enumerate(self.d):
            if i == self.at:
                raise RuntimeError('source failed')
            yield k
        raise RuntimeError('source failed')

    def __getitem__(self, k):
        return self.d[k]


def same(a, m):
    """differences between a column and its model"""
    if type(a) is not np.ndarray:
        return f'is {type(a).__name__}'
    if a.dtype != m.dtype or a.shape != m.shape:
        return f'is {a.dtype} {a.shape}, expected {m.dtype} {m.shape}'
    if a.tobytes() != m.tobytes():
        return f'is {a.tolist()!r:.150}, expected {m.tolist()!r:.150}'
    return None


class Shared:
    """a source array that any client changes: every version is kept"""

    def __init__(self, a):
        self.real = a
        self.hist = [a.copy()]

    def change(self, f):
        f(self.real)
        self.hist.append(self.real.copy())


def run(sc, ctx):
    from pyhipp.core import DataTable
    count = [0]

    def arr(dt, n):
        count[0] += 1
        x = np.arange(n) * 7 + count[0] * 3
        if dt == 'v':
            return np.stack([x, x + 1, x + .5], axis=-1) if n else np.zeros((0, 3))
        if dt == 'S3':
            return np.array([b'%d' % (v % 100) for v in x], 'S3')
        if dt == 'f8,i4':
            a = np.zeros(n, 'f8,i4')
            a['f0'], a['f1'] = x, -x
            return a
        if dt == 'f8':
            a = x.astype('f8')
            a[::3] = np.nan
            return a
        return (x % 5 == 0) if dt == '?' else x.astype(dt)

    def source(spec):
        real, model = {}, {}
        for c, dt, n, kind in spec:
            a = arr(dt, n)
            m = a.copy()
            if kind == 'list' and a.dtype.names is None:
                real[c] = a.tolist()
                m = np.array(real[c])
                model[c] = ('new', m)
            else:
                if kind == 'ro':
                    a.setflags(write=False)
                real[c], model[c] = a, ('arr', m)
        return real, model

    def poke(x):
        """an in-place change, applied to the real array and to its model"""
        def f(a):
            if a.size:
                if a.dtype.names:
                    a['f1'][x % len(a)] = x
                elif a.dtype.kind == 'S':
                    a.reshape(-1)[x % a.size:][:1] = b'%d' % (x % 100)
                elif a.dtype.kind == 'b':
                    a.reshape(-1)[x % a.size] ^= True
                else:
                    a.reshape(-1)[x % a.size] = x
        return f

    common = {c: Shared(arr(dt, n)) for c, dt, n, kind in sc['shared']}
    nc = len(sc['clients'])
    pub = DataTable({f'c{c}': np.zeros(sc['n']) for c in range(nc)})
    pub_m = {f'c{c}': np.zeros(sc['n']) for c in range(nc)}

    def body(c, cl):
        with ctx.quiet():
            srcs = [source(s) for s in cl['src']]
            ts = [[DataTable({k: v for k, v in r.items()}), OrderedDict((k, m[1].copy()) for k, m in ms.items())] for r, ms in srcs] + [[DataTable(), OrderedDict()]]
            results = []          # (real array, model array): everything exported

        def verify(what):
            for q, (d, m) in enumerate(ts):
                if list(d) != list(m):
                    ctx.violate('columns-differ', f'{what}: table {q} has the columns {list(d)}, expected {list(m)}')
                for k in m:
                    r = same(d[k], m[k])
                    ctx.check(r is None, 'contents-differ', lambda: f'{what}: table {q}, column {k!r} {r}')
            for q, (real, ms) in enumerate(srcs):
                ctx.check(list(real) == list(ms), 'source-changed', f'{what}: source {q} has the columns {list(real)}')
                for k, (kind, m) in ms.items():
                    r = same(np.asarray(real[k]), m)
                    ctx.check(r is None, 'source-changed', lambda: f'{what}: source {q}, {k!r} {r}')
            for q, (a, m) in enumerate(results):
                r = same(a, m)
                ctx.check(r is None, 'result-changed', lambda: f'{what}: result {q} {r}')

        def take(kind, m, cp):
            """model of a column made from a source item"""
            return m.copy() if cp or kind == 'new' else m

        def adopt(d, m, new, what, must, before={}):
            """the columns of `d` against the model changed by `new`: name -> list of candidate columns, or None (removed)"""
            for k in list(m):
                if k in new and new[k] is None:
                    if k in d and not must:
                        continue
                    ctx.check(k not in d, 'columns-differ', f'{what}: column {k!r} is still there')
                    del m[k]
            keys = list(d)
            if not must:      # any of the added columns, in any order after the old ones
                ctx.check(keys[:len(m)] == list(m) and set(keys[len(m):]) <= {k for k, v in new.items() if v}, 'columns-differ',
                          f'{what}: columns {keys}, had {list(m)}, being given {list(new)}')
            for k in (new if must else keys):
                if not new.get(k):
                    continue
                a, old = d[k] if k in d else None, m.get(k)
                ctx.check(a is not None, 'columns-differ', f'{what}: no column {k!r}, columns {keys}')
                if not must and old is not None and same(a, old) is None and a is before.get(k):
                    continue
                hit = [x for x in new[k] if same(a, x) is None]
                ctx.check(hit, 'contents-differ', lambda: f'{what}: column {k!r} {same(a, new[k][0])}')
                m[k] = hit[0]

        def owned(a, others, what):
            for q, x in others:
                ctx.check(not np.shares_memory(a, x), 'not-owned', f'{what}: shares its memory with {q}')

        def everything(skip=None):
            out = []
            for q, (d, _) in enumerate(ts):
                if d is not skip:
                    out += [(f'table {q} column {k!r}', d[k]) for k in d]
            for q, (real, ms) in enumerate(srcs):
                out += [(f'source {q} {k!r}', x) for k, x in real.items() if isinstance(x, np.ndarray)]
            out += [(f'common source {k!r}', s.real) for k, s in common.items()]
            out += [(f'result {q}', a) for q, (a, _) in enumerate(results)]
            return out

        def value(v, x, key):
            """(real value, candidates(copied) -> list of model columns)"""
            real, ms = srcs[x % 2]
            names = list(real)
            if v < 3 and names:
                q = names[x % len(names)]
                return real[q], lambda cp: [take(*ms[q], cp)]
            if v < 5 and common:
                q = sorted(common)[x % len(common)]
                s = common[q]
                t0 = len(s.hist) - 1
                return s.real, lambda cp: [h.copy() for h in s.hist[t0:]]
            if v == 5:
                d, m = ts[x % 3]
                if key in m:
                    mm = m[key]
                    return d[key], lambda cp: [mm.copy() if cp else mm]
            if v == 6:
                y = [x, x + 1][:sc['n']] * 2
                return y, lambda cp: [np.array(y)]
            return x, lambda cp: [np.array(x)]

        for j, o in enumerate(cl['ops']):
            with ctx.quiet():
                k, cp = o['k'], o['cp']
                d, m = ts[o['d']]
                e, em = ts[o['e']]
                g, gm = ts[o['f']]
                key = o['c'][0]
                what = f'client {c} step {j}: {k} {o["c"]!r} on table {o["d"]}'
                changes = None      # () -> {column: candidates or None}
                err = None          # expected exception types
                new = None          # () -> model of a new table
                val = None          # check of the returned value
                must_own = False
                if k in ('mut', 'msrc', 'mshared', 'mres'):
                    f = poke(o['x'])
                    if k == 'mut' and key in m:
                        a = d[key]
                        if a.flags.writeable:
                            f(a)
                            f(m[key])
                    elif k == 'msrc':
                        real, ms = srcs[o['x'] % 2]
                        q = [x for x in real if isinstance(real[x], np.ndarray) and real[x].flags.writeable]
                        if q:
                            q = q[o['x'] % len(q)]
                            f(real[q])
                            f(ms[q][1])
                    elif k == 'mshared' and common:
                        common[sorted(common)[o['x'] % len(common)]].change(f)
                    elif k == 'mres' and results:
                        a, x = results[o['x'] % len(results)]
                        if a.flags.writeable:
                            f(a)
                            f(x)
                    verify(what)
                    ctx.pause()
                    continue
                if k == 'own':
                    name = f'c{c}'
                    x = np.full(sc['n'], float(o['x']))
                    if cp:
                        def call():
                            pub[name] = x
                    else:
                        def call():
                            return pub[name]
                elif k == 'new':
                    if o['s'] == 3 and common:
                        cp = True
                        real = {q: s.real for q, s in common.items()}
                        t0 = {q: len(s.hist) - 1 for q, s in common.items()}
                        new = lambda: {q: [h.copy() for h in s.hist[t0[q]:]] for q, s in common.items()}
                    elif o['s'] == 2:
                        real, new = e, (lambda: {q: [take('arr', x, cp)] for q, x in em.items()})
                    else:
                        real, ms = srcs[o['s'] % 2]
                        new = lambda: {q: [take(*x, cp)] for q, x in ms.items()}
                    call = (lambda: DataTable(real)) if cp and o['x'] % 2 else (lambda: DataTable(real, copy=cp))
                    must_own = cp
                elif k == 'set':
                    v, cand = value(o['v'], o['x'], key)

                    def call():
                        d[key] = v
                    changes = lambda: {key: cand(True)}
                    must_own = True
                elif k in ('mset', 'setbad'):
                    vs = [value(o['v'] + z & 7, o['x'] + z, q) for z, q in enumerate(o['c'])]
                    bad = o['x'] % (len(vs) + 1) if k == 'setbad' else None
                    vals = [v for v, _ in vs]
                    if bad is not None:
                        vals[bad:bad + 1] = [Boom() if o['v'] % 2 else [[1], [1, 2]]] if bad < len(vs) else [vals[-1], 1]
                        err = (RuntimeError, ValueError) if bad < len(vs) else (Exception,)
                    kk = tuple(o['c'])

                    def call():
                        d[kk] = vals if o['x'] % 2 else tuple(vals)

                    def changes():
                        if bad is None:
                            return {q: cand(True) for q, (_, cand) in zip(kk, vs)}
                        return {q: cand(True) for q, (_, cand) in list(zip(kk, vs))[:bad] if bad < len(vs)}
                    must_own = True
                elif k in ('del', 'pop'):
                    if key not in m:
                        err = (KeyError,)
                        changes = dict
                    else:
                        changes = lambda: {key: None}
                    if k == 'del':
                        def call():
                            del d[key]
                    else:
                        call, val = (lambda: d.pop(key)), (lambda r, x=m.get(key): same(r, x))
                elif k == 'mdel':
                    kk = tuple(o['c'])
                    if not all(q in m for q in kk):
                        err = (KeyError,)

                    def call():
                        del d[kk]
                    changes = lambda: {q: None for q in kk}
                elif k == 'clear':
                    call, changes = (lambda: d.clear()), (lambda: {q: None for q in m})
                elif k == 'popitem':
                    first = next(iter(m), None)
                    if first is None:
                        err = (KeyError,)
                    call, changes = (lambda: d.popitem()), (lambda: {first: None})
                    val = lambda r, x=m.get(first): None if r[0] == first and same(r[1], x) is None else f'{r!r:.200}'
                elif k in ('get', 'attr'):
                    call = (lambda: d[key]) if k == 'get' else (lambda: getattr(d, key))
                    if key not in m:
                        err = (KeyError,) if k == 'get' else (AttributeError,)
                    val = lambda r: same(r, m[key]) or (None if np.shares_memory(r, d[key]) or not r.size else 'is not the column itself')
                elif k == 'mget':
                    kk = tuple(o['c'])
                    call = lambda: d[kk]
                    if not all(q in m for q in kk):
                        err = (KeyError,)
                    val = lambda r: None if type(r) is tuple and len(r) == len(kk) and all(same(x, m[q]) is None for x, q in zip(r, kk)) else f'{r!r:.200}'
                elif k in ('update', 'ior', 'updbad', 'or'):
                    if o['s'] == 3 and common:
                        cp = True
                        oth = {q: s.real for q, s in common.items()}
                        t0 = {q: len(s.hist) - 1 for q, s in common.items()}
                        cand = lambda: {q: [h.copy() for h in s.hist[t0[q]:]] for q, s in common.items()}
                    elif o['s'] == 2:
                        oth, cand = e, (lambda em=OrderedDict(em): {q: [take('arr', x, cp)] for q, x in em.items()})
                    else:
                        oth, ms = srcs[o['s'] % 2]
                        cand = lambda: {q: [take(*x, cp)] for q, x in ms.items()}
                    if k == 'or':
                        cp = True
                        call = lambda: d | oth
                        new = lambda: {q: [x.copy()] for q, x in m.items()} | cand()
                        must_own = True
                    elif k == 'ior':
                        cp = True

                        def call():
                            q = d
                            q |= oth
                            if q is not d:
                                raise AssertionError('|= gave another object')
                        changes = cand
                    elif k == 'update':
                        call = (lambda: d.update(oth)) if cp and o['x'] % 2 else (lambda: d.update(oth, copy=cp))
                        changes = cand
                    else:
                        items = dict(oth)
                        if o['x'] % 2 or not items:
                            oth = Failing(items, o['x'] % 5)
                        else:
                            bad = list(items)[o['x'] % len(items)]
                            items[bad] = Boom()
                            oth = items
                        call = (lambda: d.update(oth)) if cp else (lambda: d.update(oth, copy=False))
                        err = (RuntimeError,)
                        changes = lambda: {q: x for q, x in cand().items() if not isinstance(items[q], Boom)}
                    must_own = cp
                elif k in ('copy', 'deepcopy', 'pickle'):
                    call = {'copy': lambda: d.copy(), 'deepcopy': lambda: copy.deepcopy(d), 'pickle': lambda: pickle.loads(pickle.dumps(d))}[k]
                    new = lambda: {q: [x.copy()] for q, x in m.items()}
                    must_own = True
                elif k in ('subset', 'iloc'):
                    t, a = o['sel'][0], o['sel'][1:]
                    if t in ('scalar', 'tuple') and any(x.dtype.names for x in m.values()):
                        t = 'idx'       # a record taken from an array is a view that numpy itself does not copy
                    s = {'slice': lambda: slice(*a), 'idx': lambda: np.array(a, int), 'list': lambda: list(a), 'mask': lambda: np.array(a, bool), 'bad': lambda: np.array([sc['n'] + 9]),
                         'scalar': lambda: a[0], 'tuple': lambda: (a[0],), 'empty': lambda: slice(0, 0)}[t]()
                    cp = cp or k == 'iloc'
                    call = (lambda: d.iloc[s]) if k == 'iloc' else (lambda: d.subset(s)) if cp and o['x'] % 2 else (lambda: d.subset(s, copy=cp))
                    try:
                        res = {q: x[s] for q, x in m.items()}
                        new = lambda: {q: [np.array(x) if cp or not isinstance(x, np.ndarray) else x] for q, x in res.items()}
                    except (IndexError, TypeError, ValueError) as e_:
                        err = (type(e_),)
                    must_own = cp
                elif k == 'subcol':
                    kk = o['c'] if o['x'] % 2 else tuple(o['c'])
                    call = (lambda: d.subcol(kk)) if cp and o['x'] % 3 else (lambda: d.subcol(kk, copy=cp))
                    if not all(q in m for q in kk):
                        err = (KeyError,)
                    new = lambda: {q: [take('arr', m[q], cp)] for q in kk}
                    must_own = cp
                elif k == 'concat':
                    oth, om = [[e], [em]] if o['x'] % 3 else [[], []]
                    if o['x'] % 4 == 1:
                        real, ms = srcs[o['s'] % 2]
                        if all(kind == 'arr' for kind, _ in ms.values()):
                            oth, om = oth + [real], om + [{q: x for q, (_, x) in ms.items()}]
                    elif o['x'] % 4 == 2:
                        oth, om = oth + [g, d], om + [gm, m]
                    call = lambda: d.concat(*oth)
                    try:
                        res = {q: np.concatenate([t[q] for t in [m, *om]]) for q in m}
                        new = lambda: {q: [x] for q, x in res.items()}
                    except (KeyError, ValueError, TypeError) as e_:
                        err = (type(e_),)
                    must_own = True
                elif k in ('cstack', 'rstack'):
                    call = (lambda: d.col_stacked()) if k == 'cstack' else (lambda: d.row_stacked())
                    try:
                        res = np.column_stack(list(m.values())) if k == 'cstack' else np.vstack(list(m.values()))
                    except (ValueError, TypeError) as e_:
                        err = (type(e_),)

                    def val(r):
                        x = same(r, res)
                        if x is None:
                            owned(r, everything(), what)
                            results.append((r, res))
                        return x
                elif k == 'todict':
                    call = (lambda: d.to_dict()) if cp and o['x'] % 2 else (lambda: d.to_dict(copy=cp))

                    def val(r):
                        if type(r) is not dict or list(r) != list(m):
                            return f'{r!r:.200}'
                        others = everything()
                        for q, x in r.items():
                            w = same(x, m[q])
                            if w:
                                return f'{q!r} {w}'
                            if cp:
                                owned(x, others, f'{what}: {q!r}')
                            results.append((x, m[q].copy() if cp else m[q]))
                        r['brand new'] = 1
                        return None
                elif k == 'tolist':
                    call = lambda: d.to_dict_of_list()
                    val = lambda r: None if type(r) is dict and list(r) == list(m) and all(repr(x) == repr(m[q].tolist()) for q, x in r.items()) else f'{r!r:.200}'
                elif k == 'repr':
                    call, val = (lambda: (repr(d), d.to_simple_repr())[1]), (lambda r: None if list(r) == list(m) and all(same(np.asarray(r[q]), m[q]) is None for q in m) else f'{r!r:.200}')
                elif k == 'list':
                    call = lambda: (list(d), list(d.keys()), len(d), list(d.values()), list(d.items()), [q in d for q in NAMES])
                    val = lambda r: None if r[0] == r[1] == list(m) and r[2] == len(m) and r[5] == [q in m for q in NAMES] and all(same(x, y) is None for x, y in zip(r[3], m.values())) and [q for q, _ in r[4]] == list(m) else f'{r!r:.200}'
                else:
                    call, val = (lambda: dir(d)), (lambda r: None if set(m) <= set(r) else f'lacks {set(m) - set(r)}')
                before = dict(d)
            out = ctx.call(f'{c}.{j}', call)
            with ctx.quiet():
                what += f': {out!r}'
                ctx.event(c, j, k, out.kind)
                ctx.state((k, len(m), sc['n'], cp, out.kind))
                if out.injected and not out.ok:
                    if k == 'own':
                        a = pub[f'c{c}']
                        if same(a, pub_m[f'c{c}']) is not None:
                            pub_m[f'c{c}'] = x.copy()
                    elif changes is not None:
                        adopt(d, m, changes(), what, False, before)
                    verify(what)
                    ctx.pause()
                    continue
                if err is not None:
                    ctx.nontrivial = True
                    ctx.check(not out.ok, 'not-rejected', f'{what}: gave a result')
                    ctx.check(isinstance(out.exc, err), 'wrong-error', f'{what}: expected {err}')
                    if changes is not None:
                        adopt(d, m, changes(), what, False, before)
                    verify(what)
                    ctx.pause()
                    continue
                ctx.check(out.ok, 'rejected', what)
                if k == 'own':
                    if cp:
                        pub_m[f'c{c}'] = x.copy()
                        owned(pub[f'c{c}'], [('the value given', x)], what)
                    r = same(pub[f'c{c}'] if cp else out.value, pub_m[f'c{c}'])
                    ctx.check(r is None, 'contents-differ', lambda: f'{what}: own column {r}')
                elif new is not None:
                    t = out.value
                    ctx.check(type(t) is DataTable and all(t is not x for x, _ in ts), 'not-new', f'{what}: {type(t)}')
                    nm, cand = OrderedDict(), new()
                    ctx.check(list(t) == list(cand), 'columns-differ', f'{what}: the new table has the columns {list(t)}, expected {list(cand)}')
                    adopt(t, nm, cand, what, True)
                    if must_own:
                        others = everything()
                        for q in t:
                            owned(t[q], others, f'{what}: column {q!r} of the new table')
                            ctx.check(t[q].flags.writeable, 'not-owned', f'{what}: column {q!r} of the new table cannot be written')
                    t['probe'] = 1
                    verify(what)
                    del t['probe']
                    ts[o['f']] = [t, nm]
                elif changes is not None:
                    ch = changes()
                    kept = [q for q in m if ch.get(q, 1) is not None]
                    want = kept + [q for q in ch if q not in m and ch[q]]
                    ctx.check(list(d) == want, 'columns-differ', f'{what}: columns {list(d)}, expected {want}')
                    adopt(d, m, ch, what, True)
                    if must_own:
                        others = everything(d)
                        for q in ch:
                            if ch[q]:
                                owned(d[q], others + [(f'its column {z!r}', d[z]) for z in d if z != q], f'{what}: column {q!r}')
                                ctx.check(d[q].flags.writeable, 'not-owned', f'{what}: column {q!r} cannot be written')
                if val is not None:
                    r = val(out.value)
                    ctx.check(r is None, 'value-differs', lambda: f'{what}: {r}')
                verify(what)
                del results[:-12]
            ctx.pause()

    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    ctx.check(list(pub) == list(pub_m), 'columns-differ', f'the shared table has the columns {list(pub)}')
    for k in pub_m:
        r = same(pub[k], pub_m[k])
        ctx.check(r is None, 'contents-differ', lambda: f'shared table at the end: column {k!r} {r}')
    for k, s in common.items():
        r = same(s.real, s.hist[-1])
        ctx.check(r is None, 'source-changed', lambda: f'common source {k!r} {r}')
