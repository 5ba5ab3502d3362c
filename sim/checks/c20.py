"""C20  Parameter lists stay consistent by name and by position.

Histories of construction, replacement (by position, with failing parameters and
interrupts at any line, followed by a retry) and value assignment; a parameter
object may be in several lists.  Clients have their own lists and share parameter
objects none of them changes."""
import json

import numpy as np
import yaml

PROP = 'C20'
RUNS = {'quick': 3000, 'thorough': 100000}
RULE = ('one run = 1-2 clients applying 4-20 operations each (construction from sequences and iterators, replacement, value assignment, lookups, printing) '
        'to up to 3 lists under a line-level schedule, with failing parameters and values and interrupts followed by a retry; '
        'non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (operation, length, duplicate names, outcome)'
REAL = ['pyhipp.astro.cosmology.param', 'pyhipp.core.abc.HasValue', 'numpy']
STUB = ['thread choice and interruption points (simulated scheduler)', 'objects that fail while being read (harness)']
ASSUME = []
NAMES = ['h', 'omega_m', 'n_s', 'é', 'x y', None, 3]
VALS = [0.7, 3, [1.5, 2.5], [[1, 2], [3, 4]], True, -0.0, []]


def warmup(tmp):
    from pyhipp.astro.cosmology import ParamList  # noqa: F401


def par(rng):
    return [rng.choice(NAMES), rng.randrange(len(VALS)), rng.choice(['raw', 'nd'])]


def gen(rng, tier, i):
    nc = rng.choice([1, 1, 2])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(4, 21)):
            k = rng.choice(['new', 'new', 'newbad', 'set', 'set', 'set', 'set', 'setdup', 'setbad', 'setfar', 'move', 'vals', 'vals', 'valsbad', 'valsfail', 'one', 'mut', 'look', 'miss', 'repr', 'hasvalue'])
            o = {'k': k, 'l': rng.randrange(3), 'm': rng.randrange(3), 'i': rng.randrange(-4, 4), 'p': par(rng), 'x': rng.randrange(100)}
            if k == 'new':
                o['ps'] = [par(rng) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
                o['it'] = rng.choice(['list', 'tuple', 'gen', 'plist', 'shared'])
            ops.append(o)
            if rng.random() < .2:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 12), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'clients': clients, 'shared': [par(rng) for _ in range(3)], 'faults': faults,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.1, .4])} if nc > 1 else {'mode': 'serial'}}


class Nameless:
    value = np.zeros(1)


class Boom:
    def __array__(self, *a, **kw):
        raise RuntimeError('value failed')


def run(sc, ctx):
    from pyhipp.astro.cosmology import Param, ParamList
    from pyhipp.core.abc import HasValue

    class M:
        """model of a parameter: the object, its name and its value"""

    def make(p, x=0):
        name, v, kind = p
        v = VALS[v]
        if x:
            v = (np.array(v) + x).tolist()
        src = np.array(v) if kind == 'nd' else v
        m = M()
        m.o, m.name, m.v = Param(src, name), str(name) if name is not None else 'Param', np.array(v)
        ctx.check(type(m.o.value) is np.ndarray and not (kind == 'nd' and np.shares_memory(m.o.value, src)), 'not-copied', f'the value of {p!r} is that of its source')
        if kind == 'nd' and src.size:
            src += 1 if src.dtype != bool else True
        ctx.check(m.o.name == m.name, 'name-differs', f'{m.o.name!r} instead of {m.name!r}')
        return m

    common = [make(p) for p in sc['shared']]

    def eq(a, v):
        return type(a) is np.ndarray and a.dtype == v.dtype and a.shape == v.shape and a.tobytes() == v.tobytes()

    def body(c, cl):
        with ctx.quiet():
            lists = [[ParamList([]), []] for _ in range(3)]
            extra = []

        def verify(what, ls=None):
            for q, (l, m) in enumerate(ls if ls is not None else lists):
                w = f'{what}: list {q}'
                ctx.check(len(l) == len(m), 'length-differs', f'{w} has {len(l)} parameters, expected {len(m)}')
                it = list(l)
                ctx.check(len(it) == len(m) and all(a is b.o for a, b in zip(it, m)), 'iteration-differs', f'{w} iterates over {[p.name for p in it]}, expected {[p.name for p in m]}')
                for i, p in enumerate(m):
                    for ii in (i, i - len(m)):
                        ctx.check(l[ii] is p.o, 'position-differs', f'{w}: position {ii} holds {l[ii].name!r}, expected {p.name!r}')
                    ctx.check(eq(p.o.value, p.v), 'value-differs', f'{w}: parameter {p.name!r} has the value {p.o.value!r}, expected {p.v!r}')
                vs = l.values
                ctx.check(type(vs) is tuple and len(vs) == len(m) and all(eq(a, p.v) for a, p in zip(vs, m)), 'values-differ', f'{w}: values {vs!r:.200}')
                r = l.to_simple_repr()
                ctx.check(r == [{'name': p.name, 'value': p.v.tolist()} for p in m], 'print-differs', f'{w}: {r!r:.200}')
                for n in {str(x) if x is not None else 'Param' for x in NAMES}:
                    mine = [p.o for p in m if p.name == n]
                    try:
                        g = l[n]
                    except KeyError:
                        g = None
                    ctx.check(g in mine if mine else g is None, 'name-differs',
                              f'{w}: name {n!r} finds {None if g is None else g.name!r}, expected one of {len(mine)} parameters; the list has {[p.name for p in m]}')
                    ctx.check(g is None or g is mine[-1], 'name-differs', f'{w}: name {n!r} finds parameter {[x is g for x in mine]} of that name, expected the last')
            for p in extra:
                ctx.check(eq(p.o.value, p.v), 'value-differs', f'{what}: parameter {p.name!r}, no longer in the list, has the value {p.o.value!r}, expected {p.v!r}')
        for j, o in enumerate(cl['ops']):
            with ctx.quiet():
                k = o['k']
                l, m = lists[o['l']]
                l2, m2 = lists[o['m']]
                n, i = len(m), o['i']
                ok_i = -n <= i < n
                what = f'client {c} step {j}: {k} {i} {o["p"]!r} on list {o["l"]} of {n}'
                err, new, change, val, retry = None, None, None, None, True
                if k == 'new':
                    ps = [make(p) for p in o['ps']]
                    if o['it'] == 'shared':
                        ps = [common[x % 3] for x in range(len(ps))]
                    elif o['it'] == 'plist':
                        ps = list(m2)
                    obj = [p.o for p in ps]
                    src = {'tuple': tuple(obj), 'plist': l2}.get(o['it'], obj)
                    call = (lambda: ParamList(p for p in src)) if o['it'] == 'gen' else (lambda: ParamList(src))
                    new = ps
                elif k == 'newbad':
                    call, err = (lambda: ParamList([make(o['p']).o, Nameless()])), Exception
                elif k in ('set', 'setdup', 'setbad', 'setfar', 'move'):
                    if k == 'set' or not ok_i and k != 'setfar' or k in ('setdup', 'move') and not (m2 if k == 'move' else m):
                        p = make(o['p'])
                    elif k == 'setdup':
                        p = make(o['p'])
                        q = m[o['x'] % n]
                        p.o.name = p.name = q.name
                    elif k == 'move':
                        p = m2[o['x'] % len(m2)]
                    else:
                        p = make(o['p'])
                    if k == 'setfar':
                        i = n + o['x'] % 3
                        ok_i = False
                    x = Nameless() if k == 'setbad' else p.o
                    if not ok_i or k == 'setbad':
                        err = Exception

                    def call():
                        l[i] = x

                    def change():
                        m[i] = p
                elif k in ('vals', 'valsbad', 'valsfail'):
                    vs = [np.array(np.array(p.v) * 0 + o['x'] + z, dtype=p.v.dtype if o['x'] % 5 else None) for z, p in enumerate(m)]
                    if o['x'] % 6 == 0:           # zeros change their sign
                        vs = [v if p.v.dtype == bool else np.array(-p.v) for p, v in zip(m, vs)]
                    if k == 'valsbad':
                        vs = vs[:-1] if o['x'] % 2 and vs else vs + [1.]
                        err = Exception
                    elif k == 'valsfail' and n:
                        at = o['x'] % n
                        vs[at] = Boom()
                        err = RuntimeError
                    arg = vs if o['x'] % 3 else tuple(vs)
                    if any(p in common for p in m):
                        ctx.pause()
                        continue
                    call = lambda: l.set_values(arg)

                    vs0 = [v.copy() if isinstance(v, np.ndarray) else v for v in vs]

                    def change():
                        for p, v in zip(m, vs0):
                            p.v[...] = v
                elif k == 'one':
                    p = m[i] if ok_i else None
                    if p is None or p in common:
                        ctx.pause()
                        continue
                    arg = np.full(p.v.shape, o['x'], p.v.dtype) if o['x'] % 2 else o['x']
                    call, change = (lambda: l[i].set_value(arg)), (lambda: p.v.__setitem__(..., o['x']))
                elif k == 'mut':
                    p = m[i] if ok_i else None
                    if p is None or p in common:
                        ctx.pause()
                        continue
                    call, change = (lambda: l.values[i].__setitem__(..., o['x'])), (lambda: p.v.__setitem__(..., o['x']))
                elif k == 'look':
                    nm = str(o['p'][0]) if o['p'][0] is not None else 'Param'
                    mine = [p.o for p in m if p.name == nm]
                    call, err = (lambda: l[nm]), None if mine else KeyError
                    val = lambda r: r is mine[-1]
                elif k == 'miss':
                    near = [v for p in m for v in (p.name.upper(), p.name.capitalize(), p.name[:-1], p.name + '_', ' ' + p.name, p.name + ' ') if all(v != z.name for z in m)]
                    key = ['nothing', n, -n - 1, near[o['x'] % len(near)] if near else ''][o['x'] % 4]
                    what += f' {key!r}'
                    call, err = (lambda: l[key]), (KeyError, IndexError)
                elif k == 'repr':
                    call = lambda: (repr(l), json.loads(l.to_json()), yaml.safe_load(l.to_yaml()))
                    want = [{'name': p.name, 'value': p.v.tolist()} for p in m]
                    val = lambda r: r[1] == want and r[2] == want and all(p.name in r[0] for p in m)
                else:
                    src = VALS[o['p'][1]]
                    src = np.array(src) if o['x'] % 2 else src
                    cp = o['x'] % 3 > 0
                    call = lambda: HasValue(src, copy=cp)
                    val = lambda r: eq(r.value, np.array(src)) and (not isinstance(src, np.ndarray) or not src.size or np.shares_memory(r.value, src) != cp)
                before = [p.v.copy() for p in m]
                held = [(p, p.o.value) for p in m]
            out = ctx.call(f'{c}.{j}', call)
            with ctx.quiet():
                for v in vs if k in ('vals', 'valsbad', 'valsfail') else [arg] if k == 'one' else []:      # the caller goes on using its arrays
                    if isinstance(v, np.ndarray) and v.dtype != bool:
                        v += 1000
                what += f': {out!r}'
                ctx.event(c, j, k, out.kind)
                ctx.state((k, n, len({p.name for p in m}) < n, out.kind))
                if out.injected and not out.ok:
                    if k in ('vals', 'valsfail', 'valsbad', 'one', 'mut'):
                        # each value wholly old or new
                        for p, b in zip(m, before):
                            if not eq(p.o.value, p.v):
                                p.v = p.o.value.copy()
                                ctx.check(err is not None or np.all(p.v == o['x'] if k in ('one', 'mut') else any(eq(p.v, np.array(v, p.v.dtype)) for v in vs0 if isinstance(v, np.ndarray))) or len({id(q) for q in m}) < n or b.dtype == bool,
                                          'value-differs', f'{what}: value {p.v!r}, was {b!r}')
                    elif new is None and change is not None and err is None:
                        # the failed replacement is repeated and restores agreement
                        out = ctx.call(None, call)
                        ctx.check(out.ok, 'retry-failed', f'{what}; repeated: {out!r}')
                        extra.append(m[i])
                        change()
                        ctx.probe('retried replacement')
                    verify(what)
                    ctx.pause()
                    continue
                if err is not None:
                    ctx.nontrivial = True
                    ctx.check(not out.ok, 'not-rejected', f'{what}: gave {out.value!r:.100}')
                    ctx.check(isinstance(out.exc, err), 'wrong-error', f'{what}: expected {err}')
                    if k == 'valsfail':
                        for p, v in zip(m, vs0):
                            if isinstance(v, Boom):
                                continue
                            if not eq(p.o.value, p.v):
                                p.v[...] = v
                                if not eq(p.o.value, p.v):       # the same parameter twice in the list
                                    p.v[...] = p.o.value
                else:
                    ctx.check(out.ok, 'rejected', what)
                    if new is not None:
                        ctx.check(type(out.value) is ParamList, 'rejected', what)
                        ctx.check(out.value is not l2, 'not-new', what)
                        lists[o['l']] = [out.value, list(new)]
                        if o['it'] in ('list', 'gen') and isinstance(src, list):
                            src.append(common[0].o)     # the list given is not the list kept
                    elif val is not None:
                        ctx.check(val(out.value), 'result-differs', f'{what}: {out.value!r:.200}')
                    elif change is not None:
                        if k.startswith('set') or k == 'move':
                            extra.append(m[i])
                            del extra[:-6]
                        change()
                        if not (k.startswith('set') or k == 'move'):
                            for p, a in held:
                                ctx.check(eq(a, p.v), 'values-differ', f'{what}: the values handed out before hold {a!r} for {p.name!r}, expected {p.v!r}')
                verify(what)
            ctx.pause()
        with ctx.quiet():
            verify(f'client {c} at its end')
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
