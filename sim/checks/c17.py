"""C17  Nested-key dictionaries behave as nested dictionaries.

Clients work on their own dictionaries, built from shared sources or from one
another, and on their own parts of a shared one; the model is plain nested Python
dictionaries with the same sharing of sub-dictionaries."""
from collections import OrderedDict, deque
from collections.abc import Mapping
import copy

import numpy as np

PROP = 'C17'
RUNS = {'quick': 3000, 'thorough': 90000}
RULE = ('one run = 1-3 clients applying 5-25 dictionary operations each (paths, tuples of keys, copies, unions, updates) to dictionaries built from '
        'shared sources and to their part of a shared one, under a line-level schedule with failing and interrupted updates; '
        'non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (operation, number of keys, deepest path, outcome)'
REAL = ['pyhipp.core.containers.data_dict']
STUB = ['thread choice and interruption points (simulated scheduler)', 'mappings that fail while being read (harness)']
ASSUME = ['one dictionary operation of the interpreter is atomic', 'dictionaries holding a key with "/" (stored by the constructor, update or union) are read as plain mappings only']
NAMES = ['a', 'b', 'c', 'aa', 'é', 'x y', '0', 'keys', '_dict', ' a', 'b ', 'e\u0301', 'a.b', 'A', '*']


def warmup(tmp):
    from pyhipp.core import DataDict  # noqa: F401


def path(rng):
    p = '/'.join(rng.choice(NAMES if rng.random() < .3 else NAMES[:5]) for _ in range(rng.choice([1, 1, 1, 2, 2, 3])))
    r = rng.random()
    return '/' + p if r < .05 else p + '/' if r < .08 else p.replace('/', '//') if r < .1 else '/' if r < .12 else '' if r < .13 else p


def tree(rng, depth=0):
    n = rng.randrange(0, 4) if depth else rng.randrange(0, 6)
    return {'m': rng.choice(['d', 'D', 'D', 'o']), 'i': [[k, tree(rng, depth + 1) if depth < 2 and rng.random() < .5 else rng.choice(['leaf', 'leaf', 'list', 'none'])] for k in rng.sample(NAMES, n)]}


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    src = [tree(rng) for _ in range(2)]
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(5, 26)):
            k = rng.choice(['get'] * 4 + ['set'] * 5 + ['del'] * 2 + ['mget', 'mset', 'mset', 'mdel', 'copy', 'or', 'ior', 'update', 'updbad', 'new', 'newbad', 'clear', 'pop', 'popitem', 'getd', 'setd', 'list', 'in', 'repr', 'eq', 'mbad', 'deep', 'sub', 'dict', 'slash'])
            o = {'k': k, 'd': rng.randrange(4), 'e': rng.randrange(4), 's': rng.randrange(2), 'p': path(rng), 'v': tree(rng, 1) if rng.random() < .4 else rng.choice(['leaf', 'list', 'none', 'sub'])}
            if k in ('mget', 'mset', 'mdel', 'mbad'):
                o['ps'] = [path(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
                o['deep'] = k != 'mbad' and rng.random() < .1
            ops.append(o)
            if rng.random() < .08:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 25), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'src': src, 'clients': clients, 'faults': faults, 'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.05, .2, .5])} if nc > 1 else {'mode': 'serial'}}


class Leaf:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'#{self.n}'

    def __eq__(self, o):
        return isinstance(o, Leaf) and o.n == self.n

    __hash__ = None


class Failing(Mapping):
    """fails after handing out some items"""

    def __init__(self, d, at):
        self.d, self.at = d, at

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for i, k in enumerate(self.d):
            if i == self.at:
                raise RuntimeError('source failed')
            yield k
        raise RuntimeError('source failed')

    def __getitem__(self, k):
        return self.d[k]


class Reject(Exception):
    pass


def split(p):
    return [p] if '/' not in p else [k for k in p.split('/') if k]


def run(sc, ctx):
    from pyhipp.core import DataDict
    if len(sc['src']) < 2:
        return
    count = [0]

    def build(t):
        """(object, model) of a value"""
        count[0] += 1
        if t == 'leaf' or t == 'sub':
            x = Leaf(count[0])
            return x, x
        if t == 'list':
            x = [count[0]]
            return x, x
        if t == 'none':
            return None, None
        o, m = OrderedDict() if t['m'] == 'o' else {}, {}
        for k, v in t['i']:
            o[k], m[k] = build(v)
        return DataDict(o) if t['m'] == 'D' else o, m

    def cmp(a, m, at=''):
        if isinstance(m, dict):
            if not isinstance(a, Mapping):
                return f'{at or "/"} is {a!r} instead of a dictionary'
            if list(a) != list(m):
                return f'{at or "/"} has the items {list(a)}, expected {list(m)}'
            for k in m:
                r = cmp(a.get_dict()[k] if isinstance(a, DataDict) else a[k], m[k], f'{at}/{k}')
                if r:
                    return r
            return None
        return None if a is m else f'{at} is {a!r}, expected {m!r}'

    def mget(m, p):
        ks = split(p)
        if not ks:
            raise Reject
        for k in ks:
            if not isinstance(m, dict):
                raise Reject
            if k not in m:
                raise KeyError(k)
            m = m[k]
        return m

    def mput(m, p, v):
        ks = split(p)
        if not ks:
            raise Reject
        for k in ks[:-1]:
            if not isinstance(m, dict):
                raise Reject
            if k not in m:
                raise KeyError(k)
            m = m[k]
        if not isinstance(m, dict):
            raise Reject
        m[ks[-1]] = v

    def mdel(m, p):
        ks = split(p)
        if not ks:
            raise Reject
        for k in ks[:-1]:
            if not isinstance(m, dict):
                raise Reject
            if k not in m:
                raise KeyError(k)
            m = m[k]
        if not isinstance(m, dict):
            raise Reject
        if ks[-1] not in m:
            raise KeyError(ks[-1])
        del m[ks[-1]]
    def raw_of(x):
        return dict(x.get_dict())
    flat = {'m': sc['src'][1]['m'], 'i': [[k, 'leaf'] for k, _ in sc['src'][1]['i']]}
    common = build(flat)          # one source for all clients; sub-dictionaries are shared within a client only
    common0 = dict(common[1])
    shared, shared_m = DataDict({f'c{c}': DataDict() for c in range(len(sc['clients']))}), {f'c{c}': {} for c in range(len(sc['clients']))}

    def snapshot(ds):
        seen, todo = {}, [m for _, m in ds]
        while todo:
            m = todo.pop()
            if isinstance(m, dict) and id(m) not in seen:
                seen[id(m)] = m, dict(m)
                todo += m.values()
        return list(seen.values())

    def body(c, cl):
        with ctx.quiet():
            srcs = [build(sc['src'][0]), common]
            src0 = [dict(m) for _, m in srcs]
        ds = [[DataDict(srcs[0][0]), dict(srcs[0][1])], [DataDict(srcs[1][0]), dict(srcs[1][1])], [DataDict(), {}], [shared[f'c{c}'], shared_m[f'c{c}']]]

        def verify(what, only=None):
            for q, (d, m) in enumerate(ds):
                r = cmp(d, m)
                ctx.check(r is None, 'contents-differ', f'{what}: dictionary {q}: {r}')
                if q not in views or views[q][0] is not d:
                    views[q] = d, d.keys(), d.values(), d.items()
                _, ks, vs, its = views[q]             # views show the dictionary as it is
                ctx.check(list(ks) == list(m) and len(vs) == len(m) and all(a is b for a, b in zip(vs, d.values())) and [k for k, _ in its] == list(m), 'contents-differ',
                          f'{what}: dictionary {q}: views taken earlier show {list(ks)}, expected {list(m)}')
        views = {}
        for j, o in enumerate(cl['ops']):
            with ctx.quiet():
                k = o['k']
                d, m = ds[o['d']]
                e, em = ds[o['e']]
                p = o['p']
                what = f'client {c} step {j}: {k} {o.get("ps", p)!r} on dictionary {o["d"]}'
                steps, want, ret = [], None, lambda: None      # model: elementary changes in order; what the call must return
                new = None
                v, vm = build(o['v'])
                if k == 'get':
                    f, ret = (lambda: d[p]), (lambda: mget(m, p))
                elif k == 'set':
                    def f():
                        d[p] = v
                    steps = [lambda: mput(m, p, vm)]
                elif k == 'del':
                    def f():
                        del d[p]
                    steps = [lambda: mdel(m, p)]
                elif k in ('mget', 'mset', 'mdel', 'mbad'):
                    ps = list(o['ps'])
                    key = tuple(ps)
                    if o['deep'] and k != 'mdel' or o['deep']:
                        key = (key,)
                    if k == 'mget':
                        f, ret = (lambda: d[key]), (lambda: (tuple(mget(m, q) for q in ps),) if o['deep'] else tuple(mget(m, q) for q in ps))
                    elif k == 'mdel':
                        def f():
                            del d[key]
                        steps = [lambda q=q: mdel(m, q) for q in ps]
                    else:
                        vs = [build('leaf' if n % 2 else o['v']) for n in range(len(ps))]
                        vals = tuple(x for x, _ in vs)
                        if k == 'mbad':
                            vals = vals + (1,)
                        elif o['deep']:
                            vals = (vals,)

                        def f():
                            d[key] = seq
                        seq = list(vals) if j % 2 else vals
                        if j % 5 == 4:          # any sequence will do
                            seq = deque(vals)
                        elif j % 5 == 3:
                            seq = np.empty(len(vals), dtype=object)
                            for n, y in enumerate(vals):
                                seq[n] = y
                        steps = [lambda q=q, x=x: mput(m, q, x) for q, (_, x) in zip(ps, vs)]
                        if k == 'mbad':
                            def no():
                                raise Reject
                            steps = [no]
                elif k == 'copy':
                    f, new = (lambda: d.copy()), (lambda: dict(m))
                elif k == 'new':
                    f, new = (lambda: DataDict(d if o['s'] else srcs[0][0])), (lambda: dict(m if o['s'] else srcs[0][1]))
                elif k == 'newbad':
                    def f():
                        return DataDict([('a', 1)] if o['s'] else 5)

                    def no():
                        raise Reject
                    steps = [no]
                elif k == 'or':
                    f, new = (lambda: d | (e if o['s'] else srcs[1][0])), (lambda: {**m, **(em if o['s'] else srcs[1][1])})
                elif k in ('ior', 'update'):
                    oth, om = (e, em) if o['s'] else srcs[1]
                    if k == 'update':
                        f = lambda: d.update(oth)
                    else:
                        def f():
                            nonlocal d
                            q = d
                            q |= oth
                            if q is not d:
                                raise AssertionError('|= gave another object')
                    steps = [lambda q=q, x=x: m.__setitem__(q, x) for q, x in list(om.items())]
                elif k == 'updbad':
                    items = {n: Leaf(count[0] + 100 + z) for z, n in enumerate(NAMES[:4])}
                    at = len(p) % 5
                    f = lambda: d.update(Failing(items, at))

                    def no():
                        raise RuntimeError('source failed')
                    steps = [lambda q=q, x=x: m.__setitem__(q, x) for q, x in list(items.items())[:at]] + [no]
                elif k == 'clear':
                    f, steps = (lambda: d.clear()), [lambda: m.clear()]
                elif k == 'pop':
                    def f():
                        return d.pop(p) if o['s'] else d.pop(p, 'default')

                    def st():
                        try:
                            x = mget(m, p)
                        except KeyError:
                            if o['s']:
                                raise
                            x = 'default'
                        else:
                            mdel(m, p)
                        st.r = x
                    steps, ret = [st], lambda: st.r
                elif k == 'popitem':
                    def f():
                        return d.popitem()

                    def st():
                        if not m:
                            raise KeyError
                        q = next(iter(m))
                        st.r = (q, m.pop(q))
                    steps, ret = [st], lambda: st.r
                elif k == 'getd':
                    f = lambda: d.get(p, 'default')

                    def ret():
                        try:
                            return mget(m, p)
                        except KeyError:
                            return 'default'
                elif k == 'setd':
                    f = lambda: d.setdefault(p, v)

                    def st():
                        try:
                            st.r = mget(m, p)
                        except KeyError:
                            mput(m, p, vm)
                            st.r = vm
                    steps, ret = [st], lambda: st.r
                elif k == 'list':
                    f = lambda: [list(d), list(d.keys()), len(d), list(d.values()), list(d.items())]
                    ret = lambda: [list(m), list(m), len(m), list(m.values()), list(m.items())]
                elif k == 'in':
                    f, ret = (lambda: [n in d for n in NAMES]), (lambda: [n in m for n in NAMES])
                elif k == 'repr':
                    def f():
                        repr(d)
                        return d.to_simple_repr()
                    ret = lambda: m
                elif k == 'eq':
                    f, ret = (lambda: [d == d.copy(), bool(d == 5), d != e and d == e]), (lambda: [True, False, False])
                elif k == 'deep':
                    f = lambda: copy.deepcopy(d)
                    new = lambda: None
                elif k == 'sub':
                    f, ret = (lambda: d.get_dict()), (lambda: m)
                elif k == 'slash':          # keys are taken as they are by the constructor, update and unions
                    raw = {p: v, **({} if o['s'] else {'a/b': 1, 'b/': 2, 'b': 3})}
                    if o['e'] == 0:
                        f, ret = (lambda: raw_of(DataDict(raw))), (lambda: dict(raw))
                    elif o['e'] == 1:
                        f, ret = (lambda: raw_of(d | raw)), (lambda: {**m, **raw})
                    elif o['s'] == 0 and len(p) % 3 == 0:       # a tuple of keys is looked up key by key
                        qs = ('b', p, 'a/b', 'b/', 'b', 'zz')[:len(what) % 6]

                        def f():
                            x = DataDict(raw) | d
                            one = []
                            for q in qs:
                                try:
                                    one.append(x[q])
                                except (KeyError, TypeError, AttributeError, IndexError):
                                    one = None
                                    break
                            try:
                                all_ = x[qs]
                            except (KeyError, TypeError, AttributeError, IndexError):
                                all_ = None
                            return [one is None, all_ is None] + [a is b for a, b in zip(one or (), all_ or ())]

                        def ret():
                            f.r = out.value
                            return [f.r[0], f.r[0]] + [True] * (0 if f.r[0] else len(qs))
                    elif o['e'] == 2:
                        def f():
                            x = d.copy()
                            x.update(raw)
                            return raw_of(x)
                        ret = lambda: {**m, **raw}
                    else:
                        def f():
                            x = DataDict(raw)
                            x |= d
                            return raw_of(x.copy())
                        ret = lambda: {**raw, **m}
                else:
                    f, ret = (lambda: dict(d)), (lambda: m)
            out = ctx.call(f'{c}.{j}', f)
            with ctx.quiet():
                what += f': {out!r}'
                ctx.event(c, j, k, out.kind)
                ctx.state((k, len(o.get('ps', [1])), max([q.count('/') for q in o.get('ps', [p])], default=0), out.kind))
                exp = None

                def partial():          # a prefix of the changes, whichever it is
                    for st in [lambda: None] + steps:
                        try:
                            st()
                        except (Reject, KeyError, RuntimeError):
                            break
                        if cmp(d, m) is None:
                            break
                if out.injected and not out.ok:
                    partial()
                    verify(what)
                    ctx.pause()
                    continue
                saved = snapshot(ds)
                try:
                    for st in steps:
                        st()
                    want = ret()
                except Reject:
                    exp = Exception
                except (KeyError, RuntimeError) as e_:
                    exp = type(e_)
                if exp is not None:
                    for q, x in saved:
                        q.clear()
                        q.update(x)
                    partial()
                if exp is not None:
                    ctx.nontrivial = True
                    ctx.check(not out.ok, 'not-rejected', f'{what}: returned {out.value!r}' if out.ok else '')
                    ctx.check(isinstance(out.exc, exp) or k == 'mbad', 'wrong-error', f'{what}: expected {exp.__name__}')
                else:
                    ctx.check(out.ok, 'rejected', what)
                    if k == 'deep':
                        ctx.check(type(out.value) is DataDict and list(out.value) == list(m), 'copy-wrong', f'{what}')
                        out.value['brand new'] = 1
                        for q in list(out.value):
                            if isinstance(out.value[q], Mapping):
                                out.value[q]['brand new'] = 2
                    elif new is not None:
                        nm = new()
                        ctx.check(type(out.value) is DataDict and all(out.value is not x[0] for x in ds), 'copy-wrong', f'{what}: {type(out.value)}')
                        r = cmp(out.value, nm)
                        ctx.check(r is None, 'copy-wrong', f'{what}: {r}')
                        out.value['probe'] = 1          # top levels are not shared
                        verify(what)
                        ctx.check(srcs[0][0].keys() == src0[0].keys() and srcs[1][0].keys() == src0[1].keys(), 'source-changed', what)
                        del out.value['probe']
                        if o['e'] < 3:
                            ds[o['e']] = [out.value, nm]
                    else:
                        r = agree(out.value, want, cmp)
                        ctx.check(r is None, 'value-differs', lambda: f'{what}: {r}')
                verify(what)
            ctx.pause()
        with ctx.quiet():
            verify(f'client {c} at its end')
            for q, (s, m) in enumerate(srcs):
                ctx.check(list(s) == list(src0[q]), 'source-changed', f'source {q} of client {c} has the items {list(s)}, was built with {list(src0[q])}')

    def agree(a, w, cmp):
        if isinstance(w, tuple) or isinstance(w, list) and not (len(w) == 1 and a is w):
            if type(a) is not type(w) or len(a) != len(w):
                return f'got {a!r}, expected {w!r}'
            for x, y in zip(a, w):
                r = agree(x, y, cmp)
                if r:
                    return r
            return None
        if isinstance(w, (bool, int, str)) and not isinstance(w, dict):
            return None if type(a) is type(w) and a == w else f'got {a!r}, expected {w!r}'
        return cmp(a, w)
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    r = cmp(shared, shared_m)
    ctx.check(r is None, 'contents-differ', f'shared dictionary at the end: {r}')
    ctx.check(list(common[0]) == list(common0), 'source-changed', f'the common source has the items {list(common[0])}, was built with {list(common0)}')
