"""C01  HDF5 trees read back exactly as written."""
import io, os, re
import numpy as np
from sim import h5data as D

PROP = 'C01'
RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('one run = 1-3 clients, each on its own file or its own group of a shared file, executing a drawn history of '
        'dump/load/create/fill/overwrite/delete/list/lookup operations under a seeded line-level schedule, with short '
        'transfers and EINTR in the syscall layer; non-trivial = at least one client switch or one injected fault fired')
STATE = 'distinct (client, model tree) pairs after each operation'
REAL = ['pyhipp.io.h5', 'h5py + libhdf5', 'kernel file system (scratch directory)']
STUB = ['thread choice (simulated scheduler)', 'short read/write and EINTR (libc shim)']
ASSUME = ['a call into h5py is atomic for the scheduler (h5py serialises on its own global lock)',
          'zero-dimensional data come back as numpy scalars, i.e. in native byte order']

SUB = ['create', 'create', 'empty', 'set', 'slice', 'group', 'gdump', 'dsdump', 'del', 'load', 'gload', 'list', 'multi',
       'match', 'has', 'obj', 'ow']


def warmup(tmp):
    import pyhipp.io.h5.shortcuts, pyhipp.io.h5.abc  # noqa: F401
    from pyhipp.io import h5
    p = os.path.join(tmp, 'warm.h5')
    h5.File.dump_to(p, {'a': np.arange(3), 'b': 's'})
    h5.File.load_from(p)
    os.unlink(p)


def gen_sub(rng):
    k = rng.choice(SUB)
    o = {'k': k, 'name': rng.randrange(1 << 20), 'pick': rng.randrange(1 << 20)}
    if k in ('create', 'empty', 'set', 'slice', 'ow'):
        o['v'] = D.gen_value(rng)
    if k in ('gdump', 'dsdump'):
        o['tree'] = D.gen_tree(rng, 2 if k == 'gdump' else 0, 4)
    return o


def gen_op(rng):
    r = rng.random()
    if r < .26:
        return {'k': 'dump_to', 'tree': D.gen_tree(rng), 'deep': rng.randrange(3), 'name': rng.randrange(1 << 20),
                'wrap': rng.randrange(3)}
    if r < .36:
        return {'k': 'dump_val', 'v': D.gen_value(rng), 'deep': rng.randrange(3), 'name': rng.randrange(1 << 20)}
    if r < .56:
        return {'k': 'load_from', 'pick': rng.randrange(1 << 20), 'root': rng.random() < .4}
    if r < .62:
        return {'k': 'ls', 'pick': rng.randrange(1 << 20)}
    return {'k': 'session', 'ops': [gen_sub(rng) for _ in range(rng.randrange(1, 7))]}


def gen(rng, tier, i):
    shared = rng.random() < .3
    nc = rng.choice([1, 1, 2, 2, 3])
    clients = []
    for c in range(nc):
        clients.append({'ops': [gen_sub(rng) if shared else gen_op(rng) for _ in range(rng.randrange(2, 9 if not shared else 14))]})
    if not shared and rng.random() < .006:         # many entries in one group
        wide = {f'm{q:03}': D.gen_value(rng, 0.) for q in range(300)}
        clients = [{'ops': [{'k': 'dump_to', 'tree': wide, 'deep': rng.randrange(3), 'name': rng.randrange(1 << 20), 'wrap': rng.randrange(3)}, {'k': 'load_from', 'pick': rng.randrange(1 << 20), 'root': True}, {'k': 'ls', 'pick': rng.randrange(1 << 20)}]}]
    faults = []
    if rng.random() < .5:
        for _ in range(rng.randrange(1, 4)):
            op = rng.choice(['READ', 'WRITE'])
            act = rng.choice(['short', 'short', 'eintr'])
            # EINTR is a failed attempt: several in a row are retried, an endless run would stall
            faults.append({'op': op, 'nth': rng.randrange(0, 60), 'n': rng.choice([1, 3, 10, 200]) if act == 'short' else 1,
                           'act': act, 'max': rng.choice([1, 7, 100, 512, 4000])})
    plan = {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.01, .05, .2, .5])} if len(clients) > 1 else {'mode': 'serial'}
    return {'shared': shared, 'clients': clients, 'faults': faults, 'plan': plan,
            'opcodes': False}


# ---- the model: nested dict, leaves bytes / ndarray ---------------------------
def groups(t, pre=()):
    yield pre
    for k, v in t.items():
        if isinstance(v, dict):
            yield from groups(v, pre + (k,))


def leaves(t, pre=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from leaves(v, pre + (k,))
        else:
            yield pre + (k,)


def at(t, p):
    for k in p:
        t = t[k]
    return t


def fresh(t, n):
    free = [k for k in D.NAMES if k not in t]
    return free[n % len(free)] if free else None


def alike(old, new, n):
    """sometimes the stored value with only the signs of its zeros, or one element, changed"""
    if n % 5 or old.dtype.kind not in 'fiu' or not old.size:
        return new
    v = np.array(old)
    flat = v.reshape(-1)
    if n % 2:
        flat[n % flat.size] = new.reshape(-1)[n % flat.size]
    elif v.dtype.kind == 'f':
        v = np.where(old == 0, -old, old).astype(old.dtype)
    else:
        flat[-1] ^= flat.dtype.type(1)
    return v


class Client:
    def __init__(self, ctx, c, path):
        self.ctx, self.c, self.path, self.tree, self.made = ctx, c, path, {}, False

    def bad(self, what, d):
        self.ctx.violate('tree-mismatch', f'client {self.c}: {what}: {d}', what=what)

    def must(self, o, what):
        if not o.ok:
            self.ctx.violate('call-failed', f'client {self.c}: legal {what} raised {o!r}', what=what)
        return o.value

    def cmp(self, what, got, want):
        d = D.same_tree(got, want) if isinstance(want, dict) else D.same(got, want)
        if d:
            self.bad(what, d)

    # file-level operations
    def top(self, i, op):
        from pyhipp.io import h5
        from pyhipp.core import DataDict
        ctx, t, k = self.ctx, self.tree, op['k']
        oid = f'{self.c}.{i}'
        if k in ('dump_to', 'dump_val'):
            gs = list(groups(t))
            base = gs[op['name'] % len(gs)] if op['deep'] else ()
            key = None
            if k == 'dump_to':
                tr = op['tree']
                want = D.expect_tree(tr)
                val = D.build_tree(tr, [dict, DataDict, dict][op['wrap']])
                if op['deep'] == 0:
                    if set(want) & set(t):
                        n = fresh(t, op['name'])
                        if n is None:
                            return
                        key = n
                    else:
                        key = None
            else:
                val = D.build(op['v'])
                want = D.expect(val)
                if op['deep'] == 0:
                    n = fresh(t, op['name'])
                    if n is None:
                        return
                    key = n
            if op['deep']:
                # a new name under an existing group, optionally below a new parent
                g = at(t, base)
                n = fresh(g, op['name'])
                if n is None:
                    return
                parts = list(base) + [n]
                if op['deep'] == 2:
                    parts.append(D.NAMES[op['name'] % 7])
                key = '/'.join(parts)
                if op['name'] % 5 == 0:
                    key = '/' + key + ('/' if op['name'] % 2 else '')
            kw = {} if key is None else {'key': key}
            self.must(ctx.call(oid, h5.File.dump_to, self.path, val, **kw), f'dump_to(key={key!r})')
            self.made = True
            if key is None:
                t.update(want)
            else:
                g = t
                ps = [x for x in key.split('/') if x]
                for x in ps[:-1]:
                    g = g.setdefault(x, {})
                g[ps[-1]] = want
            return
        if not self.made:
            return
        if k == 'load_from':
            if op['root']:
                v = self.must(ctx.call(oid, h5.File.load_from, self.path), 'load_from()')
                self.cmp('load_from()', v, t)
                if type(v) is not DataDict:
                    self.bad('load_from()', f'type {type(v).__name__}')
            else:
                ps = list(groups(t))[1:] + list(leaves(t))
                if not ps:
                    return
                p = ps[op['pick'] % len(ps)]
                key = '/'.join(p)
                v = self.must(ctx.call(oid, h5.File.load_from, self.path, key), f'load_from({key!r})')
                self.cmp(f'load_from({key!r})', v, at(t, p))
            return
        if k == 'ls':
            ps = list(groups(t))
            p = ps[op['pick'] % len(ps)]
            s = io.StringIO()
            self.must(ctx.call(oid, h5.File.ls_from, self.path, '/' + '/'.join(p), file=s), 'ls_from')
            out = s.getvalue()
            for q in list(groups(at(t, p)))[1:] + list(leaves(at(t, p))):
                if len(q) <= 14 and q[-1] not in out:
                    self.bad('ls_from', f'{q[-1]!r} missing from listing')
            return
        if k == 'session':
            def body():
                with h5.File(self.path, 'a') as f:
                    for j, o in enumerate(op['ops']):
                        self.sub(f, o)
                        ctx.pause()
            # harness code runs inside; failures of single calls are judged in sub()
            self.must(ctx.call(oid, body), 'session on an existing file')

    # operations on an open group
    def sub(self, root, o):
        from pyhipp.core import DataDict
        ctx, t, k = self.ctx, self.tree, o['k']
        gs = list(groups(t))
        gp = gs[o['pick'] % len(gs)]
        g = at(t, gp)
        H = root['/'.join(gp)] if gp else root
        # the same thing addressed by its nested path from further up
        R, pre = (root, '/'.join(gp) + '/') if gp and o['pick'] % 3 == 0 else (H, '')
        dsn = sorted(x for x in g if not isinstance(g[x], dict))
        grn = sorted(x for x in g if isinstance(g[x], dict))
        n = fresh(g, o['name'])
        if k in ('create', 'empty', 'group', 'gdump') and n is None:
            return
        if k == 'create':
            v = D.build(o['v'])
            d = R.datasets.create(pre + n, v)
            g[n] = D.expect(v)
            self.cmp('create() handle', d[()], g[n])
        elif k == 'ow':
            cand = [x for x in dsn if not isinstance(g[x], bytes)]
            if cand:
                x = cand[o['name'] % len(cand)]
                v = D.fill('rec' if g[x].dtype == D.REC else g[x].dtype.str, list(g[x].shape), o['name'])
                v = alike(g[x], v, o['pick'])
                if o['pick'] % 5 == 0 and v.dtype.kind in 'fc':     # values which compare equal and differ
                    z = np.zeros_like(v)
                    m = (-z).astype(z.dtype)
                    R.datasets.create(pre + x, [z, m][o['pick'] // 5 % 2], flag='ac')
                    v = [m, z][o['pick'] // 5 % 2]
                R.datasets.create(pre + x, v, flag='ac')
                g[x] = D.expect(v)
        elif k == 'empty':
            if o['v']['t'] == 'arr':
                v = D.build(o['v'])
                d = R.datasets.create_empty(pre + n, v.shape, v.dtype)
                if o['name'] % 3 == 0:
                    R.datasets[pre + n] = v
                elif o['name'] % 3 == 1 and v.ndim:
                    for r in range(min(len(v), 12)):
                        d[r] = v[r]
                    d[min(len(v), 12):] = v[min(len(v), 12):]
                else:
                    d[...] = v
                g[n] = D.expect(v)
                if tuple(d.shape) != v.shape or d.dtype != v.dtype or d.ndim != v.ndim:
                    self.bad('create_empty() handle', f'{d.shape} {d.dtype}')
        elif k == 'set':
            cand = [x for x in dsn if not isinstance(g[x], bytes) and g[x].dtype.kind in 'fiu']
            if cand:
                x = cand[o['name'] % len(cand)]
                v = alike(g[x], D.fill(g[x].dtype.str, list(g[x].shape), o['name']), o['pick'])
                R.datasets[pre + x] = v
                g[x] = D.expect(v)
            elif n is not None:
                try:
                    H.datasets[n] = 1
                    self.bad('datasets[new] = 1', 'no KeyError')
                except KeyError:
                    pass
        elif k == 'slice':
            cand = [x for x in dsn if not isinstance(g[x], bytes) and g[x].ndim >= 1 and len(g[x]) > 0
                    and g[x].dtype.kind in 'fiu']
            if cand:
                x = cand[o['name'] % len(cand)]
                a, b = sorted((o['name'] % (len(g[x]) + 1), o['pick'] % (len(g[x]) + 1)))
                v = D.fill(g[x].dtype.str, [b - a] + list(g[x].shape[1:]), o['name'])
                R[pre + x][a:b] = v
                g[x][a:b] = v
                self.cmp('slice read', H[x][()], g[x])
                if b > a and D.same(H[x][a:b], g[x][a:b]):
                    self.bad('slice', 'partial read differs')
        elif k == 'group':
            R.create_group(pre + n)
            g[n] = {}
        elif k == 'gdump':
            R.create_group(pre + n).dump(D.build_tree(o['tree']))
            g[n] = D.expect_tree(o['tree'])
        elif k == 'dsdump':
            tr = {x: v for x, v in o['tree'].items() if x not in g and v['t'] != 'grp'}
            H.datasets.dump(D.build_tree(tr))
            g.update(D.expect_tree(tr))
        elif k == 'del':
            ks = sorted(g)
            if ks:
                x = ks[o['name'] % len(ks)]
                del R[pre + x]
                del g[x]
        elif k == 'load':
            v = H.datasets.load()
            self.cmp('datasets.load()', v, {x: g[x] for x in dsn})
            if dsn:
                sel = [x for j, x in enumerate(dsn) if (o['name'] >> j) & 1]
                self.cmp('datasets.load(keys)', H.datasets.load(keys=sel), {x: g[x] for x in sel})
        elif k == 'gload':
            self.cmp('group.load()', H.load(), g)
        elif k == 'list':
            self.listing(H, g, dsn)
        elif k == 'multi':
            if len(dsn) >= 1:
                sel = [dsn[(o['name'] + j * 7) % len(dsn)] for j in range(1 + o['pick'] % 3)]
                out = H.datasets[tuple(sel)] if o['name'] % 2 else H.datasets[sel]
                if not isinstance(out, tuple) or len(out) != len(sel):
                    self.bad('datasets[keys]', f'{type(out).__name__}')
                for x, v in zip(sel, out):
                    self.cmp('datasets[keys]', v, g[x])
                for x, v in zip(sel, H[tuple(sel)]):
                    self.cmp('group[keys]', v[()], g[x])
            ps = list(leaves(g))
            if ps:
                p = ps[o['pick'] % len(ps)]
                self.cmp('nested lookup', H.datasets['/'.join(p)], at(g, p))
                self.cmp('nested lookup via group', H['/'.join(p)][()], at(g, p))
        elif k == 'match':
            pat = ['a', '.*', '[a-z]+$', 'p', 'x?y?', '^[A-Z]', r'\w+\.', 'pos|vel'][o['name'] % 8]
            want = {x: g[x] for x in dsn if re.match(pat, x)}
            self.cmp(f'datasets.load({pat!r})', H.datasets.load(pat), want)
            sel = [x for j, x in enumerate(dsn) if (o['pick'] >> j) & 1]
            self.cmp(f'datasets.load({pat!r}, keys)', H.datasets.load(pat, keys=sel), {x: g[x] for x in sel if re.match(pat, x)})
            m = H.keys().matched(pat)
            if sorted(m) != sorted(x for x in g if re.match(pat, x)):
                self.bad('keys().matched', f'{pat!r}: {list(m)}')
        elif k == 'has':
            for x in dsn:
                if x not in H or x not in H.datasets or x not in H.keys() or x not in H.datasets.keys() or pre + x not in R or pre + x not in R.datasets:
                    self.bad('membership', f'{x!r} missing')
            for x in grn:
                if x not in H or pre + x not in R or pre + x in R.datasets or x in H.datasets or x not in H.keys() or x in H.datasets.keys():
                    self.bad('membership', f'group {x!r}')
                try:
                    H.datasets[x]
                    self.bad('datasets[group]', 'no KeyError')
                except KeyError:
                    pass
            if n is not None:
                if n in H or n in H.datasets or n in H.keys() or pre + n in R or pre + n in R.datasets:
                    self.bad('membership', f'{n!r} present')
                for fn in (lambda: H.datasets[n], lambda: H[n], lambda: R.datasets[pre + n], lambda: R[pre + n]):
                    try:
                        fn()
                        self.bad('lookup of a missing name', 'no KeyError')
                    except KeyError:
                        pass
        elif k == 'obj':
            for x in dsn[:3]:
                d = H[x]
                self.cmp('dataset handle', d[()], g[x])
                if not isinstance(g[x], bytes) and (tuple(d.shape) != g[x].shape or d.dtype != g[x].dtype):
                    self.bad('dataset handle', f'{d.shape} {d.dtype}')
                if x.isidentifier() and not hasattr(type(H.datasets), x) and not x.startswith('_'):
                    self.cmp('attribute access', getattr(H.datasets, x), g[x])
            M = H.datasets
            if not set(dsn) <= set(dir(M)) or 'create' not in dir(M):
                self.bad('dir(datasets)', f'{sorted(set(dsn) - set(dir(M)))} missing')
            for x in grn + ['no_such_dataset']:
                if not hasattr(type(M), x) and hasattr(M, x) or getattr(M, x, M) is not M and not hasattr(type(M), x):
                    self.bad('attribute access', f'{x!r} is no dataset')
            s = repr(M)
            if [x for x in dsn if x not in s and repr(x)[1:-1] not in s]:
                self.bad('repr(datasets)', s)

    def listing(self, H, g, dsn):
        ks = list(H.keys())
        if sorted(ks) != sorted(g) or len(H) != len(g) or len(H.keys()) != len(g):
            self.bad('keys()', f'{ks} != {sorted(g)}')
        if list(reversed(H.keys())) != ks[::-1] or (ks and H.keys()[0] != ks[0]):
            self.bad('keys()', 'sequence access disagrees with iteration')
        it = list(H.items())
        if [a for a, _ in it] != ks:
            self.bad('items()', 'names differ from keys()')
        from pyhipp.io import h5
        for a, v in it:
            if isinstance(g[a], dict):
                if sorted(v.keys()) != sorted(g[a]):
                    self.bad('items()', f'group {a!r}')
            else:
                self.cmp('items()', v[()], g[a])
        if len(list(H.values())) != len(g):
            self.bad('values()', 'count')
        dk = list(H.datasets.keys())
        if sorted(dk) != dsn:
            self.bad('datasets.keys()', f'{dk} != {dsn}')
        for (a, v), w, x in zip(H.datasets.items(), H.datasets.values(), dk):
            if a != x:
                self.bad('datasets.items()', 'order')
            self.cmp('datasets.items()', v, g[a])
            self.cmp('datasets.values()', w, g[a])
        s = H.datasets.what()
        if s != ('[' + ', '.join(dk) + ']' if dk else ''):
            self.bad('datasets.what()', s)
        # the tree as text: every name once, at its depth, with what was asked for
        if not any('\n' in a or '\r' in a for a in g):
            for kw in ({}, {'dset': False}, {'group': False}, {'attr': False}, {'max_depth': 1}):
                top = [x for x in H.what(**kw).split('\n')[1:] if x[:3] in ('├─ ', '└─ ')]
                want = [a for a in ks if kw.get('dset', True) and not isinstance(g[a], dict) or kw.get('group', True) and isinstance(g[a], dict)]
                want = [] if 'max_depth' in kw else want
                if len(top) != len(want) or any(not x[3:].startswith(a + ('/' if isinstance(g[a], dict) else '(')) for x, a in zip(top, want)):
                    self.bad('what()', f'{kw}: {top}, expected {want}')
        s = H.what()
        for a in g:
            if a not in s:
                self.bad('what()', f'{a!r} missing')


def run(sc, ctx):
    from pyhipp.io import h5
    sh = ctx.shim
    cs = []
    shared = None
    sh.enable(ctx.scratch)
    rules = [sh.rule(f['op'], f['nth'], f['n'], 2 if f['act'] == 'short' else 1, f['max'] if f['act'] == 'short' else 4)
             for f in sc['faults']]
    if sc['shared']:
        shared = h5.File(os.path.join(ctx.scratch, 's.h5'), 'x')
    fns = []
    for c, cl in enumerate(sc['clients']):
        k = Client(ctx, c, os.path.join(ctx.scratch, f'f{c}.h5'))
        cs.append(k)
        if shared is not None:
            def body(k=k, cl=cl, c=c):
                g = shared.create_group(f'client{c}')
                for i, o in enumerate(cl['ops']):
                    out = ctx.call(f'{c}.{i}', k.sub, g, o)
                    k.must(out, f'operation {o["k"]} on an open group')
                    ctx.event(c, i, o['k'], D.digest(k.tree))
                    ctx.state((c, D.digest(k.tree)))
                    ctx.pause()
        else:
            def body(k=k, cl=cl, c=c):
                for i, o in enumerate(cl['ops']):
                    k.top(i, o)
                    ctx.event(c, i, o['k'], D.digest(k.tree))
                    ctx.state((c, D.digest(k.tree)))
                    ctx.pause()
        fns.append(body)
    ctx.run_clients(fns)
    if shared is not None:
        shared.close()
    for f, r in zip(sc['faults'], rules):
        ctx.fault(f'{f["act"]}-{f["op"].lower()}', sh.fired(r))
    sh.clear_rules()
    # what a fresh reader finds
    sh.disable()
    if shared is not None:
        img = D.raw_read(os.path.join(ctx.scratch, 's.h5'))
        for k in cs:
            d = D.same_tree(img.get(f'client{k.c}', {}), k.tree)
            if d:
                k.bad('independent reader', d)
        back = h5.File.load_from(os.path.join(ctx.scratch, 's.h5'))
        for k in cs:
            k.cmp('final load', back[f'client{k.c}'], k.tree)
    else:
        for k in cs:
            if k.made:
                d = D.same_tree(D.raw_read(k.path), k.tree)
                if d:
                    k.bad('independent reader', d)
                k.cmp('final load', h5.File.load_from(k.path), k.tree)
