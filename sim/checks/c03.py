"""C03  Failed or interrupted HDF5 calls release the file and damage nothing.

Each client owns one file and performs legal calls, calls that must fail, and
calls hit by an interruption (at any line of pyhipp) or by a failing open/read.
After every call: the file is released, what existed before is intact, what the
failed call was to add is complete or absent, and the request - made legal -
succeeds."""
import errno, gc, os
import numpy as np
from sim import h5data as D

PROP = 'C03'
RUNS = {'quick': 1600, 'thorough': 60000}
RULE = ('one run = 1-3 clients, each on its own file, issuing legal and illegal calls, some interrupted at a drawn line '
        '(KeyboardInterrupt/MemoryError) or meeting a failing open/read, under a line-level schedule; non-trivial = a '
        'fault fired, a call failed or clients were switched')
STATE = 'distinct (kind of call, way of failing, outcome) combinations'
REAL = ['pyhipp.io.h5', 'h5py + libhdf5', 'kernel file system (scratch directory)']
STUB = ['thread choice and interruption points (simulated scheduler)', 'open/read errors (libc shim)']
ASSUME = ['interruptions arrive between two lines of pyhipp code, not inside a call into h5py',
          'write errors are C02: after one HDF5 gives no guarantee about that file']
SHRINK = ('bad',)

CALLS = ['dump', 'dump', 'dump', 'val', 'load', 'ls', 'block', 'block', 'like', 'unlike', 'txt']
ILLEGAL = {'dump': ['dupkey', 'gexists', 'fflag', 'gflag', 'dflag', 'xfile', 'nofile', 'noparent', 'dsparent', 'unsup', 'unsup',
                    'badarr', 'notmap', 'intdata', 'intdata', 'busy', 'busy', 'dir'],
           'val': ['dup', 'dflag', 'dsparent', 'noparent', 'grpkey', 'badarr'],
           'load': ['nokey', 'nofile', 'notdict'], 'ls': ['nokey', 'nofile', 'intout', 'badout'],
           'block': ['dup', 'dup', 'flag', 'user', 'user', 'nokey', 'unsup', 'gdup', 'int', 'int'], 'like': ['exists', 'badattr', 'dup', 'intattr', 'busy', 'dir'],
           'unlike': ['nokey', 'nofile', 'ctor', 'intctor'], 'txt': ['malformed', 'notxt', 'dup', 'badflag']}


def warmup(tmp):
    from sim.checks import c01
    from pyhipp.core import DataTable  # noqa
    c01.warmup(tmp)


def gen(rng, tier, i):
    clients, faults = [], []
    for c in range(rng.choice([1, 1, 1, 2, 3])):
        ops = []
        for j in range(rng.randrange(1, 7)):
            k = rng.choice(CALLS)
            o = {'k': k, 'r': rng.randrange(1 << 20), 'ill': None, 'io': None}
            q = rng.random()
            if q < .35:
                o['ill'] = rng.choice(ILLEGAL[k])
            elif q < .70:
                ln = int(2 ** rng.uniform(0, 7.6))
                faults.append({'op': f'{c}.{j}', 'line': ln, 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
            elif q < .85:
                o['io'] = {'sys': rng.choice(['OPEN', 'READ', 'READ']), 'k': rng.choice([0, 0, 1, 2, rng.randrange(9)]),
                           'n': rng.choice([1, 1, 3, 1 << 40]), 'e': rng.choice([errno.EIO, errno.EACCES, errno.EMFILE])}
            if k in ('dump', 'block', 'val'):
                o['tree'] = D.gen_tree(rng, 2, 4, .05)
                o['v'] = D.gen_value(rng)
                o['key'] = rng.choice(['', '/', 'n', 'n', 'n/m', 'old'])
                o['bad'] = [rng.randrange(6), rng.randrange(4), rng.randrange(1 << 10)]
            ops.append(o)
        clients.append({'init': D.gen_tree(rng, 2, 4, .05), 'ops': ops})
    plan = {'mode': 'serial'}
    if len(clients) > 1:
        plan = {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3])}
    # the shim counts calls of the whole process: use I/O faults only where one client runs alone
    if len(clients) > 1:
        for cl in clients:
            for o in cl['ops']:
                o['io'] = None
    return {'clients': clients, 'faults': faults, 'plan': plan}


class Bad(Exception):
    pass


INT = [KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError]


class IntDict(dict):
    """a mapping whose reading is interrupted the second time it is walked through"""

    def arm(self, n, exc):
        self.n, self.exc, self.walks = n, exc, 0
        return self

    def items(self):
        self.walks += 1
        for j, x in enumerate(super().items()):
            if self.walks > 1 and j == self.n:
                raise self.exc()
            yield x


class Out:
    """output stream that fails"""

    def __init__(self, exc):
        self.exc = exc

    def write(self, s):
        raise self.exc()

    def flush(self):
        pass


def unsupported(b):
    return [[1, 2, 3], None, (1, 2), {1, 2}, object(), lambda: 0][b]


def badkey(b):
    return [3, None, b'k', ('a', 'b')][b]


def spoil(val, bad):
    """put an unsupported key or value somewhere into a nested mapping (in place)"""
    nodes = [val]
    for m in nodes:
        nodes.extend(x for x in m.values() if isinstance(x, dict))
    m = nodes[bad[2] % len(nodes)]
    items = list(m.items())
    m.clear()
    at = bad[2] % (len(items) + 1)
    items.insert(at, (badkey(bad[1]), 1.0) if bad[2] & 64 else ('zz_bad', unsupported(bad[0])))
    m.update(items)
    return val


def complete_or_absent(got, old, want, path=''):
    """got: tree on disk; old: tree before; want: tree if the call had succeeded.
    Every old item kept (or, where the request overwrites it, new); every new one complete or absent."""
    for k, v in got.items():
        o, w = old.get(k), want.get(k)
        if o is None and w is None:
            return f'{path}/{k}: appeared from nowhere'
        if isinstance(v, dict):
            if not any(isinstance(x, dict) for x in (o, w)):
                return f'{path}/{k}: became a group'
            d = complete_or_absent(v, o if isinstance(o, dict) else {}, w if isinstance(w, dict) else {}, f'{path}/{k}')
            if d:
                return d
        else:
            ds = [D.same(v, x) for x in (o, w) if x is not None and not isinstance(x, dict)]
            if not ds or all(ds):
                return f'{path}/{k}: neither old nor new: {ds}'
    for k, o in old.items():
        if k not in got:
            return f'{path}/{k}: lost'
    return None


class Client:
    def __init__(self, ctx, c, init):
        self.ctx, self.c = ctx, c
        self.path = os.path.join(ctx.scratch, f'f{c}.h5')
        self.tree = D.expect_tree(init)
        self.fired = False

    # every request: (function, wanted tree or None for readers, expected exception types or None, legal repeat)
    def request(self, o):
        from pyhipp.io import h5
        from pyhipp.io.h5.shortcuts import txt_to_h5
        from pyhipp.io.h5.abc import GroupLike
        t, k, ill, r = self.tree, o['k'], o['ill'], o['r']
        want = D.copy_tree(t)
        p = self.path
        free = [n for n in D.NAMES if n not in t]
        old = sorted(t)
        oldg = [x for x in old if isinstance(t[x], dict)]
        oldd = [x for x in old if not isinstance(t[x], dict)]
        name = free[r % len(free)]
        if k == 'dump':
            tr = o['tree']
            val, new = D.build_tree(tr), D.expect_tree(tr)
            key = o['key']
            kw = {}
            if key == 'old' and not oldg or ill in ('noparent', 'dsparent', 'gflag', 'gexists'):
                key = 'n'
            if key in ('', '/') and set(new) & set(t):
                key = 'n'
            if key == 'old':
                key = oldg[r % len(oldg)] + '/' + next(n for n in D.NAMES if n not in t[oldg[r % len(oldg)]])
            elif key == 'n':
                key = name
            elif key == 'n/m':
                key = name + '/' + free[(r + 1) % len(free)]
            exp = None
            if ill == 'dupkey':
                if not old:
                    return None
                x = old[r % len(old)]
                # new names first, then one that exists: what comes before it may be there or not
                val = {n: v for n, v in val.items() if n not in t}
                new = {n: v for n, v in new.items() if n not in t}
                val[x] = np.arange(3) if not isinstance(t[x], dict) else {'q': 1}
                key = '' if key == '/' else ''
                exp = ValueError
                legal = lambda: h5.File.dump_to(p, {n: v for n, v in val.items() if n != x}, dump_flag='ac')
                want.update(new)
                return lambda: h5.File.dump_to(p, val), want, exp, legal
            if ill == 'gexists':
                if not oldg:
                    return None
                key, exp = oldg[r % len(oldg)], ValueError
                return lambda: h5.File.dump_to(p, val, key=key), want, exp, None
            if ill in ('fflag', 'gflag', 'dflag'):
                kw = {ill[0] + '_flag' if ill != 'dflag' else 'dump_flag': ['X', 'w+', '', 'rw', None][r % 5]}
                exp = ValueError
                if ill == 'dflag' and not val or ill == 'gflag' and key in ('', '/'):
                    exp = ()
            if ill == 'xfile':
                kw, exp = {'f_flag': 'x'}, OSError
            if ill == 'nofile':
                return (lambda: h5.File.dump_to(p + '.none', val, f_flag=['a', 'r'][r % 2])), want, OSError, None
            if ill == 'noparent':
                key, kw, exp = name + '/m', {'create_parent': False}, KeyError
            if ill == 'dsparent':
                if not oldd:
                    return None
                key, exp = oldd[r % len(oldd)] + '/m', ValueError
                if r & 32:
                    kw = {'create_parent': False}
                return (lambda: h5.File.dump_to(p, val, key=key, **kw)), want, exp, None
            if ill in ('busy', 'dir'):
                return self.taken(ill, r, lambda q, fl: h5.File.dump_to(q, val, f_flag=fl)), want, OSError, None
            if ill == 'unsup':
                val = spoil(val, o['bad'])
                self.exact = True
                exp = TypeError
            if ill == 'badarr':
                val['zz_arr'] = np.array(['u', 'v']) if r & 1 else np.array([object(), 1], dtype=object)
                exp = TypeError
            if ill == 'intdata':
                if not val:
                    return None
                val, exp = IntDict(val).arm(r % len(val), INT[r % 4]), INT[r % 4]
            if ill == 'notmap':
                key, exp = ['', '/'][r % 2], TypeError
                val, self.exact = [np.arange(3), 'text', 7][r % 3], True
                new = {}
            g = want
            ks = [x for x in key.split('/') if x]
            for x in ks:
                g = g.setdefault(x, {})
            g.update(new)
            kk = {} if key == '' else {'key': key}

            def fn():
                return h5.File.dump_to(p, val, **kk, **kw)

            def legal():
                return h5.File.dump_to(p, D.build_tree(tr) if ill != 'notmap' else {}, **kk, g_flag='ac', dump_flag='ac')
            return fn, want, exp, legal
        if k == 'val':
            v = D.build(o['v'])
            key, kw, exp, bad = name, {}, None, v
            if o['key'] == 'n/m':
                key = name + '/m'
            if ill == 'dup':
                if not oldd:
                    return None
                key = oldd[r % len(oldd)]
                return (lambda: h5.File.dump_to(p, v, key=key)), want, ValueError, None
            if ill == 'grpkey':
                if not oldg:
                    return None
                key = oldg[r % len(oldg)]
                return (lambda: h5.File.dump_to(p, v, key=key, dump_flag=['x', 'ac'][r % 2])), want, ValueError, None
            if ill == 'dflag':
                kw, exp = {'dump_flag': 'w'}, ValueError
            if ill == 'noparent':
                key, kw, exp = name + '/q', {'create_parent': False}, KeyError
            if ill == 'dsparent':
                if not oldd:
                    return None
                key = oldd[r % len(oldd)] + '/q'
                return (lambda: h5.File.dump_to(p, v, key=key)), want, ValueError, None
            if ill == 'badarr':
                bad, exp = np.array(['u', 'v']), TypeError
            g = want
            ks = key.split('/')
            for x in ks[:-1]:
                g = g.setdefault(x, {})
            g[ks[-1]] = D.expect(v)

            def fn():
                return h5.File.dump_to(p, bad, key=key, **kw)
            return fn, want, exp, lambda: h5.File.dump_to(p, v, key=key, dump_flag='ac')
        if k in ('load', 'ls'):
            x = old[r % len(old)] if old else '/'
            exp = None
            pp = p
            if ill == 'nokey':
                x, exp = name + ('/deep' if r & 1 else ''), KeyError
            if ill == 'nofile':
                pp, exp = p + '.none', OSError
            if ill == 'notdict':
                if not oldd:
                    return None
                x, exp = oldd[r % len(oldd)] + '/below', KeyError
            if k == 'load':
                return (lambda: h5.File.load_from(pp, x)), None, exp, lambda: h5.File.load_from(p)
            sink = open(os.devnull, 'w')
            if ill in ('intout', 'badout'):
                exp = INT[r % 4] if ill == 'intout' else OSError
                return (lambda: h5.File.ls_from(pp, file=Out(exp))), None, exp, (lambda: h5.File.ls_from(p, file=sink))
            return (lambda: h5.File.ls_from(pp, x if x in oldg or ill else '/', file=sink)), None, exp, \
                (lambda: h5.File.ls_from(p, file=sink))
        if k == 'block':
            tr = {n: v for n, v in o['tree'].items() if n not in t}
            val, new = D.build_tree(tr), D.expect_tree(tr)
            v = D.build(o['v'])
            want.update(new)
            want['blk'] = want['blk'] if isinstance(want.get('blk'), dict) else {}
            if 'blk' in t and not isinstance(t['blk'], dict):
                return None
            want['blk'][f'v{r}'] = D.expect(v)
            exp = {'dup': ValueError, 'flag': ValueError, 'user': Bad, 'nokey': KeyError, 'unsup': TypeError,
                   'gdup': ValueError, 'int': INT[r % 4]}.get(ill)
            if ill == 'dup' and not oldd or ill == 'gdup' and not oldg:
                return None
            step = r % 3

            def fn():
                with h5.File(p, 'a') as f:
                    if step == 0:
                        self.fail(f, ill, oldd, oldg, o)
                    f.dump(val, flag='ac')
                    if step == 1:
                        self.fail(f, ill, oldd, oldg, o)
                    f.create_group('blk', flag='ac').datasets.create(f'v{r}', v, flag='ac')
                    if step == 2:
                        self.fail(f, ill, oldd, oldg, o)

            def legal():
                with h5.File(p, 'a') as f:
                    f.dump(val, flag='ac')
                    f.create_group('blk', flag='ac').datasets.create(f'v{r}', v, flag='ac')
            return fn, want, exp, legal

        class Part(GroupLike):
            h5_data_typedict = {f'x{r}': np.ndarray, f'label{r}': str}

            def __init__(self, **kw):
                if ill == 'ctor':
                    raise Bad('constructor')
                if ill == 'intctor':
                    raise INT[r % 4]()
                self.__dict__.update(kw)
        if k == 'like':
            obj = Part.__new__(Part)
            obj.__dict__.update({f'x{r}': np.arange(r % 50), f'label{r}': 'L'})
            want.update({f'x{r}': np.arange(r % 50), f'label{r}': b'L'})
            kw, exp = {'f_flag': 'a', 'flag': 'x'}, None
            if f'x{r}' in t:
                kw['flag'] = 'ac'
            if ill == 'exists':
                kw, exp = {}, OSError
            if ill in ('busy', 'dir'):
                return self.taken(ill, r, lambda q, fl: obj.to_h5_file(q, f_flag=fl)), dict(t), OSError, None
            if ill == 'badattr':
                delattr(obj, f'label{r}')
                exp = AttributeError
            if ill == 'intattr':
                obj.__dict__[f'x{r}'] = Part.__new__(Part)
                obj.__dict__[f'x{r}']._to_h5_data = lambda: IntDict(q=1, w=2).arm(r % 2, INT[r % 4])
                exp, want = INT[r % 4], None
                return (lambda: obj.to_h5_file(p, **kw)), {**t, f'x{r}': {'q': 1, 'w': 2}, f'label{r}': b'L'}, exp, None
            if ill == 'dup':
                if f'x{r}' in t or not oldg:
                    return None
                kw, exp = {'f_flag': 'a', 'group': oldg[0] + '/none'}, KeyError

            def fn():
                return obj.to_h5_file(p, **kw)

            def legal():
                obj.__dict__.update({f'label{r}': 'L'})
                obj.to_h5_file(p, f_flag='a', flag='ac')
            return fn, want, exp, legal
        if k == 'unlike':
            exp = {'nokey': KeyError, 'nofile': OSError, 'ctor': Bad, 'intctor': INT[r % 4]}.get(ill)
            src = self.path + '.obj'
            if not os.path.exists(src):
                self.ctx.shim.nofault()
                h5.File.dump_to(src, {f'x{r}': np.arange(3), f'label{r}': 'L'}, f_flag='w')
                self.ctx.shim.nofault(False)
            else:
                h5.File.dump_to(src, {f'x{r}': np.arange(3), f'label{r}': 'L'}, f_flag='w')
            if ill == 'nokey':
                return (lambda: Part.from_h5_file(src, group='none')), None, exp, None
            return (lambda: Part.from_h5_file(src + ('.none' if ill == 'nofile' else ''))), None, exp, None
        if k == 'txt':
            dt = np.dtype([(f'i{r}', 'i8'), (f'w{r}', 'f8')])
            src = self.path + '.txt'
            rows = ['%d %r' % (j, j / 4) for j in range(2 + r % 6)]
            new = {f'i{r}': np.arange(len(rows)), f'w{r}': np.arange(len(rows)) / 4}
            exp = {'malformed': ValueError, 'notxt': OSError, 'dup': ValueError, 'badflag': ValueError}.get(ill)
            bad = list(rows)
            if ill == 'malformed':
                bad[r % len(rows)] = '3 x' if r & 1 else '3'
            with open(src, 'w') as f:
                f.write('\n'.join(bad) + '\n')
            if any(n in t for n in new):
                return None
            if ill == 'dup':
                if not oldd:
                    return None
                dt = np.dtype([(f'i{r}', 'i8'), (oldd[0], 'f8')])
                new = {f'i{r}': new[f'i{r}']}
            want.update(new)

            def fn():
                with h5.File(p, 'a') as f:
                    txt_to_h5(src + ('.none' if ill == 'notxt' else ''), f, dt,
                              d_flag='x' if ill != 'badflag' else 'q')

            def legal():
                with open(src, 'w') as f:
                    f.write('\n'.join(rows) + '\n')
                with h5.File(p, 'a') as f:
                    txt_to_h5(src, f, np.dtype([(n, v.dtype) for n, v in new.items()])
                              if ill != 'dup' else np.dtype([(f'i{r}', 'i8'), ('unused%d' % r, 'f8')]), d_flag='ac')
            if ill == 'dup':
                legal = None
            return fn, want, exp, legal

    def taken(self, ill, r, fn):
        """fn on a path that cannot be opened for writing: a file somebody else has open, or a directory"""
        import h5py
        if ill == 'busy':
            def call():
                with h5py.File(self.path, 'r+' if r & 1 else 'r') as g:
                    n = len(g)
                    try:
                        return fn(self.path, 'w')
                    finally:
                        if len(g) != n or not os.path.exists(self.path):
                            raise RuntimeError('a file open elsewhere was replaced')
            return call

        def call():
            p = self.path + '.dir'
            os.makedirs(p)
            q = [p, p + '/none/f.h5'][r % 2]
            try:
                return fn(q, ['w', 'x', 'ac'][r % 3])
            finally:
                if not os.path.isdir(p) or os.listdir(p):
                    raise RuntimeError('a directory was replaced or filled')
                os.rmdir(p)
        return call

    def fail(self, f, ill, oldd, oldg, o):
        r = o['r']
        if ill == 'dup':
            f.datasets.create(oldd[r % len(oldd)], 1)
        elif ill == 'gdup':
            f.create_group(oldg[r % len(oldg)])
        elif ill == 'flag':
            [lambda: f.create_group('nn', flag='w'), lambda: f.datasets.create('nn', 1, flag='a'),
             lambda: f.datasets.create_empty('nn', (3,), 'f8', flag='')][r % 3]()
        elif ill == 'int':
            raise INT[r % 4]()
        elif ill == 'user':
            raise Bad('client code')
        elif ill == 'nokey':
            [lambda: f['none'], lambda: f.datasets['none'], lambda: f.datasets.load(keys=['none']),
             lambda: f.__delitem__('none')][r % 4]()
        elif ill == 'unsup':
            f.create_group('blk', flag='ac').dump(spoil({'sub': {}}, o['bad']))

    def op(self, i, o):
        ctx, sh = self.ctx, self.ctx.shim
        self.exact = False
        rq = self.request(o)
        if rq is None:
            return
        fn, want, exp, legal = rq
        io, rule = o['io'], None
        if io:
            rule = sh.rule(io['sys'], sh.count(io['sys']) + io['k'], io['n'], 1, io['e'])
        held = []

        def call():
            # look at the file while the caller still holds the exception
            try:
                return fn()
            except BaseException as e:
                held.append((sh.open_fds() if len(self.ctx.sc['clients']) == 1 else 0, repr(e)))
                raise
        out = ctx.call(f'{self.c}.{i}', call)
        fired = 0
        if rule is not None:
            fired = sh.fired(rule)
            sh.clear_rules()
            ctx.fault(f'err-{io["sys"].lower()}', fired)
        what = f'client {self.c} call {i} ({o["k"]}, {o["ill"] or (out.injected and "interrupted at line %d" % out.injected["line"]) or (fired and "I/O error") or "legal"}): {out!r}'
        how = o['ill'] or ('interrupt' if out.injected else 'io' if fired else 'legal')
        ctx.event(self.c, i, o['k'], how, out.kind)
        ctx.state((o['k'], how, out.kind))
        if out.injected:
            pass
        elif fired:
            pass
        elif exp is None:
            ctx.check(out.ok, 'call-failed', what, call=o['k'])
        elif exp == ():
            pass
        else:
            ctx.check(not out.ok, 'not-rejected', what, call=o['k'], ill=o['ill'])
            ctx.check(isinstance(out.exc, exp), 'wrong-error', f'{what}, expected {exp}', call=o['k'], ill=o['ill'])
            ctx.nontrivial = True
        # 1. released
        if not out.injected and not fired:
            ctx.check(not held or held[0][0] <= ctx.leaked, 'not-released',
                      f'{what}: the file is still open when the error reaches the caller', call=o['k'])
        gc.collect()
        if len(ctx.sc['clients']) == 1:
            if fired and D.obj_count() == 0:
                ctx.leaked = sh.open_fds()      # libhdf5 may keep a descriptor after a failed read
            ctx.check(sh.open_fds() <= ctx.leaked, 'not-released', f'{what}: {sh.open_fds()} file(s) still open', call=o['k'])
            ctx.check(D.obj_count() == 0, 'not-released', f'{what}: {D.obj_count()} HDF5 handle(s) still open', call=o['k'])
        # 2. contents
        sh.nofault()
        try:
            got = D.raw_read(self.path)
        except Exception as e:
            if fired and want is not None:
                got = None
            else:
                ctx.violate('damaged', f'{what}: file unreadable: {e!r}')
        if fired and want is not None and not out.ok:
            # a disk that failed in the middle of an update: libhdf5 may leave anything behind
            sh.nofault(False)
            if got is None:
                return 'stop'
            self.tree = got
            return
        if want is None:
            d = D.same_tree(got, self.tree)
        elif out.ok:
            d = D.same_tree(got, want)
        elif self.exact:
            # nothing of the mapping may be there; groups on the way to it may
            d = complete_or_absent(got, self.tree, {k: v for k, v in want.items() if isinstance(v, dict)})
            new = [p for p in leaf_paths(got) if p not in set(leaf_paths(self.tree))]
            d = d or (f'written although rejected: {new}' if new else None)
        else:
            d = complete_or_absent(got, self.tree, want)
        ctx.check(not d, 'damaged', f'{what}: {d}', call=o['k'])
        sh.nofault(False)
        if want is not None and not out.ok:
            self.tree = got
        elif want is not None:
            self.tree = want
        # 3. the request, made legal, succeeds at once
        if not out.ok and legal is not None:
            out = ctx.call(f'{self.c}.{i}r', legal)
            ctx.check(out.ok, 'retry-failed', f'{what}; repeated legally: {out!r}', call=o['k'])
            if want is not None:
                d = D.same_tree(D.raw_read(self.path), want)
                ctx.check(not d, 'retry-failed', f'{what}; after the repeat: {d}', call=o['k'])
                self.tree = want
            ctx.probe('request repeated successfully after a failure')


def leaf_paths(t, pre=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from leaf_paths(v, pre + (k,))
        else:
            yield pre + (k,)


def run(sc, ctx):
    from pyhipp.io import h5
    ctx.shim.enable(ctx.scratch, False)
    ctx.leaked = 0
    cs = [Client(ctx, c, cl['init']) for c, cl in enumerate(sc['clients'])]
    for k, cl in zip(cs, sc['clients']):
        h5.File.dump_to(k.path, D.build_tree(cl['init']))

    def body(k, cl):
        for i, o in enumerate(cl['ops']):
            if k.op(i, o) == 'stop':
                k.path = None
                break
            ctx.pause()
    ctx.run_clients([lambda k=k, cl=cl: body(k, cl) for k, cl in zip(cs, sc['clients'])], faults=sc['faults'])
    gc.collect()
    ctx.check(ctx.shim.open_fds() <= ctx.leaked and D.obj_count() == 0, 'not-released',
              f'at the end {ctx.shim.open_fds()} descriptors and {D.obj_count()} HDF5 handles are open')
    for k in cs:
        if k.path is None:
            continue
        d = D.same_tree(D.raw_read(k.path), k.tree)
        ctx.check(not d, 'damaged', f'client {k.c} at the end: {d}')
