"""C07  Objects and text tables stored in HDF5 come back whole.

Clients store declared objects (nested, with tables and text) and text tables
in groups of a shared open file or in files of their own, read them back, damage
and repair them, under failing reads, short reads, malformed text and
interruption.  Oracle: the field values themselves and a plain h5py reader."""
import errno, gc, os
import numpy as np
from sim import h5data as D

PROP = 'C07'
RUNS = {'quick': 1500, 'thorough': 50000}
RULE = ('one run = 1-3 clients storing and re-reading 2-8 declared objects or text tables, under a line-level schedule, with '
        'failing and short reads, malformed text and interruptions; non-trivial = client switch, fault fired or malformed input')
STATE = 'distinct (operation, flags, outcome, shape of the object) combinations'
REAL = ['pyhipp.io.h5', 'pyhipp.core.DataTable', 'h5py + libhdf5', 'numpy.loadtxt', 'kernel file system (scratch directory)']
STUB = ['thread choice and interruption points (simulated scheduler)', 'read errors, short reads (libc shim)']
ASSUME = ['a one-row text table may be stored as scalars or as one-element columns']
SHRINK = ('io', 'fields')
FN = ['x', 'y', 'pos', 'label', 'title', 'tab', 'halo', 'n', 'inner', 'w']


def warmup(tmp):
    from sim.checks import c01
    c01.warmup(tmp)
    from pyhipp.io.h5.shortcuts import txt_to_h5
    np.savetxt(os.path.join(tmp, 'w.txt'), np.arange(4).reshape(2, 2))
    txt_to_h5(os.path.join(tmp, 'w.txt'), os.path.join(tmp, 'w.h5'), np.dtype([('a', 'f8'), ('b', 'f8')]))


def gen_cls(rng, depth=2):
    fs = []
    for n in rng.sample(FN, rng.randrange(1, 5)):
        k = rng.choice(['arr', 'arr', 'num', 'str', 'tab'] + (['obj', 'obj'] if depth else []))
        f = {'n': n, 'k': k, 's': rng.randrange(1 << 30)}
        if k == 'arr':
            f['v'] = D.gen_value(rng, .05)
            while f['v']['t'] != 'arr':
                f['v'] = D.gen_value(rng, .05)
        if k == 'str':
            f['v'] = {'t': 'str', 'v': rng.randrange(len(D.TEXT)), 'n': rng.randrange(99)}
        if k == 'tab':
            f['cols'] = rng.randrange(1, 4)
            f['rows'] = rng.choice([0, 1, 3, 50]) if rng.random() < .97 else rng.randrange(1000, 30000)
            f['ragged'] = rng.random() < .25
        if k == 'obj':
            f['fields'] = gen_cls(rng, depth - 1)
        fs.append(f)
    return fs


def gen_txt(rng):
    n = rng.choice([0, 1, 2, 5, 40, 300]) if rng.random() < .97 else rng.randrange(1000, 20000)
    return {'rows': n, 'cols': [rng.choice(['i8', 'f8', 'f4', 'S6', 'i4', 'u2']) for _ in range(rng.randrange(1, 5))],
            's': rng.randrange(1 << 30), 'head': rng.randrange(3), 'sep': rng.choice([' ', '\t', '   ']), 'nl': rng.random() < .8,
            'bad': rng.choice([None, None, None, 'short', 'word', 'extra', 'bytes', 'missing', 'dir'])}


def gen(rng, tier, i):
    nc = rng.choice([1, 1, 2, 3])
    shared = nc > 1 and rng.random() < .6
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(2, 9)):
            if rng.random() < .6:
                o = {'k': 'obj', 'fields': gen_cls(rng), 'again': rng.random() < .3, 'sub': rng.random() < .4, 'over': rng.random() < .3, 'r': rng.randrange(1 << 20)}
            else:
                o = {'k': 'txt', 't': gen_txt(rng), 'to': rng.choice(['path', 'path', 'group']), 'r': rng.randrange(1 << 20),
                     'd_flag': rng.choice(['x', 'ac', 'ca', None]), 'f_flag': rng.choice(['w', 'ac', 'a', 'x', None]), 'over': rng.random() < .4}
            ops.append(o)
            if rng.random() < .12:
                faults.append({'op': f'{c}.{j}', 'line': int(2 ** rng.uniform(0, 7)), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    io = []
    if rng.random() < .45:
        for _ in range(rng.randrange(1, 3)):
            act = rng.choice(['err', 'short']) if nc == 1 else 'short'
            io.append({'nth': rng.randrange(0, 60), 'n': rng.choice([1, 1, 3, 40]), 'act': act, 'max': rng.choice([1, 7, 64, 500])})
    plan = {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3])} if nc > 1 else {'mode': 'serial'}
    return {'shared': shared, 'clients': clients, 'faults': faults, 'io': io, 'plan': plan}


def make(fields):
    """-> (class, instance, model tree)"""
    from pyhipp.io.h5.abc import GroupLike
    from pyhipp.core import DataTable
    td, vals, tree = {}, {}, {}
    for f in fields:
        n, k = f['n'], f['k']
        if k == 'arr':
            td[n], vals[n] = np.ndarray, D.build(f['v'])
            tree[n] = D.expect(vals[n])
        elif k == 'num':
            td[n], vals[n] = (int, f['s'] - (1 << 29)) if f['s'] & 1 else (float, f['s'] / 8)
            tree[n] = np.array(vals[n])
        elif k == 'str':
            td[n], vals[n] = str, D.build(f['v'])
            tree[n] = vals[n].encode()
        elif k == 'tab':
            cols = {c: D.fill(['<i8', '<f8', '<f4'][j], [f['rows'] + (2 * j if f.get('ragged') else 0)] + ([3] if j == 2 else []), f['s'] + j)
                    for j, c in enumerate('abc'[:f['cols']])}
            td[n], vals[n] = DataTable, DataTable(cols)
            tree[n] = {c: v.copy() for c, v in cols.items()}
        else:
            td[n], vals[n], tree[n] = make(f['fields'])

    def init(self, extra=None, **kw):
        self.__dict__.update(kw)
        self.extra = extra
    cls = type('Declared', (GroupLike,), {'h5_data_typedict': td, '__init__': init})
    return cls, cls(**vals), tree


def cmp_obj(ob, cls, tree, fields, path='', stored=False):
    from pyhipp.core import DataTable
    if type(ob) is not cls:
        return f'{path}: {type(ob).__name__}'
    for f in fields:
        n = f['n']
        if not hasattr(ob, n):
            return f'{path}.{n}: missing'
        g, w = getattr(ob, n), tree[n]
        if f['k'] == 'obj':
            d = cmp_obj(g, cls.h5_data_typedict[n], w, f['fields'], f'{path}.{n}', stored)
        elif f['k'] == 'tab':
            d = f'{path}.{n}: {type(g).__name__}' if type(g) is not DataTable else D.same_tree(g, w)
        elif f['k'] == 'str':
            d = None if isinstance(g, str) and g.encode() == w else f'{path}.{n}: {g!r:.60} != {w!r:.60}'
        else:
            d = D.same(np.array(g) if stored else g, w)
        if d:
            return f'{path}.{n}: {d}' if f['k'] != 'obj' else d
    extra = set(vars(ob)) - {f['n'] for f in fields} - {'extra'}
    return f'{path}: unexpected {extra}' if extra else None


def write_txt(path, t):
    """-> (dtype, columns or None if the text is malformed)"""
    g = np.random.Generator(np.random.PCG64(t['s']))
    names = [f'c{j}' for j in range(len(t['cols']))]
    cols = []
    for d in t['cols']:
        n = t['rows']
        if d[0] == 'S':
            cols.append(np.array([''.join(chr(97 + x) for x in g.integers(0, 26, 1 + k % 6)) for k in range(n)], dtype=d))
        elif d[0] == 'f':
            cols.append((g.standard_normal(n) * 10.0 ** g.integers(-20, 20, n)).astype(d))
        else:
            ii = np.iinfo(d)
            cols.append(g.integers(ii.min, ii.max, n, dtype=d, endpoint=True))
    lines = [['# header'], ['# a', '', '#b 1 2'], []][t['head']]
    rows = [t['sep'].join(x.decode() if isinstance(x, bytes) else repr(x.item()) if x.dtype.kind != 'f' else np.format_float_scientific(x, unique=True)
                          for x in r) for r in zip(*cols)]
    bad = t['bad']
    if bad in ('short', 'word', 'extra') and rows:
        i = t['s'] % len(rows)
        if bad == 'short':
            q = rows[i].split()
            if len(q) < 2:
                bad = None
            else:
                rows[i] = ' '.join(q[:-1])
        elif bad == 'extra':
            # numpy accepts surplus columns only if every row has them
            if len(rows) < 2:
                bad = None
            rows[i] += ' 9 9' if bad else ''
        elif t['cols'][-1][0] != 'S':
            rows[i] = ' '.join(rows[i].split()[:-1] + ['1.5x'])
        else:
            bad = None
    elif bad in ('short', 'word', 'extra'):
        bad = None
    text = '\n'.join(lines + rows) + ('\n' if t['nl'] else '')
    data = text.encode()
    if bad == 'bytes':
        data = b'\xff\xfe\xff' + data
        if not rows or True:
            data += b'\n\xff\xff\n'
    if bad == 'dir':
        os.makedirs(path, exist_ok=True)
    elif bad != 'missing':
        with open(path, 'wb') as f:
            f.write(data)
    return np.dtype(list(zip(names, t['cols']))), dict(zip(names, cols)), bad


def col_same(got, want):
    """columns of a text table; one-row tables come back as scalars, text of any width"""
    g, want = np.asarray(got), np.asarray(want)
    if want.size == 1 and g.size == 1:
        g, want = g.reshape(1), want.reshape(1)
        if g.dtype.kind == want.dtype.kind == 'S':
            return None if bytes(g[0]) == bytes(want[0]) else f'{g[0]!r} != {want[0]!r}'
        want = want.astype(want.dtype.newbyteorder('='))
        g = g.astype(g.dtype.newbyteorder('='))
    return D.same(g, want)


def run(sc, ctx):
    from pyhipp.io import h5
    from pyhipp.io.h5.shortcuts import txt_to_h5
    from pathlib import Path
    sh = ctx.shim
    sh.enable(ctx.scratch, False)
    single = len(sc['clients']) == 1
    sf = h5.File(os.path.join(ctx.scratch, 'shared.h5'), 'x') if sc['shared'] else None
    rules = [sh.rule('READ', f['nth'], f['n'], 2 if f['act'] == 'short' else 1, f['max'] if f['act'] == 'short' else errno.EIO)
             for f in sc['io']]

    def fired():
        return sum(sh.fired(r) for f, r in zip(sc['io'], rules) if f['act'] == 'err')

    def body(c, cl):
        if sf is not None:
            with ctx.quiet():
                home = sf.create_group(f'c{c}')

        def released(what):
            # (libhdf5 may keep a descriptor when opening the file failed with an I/O error)
            if single:
                gc.collect()
                ctx.check((sh.open_fds() == 0 or fired()) and D.obj_count() == 0, 'not-released', f'{what}: file still open')

        def obj(i, o):
            with ctx.quiet():
                cls, ob, tree = make(o['fields'])
            name = f'o{i}'
            p = os.path.join(ctx.scratch, f'f{c}_{i}.h5')
            init = {'extra': o['r']} if o['r'] & 1 else {}
            oid, flag = f'{c}.{i}', 'x'

            def other_reads():
                # an argument of the caller takes the place of what is stored; an absent group is an error
                if not o['fields']:
                    return
                n0 = fired()
                mine, own = object(), o['fields'][o['r'] % len(o['fields'])]['n']
                kw = {**init, own: mine}
                if sf is not None:
                    got = ctx.call(oid + 'k', lambda: cls.from_h5_group(home[name], **kw))
                elif o['sub']:
                    got = ctx.call(oid + 'k', lambda: cls.from_h5_file(p, group=name, **kw))
                else:
                    got = ctx.call(oid + 'k', lambda: cls.from_h5_file(p, **kw))
                if not got.ok:
                    ctx.check(got.injected or fired() > n0, 'call-failed', f'client {c} step {i}: reading with {own!r} given by the caller: {got!r}')
                else:
                    ctx.check(getattr(got.value, own) is mine, 'object-differs', f'client {c} step {i}: argument {own!r} of the caller ignored')
                if sf is None:
                    got = ctx.call(oid + 'm', lambda: cls.from_h5_file(p, group=f'{name}_absent', **init))
                    ctx.check(not got.ok, 'not-rejected', f'client {c} step {i}: an object came out of a group that does not exist')
                    ctx.check(got.injected or fired() > n0 or got.isa(KeyError), 'wrong-error', f'client {c} step {i}: absent group: {got!r}')
                got = None
                if sf is None:
                    released(f'client {c} step {i}: other reads')
            if sf is not None:
                def store(fl='x'):
                    g = home.create_group(name, flag='ac')
                    ob.to_h5_group(g, flag=fl)

                def back():
                    return cls.from_h5_group(home[name], **init)
            elif o['sub']:
                with ctx.quiet():
                    h5.File.dump_to(p, {'keep': {'q': np.arange(3)}})

                def store(fl='x'):
                    with h5.File(p, 'a') as f:
                        f.create_group(name, flag='ac')
                    ob.to_h5_file(p, group=name, f_flag='a', flag=fl)

                def back():
                    return cls.from_h5_file(p, group=name, **init)
            else:
                def store(fl='x'):
                    ob.to_h5_file(p, **({} if fl == 'x' else {'f_flag': 'ac', 'flag': fl}))

                def back():
                    return cls.from_h5_file(Path(p), **init)
            if o.get('over'):
                # an object that is stored already is not replaced without being asked to
                with ctx.quiet():
                    sh.nofault()
                    store()
                    other = make([dict(f, s=f['s'] + 1) for f in o['fields']])[1]
                    ff = ['ac', 'a', 'x'][o['r'] % 3]

                    def again():
                        if sf is not None:
                            other.to_h5_group(home[name])
                        elif o['sub']:
                            other.to_h5_file(p, group=name, f_flag=['ac', 'a'][o['r'] % 2])
                        else:
                            other.to_h5_file(Path(p), **({} if ff == 'x' else {'f_flag': ff}))
                    out = ctx.call(oid + 'o', again)
                    ctx.check(not out.ok, 'not-rejected', f'client {c} step {i}: a stored object was replaced with the default flag (file flag {ff}, group {o["sub"]})')
                    out = None
                    gc.collect()
                    if sf is not None:
                        d = D.same_tree(home[name].load(), tree)
                    else:
                        d = D.same_tree(D.raw_read(p), {'keep': {'q': np.arange(3)}, name: tree} if o['sub'] else tree)
                    ctx.check(not d, 'object-differs', f'client {c} step {i}: refused replacement changed the stored object: {d}')
                    ctx.nontrivial = True
                    if sf is None:
                        os.unlink(p)
                        if o['sub']:
                            h5.File.dump_to(p, {'keep': {'q': np.arange(3)}})
                    else:
                        del D.raw(home)[name]
                    sh.nofault(False)
            n0 = fired()
            out = ctx.call(oid, store)
            what = f'client {c} step {i}: storing {sorted(tree)}'
            if not out.ok:
                ctx.check(out.injected or fired() > n0, 'call-failed', f'{what}: {out!r}')
                sh.nofault()
                out = ctx.call(oid + 's', store, 'ac')
                ctx.check(out.ok, 'retry-failed', f'{what}: storing again: {out!r}')
                sh.nofault(False)
            if sf is None:
                released(what)
            for rep in range(2 if o['again'] else 1):
                n0 = fired()
                out = ctx.call(f'{oid}b{rep}', back)
                if not out.ok:
                    ctx.check(out.injected or fired() > n0, 'call-failed', f'{what}, then reading: {out!r}')
                    out = None
                    if sf is None:
                        released(what)
                    continue
                with ctx.quiet():
                    d = cmp_obj(out.value, cls, tree, o['fields'])
                    ctx.check(not d, 'object-differs', f'{what}, then reading: {d}')
                    ctx.check(out.value.extra == init.get('extra'), 'object-differs', f'{what}: constructor argument lost')
                    d = cmp_obj(ob, cls, tree, o['fields'], '', True)
                    ctx.check(not d, 'object-differs', f'{what}: the stored object itself changed: {d}')
                out = None
                if sf is None:
                    released(what)
            if o['again'] or o['r'] % 3 == 0:
                other_reads()
            with ctx.quiet():
                sh.nofault()
                if sf is None:
                    got = D.raw_read(p)
                    want = {'keep': {'q': np.arange(3)}, name: tree} if o['sub'] else tree
                    d = D.same_tree(got, want)
                else:
                    d = D.same_tree(home[name].load(), tree)
                ctx.check(not d, 'object-differs', f'{what}, independent reader: {d}')
                sh.nofault(False)
            ctx.event(c, i, 'obj', D.digest(tree))
            ctx.state(('obj', sorted((f['n'], f['k']) for f in o['fields']), o['sub'], sc['shared']))

        def txt(i, o):
            t = o['t']
            src = os.path.join(ctx.scratch, f't{c}_{i}.txt')
            p = os.path.join(ctx.scratch, f't{c}_{i}.h5')
            with ctx.quiet():
                dt, cols, bad = write_txt(src, t)
            kw = {k: o[k] for k in ('d_flag', 'f_flag') if o[k] is not None}
            group = o['to'] == 'group'
            over = None
            if group:
                kw.pop('f_flag', None)
            with ctx.quiet():
                old = {}
                if o['over'] and cols:
                    # a target that exists and already holds one of the columns
                    x = list(cols)[o['r'] % len(cols)]
                    shape = cols[x].shape if cols[x].size != 1 else ()
                    old = {x: np.zeros(shape, cols[x].dtype), 'other': np.arange(3)}
                    over = x
                if sf is None and (old or group):
                    h5.File.dump_to(p, old)
                if sf is not None:
                    tg = home.create_group(f't{i}')
                    tg.dump(old)
            d_flag = kw.get('d_flag', 'ac')
            f_flag = kw.get('f_flag', 'w')
            exists = bool(old)
            use_group = group or sf is not None
            if sf is not None:
                kw.pop('f_flag', None)

                def fn():
                    txt_to_h5(src, tg, dt, **kw)
            elif group:
                def fn():
                    with h5.File(p, 'a') as f:
                        txt_to_h5(src, f, dt, **kw)
            else:
                def fn():
                    txt_to_h5([src, Path(src)][o['r'] & 1], [p, Path(p)][o['r'] >> 1 & 1], dt, **kw)
            # what must happen
            base = dict(old)
            exp = None
            if not use_group:
                if f_flag == 'x' and exists or f_flag == 'a' and not exists:
                    exp = 'file flag'
                elif f_flag == 'w':
                    base = {}
            if exp is None and bad:
                exp = 'text'
            if exp is None and over in base and d_flag == 'x':
                exp = 'column exists'
            n0 = fired()
            out = ctx.call(f'{c}.{i}', fn)
            hit = fired() > n0
            what = f'client {c} step {i}: txt_to_h5 to {"group" if use_group else "file"}, {kw}, {t["rows"]} rows, text {bad or "fine"}, target {"with old columns" if exists else "new"}: {out!r}'
            ctx.state(('txt', use_group, d_flag, f_flag, bad, exists, out.kind))
            if bad:
                ctx.nontrivial = True
            if exp:
                ctx.check(not out.ok, 'not-rejected', f'{what}, but {exp}', why=exp)
            elif not out.injected and not hit:
                ctx.check(out.ok, 'call-failed', what)
            with ctx.quiet():
                if sf is None:
                    released(what)
                sh.nofault()
                if sf is not None:
                    got = {k: v if not isinstance(v, np.generic) else v for k, v in tg.load().items()}
                else:
                    got = D.raw_read(p) if os.path.exists(p) else {}
                sh.nofault(False)
                for k, v in got.items():
                    w = [x for x in (base.get(k), old.get(k), cols.get(k)) if x is not None]
                    ds = [col_same(v, x) for x in w]
                    ctx.check(w and not all(ds), 'table-differs', f'{what}: column {k!r} is neither old nor new: {ds}')
                if out.ok:
                    want = dict(base)
                    want.update(cols)
                    ctx.check(set(got) == set(want), 'table-differs', f'{what}: columns {sorted(got)} != {sorted(want)}')
                    for k, w in want.items():
                        d = col_same(got[k], w)
                        ctx.check(not d, 'table-differs', f'{what}: {k}: {d}')
                elif use_group or f_flag != 'w':
                    for k, w in old.items():
                        ctx.check(k in got, 'table-differs', f'{what}: {k!r} lost')
                        if not (k == over and d_flag != 'x'):
                            d = col_same(got[k], w)
                            ctx.check(not d, 'table-differs', f'{what}: {k}: {d}')
                    if exp and exp != 'column exists':
                        ctx.check(set(got) == set(old), 'table-differs', f'{what}: left {sorted(got)}')
            ctx.event(c, i, 'txt', out.kind)

        for i, o in enumerate(cl['ops']):
            (obj if o['k'] == 'obj' else txt)(i, o)
            ctx.pause()
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    for f, r in zip(sc['io'], rules):
        ctx.fault(f'{f["act"]}-read', sh.fired(r))
    if sf is not None:
        sf.close()
    gc.collect()
    leaky = fired()
    ctx.check(leaky or sh.open_fds() == 0, 'not-released', 'files open at the end')
