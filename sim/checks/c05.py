"""C05  Reading HDF5 never modifies a file, and loaded data are snapshots.

Static files are only read, by several clients at once; every client also owns
a moving file which it reads, overwrites, truncates and deletes.  The syscall
log shows any byte changed in a static file; every loaded value is digested when
loaded and checked after each later step; some loaded values are scribbled on."""
import errno, gc, io, os
import numpy as np
from sim import h5data as D

PROP = 'C05'
RUNS = {'quick': 1500, 'thorough': 50000}
RULE = ('one run = 1-3 clients reading shared static files and reading/overwriting/deleting their own, under a line-level '
        'schedule, with failing opens/reads, short reads, interruptions; non-trivial = client switch or fault fired')
STATE = 'distinct (kind of reading call, outcome, digest of what it returned)'
REAL = ['pyhipp.io.h5', 'h5py + libhdf5', 'kernel file system (scratch directory)']
STUB = ['thread choice and interruption points (simulated scheduler)', 'open/read errors, short reads (libc shim)']
ASSUME = ['I/O errors are injected where one client runs alone: libhdf5 shares its buffers between handles of one process and '
          'may hand out stale ones after an error',
          'a file being written is read only by its own client (HDF5 offers no concurrent reader/writer in this mode)']
READ = ['load', 'load', 'key', 'ls', 'block', 'block', 'mutate', 'like', 'bad', 'handle']


def warmup(tmp):
    from sim.checks import c01
    c01.warmup(tmp)


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(2, 9)):
            r = rng.random()
            if r < .7:
                o = {'k': rng.choice(READ), 'f': rng.choice(['s0', 's0', 's1', 'own']), 'r': rng.randrange(1 << 20)}
                if rng.random() < .12:
                    faults.append({'op': f'{c}.{j}', 'line': int(2 ** rng.uniform(0, 6)),
                                   'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
            elif r < .8:
                o = {'k': 'scribble', 'r': rng.randrange(1 << 20)}
            else:
                o = {'k': rng.choice(['overwrite', 'overwrite', 'trunc', 'unlink', 'add', 'del']), 'r': rng.randrange(1 << 20),
                     'tree': D.gen_tree(rng, 1, 4, .05)}
            ops.append(o)
        clients.append({'init': twins(rng, D.gen_tree(rng, 2, 4, .05)), 'ops': ops})
    io_ = []
    if rng.random() < .35:
        for _ in range(rng.randrange(1, 3)):
            io_.append({'sys': rng.choice(['READ', 'READ', 'OPEN']) if nc == 1 else 'READ', 'nth': rng.randrange(0, 80), 'n': rng.choice([1, 1, 4]),
                        'act': rng.choice(['err', 'err', 'short']) if nc == 1 else 'short', 'e': rng.choice([errno.EIO, errno.EACCES])})
    plan = {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3])} if nc > 1 else {'mode': 'serial'}
    return {'static': [twins(rng, D.gen_tree(rng, 2, 5, .1)), D.gen_tree(rng, 2, 3, .1)], 'clients': clients, 'faults': faults, 'io': io_,
            'plan': plan}


SHRINK = ('io',)


def twins(rng, tree):
    """with some other datasets of the shape and type of one that is there"""
    out = dict(tree)
    for k, v in tree.items():
        free = [n for n in D.NAMES if n not in out]
        if v['t'] == 'arr' and free and rng.random() < .4:
            out[rng.choice(free)] = dict(v, v=rng.randrange(1 << 30))
        elif v['t'] == 'grp':
            out[k] = {'t': 'grp', 'c': twins(rng, v['c'])}
    return out


class Snap:
    """something that was loaded"""
    busy = False

    def __init__(self, v, what):
        self.v, self.what = v, what
        self.d = dig(v)

    def bad(self):
        return None if dig(self.v) == self.d else f'{self.what} changed after it was loaded'


def dig(v):
    if isinstance(v, (list, tuple)):
        return repr([dig(x) for x in v])
    if isinstance(v, str):
        return 'S' + v
    return D.digest(v)


def arrays(v):
    if hasattr(v, 'keys'):
        for k in v.keys():
            yield from arrays(v[k])
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from arrays(x)
    elif isinstance(v, np.ndarray) and v.size:
        yield v


class World:
    def __init__(self, ctx, sc):
        from pyhipp.io import h5
        self.ctx = ctx
        self.static, self.trees = {}, {}
        for i, t in enumerate(sc['static']):
            p = os.path.join(ctx.scratch, f's{i}.h5')
            h5.File.dump_to(p, D.build_tree(t))
            with h5.File(p, 'a') as f:
                f.attrs.create('note', 'static')
                f.attrs.create('num', np.arange(3))
            with open(p, 'rb') as f:
                self.static[p] = f.read()
            self.trees[p] = D.expect_tree(t)
        self.snaps = []
        self.pos = 0

    def verify(self, what):
        ctx = self.ctx
        for s in self.snaps:
            b = s.bad()
            if b:
                ctx.violate('snapshot-changed', f'{what}: {b}')
        n = ctx.shim.nlog()
        if n > self.pos:
            for r in ctx.shim.log(self.pos):
                if r['file'] in self.static:
                    old = self.static[r['file']]
                    if r['op'] == 'WRITE' and r['ret'] > 0 and r['data'] != old[r['off']:r['off'] + r['ret']] or \
                            r['op'] == 'TRUNC' and r['ret'] == 0 and r['off'] != len(old) or \
                            r['op'] in ('RENAME', 'UNLINK') and r['ret'] == 0 or \
                            r['op'] == 'OPEN' and r['ret'] == 0 and r['flags'] & os.O_TRUNC:
                        ctx.violate('file-modified', f'{what}: {r["op"]} on {os.path.basename(r["file"])}, which is only read')
            self.pos = n

    def final(self):
        for p, b in self.static.items():
            with open(p, 'rb') as f:
                self.ctx.check(f.read() == b, 'file-modified', f'{os.path.basename(p)} differs at the end')


def run(sc, ctx):
    from pyhipp.io import h5
    from pyhipp.io.h5.abc import GroupLike
    sh = ctx.shim
    w = World(ctx, sc)
    own = []
    for c, cl in enumerate(sc['clients']):
        p = os.path.join(ctx.scratch, f'm{c}.h5')
        h5.File.dump_to(p, D.build_tree(cl['init']))
        own.append(p)
    single = len(sc['clients']) == 1
    sh.enable(ctx.scratch, True)
    rules = [sh.rule(f['sys'], f['nth'], f['n'], 2 if f['act'] == 'short' else 1, 13 if f['act'] == 'short' else f['e'])
             for f in sc['io']]

    def fired():
        return sum(sh.fired(r) for f, r in zip(sc['io'], rules) if f['act'] != 'short')

    def body(c, cl):
        state = {'tree': D.expect_tree(cl['init']), 'exists': True, 'lost': False}

        def step(i, o):
            k, r = o['k'], o['r']
            oid = f'{c}.{i}'
            if k == 'scribble':
                with ctx.quiet():
                    free = [s for s in w.snaps if not s.busy]
                    if not free:
                        return
                    s = free[r % len(free)]
                    w.snaps.remove(s)
                    for a in arrays(s.v):
                        if a.flags.writeable:
                            a.view('u1' if a.dtype.kind != 'V' and a.flags.c_contiguous else a.dtype)[...] = \
                                1 if a.dtype.kind != 'V' else a[::-1].copy()
                    if hasattr(s.v, 'keys') and hasattr(s.v, 'clear'):
                        s.v['added'] = np.arange(2)
                        if r & 1:
                            s.v.clear()
                    ctx.probe('loaded value scribbled on')
                return
            if k in ('overwrite', 'trunc', 'unlink', 'add', 'del'):
                n0 = fired()
                if k == 'unlink':
                    if state['exists']:
                        os.unlink(own[c])
                        state['exists'] = False
                    return
                t = state['tree'] if state['exists'] else {}
                if k == 'trunc' or not state['exists'] or state['lost']:
                    val, want = D.build_tree(o['tree']), D.expect_tree(o['tree'])
                    out = ctx.call(oid, h5.File.dump_to, own[c], val, f_flag='w')
                elif k == 'overwrite':
                    want = D.copy_tree(t)
                    new = {}
                    for x, v in t.items():
                        if isinstance(v, np.ndarray) and v.dtype.kind in 'iuf':
                            new[x] = want[x] = D.fill(v.dtype.str, list(v.shape), r)
                    out = ctx.call(oid, h5.File.dump_to, own[c], new, dump_flag='ac')
                elif k == 'add':
                    free = [n for n in D.NAMES if n not in t]
                    want = dict(t)
                    want[free[r % len(free)]] = D.expect_tree(o['tree'])
                    out = ctx.call(oid, h5.File.dump_to, own[c], D.build_tree(o['tree']), key=free[r % len(free)])
                else:
                    if not t:
                        return
                    x = sorted(t)[r % len(t)]
                    want = {n: v for n, v in t.items() if n != x}

                    def rm():
                        with h5.File(own[c], 'a') as f:
                            del f[x]
                    out = ctx.call(oid, rm)
                if out.ok:
                    state.update(tree=want, exists=True, lost=False)
                else:
                    # (after an error of the disk HDF5 may be left with the file)
                    ctx.check(out.injected or fired() > n0 or fired() and 'already open' in str(out.exc), 'call-failed', f'client {c} {k}: {out!r}')
                    state['lost'] = True
                return
            p = own[c] if o['f'] == 'own' else os.path.join(ctx.scratch, o['f'] + '.h5')
            mine = p == own[c]
            if mine and state['lost']:
                return
            t = state['tree'] if mine else w.trees[p]
            exists = state['exists'] if mine else True
            old = sorted(t)
            what = f'client {c} step {i}: {k} on {os.path.basename(p)}'
            got, expect_fail, check = None, not exists, None
            class Keep(list):
                def append(self, v):
                    with ctx.quiet():
                        w.snaps.append(Snap(v, what))
                        w.snaps[-1].busy = True      # nobody changes it before the caller has it
                        self.own.append(w.snaps[-1])
                    list.append(self, v)
            keep = Keep()
            keep.own = []
            if k == 'load':
                fn = lambda: h5.File.load_from(p)
                check = lambda v: D.same_tree(v, t)
            elif k == 'key':
                if not old:
                    return
                x = old[r % len(old)]
                fn = lambda: h5.File.load_from(p, x)
                check = lambda v: D.same_tree(v, t[x]) if isinstance(t[x], dict) else D.same(v, t[x])
            elif k == 'ls':
                fn = lambda: h5.File.ls_from(p, file=io.StringIO())
                check = lambda v: None
            elif k == 'handle':
                # File opened and closed by hand, datasets used as handles and sliced
                def fn():
                    f = h5.File(p)
                    try:
                        for x, v in f.items():
                            if isinstance(v, h5.Dataset):
                                keep.append(v[()] if v.ndim == 0 or len(v.shape) == 0 else v[: 1 + r % 5])
                    finally:
                        f.close()

                def check(v):
                    ds = [x for x in old if not isinstance(t[x], dict)]
                    if len(keep) != len(ds):
                        return f'{len(keep)} datasets read, {len(ds)} stored'
            elif k == 'block':
                def fn():
                    with h5.File(p) as f:
                        repr(f), f.what(), f.attrs.what()
                        keep.append(f.attrs.load())
                        for x in f.keys():
                            if x in f.datasets:
                                keep.append(f.datasets[x])
                        keep.append(f.datasets.load())
                        keep.append([v for v in f.datasets.values()])
                        ds = f.datasets
                        for x in ds.keys():
                            keep.append(ds[x])
                        keep.append(ds[tuple(ds.keys())])
                        keep.append(f.attrs[tuple(f.attrs.keys())])
                        if r & 1:
                            keep.append(f.load())
                        for v in f.values():
                            if isinstance(v, h5.Group):
                                keep.append(v.load())

                def check(v):
                    ds = {x: t[x] for x in old if not isinstance(t[x], dict)}
                    names = list(ds)
                    for m in keep:
                        if type(m) is tuple and len(m) == len(ds) and ds:
                            for x, v in zip(names, m):
                                d = D.same(v, ds[x])
                                if d:
                                    return f'{x}: {d}'
                        if hasattr(m, 'keys') and set(m.keys()) == set(ds) and ds:
                            return D.same_tree(m, ds)
            elif k == 'mutate':
                # attempts to write through a handle opened for reading (not of a link: HDF5 itself may mark a heap
                # dirty before it rejects one, and then fails to write it when the file is closed)
                tries = []

                def fn():
                    with h5.File(p, 'r') as f:
                        for g in (lambda: f.datasets.create('zz_new', 1), lambda: f.create_group('zz_g'),
                                  lambda: f.attrs.create('zz', 1), lambda: f.__delitem__(old[0]),
                                  lambda: f.datasets.__setitem__(next(iter(f.datasets.keys())), 0)):
                            try:
                                g()
                                tries.append(1)
                            except Exception:
                                pass
                check = lambda v: None      # writing nothing to an empty dataset is fine; the bytes decide
            elif k == 'like':
                cls = type('L', (GroupLike,), {'h5_data_typedict': {
                    x: np.ndarray for x in old if not isinstance(t[x], (dict, bytes))},
                    '__init__': lambda self, **kw: self.__dict__.update(kw)})
                fn = lambda: cls.from_h5_file(p)

                def check(v):
                    keep.append(dict(v.__dict__))
                    for x in cls.h5_data_typedict:
                        d = D.same(getattr(v, x), t[x])
                        if d:
                            return f'{x}: {d}'
            else:
                expect_fail = True
                fn = [lambda: h5.File.load_from(p, 'no/such'), lambda: h5.File.ls_from(p, 'missing', file=io.StringIO()),
                      lambda: h5.File.load_from(p + '.none'), lambda: h5.File.load_from(p, 7),
                      lambda: h5.File.ls_from(p, file=Broken())][r % 5]
            def judge(out, hit):
                if out.ok:
                    ctx.check(not expect_fail, 'not-rejected', f'{what} succeeded')
                    d = check(out.value) if not hit else None
                    if not hit:
                        ctx.check(not d, 'wrong-data', f'{what}: {d}')
                    if out.value is not None and not isinstance(out.value, (GroupLike,)):
                        w.snaps.append(Snap(out.value, what))
                    ctx.state((k, D.digest(out.value) if out.value is not None and not isinstance(out.value, GroupLike) else 0))
                else:
                    ctx.check(expect_fail or out.injected or hit, 'call-failed', f'{what}: {out!r}')
                    ctx.state((k, out.kind))
            n0 = fired()
            held = []

            def call():
                # look at the files while the caller still holds the exception
                try:
                    return fn()
                except BaseException as e:
                    held.append((sh.open_fds(), repr(e)))
                    raise
            out = ctx.call(oid, call)
            hit = fired() > n0
            ctx.event(c, i, k, out.kind)
            if single and held and not out.injected and not fired():
                ctx.check(not held[0][0], 'not-closed', f'{what}: {held[0][1]}: still open when the error reaches the caller')
            with ctx.quiet():
                judge(out, hit)
                for s in keep.own:
                    s.busy = False
            out = None
            if single:
                gc.collect()
                ctx.check(sh.open_fds() == 0 or fired(), 'not-closed', f'{what}: file still open')
                ctx.check(D.obj_count() == 0, 'not-closed', f'{what}: HDF5 handle still open')

        for i, o in enumerate(cl['ops']):
            step(i, o)
            with ctx.quiet():
                w.verify(f'after client {c} step {i} ({o["k"]})')
            ctx.pause()
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    gc.collect()
    for f, r in zip(sc['io'], rules):
        ctx.fault(f'{f["act"]}-{f["sys"].lower()}', sh.fired(r))
    ctx.check((sh.open_fds() == 0 or fired()) and D.obj_count() == 0, 'not-closed', 'files open at the end')
    w.verify('at the end')
    sh.disable()
    w.final()
    for p in w.static:
        d = D.same_tree(h5.File.load_from(p), w.trees[p])
        ctx.check(not d, 'wrong-data', f'final load of {os.path.basename(p)}: {d}')
    ctx.probe('snapshots checked', len(w.snaps))


class Broken:
    def write(self, s):
        raise OSError('output stream failed')

    def flush(self):
        pass

