"""C11  Gridded density: mass is conserved under any split into jobs.

Workers deposit their share of a particle set in batches, dump partial grids and
may die at any line and be started again; a reducer joins the dumps in any order,
in any number of rounds.  A plain numpy cloud-in-cell sum over all particles is
the model, and every partial dump is compared before and after."""
import errno, gc, os
import numpy as np

PROP = 'C11'
RUNS = {'quick': 1000, 'thorough': 30000}
RULE = ('one run = a set of 0-200 particles split into 1-6 jobs executed by 1-3 workers in 1-4 batches each (some rejected), dumped to own or '
        'shared files, joined in 1-2 rounds, under a line-level schedule with interruptions and I/O errors; non-trivial = client switch or fault fired')
STATE = 'distinct (job sizes, batch kinds, storage, join shape, failures)'
REAL = ['pyhipp.field.cubic_box.mass_assignment / field / mesh (numba)', 'pyhipp.io.h5', 'h5py + libhdf5', 'kernel file system (scratch directory)']
STUB = ['thread choice and interruption points (simulated scheduler)', 'read/open errors and short transfers (libc shim)', 'processes of the jobs (clients in one process; a crash is an interruption that loses the job)']
ASSUME = ['finite positions within 100 boxes of the origin', 'cells are compared to 1e-11 of the total absolute weight (rounding depends on order), to 3e-8 where batches are in single precision']


def warmup(tmp):
    from sim.checks import c01
    c01.warmup(tmp)
    from pyhipp.field.cubic_box.mass_assignment import DensityField
    from pyhipp.io import h5
    d = DensityField(2.0, 4)
    for x, w in kinds(np.ones((4, 3)), np.ones(4)):
        d.add(x, w)
    for x, w in rejects(0, np.ones((4, 3)), np.ones(4)) + rejects(1, np.ones((4, 3)), np.ones(4)):
        try:
            d.add(x, w)
        except Exception:
            pass
    p = os.path.join(tmp, 'd.h5')
    with h5.File(p, 'x') as f:
        d.dump(f.create_group('a'))
        DensityField.join_dumps([f['a'], f['a']], f.create_group('b'))
        DensityField.load(f['b']).copied()


def kinds(x, w):
    """the ways a batch is handed over"""
    n = len(x)
    big = np.zeros((n, 6))
    big[:, ::2] = x
    bw = np.zeros(2 * n)
    bw[::2] = w
    return [(x, None), (x, w), (x.astype('f4'), w.astype('f4')), (big[:, ::2], bw[::2]), (np.asfortranarray(x), w), (x.astype('f4'), None),
            (np.floor(x).astype('i8'), w)]


def rejects(r, x, w):
    n = len(x)
    return [(x, np.ones(n + 1)), (x[:, :2].copy(), None), (x.ravel(), None), (x.reshape(n, 3, 1), None),
            (x, np.ones((n, 1))), (x[:, :2].copy(), w), (x, np.ones(max(n - 1, 0)) if n else np.ones(3)), (np.ones((n, 4)), w)]


def gen(rng, tier, i):
    nw = rng.choice([1, 1, 2, 3])
    njob = rng.choice([1, 2, 2, 3, 4, 6])
    n_grids = rng.choice([1, 2, 3, 4, 5, 8])
    jobs, faults = [], []
    for j in range(njob):
        bs = [{'n': rng.choice([0, 1, 2, 5, 20]) if rng.random() < .996 else rng.choice([5000, 70000]), 'v': rng.randrange(1 << 30), 'k': rng.randrange(7),
               'far': rng.choice(['in', 'in', 'edge', 'far', 'neg']), 'w': rng.choice(['pos', 'one', 'any', 'zero', 'tiny', 'huge'])} for _ in range(rng.randrange(1, 5))]
        bad = [{'at': rng.randrange(5), 'r': rng.randrange(8)} for _ in range(rng.choice([0, 0, 1, 2]))]
        if jobs and rng.random() < .2:        # a job of the very same particles
            bs = [dict(b) for b in jobs[-1]['batches']]
        jobs.append({'w': rng.randrange(nw), 'batches': bs, 'bad': bad})
        for a in range(2):
            if rng.random() < .2:
                faults.append({'op': f'j{j}.{a}', 'line': rng.randrange(1, 120), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
    for k in range(3):
        if rng.random() < .12:
            faults.append({'op': f'join{k}.0', 'line': rng.randrange(1, 150), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
    io = []
    if nw == 1 and rng.random() < .25:
        io.append({'sys': rng.choice(['READ', 'OPEN']), 'nth': rng.randrange(40), 'n': 1, 'act': 'err', 'e': 5})
    if rng.random() < .15:
        io.append({'sys': rng.choice(['READ', 'WRITE']), 'nth': rng.randrange(40), 'n': 30, 'act': 'short', 'e': rng.choice([1, 100])})
    order = list(range(njob))
    rng.shuffle(order)
    return {'l_box': rng.choice([1.0, 2.0, 100.0, 0.3, 75]), 'n_grids': n_grids, 'jobs': jobs, 'nw': nw, 'faults': faults, 'io': io, 'order': order,
            'cut': rng.randrange(0, njob), 'store': rng.choice(['own', 'shared', 'one']), 'gen': rng.random() < .5, 'same': rng.random() < .5, 'dead': rng.randrange(1, 5) if rng.random() < .3 else None,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3, .6])} if nw > 1 else {'mode': 'serial'}}


SHRINK = ('io', 'jobs', 'batches', 'bad')


def particles(b, L):
    rs = np.random.RandomState(b['v'] & 0x7fffffff)
    n = b['n']
    x = rs.random_sample((n, 3)) * L
    if b['far'] == 'edge':
        m = rs.random_sample((n, 3))
        x = np.where(m < .25, 0., np.where(m < .5, L, np.where(m < .75, np.nextafter(L, 0), np.round(x / L * 8) * L / 8)))
    elif b['far'] == 'far':
        x += L * rs.randint(-90, 90, (n, 3))
    elif b['far'] == 'neg':
        x = -x
    w = {'pos': rs.random_sample(n) + .1, 'one': np.ones(n), 'any': rs.standard_normal(n) * 3, 'zero': np.zeros(n), 'tiny': (rs.random_sample(n) + .5) * 1e-11, 'huge': (rs.random_sample(n) + .5) * 1e15}[b['w']]
    xx, ww = kinds(x, w)[b['k']]
    return xx, ww


def cic(n, L, batches):
    """reference: every particle, every cell, overlap of two unit-width clouds"""
    out = np.zeros((n, n, n))
    tot = 0.
    for x, w in batches:
        x = np.asarray(x, dtype='f8')
        w = np.ones(len(x)) if w is None else np.asarray(w, dtype='f8')
        tot += np.abs(w).sum()
        for p, q in zip(x, w):
            ax = []
            for c in p / (L / n):
                a = np.zeros(n)
                for k in range(int(np.floor(c)) - 1, int(np.floor(c)) + 3):
                    a[k % n] += max(0., 1. - abs(c - k))
                ax.append(a)
            out += q * ax[0][:, None, None] * ax[1][None, :, None] * ax[2][None, None, :]
    return out, tot


def run(sc, ctx):
    from pyhipp.field.cubic_box.mass_assignment import DensityField
    from pyhipp.io import h5
    from sim import h5data as D
    sh = ctx.shim
    L, n = sc['l_box'], sc['n_grids']
    jobs = sc['jobs']
    if not jobs:
        return
    sh.enable(ctx.scratch, False)
    rules = [sh.rule(f['sys'], f['nth'], f['n'], 2 if f['act'] == 'short' else 1, f['e']) for f in sc['io']]

    def fired():
        return sum(sh.fired(r) for f, r in zip(sc['io'], rules) if f['act'] == 'err')
    single = sc['nw'] == 1
    shared = None
    store = sc['store'] if sc['nw'] == 1 or sc['store'] != 'one' else 'own'
    path = lambda j: os.path.join(ctx.scratch, 'all.h5' if store == 'one' else f'job{j}.h5')
    sh.nofault()
    if store == 'shared':
        shared = h5.File(os.path.join(ctx.scratch, 'shared.h5'), 'x')
    elif store == 'one':
        h5.File.dump_to(path(0), {'readme': np.arange(3)})
    sh.nofault(False)
    batches = {j: [particles(b, L) for b in jb['batches']] for j, jb in enumerate(jobs)}
    same_name = sc.get('same') and store == 'own'
    gname = lambda x: 'grid' if same_name and x.startswith('job') else x

    exact = all(b['k'] not in (2, 5) for jb in jobs for b in jb['batches'])

    def close(got, ref, tot, what, kind='mass'):
        g = np.asarray(got)
        ctx.check(g.shape == ref.shape, kind, f'{what}: grid has shape {g.shape}, not {ref.shape}')
        d = np.abs(g - ref).max() if g.size else 0
        TOL = 1e-11 if exact else 3e-8
        ctx.check(d <= TOL * max(tot, 1e-30), kind, f'{what}: cells differ by up to {d:g} of a total weight {tot:g}; sum {g.sum():g}, expected {ref.sum():g}')

    def job(j, att):
        jb = jobs[j]
        f = DensityField(L, n)
        done = []
        for k, (x, w) in enumerate(batches[j]):
            for bd in jb['bad']:
                if bd['at'] == k:
                    before = np.array(f.data)
                    bx, bw = rejects(bd['r'], np.asarray(x, 'f8'), np.ones(len(x)))[bd['r'] % 8]
                    try:
                        f.add(bx, bw)
                        rejected = False
                    except Exception:
                        rejected = True
                    with ctx.quiet():
                        ctx.check(rejected, 'not-rejected', f'job {j}: batch of shape {bx.shape} with weights {None if bw is None else bw.shape} was accepted')
                        ctx.check(np.array_equal(before, f.data), 'grid-changed', f'job {j}: a rejected batch changed the grid')
                        ctx.nontrivial = True
            x0, w0 = x.copy(), None if w is None else w.copy()
            f.add(x, w)
            done.append((x, w))
            with ctx.quiet():
                ctx.check(np.array_equal(x, x0) and (w is None or np.array_equal(w, w0)), 'input-changed', f'job {j} batch {k}')
                close(f.data, *cic(n, L, done), f'job {j} after batch {k} (n_grids {n}, l_box {L})')
            ctx.pause()
        if store == 'shared':
            g = shared.create_group(f'job{j}', flag='ac')
            f.dump(g, flag='ac') if att else f.dump(g)
        else:
            with h5.File(path(j), 'ac') as h:
                g = h.create_group(gname(f'job{j}'), flag='ac')
                f.dump(g, flag='ac') if att else f.dump(g)
        with ctx.quiet():
            close(f.data, *cic(n, L, batches[j]), f'job {j} after its dump')
        return True

    def worker(w):
        for j, jb in enumerate(jobs):
            if jb['w'] != w:
                continue
            for att in range(4):
                n0 = fired()
                if att >= 2:
                    sh.nofault()
                out = ctx.call(f'j{j}.{att}', job, j, att)
                ctx.event('job', j, att, out.kind)
                if att >= 2:
                    sh.nofault(False)
                if out.ok:
                    break
                ctx.probe('job started again')
                ctx.check(out.injected or fired() > n0, 'call-failed', f'job {j} attempt {att}: {out!r}')
                gc.collect()
            else:
                ctx.violate('call-failed', f'job {j} never succeeds')
            ctx.pause()

    ctx.run_clients([lambda w=w: worker(w) for w in range(sc['nw'])], faults=[f for f in sc['faults'] if not f['op'].startswith('join')])

    # ---- the reducer
    opened = {}

    def group(name):
        if store == 'shared':
            return shared[name]
        p = path(int(name[3:])) if name.startswith('job') else os.path.join(ctx.scratch, 'join.h5')
        if p not in opened or not D.raw(opened[p]):
            opened[p] = h5.File(p, 'r')
        return opened[p][gname(name)]

    def close_all():
        for f in opened.values():
            f.close()
        opened.clear()

    def raw(name):
        sh.nofault()
        try:
            if store == 'shared':
                return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in shared[name].load().items()}
            p = path(int(name[3:])) if name.startswith('job') else os.path.join(ctx.scratch, 'join.h5')
            return D.raw_read(p)[gname(name)]
        finally:
            sh.nofault(False)

    def same_raw(a, b):
        return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)

    order = [j for j in sc['order'] if j < len(jobs)] or list(range(len(jobs)))
    cut = sc['cut'] % len(order)
    rounds = [(['job%d' % j for j in order], 'all', list(order))]
    if cut:
        rounds = [(['job%d' % j for j in order[:cut]], 'part', order[:cut]), (['job%d' % j for j in order], 'all', list(order)),
                  (['job%d' % j for j in order[cut:]] + ['part'], 'merged', list(order))]

    def dead():
        """one job left an empty group: nothing that looks like the joined grid may remain"""
        names = ['job%d' % j for j in order]
        before = {x: raw(x) for x in names}
        with ctx.quiet():
            sh.nofault()
            f = shared if store == 'shared' else h5.File(os.path.join(ctx.scratch, 'dead.h5'), 'x')
            e, t = f.create_group('dead'), f.create_group('broken')
            gs = [group(x) for x in names]
            gs.insert(min(sc['dead'], len(gs)), e)
            out = ctx.call('dead', lambda: DensityField.join_dumps((g for g in gs) if sc['gen'] else gs, t))
            left = t.load()
            ctx.check(not out.ok, 'not-rejected', f'joining {names} with a group without grid succeeded')
            ctx.check('data' not in left, 'mass', f'joining {names} with a group without grid failed but left a joined grid')
            ctx.nontrivial = True
            close_all()
            if store != 'shared':
                f.close()
            sh.nofault(False)
        for x in names:
            ctx.check(same_raw(raw(x), before[x]), 'partial-changed', f'failed join changed the partial grid {x}')

    def reducer():
        if sc.get('dead'):
            dead()
        for k, (names, target, js) in enumerate(rounds):
            with ctx.quiet():
                before = {x: raw(x) for x in names}

            def join(att):
                gs = [group(x) for x in names]
                src = (g for g in gs) if sc['gen'] else gs
                kw = {'flag': 'ac'} if att else {}
                if store == 'shared':
                    DensityField.join_dumps(src, shared.create_group(target, flag='ac'), **kw)
                else:
                    if 'part' in names:     # the file is also read from: join in memory of one handle
                        close_all()
                        with h5.File(os.path.join(ctx.scratch, 'join.h5'), 'a') as f:
                            gs = [group(x) if x != 'part' else f['part'] for x in names]
                            DensityField.join_dumps((g for g in gs) if sc['gen'] else gs, f.create_group(target, flag='ac'), **kw)
                    else:
                        close_j = os.path.join(ctx.scratch, 'join.h5')
                        if close_j in opened:
                            opened.pop(close_j).close()
                        with h5.File(close_j, 'ac') as f:
                            DensityField.join_dumps(src, f.create_group(target, flag='ac'), **kw)
            for att in range(4):
                n0 = fired()
                if att >= 2:
                    sh.nofault()
                out = ctx.call(f'join{k}.{att}', join, att)
                with ctx.quiet():
                    close_all()
                if att >= 2:
                    sh.nofault(False)
                ctx.event('join', k, att, out.kind)
                if out.ok:
                    break
                ctx.check(out.injected or fired() > n0, 'call-failed', f'joining {names} into {target}, attempt {att}: {out!r}')
                gc.collect()
                with ctx.quiet():
                    # an unfinished join leaves the whole grid or none
                    try:
                        r = raw(target)
                    except (KeyError, OSError):
                        r = {}
                    if 'data' in r and not fired():
                        close(r['data'], *cic(n, L, [b for j in js for b in batches[j]]), f'{target}, left by a failed join of {names}')
            else:
                ctx.violate('call-failed', f'joining {names} never succeeds')
            with ctx.quiet():
                for x in names:
                    ctx.check(same_raw(raw(x), before[x]), 'partial-changed', f'joining {names} into {target} changed the partial grid {x}')
                ref, tot = cic(n, L, [b for j in js for b in batches[j]])
                r = raw(target)
                ctx.check(set(r) == {'data', 'l_box', 'n_grids'}, 'dump-differs', f'{target}: holds {sorted(r)}')
                close(r['data'], ref, tot, f'{target} = join of {names}')
                ctx.check(float(r['l_box']) == L and int(r['n_grids']) == n, 'dump-differs', f'{target}: l_box {r["l_box"]}, n_grids {r["n_grids"]}')
                sh.nofault()
                fld = DensityField.load(group(target))
                ctx.check(np.array_equal(fld.data, r['data']) and fld.mesh.l_box == L and fld.mesh.n_grids == n and fld.shape == (n, n, n),
                          'load-differs', f'{target}: loaded field differs from the dump')
                again = None
                try:                   # a second join asks for a new grid: the one there stays
                    if store == 'shared':
                        DensityField.join_dumps([shared[x] for x in names[:1] * 2], shared[target])
                    else:
                        close_all()
                        one = group(names[0]) if names[0] != 'part' else None
                        with h5.File(os.path.join(ctx.scratch, 'join.h5'), 'a') as f:
                            DensityField.join_dumps([one or f['part']] * 2, f[target])
                except Exception as e:
                    again = e
                ctx.check(again is not None, 'not-rejected', f'{target}: joined once more into the same group')
                ctx.check(same_raw(raw(target), r), 'dump-differs', f'{target}: changed by a second join, which failed with {again!r}')
                cp = fld.copied()
                cp.data[...] += 1
                ctx.check(np.array_equal(fld.data, r['data']) and np.array_equal(raw(target)['data'], r['data']), 'load-differs',
                          f'{target}: changing a copy of the loaded field changed the field or the file')
                close_all()
                sh.nofault(False)
            ctx.pause()
    ctx.run_clients([reducer], plan={'mode': 'serial'}, faults=[f for f in sc['faults'] if f['op'].startswith('join')])
    ctx.state(([len(j['batches']) for j in jobs], store, cut, n, sorted(ctx.faults)))
    for f, r in zip(sc['io'], rules):
        ctx.fault(f'{f["act"]}-{f["sys"].lower()}', sh.fired(r))
    ctx.fault('rejected batch', sum(len(j['bad']) for j in jobs))
    if shared is not None:
        shared.close()
