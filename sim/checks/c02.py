"""C02  Acknowledged HDF5 writes survive process death; I/O errors are reported."""
import errno, os
import numpy as np
from sim import h5data as D, proc

PROP = 'C02'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a simulated writer process performing 1-4 writing calls on up to 3 files while the disk fails '
        '(single or lasting I/O errors, full disk, torn write) or the process dies (after an acknowledgement or at a drawn '
        'system call); a second process then reads what is left; non-trivial = a fault fired or the process died early')
STATE = 'distinct (kind of call, fault kind, outcome) combinations'
REAL = ['pyhipp.io.h5', 'h5py + libhdf5', 'kernel file system (scratch directory)', 'process death (SIGKILL)']
STUB = ['failing system calls, disk capacity, torn writes (libc shim)']
ASSUME = ['a process crash keeps what the kernel accepted (no power loss: the library never syncs and does not promise to)',
          'a file whose own write was cut short by a fault or crash may be unusable (HDF5 has no journal)']
ERRNO = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG]


def warmup(tmp):
    from sim.checks import c01
    c01.warmup(tmp)


def gen(rng, tier, i):
    ops = []
    for j in range(rng.randrange(1, 5)):
        k = rng.choice(['dump_to', 'dump_to', 'dump_val', 'block', 'block', 'close', 'like', 'txt'])
        o = {'k': k, 'file': rng.randrange(3), 'name': rng.randrange(1 << 20)}
        big = rng.choice([0.0, 0.1, 0.5])
        if k in ('dump_to',):
            o['tree'] = D.gen_tree(rng, 2, 4, big)
            o['key'] = rng.random() < .5
        elif k == 'dump_val':
            o['v'] = D.gen_value(rng, big)
        elif k in ('block', 'close'):
            o['ops'] = []
            for _ in range(rng.randrange(1, 5)):
                s = rng.choice(['create', 'create', 'fill', 'dump', 'over', 'attr', 'overlike', 'del'])
                q = {'k': s, 'v': D.gen_value(rng, big), 'name': rng.randrange(1 << 20)}
                if s == 'dump':
                    q['tree'] = D.gen_tree(rng, 1, 3, big)
                if s == 'fill':
                    q['v'] = {'t': 'arr', 'd': '<f8', 's': [rng.choice([3, 200, 9000])], 'v': 1, 'lay': 'C'}
                o['ops'].append(q)
        elif k in ('like', 'txt'):
            o['n'] = rng.choice([2, 5, 2000])
        ops.append(o)
    faults = []
    if rng.random() < .9:
        t = rng.choice(['err', 'err', 'err', 'cap', 'kill', 'kill', 'ackkill'])
        at = rng.randrange(len(ops))
        f = {'t': t, 'at': at}
        if t == 'err':
            f['sys'] = rng.choice(['WRITE'] * 7 + ['TRUNC', 'OPEN', 'CLOSE', 'READ'])
            f['k'] = rng.randrange(0, 14) if f['sys'] in ('WRITE', 'READ') else rng.randrange(0, 3)
            f['n'] = rng.choice([1, 1, 1, 2, 5, 1 << 40])
            f['e'] = rng.choice(ERRNO)
            f['heal'] = rng.random() < .7
        elif t == 'cap':
            f['room'] = rng.choice([0, 50, 500, 800, 2048, 3000, 5000, 10000, 60000, rng.randrange(100000)])
            f['heal'] = rng.random() < .7
        elif t == 'kill':
            f['sys'] = rng.choice(['WRITE', 'WRITE', 'WRITE', 'OPEN', 'CLOSE', 'TRUNC'])
            f['k'] = rng.randrange(0, 14) if f['sys'] == 'WRITE' else rng.randrange(0, 2)
            f['torn'] = rng.choice([0, 0, 1, 100, 4096])
        faults.append(f)
    for o in ops:
        o['thread'] = rng.random() < .2
    return {'ops': ops, 'faults': faults, 'plan': {'mode': 'serial'}}


def in_thread(fn):
    """the same call made from another thread of the writer"""
    import threading

    def body(p, ctx):
        out = []

        def go():
            try:
                out.append(fn(p, ctx))
            except BaseException as e:
                out.append(None)
                exc.append(e)
        exc = []
        t = threading.Thread(target=go)
        t.start()
        t.join()
        if exc:
            raise exc.pop()
        return out[0]
    return body


# ---- the effect of an op on the model of its file
def plan_op(o, t, i=0):
    """-> (want tree after the op, function performing it) on a file whose model is t"""
    from pyhipp.io import h5
    from pyhipp.io.h5.shortcuts import txt_to_h5
    from pyhipp.io.h5.abc import GroupLike
    from pyhipp.core import DataTable
    t = D.copy_tree(t)
    free = [n for n in D.NAMES if n not in t]
    name = free[o['name'] % len(free)]
    k = o['k']
    if k == 'dump_to':
        want = D.expect_tree(o['tree'])
        val = D.build_tree(o['tree'])
        if not o['key'] and set(want) & set(t):
            o = dict(o, key=True)
        if o['key']:
            t[name] = want
            return t, lambda p, ctx: h5.File.dump_to(p, val, key=name)
        t.update(want)
        return t, lambda p, ctx: h5.File.dump_to(p, val)
    if k == 'dump_val':
        v = D.build(o['v'])
        t[name] = D.expect(v)
        return t, lambda p, ctx: h5.File.dump_to(p, v, key=name)
    if k == 'like':
        class Part(GroupLike):
            h5_data_typedict = {'x': np.ndarray, 'label': str, 'tab': DataTable}

            def __init__(self, x, label, tab):
                self.x, self.label, self.tab = x, label, tab
        x = D.fill('<f8', [o['n']], o['name'])
        ids = np.arange(o['n'])
        want = {'x': x, 'label': b'L%d' % o['name'], 'tab': {'id': ids, 'w': x[::-1].copy()}}
        obj = Part(x, 'L%d' % o['name'], DataTable({'id': ids, 'w': x[::-1]}))
        return want, lambda p, ctx: obj.to_h5_file(p, f_flag='w')
    if k == 'txt':
        want = {'a': np.arange(o['n'], dtype='i8') + o['name'] % 97, 'b': np.arange(o['n'], dtype='f8') / 8}

        def fn(p, ctx):
            txt_to_h5(f'{p}.{i}.txt', p, np.dtype([('a', 'i8'), ('b', 'f8')]))
        return want, fn
    # an open session, acknowledged when the block ends / close() returns
    steps = []
    for q in o['ops']:
        free = [n for n in D.NAMES if n not in t]
        n2 = free[q['name'] % len(free)] if free else None
        s = q['k']
        old = sorted(x for x in t if isinstance(t[x], np.ndarray) and t[x].dtype.kind in 'fiu' and t[x].size)
        if s == 'create' and n2:
            v = D.build(q['v'])
            t[n2] = D.expect(v)
            steps.append(lambda f, n2=n2, v=v: f.datasets.create(n2, v))
        elif s == 'fill' and n2:
            v = D.build(q['v'])
            t[n2] = D.expect(v)

            def st(f, n2=n2, v=v, how=q['name'] % 3):
                d = f.datasets.create_empty(n2, v.shape, v.dtype)
                if how == 0:
                    f.datasets[n2] = v
                elif how == 1:
                    d[...] = v
                else:
                    h = len(v) // 2
                    d[:h] = v[:h]
                    d[h:] = v[h:]
            steps.append(st)
        elif s == 'dump' and n2:
            t[n2] = D.expect_tree(q['tree'])
            val = D.build_tree(q['tree'])
            steps.append(lambda f, n2=n2, val=val: f.create_group(n2).dump(val))
        elif s in ('over', 'overlike') and old:
            x = old[q['name'] % len(old)]
            v = D.fill(t[x].dtype.str, list(t[x].shape), q['name'])
            t[x] = v
            if s == 'over':
                steps.append(lambda f, x=x, v=v: f.datasets.create(x, v, flag='ac'))
            else:
                steps.append(lambda f, x=x, v=v: f.dump({x: v}, flag='ca'))
        elif s == 'del' and t:
            x = sorted(t)[q['name'] % len(t)]
            del t[x]
            steps.append(lambda f, x=x: f.__delitem__(x))
        elif s == 'attr':
            steps.append(lambda f, a=f'q{q["name"]}': f.attrs.create(a, 'x', flag='ac'))

    def body(p, ctx):
        if k == 'block':
            with h5.File(p, 'ac') as f:
                for st in steps:
                    st(f)
        else:
            f = h5.File(p, 'ac')
            HELD.extend(f[x] for x in f.keys())         # handles in use when the file is closed
            for st in steps:
                st(f)
            HELD.extend(f[x] for x in f.keys())
            f.close()
    return t, body


HELD = []


def run(sc, ctx):
    from pyhipp.io import h5
    sh = ctx.shim
    path = [os.path.join(ctx.scratch, f'{c}.h5') for c in 'abc']
    plans, trees = [], [{}, {}, {}]
    fault = sc['faults'][0] if sc['faults'] else None
    for i, o in enumerate(sc['ops']):
        want, fn = plan_op(o, trees[o['file']], i)
        plans.append((o, want, in_thread(fn) if o.get('thread') else fn))
        trees[o['file']] = want
        if o['k'] == 'txt':
            np.savetxt(f"{path[o['file']]}.{i}.txt", np.stack([want['a'], want['b']], 1), fmt=['%d', '%.17g'])

    def writer(emit):
        sh.enable(ctx.scratch, False)
        unknown, r, total, healed = set(), None, 0, False
        for i, (o, want, fn) in enumerate(plans):
            if o['file'] in unknown:
                emit({'op': i, 'skip': 1})
                continue
            if fault and fault['at'] == i:
                if fault['t'] == 'err':
                    r = sh.rule(fault['sys'], sh.count(fault['sys']) + fault['k'], fault['n'], 1, fault['e'])
                elif fault['t'] == 'kill':
                    r = sh.rule(fault['sys'], sh.count(fault['sys']) + fault['k'], 1, 3, fault['torn'])
                elif fault['t'] == 'cap':
                    used = sum(os.path.getsize(os.path.join(ctx.scratch, x)) for x in os.listdir(ctx.scratch)
                               if not x.endswith('.txt'))
                    # the shim counts files it has seen opened
                    for x in range(3):
                        if os.path.exists(path[x]):
                            os.close(os.open(path[x], os.O_RDONLY))
                    sh.capacity(used + fault['room'])
            emit({'op': i, 'start': 1})
            out = ctx.call(f'0.{i}', fn, path[o['file']], ctx)
            now = total
            if not healed:
                now = sh.fired(r) if r is not None else sh.enospc() if fault and fault['t'] == 'cap' else 0
            fired, total = now - total, now
            emit({'op': i, 'ok': out.ok, 'exc': repr(out)[:160], 'kind': out.kind, 'fired': fired})
            if not out.ok:
                unknown.add(o['file'])
            if fault and fault['at'] == i and fault.get('heal'):
                sh.clear_rules()
                sh.capacity(-1)
                healed = True
            if fault and fault['at'] == i and fault['t'] == 'ackkill':
                return
    recs, st, timed = proc.spawn(writer)
    if timed:
        ctx.violate('no-progress', f'writer stuck: {recs[-1:]}')
    acked, started, unknown, fired, ended = {}, None, set(), 0, False
    for r in recs:
        if 'harness' in r:
            raise RuntimeError(r['harness'])
        if 'end' in r:
            ended = True
        if r.get('start'):
            started = r['op']
        if 'ok' in r:
            started = None
            o, want, fn = plans[r['op']]
            fired += r['fired']
            if r['ok']:
                acked[o['file']] = (r['op'], want, bool(r['fired']))
            else:
                unknown.add(o['file'])
                if not r['fired']:
                    ctx.violate('call-failed', f'operation {r["op"]} ({o["k"]}) on a healthy disk raised {r["exc"]}')
            ctx.event(r['op'], r['kind'], r['fired'])
            ctx.state((o['k'], fault and fault['t'], fault and fault.get('sys'), r['ok'], bool(r['fired'])))
        ctx.ops += 'start' in r
    if started is not None:
        unknown.add(plans[started][0]['file'])
        ctx.event('died in', started)
    sig = 0
    if not ended:
        if fault and fault['t'] == 'kill':
            ctx.fault(f'kill@{fault["sys"].lower()}' + ('-torn' if fault['torn'] and fault['sys'] == 'WRITE' else ''))
        elif fault and fault['t'] == 'err':
            # libhdf5 itself dies on some write errors: nothing was acknowledged, so nothing to judge
            ctx.fault(f'err-{fault["sys"].lower()}')
            ctx.probe('libhdf5 died of the I/O error')
        elif fault and fault['t'] == 'cap':
            ctx.fault('disk-full')
            ctx.probe('libhdf5 died of the full disk')
        else:
            ctx.violate('process-crash', f'the writer died without any fault: {recs[-2:]} status {st}')
    elif fault:
        if fault['t'] == 'err':
            ctx.fault(f'err-{fault["sys"].lower()}' + ('' if fault['n'] == 1 else '-burst' if fault['n'] < 100 else '-lasting'), fired)
        elif fault['t'] == 'cap':
            ctx.fault('disk-full', fired)
        elif fault['t'] == 'ackkill':
            ctx.fault('kill-after-ack')
    # ---- what another process finds on the disk
    for fi, (i, want, hit) in sorted(acked.items()):
        if fi in unknown:
            continue
        o = plans[i][0]
        what = f'file {"abc"[fi]} after acknowledged operation {i} ({o["k"]}), fault {fault}'
        kind = 'error-swallowed' if hit else 'acknowledged-data-lost'
        try:
            got = D.raw_read(path[fi])
        except Exception as e:
            ctx.violate(kind, f'{what}: unreadable: {e!r}')
        d = D.same_tree(got, want)
        if d:
            ctx.violate(kind, f'{what}: {d}')
        out = ctx.call(f'r.{fi}', h5.File.load_from, path[fi])
        if not out.ok or D.same_tree(out.value, want):
            ctx.violate(kind, f'{what}: load_from: {out!r}')
        ctx.probe('acknowledged file verified' + (' despite a fault in its own write' if hit else ''))
