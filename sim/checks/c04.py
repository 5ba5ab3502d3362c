"""C04  Creation and open flags mean what they say.

'hist': clients with their own file each apply drawn creation/open calls with
every flag to names that are free, taken by the same kind or by another kind;
opens may fail.  'race': clients meet at exclusive creation of one name."""
import errno, os
import numpy as np
from sim import h5data as D

PROP = 'C04'
RUNS = {'quick': 1700, 'thorough': 50000}
RULE = ('one run = either 1-3 clients applying creation/open calls with drawn flags to their own file, some opens failing, or '
        '2-4 clients racing to create one name exclusively, under a line-level schedule; non-trivial = client switch, '
        'injected error or rejected call')
STATE = 'distinct (call, flag, what the name was, outcome) combinations'
REAL = ['pyhipp.io.h5', 'h5py + libhdf5', 'kernel file system (scratch directory)']
STUB = ['thread choice (simulated scheduler)', 'open errors (libc shim)']
ASSUME = ['racing clients are threads of one process', 'a call into h5py is atomic for the scheduler']
FLAGS = ['x', 'x', 'ac', 'ca', 'ac', 'x', 'ac', 'ca', 'x', 'ac', 'ca', 'w', 'a', 'r', '', 'xx', None, 'X', 'AC', 'c', 'xac', 'aca', ' x', 'w-', 0, 1, True]
FFLAGS = ['r', 'a', 'x', 'ac', 'ca', 'w', 'r', 'a', 'x', 'ac', 'ca', 'w', 'w-', 'r+', '', 'b', None, 'W', 'X', 'R', 'A', 'CA', 'Ac', 'wx', 'rw', 'aw', 'w ', 'rb', 'wb', 0, 1, True]
OBJ = ['group', 'dset', 'dset', 'empty', 'attr', 'aempty', 'soft', 'ext', 'dump', 'gdump', 'adump', 'ddump']


def warmup(tmp):
    from sim.checks import c01
    c01.warmup(tmp)


def gen(rng, tier, i):
    if rng.random() < .4:
        n = rng.choice([2, 2, 3, 4])
        return {'mode': 'race', 'what': rng.choice(['group', 'dset', 'empty', 'soft', 'file', 'dumpfile', 'gdump', 'likefile']),
                'deep': rng.random() < .5, 'clients': [{'v': rng.randrange(1 << 20), 'again': rng.random() < .3} for _ in range(n)],
                'plan': {'mode': rng.choice(['random', 'pct']), 'seed': rng.randrange(1 << 30),
                         'p': rng.choice([.05, .1, .3, .6]), 'd': rng.choice([1, 2, 4]), 'est': rng.choice([12, 25, 60])}}
    clients = []
    nc = rng.choice([1, 1, 2, 3])
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(2, 10)):
            if rng.random() < .35:
                o = {'k': 'file', 'flag': rng.choice(FFLAGS), 'how': rng.choice(['open', 'open', 'dump', 'like']), 'r': rng.randrange(1 << 20),
                     'io': None}
                if nc == 1 and rng.random() < .25:
                    o['io'] = {'k': rng.choice([0, 0, 1]), 'e': rng.choice([errno.EIO, errno.EACCES, errno.EMFILE])}
                if rng.random() < .25:
                    o['missing'] = True
                elif rng.random() < .15:
                    o['odd'] = rng.choice(['empty', 'junk', 'dir', 'cut'])
            else:
                o = {'k': rng.choice(OBJ), 'flag': rng.choice(FLAGS), 'r': rng.randrange(1 << 20), 'pick': rng.randrange(5),
                     'v': D.gen_value(rng, .02), 'tree': D.gen_tree(rng, 1, 3, .02)}
            ops.append(o)
        clients.append({'init': D.gen_tree(rng, 2, 5, .02), 'ops': ops})
    plan = {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3])} if nc > 1 else {'mode': 'serial'}
    return {'mode': 'hist', 'clients': clients, 'plan': plan}


def snap(path):
    """everything in the file: tree with attributes and links"""
    import h5py

    def at(o):
        return {k: D.digest(np.asarray(v)) if not isinstance(v, (str, bytes)) else repr(v) for k, v in o.attrs.items()}

    def rd(g):
        out = {'@': at(g)}
        for k in g.keys():
            ln = g.get(k, getlink=True)
            if isinstance(ln, h5py.SoftLink):
                out[k] = ('soft', ln.path)
            elif isinstance(ln, h5py.ExternalLink):
                out[k] = ('ext', ln.filename, ln.path)
            else:
                o = g[k]
                out[k] = rd(o) if isinstance(o, h5py.Group) else ('ds', D.digest(np.asarray(o[()])) if not isinstance(
                    o[()], bytes) else repr(o[()]), at(o))
        return out
    with h5py.File(path, 'r') as f:
        return rd(f)


class Client:
    def __init__(self, ctx, c, init):
        self.ctx, self.c = ctx, c
        self.path = os.path.join(ctx.scratch, f'f{c}.h5')

    def file_op(self, i, o):
        """File(path, flag) / dump_to(f_flag) / to_h5_file(f_flag) on an existing or missing path"""
        from pyhipp.io import h5
        from pyhipp.io.h5.abc import GroupLike
        ctx, sh = self.ctx, self.ctx.shim
        p = self.path if not o.get('missing') else f'{self.path}.{o["r"]}'
        odd = o.get('odd')
        if odd:         # something of that name which is no HDF5 file
            p = f'{self.path}.{i}.odd'
            if odd == 'dir':
                os.mkdir(p)
            else:
                raw = b'' if odd == 'empty' else b'no HDF5 file\n' * (1 + o['r'] % 300)
                if odd == 'cut':
                    with open(self.path, 'rb') as f:
                        raw = f.read(5 + o['r'] % 400)
                with open(p, 'wb') as f:
                    f.write(raw)
        exists = os.path.exists(p)
        before = snap(p) if exists and not odd else None
        flag, how = o['flag'], o['how']
        name = f'n{o["r"]}'
        if how == 'open':
            def fn():
                f = h5.File(p, flag)
                f.close()
        elif how == 'dump':
            def fn():
                h5.File.dump_to(p, {name: 1}, f_flag=flag)
        else:
            class L(GroupLike):
                h5_data_typedict = {name: int}
            ob = L()
            setattr(ob, name, 1)

            def fn():
                ob.to_h5_file(p, f_flag=flag)
        rule = None
        if o['io']:
            rule = sh.rule('OPEN', sh.count('OPEN') + o['io']['k'], 1, 1, o['io']['e'])
        out = ctx.call(f'{self.c}.{i}', fn)
        hit = 0
        if rule is not None:
            hit = sh.fired(rule)
            sh.clear_rules()
            ctx.fault('err-open', hit)
        what = f'client {self.c} call {i}: {how} with file flag {flag!r} on {"an existing" if exists else "a missing"} file: {out!r}'
        known = flag in ('r', 'a', 'x', 'ac', 'ca', 'w')
        ok = known and (flag in ('ac', 'ca', 'w') or (flag == 'x') != exists)
        if how != 'open' and flag == 'r':
            ok = False
        ctx.state(('file', how, flag, odd or exists, bool(hit), out.kind))
        if odd == 'empty' and flag in ('a', 'ac', 'ca'):
            return      # libhdf5 takes a file of no bytes for a new one when opened for writing
        if odd:
            ctx.check(out.ok == (flag == 'w' and odd != 'dir') or hit and not out.ok, 'wrong-outcome', f'{what} ({odd})', flag=str(flag), exists=odd)
            if not known:
                ctx.check(out.isa(ValueError), 'wrong-outcome', f'{what}, expected ValueError', flag=str(flag), exists=odd)
            if out.ok:
                now = snap(p)
                ctx.check(now == {'@': {}} if how == 'open' else name in now and self.kept({'@': {}}, now, name), 'contents-changed', f'{what} ({odd}): {now}', flag=str(flag))
            elif odd == 'dir':
                ctx.check(os.path.isdir(p) and not os.listdir(p), 'contents-changed', f'{what} changed the directory', flag=str(flag))
            elif not (flag == 'w' and hit):
                with open(p, 'rb') as f:
                    ctx.check(f.read() == raw, 'contents-changed', f'{what} changed the file ({odd})', flag=str(flag))
            return
        if hit:
            now = snap(p) if os.path.exists(p) else None
            if not out.ok and flag not in ('w',):
                ctx.check(now == before or (before is None and now == {'@': {}}), 'contents-changed',
                          f'{what} (open failed) changed the file: {before} -> {now}')
            elif flag != 'w' and exists:
                ctx.check(self.kept(before, now, name), 'contents-changed', f'{what}: {before} -> {now}')
            return
        ctx.check(out.ok == ok, 'wrong-outcome', f'{what}, expected {"success" if ok else "failure"}', flag=str(flag), exists=exists)
        if not known:
            ctx.check(out.isa(ValueError), 'wrong-outcome', f'{what}, expected ValueError', flag=str(flag), exists=exists)
        now = snap(p) if os.path.exists(p) else None
        if not out.ok:
            ctx.nontrivial = True
            ctx.check(now == before, 'contents-changed', f'{what} changed the file: {before} -> {now}', flag=str(flag))
        else:
            base = before if exists and flag != 'w' else {'@': {}}
            if how == 'open':
                ctx.check(now == base, 'contents-changed', f'{what}: {base} -> {now}', flag=str(flag))
            else:
                ctx.check(name in now and self.kept(base, now, name), 'contents-changed', f'{what}: {base} -> {now}', flag=str(flag))

    def kept(self, before, now, name):
        return now is not None and {k: v for k, v in now.items() if k != name} == before

    def obj_op(self, f, i, o):
        from pyhipp.io import h5
        import h5py
        ctx, k, flag, r = self.ctx, o['k'], o['flag'], o['r']
        R = D.raw(f)
        gs = [''] + [n for n in sorted(R.keys()) if isinstance(R.get(n), h5py.Group)]
        gname = gs[r % len(gs)]
        H = f if not gname else f[gname]
        G = R if not gname else R[gname]
        names = sorted(G.keys())
        ds = [n for n in names if isinstance(G.get(n), h5py.Dataset)]
        gr = [n for n in names if isinstance(G.get(n), h5py.Group)]
        name = {0: f'new{r % 7}', 1: ds[r % len(ds)] if ds else 'new', 2: gr[r % len(gr)] if gr else 'new',
                3: names[r % len(names)] if names else 'new', 4: f'new{r % 3}'}[o['pick']]
        is_link = name in G and not isinstance(G.get(name, getlink=True), h5py.HardLink)
        is_dangling = is_link and G.get(name) is None
        kind = 'none' if name not in G else 'ds' if isinstance(G.get(name), h5py.Dataset) else 'grp' if isinstance(
            G.get(name), h5py.Group) else 'dangling'
        known = flag in ('x', 'ac', 'ca')
        before = self.view(R)
        val = D.build(o['v'])
        cur = G.get(name)
        what0 = f'client {self.c} call {i}: {k}({name!r}, flag={flag!r}) in /{gname}, name is {kind}'
        want = None     # what the name must look like afterwards on success
        ok = known and (kind == 'none' or flag != 'x')
        err = ValueError
        same_type = None
        if k == 'group':
            fn = lambda: H.create_group(name, flag=flag)
            ok = ok and kind in ('none', 'grp')
            same_type = lambda v: isinstance(v, h5py.Group) and (kind == 'none' and len(v) == 0 or kind == 'grp')
        elif k == 'dset':
            if kind == 'ds' and o['pick'] != 3 and cur.dtype.kind in 'iuf':
                val = D.fill(cur.dtype.str, list(cur.shape), r)
            fn = lambda: H.datasets.create(name, val, flag=flag)
            ok = ok and kind in ('none', 'ds')
            if kind == 'ds' and known and flag != 'x':
                old = cur[()]
                if not (isinstance(val, np.ndarray) and val.dtype == cur.dtype and val.shape == cur.shape):
                    ok, err = None, Exception
                shape, dt = cur.shape, cur.dtype

                def same_type(v):
                    return v.shape == shape and v.dtype == dt and (ok is None or D.same(v[()], D.expect(val)) is None)
            else:
                same_type = lambda v: isinstance(v, h5py.Dataset) and D.same(v[()], D.expect(val)) is None
        elif k == 'empty':
            fn = lambda: H.datasets.create_empty(name, (3, 2), 'f4', flag=flag)
            ok = ok and kind in ('none', 'ds')
            if kind == 'ds':
                oldv = cur[()]
                same_type = lambda v: D.digest(np.asarray(v[()])) == D.digest(np.asarray(oldv))
            else:
                same_type = lambda v: v.shape == (3, 2) and v.dtype == np.dtype('f4')
        elif k in ('soft', 'ext'):
            fn = (lambda: H.create_soft_link(name, '/new_target', flag=flag)) if k == 'soft' else \
                (lambda: H.create_external_link(name, 'other.h5', '/x', flag=flag))
        elif k in ('attr', 'aempty'):
            holder = H
            if ds and r & 8:
                holder = H[ds[r % len(ds)]]
            A = D.raw(holder).attrs
            an = [f'at{r % 4}', 'fresh%d' % r][r & 1]
            has = an in A
            ok = known and (not has or flag != 'x')
            val = np.arange(4) * (r % 100)
            old = A[an] if has else None
            if k == 'attr':
                if not has and r & 4:
                    val = 'text'
                if has and isinstance(old, str):
                    val = 'other'
                elif has:
                    val = val if r & 64 else np.arange(4) + .75
                    if r & 128:
                        val, ok, err = np.arange(5), (None if ok else ok), Exception
                fn = lambda: holder.attrs.create(an, val, flag=flag)
            else:
                fn = lambda: holder.attrs.create_empty(an, (4,), 'i8', flag=flag)
            what0 = f'client {self.c} call {i}: {k}({an!r}, flag={flag!r}), {"exists" if has else "free"}'
            out = ctx.call(f'{self.c}.{i}', fn)
            what = f'{what0}: {out!r}'
            ctx.state((k, flag, has, out.kind))
            if ok is not None:
                ctx.check(out.ok == ok, 'wrong-outcome', what, op=k, flag=str(flag))
            if not out.ok:
                ctx.check(out.isa(err), 'wrong-outcome', f'{what}, expected {err.__name__}', op=k, flag=str(flag))
                ctx.check(self.view(R) == before, 'contents-changed', f'{what} changed the file', op=k)
                return
            now = A[an]
            if k == 'attr' and not has or k == 'attr' and isinstance(old, str):
                good = isinstance(now, str) and now == val if isinstance(val, str) else np.array_equal(now, val)
            elif k == 'attr':
                good = now.dtype == old.dtype and now.shape == old.shape and (ok is None or np.array_equal(
                    now, np.asarray(val).astype(old.dtype)))
            else:
                good = D.digest(np.asarray(now)) == D.digest(np.asarray(old)) if has and not isinstance(old, str) else \
                    isinstance(now, str) and now == old if has else now.shape == (4,) and now.dtype == np.dtype('i8')
            ctx.check(good, 'contents-changed', f'{what}: {old!r} -> {now!r}', op=k, flag=str(flag))
            rest = self.view(R)
            for v in (rest, before):
                v.get(D.raw(holder).name, ('', {}))[1].pop(an, None)
            ctx.check(rest == before, 'contents-changed', f'{what} changed something else', op=k)
            return
        elif k in ('dump', 'gdump', 'ddump', 'adump'):
            if not known and k == 'dump' and not o['tree']:
                return
            if k == 'adump':
                d = {f'at{r % 4}': np.arange(4), f'au{r % 3}': 'text'}
                bad = [a for a in d if a in D.raw(H).attrs]
                ok = known and (not bad or flag != 'x')
                fn = lambda: H.attrs.dump(d, flag=flag)
                for a in bad:
                    if isinstance(D.raw(H).attrs[a], str) != isinstance(d[a], str):
                        return
            elif k == 'gdump':
                if gname == '' or kind != 'none':
                    return
                d = D.build_tree(o['tree'])
                fn = lambda: H.create_group(name, flag=flag).dump(d, flag=flag)
                ok = known
            else:
                d = {n: np.arange(3) for n in [f'new{r % 7}', f'nx{r % 5}']}
                bad = [n for n in d if n in G]
                for n in bad:
                    if not isinstance(G.get(n), h5py.Dataset) or G[n].shape != (3,) or G[n].dtype.kind != 'i':
                        return
                ok = known and (not bad or flag != 'x')
                fn = (lambda: H.dump(d, flag=flag)) if k == 'dump' else (lambda: H.datasets.dump(d, flag=flag))
            out = ctx.call(f'{self.c}.{i}', fn)
            what = f'{what0}: {out!r}'
            ctx.state((k, flag, kind, out.kind))
            ctx.check(out.ok == ok or k == 'gdump' and not known, 'wrong-outcome', what, op=k, flag=str(flag))
            if not out.ok:
                ctx.check(out.isa(ValueError), 'wrong-outcome', what, op=k, flag=str(flag))
            now = self.view(R)
            # an update of several names: each old entry kept or - only with open-or-create - overwritten
            for q, v in before.items():
                touched = any(q.rstrip('/') == (G.name.rstrip('/') + '/' + n) for n in d) or q == G.name
                if not touched or (flag == 'x' and q != G.name):
                    ctx.check(now.get(q) == v, 'contents-changed', f'{what}: {q}: {v} -> {now.get(q)}', op=k, flag=str(flag))
            return
        out = ctx.call(f'{self.c}.{i}', fn)
        what = f'{what0}: {out!r}'
        ctx.state((k, flag, kind, out.kind))
        if kind == 'dangling' and k not in ('soft', 'ext') and known:
            # neither same kind nor another: only that it fails and nothing changes
            ok, err = False, Exception
        if ok is not None:
            ctx.check(out.ok == ok, 'wrong-outcome', f'{what}, expected {"success" if ok else "failure"}', op=k, flag=str(flag), name=kind)
        now = self.view(R)
        if not out.ok:
            ctx.nontrivial = True
            ctx.check(out.isa(err), 'wrong-outcome', f'{what}, expected {err.__name__}', op=k, flag=str(flag), name=kind)
            ctx.check(now == before, 'contents-changed', f'{what} changed the file', op=k)
            return
        q = G.name.rstrip('/') + '/' + name
        if k in ('soft', 'ext'):
            if kind != 'none':
                ctx.check(now == before, 'contents-changed', f'{what} changed the file', op=k)
            else:
                ln = G.get(name, getlink=True)
                good = isinstance(ln, h5py.SoftLink) and ln.path == '/new_target' if k == 'soft' else \
                    isinstance(ln, h5py.ExternalLink) and (ln.filename, ln.path) == ('other.h5', '/x')
                ctx.check(good, 'wrong-outcome', f'{what}: {ln}', op=k)
        else:
            ctx.check(same_type(G[name]), 'contents-changed', f'{what}: is {G[name]!r} {D.digest(np.asarray(G[name][()])) if isinstance(G[name], h5py.Dataset) else ""}', op=k, flag=str(flag), name=kind)
            if out.value is not None and kind == 'none':
                ctx.check(D.raw(out.value) == G[name], 'wrong-outcome', f'{what}: returned another object', op=k)
        if k == 'dset' and is_link:
            return      # written through the link
        rest = {a: b for a, b in now.items() if a != q}
        prev = {a: b for a, b in before.items() if a != q}
        ctx.check(rest == prev, 'contents-changed', f'{what} changed something else', op=k)

    def view(self, R):
        """flat picture of an open file: path -> (contents, attributes)"""
        import h5py
        out = {}

        def at(o):
            return {a: D.digest(np.asarray(v)) if not isinstance(v, (str, bytes)) else repr(v) for a, v in o.attrs.items()}

        def rd(g):
            out[g.name] = ('grp', at(g))
            for n in g.keys():
                ln = g.get(n, getlink=True)
                q = g.name.rstrip('/') + '/' + n
                if not isinstance(ln, h5py.HardLink):
                    out[q] = (type(ln).__name__, {'path': ln.path})
                    continue
                x = g[n]
                if isinstance(x, h5py.Group):
                    rd(x)
                else:
                    v = x[()]
                    out[q] = (repr(v) if isinstance(v, bytes) else D.digest(np.asarray(v)), at(x))
        rd(R['/'])
        return out

    def body(self, cl):
        from pyhipp.io import h5
        f = None
        for i, o in enumerate(cl['ops']):
            if o['k'] == 'file':
                if f is not None:
                    f.close()
                    f = None
                self.file_op(i, o)
            else:
                if f is None:
                    f = h5.File(self.path, 'a')
                self.obj_op(f, i, o)
            self.ctx.event(self.c, i, o['k'], o['flag'])
            self.ctx.pause()
        if f is not None:
            f.close()


def race(sc, ctx):
    from pyhipp.io import h5
    from pyhipp.io.h5.abc import GroupLike
    p = os.path.join(ctx.scratch, 'r.h5')
    what = sc['what']
    n = len(sc['clients'])
    res = {}
    if what in ('file', 'dumpfile', 'likefile'):
        def body(c, v):
            if what == 'file':
                def fn():
                    with h5.File(p, 'x') as f:
                        f.datasets.create('who', v)
            elif what == 'dumpfile':
                def fn():
                    h5.File.dump_to(p, {'who': v, 'more': np.arange(5)}, f_flag='x')
            else:
                class L(GroupLike):
                    h5_data_typedict = {'who': int}
                    who = v

                def fn():
                    L().to_h5_file(p)
            out = ctx.call(f'{c}.0', fn)
            res.setdefault(c, []).append((out, v))
            ctx.pause()
            if sc['clients'][c]['again']:
                res[c].append((ctx.call(f'{c}.1', fn), v))
        ctx.run_clients([lambda c=c, v=cl['v']: body(c, v) for c, cl in enumerate(sc['clients'])])
        tree = D.raw_read(p)
        got = int(tree['who'])
    else:
        f = h5.File(p, 'x')
        g = f.create_group('a') if sc['deep'] else f

        def body(c, v):
            if what == 'group':
                fn = lambda: g.create_group('n')
            elif what == 'dset':
                fn = lambda: g.datasets.create('n', v)
            elif what == 'empty':
                fn = lambda: g.datasets.create_empty('n', (c + 1,), 'f8')
            elif what == 'soft':
                fn = lambda: g.create_soft_link('n', f'/t{v}')
            else:
                fn = lambda: g.dump({'n': {'who': v}})
            out = ctx.call(f'{c}.0', fn)
            if what == 'group' and out.ok:
                out.value.datasets.create('who', v)
            res.setdefault(c, []).append((out, v))
            ctx.pause()
            if sc['clients'][c]['again']:
                res[c].append((ctx.call(f'{c}.1', fn), v))
        ctx.run_clients([lambda c=c, v=cl['v']: body(c, v) for c, cl in enumerate(sc['clients'])])
        R = D.raw(g)
        if what == 'dset':
            got = int(R['n'][()])
        elif what == 'empty':
            got = sc['clients'][R['n'].shape[0] - 1]['v']
        elif what == 'soft':
            got = int(R.get('n', getlink=True).path[2:])
        else:
            got = int(R['n/who'][()])
        f.close()
    outs = [(c, repr(o), v) for c, l in sorted(res.items()) for o, v in l]
    win = [(c, v) for c, l in sorted(res.items()) for o, v in l if o.ok]
    ctx.event(what, outs)
    ctx.state(('race', what, tuple(sorted(o.kind for l in res.values() for o, _ in l))))
    ctx.check(len(win) == 1, 'not-exclusive', f'{what}: {len(win)} clients succeeded in creating one name: {outs}', op=what)
    ctx.check(win[0][1] == got, 'not-exclusive', f'{what}: winner {win[0]} but found {got}: {outs}', op=what)


def seed_attrs(path):
    """some attributes to collide with"""
    import h5py
    with h5py.File(path, 'r+') as f:
        for j, o in enumerate([f] + [f[n] for n in sorted(f.keys())]):
            for q in range(4):
                if (q + j) % 3:
                    o.attrs[f'at{q}'] = np.arange(4) * 7 + j if (q + j) % 2 else f'text {j}'


def run(sc, ctx):
    from pyhipp.io import h5
    ctx.shim.enable(ctx.scratch, False)
    if sc['mode'] == 'race':
        return race(sc, ctx)
    cs = [Client(ctx, c, cl['init']) for c, cl in enumerate(sc['clients'])]
    for k, cl in zip(cs, sc['clients']):
        h5.File.dump_to(k.path, D.build_tree(cl['init']))
        seed_attrs(k.path)
    ctx.run_clients([lambda k=k, cl=cl: k.body(cl) for k, cl in zip(cs, sc['clients'])])
