"""C16  Predefined cosmologies load correctly or raise, and can be retried.

Clients ask for cosmologies and their tabulated halo quantities, from the real data
directory or a generated one whose files are missing, damaged or repaired while
they ask; disks fail and calls are interrupted.  The files themselves say what
every answer must be."""
import errno, gc, json, os, shutil
from pathlib import Path
import numpy as np
import h5py

PROP = 'C16'
RUNS = {'quick': 900, 'thorough': 20000}
RULE = ('one run = 1-3 clients making 3-10 requests (models by name, known or unknown, halo quantities, models from a file) of the real data directory or a '
        'generated one with missing, damaged and later repaired files, under a line-level schedule with I/O errors, short reads and '
        'interruptions; non-trivial = client switch or fault fired')
STATE = 'distinct (directory kind, request, file condition, outcome)'
REAL = ['pyhipp.astro.cosmology (model, param, halo_theory)', 'pyhipp.core.abc', 'h5py/libhdf5, json, astropy, scipy', 'kernel file system']
STUB = ['open/read errors and short reads (libc shim)', 'location of the package data in half of the runs (importlib_resources)', 'thread choice and interruption points (simulated scheduler)', 'whoever repairs or breaks the files']
ASSUME = ['files are replaced atomically (rename)']
SHRINK = ('io', 'vs', 'files')

ATTR = {'hubble': 'hubble', 'omega_m0': 'omega_m0', 'omega_l0': 'omega_l0', 'omega_b0': 'omega_b0', 'sigma_8': 'sigma_8', 'n_spec': 'n_spec', 't_cmb': 't_cmb'}


def warmup(tmp):
    from pyhipp.astro.cosmology.model import predefined
    m = predefined['tng']
    from pyhipp.astro.cosmology.halo_theory import HaloTheory
    HaloTheory(m.halo_theory.data_file, m).lg_sigma(1.)
    repr(m.params)


def gen(rng, tier, i):
    real = rng.random() < .45
    names = ['tng', 'eagle', '_737', 'elucid', 'elucid_wmap9', 'millennium', 'millennium_wmap7'] if real else ['tng', 'eagle', 'x1', 'x 2', 'été', '_v', 'A']
    files = {}
    if not real:
        for n in names:
            pre = []
            if n not in ('tng', 'eagle'):
                pre = [rng.choice(['gone', 'empty', 'text', 'cut', 'noparam', 'nohubble', 'nodir', 'noname', 'list', 'str']) for _ in range(rng.choice([0, 0, 1, 2]))]
            post = [rng.choice(['gone', 'empty', 'text'])] if rng.random() < .2 else []
            files[n + '.json'] = {'vs': pre + ['ok'] + post, 'v': rng.randrange(1 << 30)}
        for d in ('d0', 'd1'):
            pre = [rng.choice(['gone', 'empty', 'text', 'cut', 'noset', 'nogroup', 'len']) for _ in range(rng.choice([0, 0, 1, 2]))]
            files[d + '/data.hdf5'] = {'vs': pre + ['ok'], 'v': rng.randrange(1 << 30)}
    nc = rng.choice([1, 1, 2, 3])
    clients, faults = [], []
    some = rng.sample(names, rng.choice([1, 2, 3]))
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(3, 11)):
            r = rng.random()
            n = rng.choice(some)
            if r < .35:
                o = {'k': 'get', 'n': n}
            elif r < .75:
                o = {'k': 'halo', 'n': n, 'q': rng.choice(['lg_sigma', 'dlg_sigma_dlg_m', 'lg_delta_c']), 'v': rng.randrange(1 << 30), 'out': rng.random() < .12}
            elif r < .85:
                o = {'k': 'unknown', 'n': rng.choice(['nope', 'TNG', '', 'tng.json', 'elucid/data', 'simba', 'tng ', None, 5])}
            elif r < .93:
                o = {'k': 'file', 'n': n}
            else:
                o = {'k': 'list', 'n': n}
            ops.append(o)
            if rng.random() < .12:
                faults.append({'op': f'{c}.{j}', 'line': rng.choice([rng.randrange(1, 12), rng.randrange(1, 60)]), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
            if not real and rng.random() < .4:
                ops.append({'k': 'step', 'f': rng.choice(sorted(files))})
        clients.append({'ops': ops})
    io = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        s = rng.choice(['OPEN', 'READ', 'READ'])
        act = 'err' if s == 'OPEN' else rng.choice(['err', 'short', 'short'])
        if nc > 1 and act == 'err':
            continue
        io.append({'sys': s, 'nth': rng.randrange(6) if s == 'OPEN' else rng.choice([rng.randrange(6), rng.randrange(60)]), 'n': rng.choice([1, 1, 2, 5]), 'act': act,
                   'e': rng.choice([errno.EIO, errno.EIO, errno.EMFILE, errno.EACCES]), 'max': rng.choice([1, 7, 100])})
    return {'real': real, 'files': [dict(v, p=k) for k, v in files.items()], 'names': names, 'clients': clients, 'faults': faults, 'io': io,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3])}}


class Files:
    """the generated data directory"""

    def __init__(self, sc, root):
        self.root, self.at = root, {}
        for f in sc['files']:
            self.at[f['p']] = [f, -1]
        for p in sorted(self.at):
            os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
            self.step(p)

    def good(self, p):
        f, k = self.at[p]
        return f['vs'][k] == 'ok'

    def step(self, p):
        f, k = self.at[p]
        if k + 1 >= len(f['vs']):
            return
        self.at[p][1] = k + 1
        kind = f['vs'][k + 1]
        path = os.path.join(self.root, p)
        if kind == 'gone':
            if os.path.exists(path):
                os.unlink(path)
            return
        b = b'' if kind == 'empty' else b'not a file of this kind {"a": \n' if kind == 'text' else self.json(f, kind) if p.endswith('.json') else self.table(f, kind)
        with open(path + '.new', 'wb') as o:
            o.write(b)
        os.rename(path + '.new', path)

    @staticmethod
    def conf(f):
        rs = np.random.RandomState(f['v'])
        om = round(float(rs.uniform(.2, .4)), 4)
        return {'name': f['p'][:-5] if f['v'] & 1 else 'The ' + f['p'][:-5], 'measurement': 'é' * rs.randint(0, 5), 'data_dir': f'd{f["v"] % 2}',
                'parameters': {'hubble': round(float(rs.uniform(.6, .8)), 4), 'omega_m0': om, 'omega_l0': round(1 - om, 4), 'omega_b0': round(float(rs.uniform(.04, .05)), 4),
                               'sigma_8': .8, 'n_spec': 1, 't_cmb': 2.7255, 'extra': int(rs.randint(100))}, 'note': [1, {'a': None}]}

    def json(self, f, kind):
        d = self.conf(f)
        if kind == 'noparam':
            del d['parameters']
        elif kind == 'nohubble':
            del d['parameters']['hubble']
        elif kind == 'nodir':
            del d['data_dir']
        elif kind == 'noname':
            del d['name']
        elif kind == 'str':
            d['parameters']['hubble'] = 'fast'
        elif kind == 'list':
            d = [d]
        t = json.dumps(d, ensure_ascii=False, indent=f['v'] % 3).encode()
        return t[:f['v'] % max(1, len(t) - 1)] if kind == 'cut' else t

    @staticmethod
    def tab(f):
        rs = np.random.RandomState(f['v'])
        n, m = rs.randint(2, 40), rs.randint(2, 40)
        z, lg_m = np.sort(rs.uniform(0, 20, n)), np.sort(rs.uniform(-3, 6, m))
        return {'LgDeltaC/z': z, 'LgDeltaC/lg_delta_c': rs.standard_normal(n), 'LgSigma/lg_m': lg_m, 'LgSigma/lg_sigma': rs.standard_normal(m), 'LgSigma/dlg_sigma_dlg_m': rs.standard_normal(m)}

    def table(self, f, kind):
        t = self.tab(f)
        ks = sorted(t)
        if kind == 'noset':
            del t[ks[f['v'] % len(ks)]]
        elif kind == 'nogroup':
            t = {k: v for k, v in t.items() if k[:5] != ('LgDel' if f['v'] & 1 else 'LgSig')}
        elif kind == 'len':
            t[ks[f['v'] % len(ks)]] = np.arange(60.)
        path = os.path.join(self.root, '.tmp.h5')
        with h5py.File(path, 'w') as h:
            for k, v in t.items():
                h[k] = v
        with open(path, 'rb') as o:
            b = o.read()
        os.unlink(path)
        return b[:f['v'] % (len(b) - 1)] if kind == 'cut' else b


def run(sc, ctx):
    from sim import h5data as D
    from pyhipp.astro.cosmology import model as M
    import importlib_resources
    sh = ctx.shim
    fl = None
    if sc['real']:
        from pyhipp import astro
        root = os.path.join(os.path.dirname(astro.__file__), 'data', 'cosmologies')
        pre = M.predefined
    else:
        root = os.path.join(ctx.scratch, 'cosmologies')
        os.makedirs(root)
        if {'tng.json', 'eagle.json'} - {f['p'] for f in sc['files']} or any('ok' not in f['vs'] for f in sc['files']):
            return
        fl = Files(sc, root)
        os.makedirs(os.path.join(ctx.scratch, 'data'))
        os.rename(root, os.path.join(ctx.scratch, 'data', 'cosmologies'))
        root = fl.root = os.path.join(ctx.scratch, 'data', 'cosmologies')
        mods = [importlib_resources]
        import importlib.resources as std
        mods.append(std)
        keep = [m.files for m in mods]
        for m in mods:
            m.files = lambda *a, **k: Path(ctx.scratch)
        for p in ('tng.json', 'eagle.json'):
            while not fl.good(p):
                fl.step(p)
        pre = type(M.predefined)()
        for m, f in zip(mods, keep):
            m.files = f
        with pre.data_dir as p:
            if str(p) != root:
                ctx.probe('data directory not redirected')
                return
    tables = {}

    def conf(n):
        if sc['real']:
            with open(os.path.join(root, n + '.json')) as f:
                return json.load(f)
        return Files.conf(fl.at[n + '.json'][0])

    def table(d):
        if d not in tables:
            if sc['real']:
                with h5py.File(os.path.join(root, d, 'data.hdf5'), 'r') as h:
                    tables[d] = {f'{g}/{k}': h[g][k][()] for g in h for k in h[g]}
            else:
                tables[d] = Files.tab(fl.at[d + '/data.hdf5'][0])
        return tables[d]
    confs = {n: conf(n) for n in sc['names'] if sc['real'] or n + '.json' in fl.at}
    for cf in confs.values():
        if not sc['real'] and cf['data_dir'] + '/data.hdf5' not in fl.at:
            return
        table(cf['data_dir'])
    if sc['real']:          # files of the repository: watched, never changed
        before = {str(p): p.read_bytes() for p in sorted(Path(root).rglob('*')) if p.is_file()} if sc['seed'] % 8 == 0 else {}
    sh.enable(root, False)
    b = {s: sh.count(s) for s in ('OPEN', 'READ')}
    rules = [sh.rule(f['sys'], b[f['sys']] + f['nth'], f['n'], 2 if f['act'] == 'short' else 1, f['max'] if f['act'] == 'short' else f['e']) for f in sc['io']]

    def fired():
        return sum(sh.fired(r) for f, r in zip(sc['io'], rules) if f['act'] == 'err')
    single = len(sc['clients']) == 1
    got = {}
    asked_for, could = set(), {'tng', 'eagle'}      # names requested so far; names whose good file a request may have seen

    def verify_model(m, n, what):
        cf = confs[n]
        ctx.check(isinstance(m, M.LambdaCDM), 'model-wrong', f'{what}: {type(m)}')
        ctx.check(m.name == cf['name'] and str(m.data_dir) == os.path.join(root, cf['data_dir']), 'model-wrong', lambda: f'{what}: {m.name} in {m.data_dir}')
        ctx.check(m.meta == {k: v for k, v in cf.items() if k not in ('name', 'data_dir', 'parameters')}, 'model-wrong', lambda: f'{what}: meta {m.meta}')
        ps = {p.name: p.value.item() for p in m.params}
        ctx.check(ps == cf['parameters'], 'model-wrong', lambda: f'{what}: parameters {ps}, in the file {cf["parameters"]}')
        for a, k in ATTR.items():
            if k in ps:
                ctx.check(float(getattr(m, a)) == float(ps[k]), 'model-wrong', lambda: f'{what}: {a} = {getattr(m, a)}, in the file {ps[k]}')
        ctx.check(abs(m.astropy_model.h - ps['hubble']) < 1e-12 and abs(m.astropy_model.Om0 - ps['omega_m0']) < 1e-12 and abs(m.astropy_model.Ob0 - ps['omega_b0']) < 1e-12,
                  'model-wrong', f'{what}: {m.astropy_model}')

    def state(n):
        if sc['real']:
            return True
        return fl.good(n + '.json')

    def body(c, cl):
        for j, o in enumerate(cl['ops']):
            k = o['k']
            what = f'client {c} request {j}: {o}'
            if k == 'step':
                if fl is not None and o['f'] in fl.at:
                    with ctx.quiet():
                        sh.nofault()
                        fl.step(o['f'])
                        sh.nofault(False)
                        could.update(n for n in asked_for if state(n))
                        ctx.fault('file replaced')
                continue
            if k != 'unknown' and o['n'] not in confs:
                continue
            n0, g0 = fired(), state(o['n']) if k != 'unknown' else None
            n = o['n']
            cached = n in got
            if k in ('get', 'halo'):
                asked_for.add(n)
                if g0:
                    could.add(n)
            d = confs[n]['data_dir'] if k != 'unknown' else None
            t0 = sc['real'] or d is None or fl.good(d + '/data.hdf5')
            if k == 'halo':
                with ctx.quiet():
                    T = table(d)
                    xk, yk = {'lg_sigma': ('LgSigma/lg_m', 'LgSigma/lg_sigma'), 'dlg_sigma_dlg_m': ('LgSigma/lg_m', 'LgSigma/dlg_sigma_dlg_m'), 'lg_delta_c': ('LgDeltaC/z', 'LgDeltaC/lg_delta_c')}[o['q']]
                    rs = np.random.RandomState(o['v'])
                    x = rs.uniform(T[xk][0], T[xk][-1], rs.choice([1, 5]))
                    if o['v'] & 1:
                        x[0] = T[xk][rs.randint(len(T[xk]))]
                    if o.get('out'):
                        x[-1] = [T[xk][0] - 1e-3, T[xk][-1] + 1e-3, T[xk][0] - 50., T[xk][-1] + 1e6][o['v'] % 4]
                    want = np.interp(x, T[xk], T[yk])
                f = lambda: getattr(pre[n].halo_theory, o['q'])(x)
            elif k in ('get', 'unknown'):
                f = lambda: pre[n]
            elif k == 'file':
                f = lambda: M.LambdaCDM.from_conf_file(Path(root) / f'{n}.json')
            else:
                f = lambda: pre.to_simple_repr()
            held = []

            def g():
                try:
                    return f()
                except Exception:
                    if single:          # while the error is being handled, i.e. without help from the garbage collector
                        held.append((sh.open_fds(), D.obj_count()))
                    raise
            out = ctx.call(f'{c}.{j}', g)
            with ctx.quiet():
                hit = fired() - n0
                what += f': {out!r}'
                good = state(n) and g0 if k != 'unknown' else None
                bad = not (state(n) or g0) if k != 'unknown' else None
                ctx.event(c, j, k, out.kind)
                ctx.state((sc['real'], k, o.get('q'), good, bad, out.kind))
                if k == 'unknown':
                    ctx.check(not out.ok, 'unknown-accepted', what)
                elif k == 'list':
                    if out.ok:
                        ms = out.value['models']
                        ctx.check(set(ms) <= set(confs) and set(got) <= set(ms), 'model-wrong', f'{what}: lists {sorted(ms)}, loaded so far {sorted(got)}')
                    else:
                        ctx.check(out.injected or hit or not single and out.isa(RuntimeError), 'request-failed', what)      # listing while others load
                elif out.ok:
                    if k in ('get', 'file'):
                        ctx.check(not bad or k == 'get' and n in could, 'model-wrong', f'{what}: its file was missing or damaged')
                        verify_model(out.value, n, what)
                        if k == 'get':
                            if n in got:
                                ctx.check(out.value is got[n], 'not-the-same', f'{what}: another object than before')
                            else:
                                got[n] = out.value
                    else:
                        ctx.check(not o.get('out'), 'out-of-range-accepted', lambda: f'{what}: {x} outside the table gave {out.value}')
                        ctx.check(np.shape(out.value) == x.shape and np.allclose(out.value, want, rtol=1e-9, atol=1e-12), 'table-wrong', lambda: f'{what}: at {x} got {out.value}, the table gives {want}')
                        if n not in got:
                            got[n] = pre[n]
                            verify_model(got[n], n, what)
                else:
                    t1 = sc['real'] or fl.good(d + '/data.hdf5')
                    ok = out.injected or hit or not good and not (cached and k == 'get')
                    if k == 'halo':
                        ok = ok or not (t0 and t1) or bool(o.get('out'))
                    ctx.check(ok, 'request-failed', what)
                    if cached and k == 'get':
                        ctx.check(out.injected, 'request-failed', f'{what}: it had been loaded before')
                if held and not fired() and not out.injected:
                    ctx.check(held == [(0, 0)], 'not-closed', f'{what}: {held[0][0]} descriptors and {held[0][1]} HDF5 handles are open when the error is raised')
                out = None
                if single:
                    gc.collect()
                    if not fired() or k == 'file':
                        ctx.check(sh.open_fds() == 0 or fired() and any(q['k'] == 'halo' for q in cl['ops'][:j]), 'not-closed', f'{what}: a file is still open')
                    ctx.check(D.obj_count() == 0, 'not-closed', f'{what}: an HDF5 handle is still open')
            ctx.pause()
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    for f, r in zip(sc['io'], rules):
        ctx.fault(f'{f["act"]}-{f["sys"].lower()}', sh.fired(r))
    sh.clear_rules()
    # once faults stop and the files are repaired every request succeeds
    if fl is not None:
        for p in sorted(fl.at):
            if not fl.good(p):
                f = fl.at[p][0]
                fl.at[p][1] = f['vs'].index('ok') - 1
                fl.step(p)
    asked = {o['n'] for cl in sc['clients'] for o in cl['ops'] if o['k'] in ('get', 'halo') and o['n'] in confs}
    for n in sorted(asked):
        out = ctx.call('end', lambda: pre[n])
        ctx.check(out.ok, 'request-failed', f'after the run, faults over and files repaired: {n}: {out!r}')
        m = out.value
        verify_model(m, n, f'after the run: {n}')
        ctx.check(n not in got or m is got[n], 'not-the-same', f'after the run: {n} is another object than before')
        ctx.check(pre[n] is m, 'not-the-same', f'after the run: {n} is another object each time')
        T = table(confs[n]['data_dir'])
        x = np.linspace(T['LgSigma/lg_m'][0], T['LgSigma/lg_m'][-1], 7)
        out = ctx.call('end', lambda: m.halo_theory.lg_sigma(x))
        ctx.check(out.ok, 'request-failed', f'after the run, faults over and files repaired: halo quantities of {n}: {out!r}')
        ctx.check(np.allclose(out.value, np.interp(x, T['LgSigma/lg_m'], T['LgSigma/lg_sigma']), rtol=1e-9, atol=1e-12), 'table-wrong', f'after the run: lg_sigma of {n}')
    gc.collect()
    ctx.check((sh.open_fds() == 0 or fired()) and D.obj_count() == 0, 'not-closed', 'files open at the end')
    if sc['real']:
        for p, v in before.items():
            with open(p, 'rb') as f:
                ctx.check(f.read() == v, 'data-changed', f'{p} was modified')
