"""C24  Field analysis: every result is that of the given field, in memory and through files.

Clients smooth fields, solve for tidal tensors, classify, interpolate, transform and
search neighbours with common fields and common operators, dump results to files and
build classifiers and interpolators from the dumps.  The oracle is plain numpy on the
arrays handed in (brute force for neighbours and interpolation)."""
import gc, os

import numpy as np

PROP = 'C24'
RUNS = {'quick': 1500, 'thorough': 50000}
RULE = ('one run = 1-3 clients applying 2-8 operations each (transforms, smoothing, tidal fields, classification, interpolation, neighbour queries, dumps and reloads, rejected '
        'requests) to common fields and operators under a line-level schedule with interrupts and I/O errors followed by a retry; non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (operation, grid size, method, options, outcome)'
REAL = ['pyhipp.field.cubic_box (fft, smoothing, gravity, cosmic_web, field, mesh; numba)', 'pyhipp.field.neighbor', 'pyhipp.io.h5', 'h5py + libhdf5', 'kernel file system (scratch directory)', 'numpy', 'scipy']
STUB = ['thread choice and interruption points (simulated scheduler)', 'read/open errors and short transfers (libc shim)', 'neighbour visitor (harness)']
ASSUME = ['a call into numba-compiled code, scipy or libhdf5 is atomic', 'values are compared to 1e-9 of the largest (5e-6 for single-precision eigenvalues)']
SIZES = [2, 3, 4, 5, 6, 8]


def visitor():
    import numba
    from numba.experimental import jitclass

    @jitclass
    class Visit:
        xs: numba.float64[:, :]
        rs: numba.float64[:]
        hits: numba.int64[:, :]
        ids: numba.float64[:]

        def __init__(self, xs, rs, hits, ids):
            self.xs = xs
            self.rs = rs
            self.hits = hits
            self.ids = ids

        def on(self, i, x_ngbs):
            for x in x_ngbs:
                for j in range(len(self.ids)):
                    if self.ids[j] == x[0]:
                        self.hits[i, j] += 1
    return Visit


V = []


def warmup(tmp):
    from sim.checks import c01
    c01.warmup(tmp)
    V.append(visitor())
    from sim.core import Ctx  # noqa: F401
    for lay in range(3):
        f = field({'n': 4, 'L': 2., 'v': 1, 'lay': lay, 'kind': 'pos'})
        for m in 'gaussian', 'tophat':
            from pyhipp.field.cubic_box.smoothing import FFTSmoothing, FourierSpaceSmoothing
            FFTSmoothing(r_sm=.5, method=m).run(f)
            FourierSpaceSmoothing(r_sm=.5, method=m).run(f)
        from pyhipp.field.cubic_box.gravity import TidalField
        from pyhipp.field.cubic_box.cosmic_web import FieldInterpolator, TidalClassifier
        for c in False, 'cic':
            r = TidalField(r_sm=.5, correct_shape=c).run(f)
        FieldInterpolator(f).value_at(np.ones((2, 3)))
        FieldInterpolator(f).value_at(np.ones((2, 6))[:, ::2])
        t = TidalClassifier(r.lam, f.mesh)
        for x in (np.ones((2, 3)), np.ones((2, 6))[:, ::2]):
            t.web_type_at(x), t.lam_at(x)
        f.copied()
    from pyhipp.field.neighbor import kd_mesh
    for x in (np.random.random((4, 3)), np.random.random((4, 6))[:, ::2]):
        p = kd_mesh._PE3_from_meshing_points(kd_mesh._PE3Mesh(1., 2), x)
        p.query_points(V[0](np.random.random((2, 3)), np.ones(2) * .1, np.zeros((2, 4), 'i8'), np.ones(4)))


def array(d):
    rs = np.random.RandomState(d['v'] & 0x7fffffff)
    n = d['n']
    if d['kind'] == 'pos':
        a = rs.random_sample((n, n, n)) + .05
    elif d['kind'] == 'peaks':
        a = np.exp(2 * rs.standard_normal((n, n, n)))
    elif d['kind'] == 'one':
        a = np.zeros((n, n, n))
        a[tuple(rs.randint(0, n, 3))] = 3.
    elif d['kind'] == 'flat':
        a = np.full((n, n, n), 2.5)
    elif d['kind'] == 'zero':
        a = np.zeros((n, n, n))
    else:
        a = -rs.random_sample((n, n, n))
    if d['lay'] == 1:
        return np.asfortranarray(a)
    if d['lay'] == 2:
        b = np.zeros((n, n, 2 * n))
        b[..., ::2] = a
        return b[..., ::2]
    return a


def field(d, a=None):
    from pyhipp.field.cubic_box.field import Field
    from pyhipp.field.cubic_box.mesh import Mesh
    return Field.new_by_data(array(d) if a is None else a, Mesh.new(d['n'], d['L']))


def gen(rng, tier, i):
    nc = rng.choice([1, 1, 2, 2, 3])
    fields = [{'n': rng.choice(SIZES), 'L': rng.choice([1., 2., 100., .3, 75.]), 'v': rng.randrange(1 << 30), 'lay': rng.choice([0, 0, 0, 1, 2]),
               'kind': rng.choice(['pos', 'pos', 'peaks', 'peaks', 'one', 'flat', 'zero', 'neg'])} for _ in range(rng.choice([1, 2, 3]))]
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(2, 9)):
            k = rng.choice(['fft', 'sm', 'sm', 'fss', 'fss', 'tid', 'tid', 'cls', 'cls', 'itp', 'itp', 'kd', 'kd', 'kdm', 'mesh', 'bad', 'new', 'dflt', 'dflt', 'dflt'])
            o = {'k': k, 'f': rng.randrange(3), 'op': rng.randrange(4), 'v': rng.randrange(1 << 30), 'r': rng.choice([0., .02, .1, .3, 1., 2.]), 'm': rng.choice(['gaussian', 'gaussian', 'tophat']),
                 'cs': rng.choice(['cic', 'cic', False]), 'own': rng.random() < .5, 'mut': rng.random() < .3, 'dump': rng.choice([None, None, 'file', 'file', 'again']), 'th': rng.choice([0., 0., .2, -.1, 1.]),
                 'npt': rng.choice([0, 1, 3, 10, 40]), 'far': rng.choice(['in', 'in', 'edge', 'far']), 'key': rng.choice(['delta_x', 'delta_sm_x', 'dflt']), 'bad': rng.randrange(12), 'nw': rng.choice([None, None, 1, 2])}
            if k in ('kdm', 'itp') and rng.random() < .02:
                o['npt'] = rng.choice([1500, 5000])
            ops.append(o)
            for a in range(2):
                if rng.random() < .1:
                    faults.append({'op': f'{c}.{j}.{a}', 'line': rng.randrange(1, 90), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    if rng.random() < .02:
        fields[0]['np'] = rng.choice([3000, 40000])      # a large tree
        for cl in clients:
            for o in cl['ops']:
                if rng.random() < .5:
                    o.update(k='kd', f=0, r=rng.choice([.02, .1, .1, .3, 1.]))
    io = []
    if nc == 1 and rng.random() < .3:
        io.append({'sys': rng.choice(['READ', 'OPEN', 'WRITE']), 'nth': rng.randrange(30), 'n': 1, 'act': 'err', 'e': 5})
    if rng.random() < .15:
        io.append({'sys': rng.choice(['READ', 'WRITE']), 'nth': rng.randrange(40), 'n': 30, 'act': 'short', 'e': rng.choice([1, 100])})
    return {'fields': fields, 'clients': clients, 'faults': faults, 'io': io,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .4])} if nc > 1 else {'mode': 'serial'}}


SHRINK = ('io', 'clients', 'ops')


# ---- the oracle -------------------------------------------------------------
def kvec(n):
    k = np.fft.fftfreq(n, 1. / n)
    k = np.where(k == -n / 2., n / 2., k)       # the sign of the Nyquist mode is a convention
    return np.meshgrid(k, k, np.arange(n // 2 + 1, dtype='f8'), indexing='ij')


def window(n, L, r, m):
    k0, k1, k2 = kvec(n)
    kk = 2 * np.pi / L * np.sqrt(k0**2 + k1**2 + k2**2)
    if m == 'gaussian':
        return np.exp(-.5 * (kk * r)**2)
    x = kk * r
    with np.errstate(all='ignore'):
        return np.where(x < 1e-6, 1., 3 * (np.sin(x) - x * np.cos(x)) / np.where(x < 1e-6, 1., x)**3)


def cic(n):
    return np.prod([np.sinc(k / n)**2 for k in kvec(n)], axis=0)


def fwd(a):
    return np.fft.rfftn(a, norm='ortho')


def bwd(a, n):
    return np.fft.irfftn(a, s=(n, n, n), axes=(0, 1, 2), norm='ortho')


def o_tidal(a, L, r, cs):
    n = a.shape[0]
    d = a / a.mean() - 1.
    dk = fwd(d)
    sk = dk * window(n, L, r, 'gaussian') / (cic(n) if cs else 1.)
    ks = kvec(n)
    k2 = sum(k * k for k in ks)
    phi = np.where(k2 < .5, 0., -sk / np.where(k2 < .5, 1., k2))
    T = np.empty((n, n, n, 3, 3))
    for i in range(3):
        for j in range(3):
            T[..., i, j] = bwd(-ks[i] * ks[j] * phi, n)
    return {'delta_x': d, 'delta_k': dk, 'delta_sm_k': sk, 'delta_sm_x': bwd(sk, n), 'phi_k': phi, 'T_x': T, 'lam': np.linalg.eigvalsh(T)}


def o_interp(a, L, xs):
    n = a.shape[0]
    out = []
    for x in xs:
        t = a
        for c in x / (L / n):
            w = np.zeros(n)
            b = int(np.floor(c))
            w[b % n] += 1 - (c - b)
            w[(b + 1) % n] += c - b
            t = np.tensordot(w, t, (0, 0))
        out.append(t)
    return np.array(out)


def points(rs, npt, L, far):
    x = rs.random_sample((npt, 3)) * L
    if far == 'edge':
        m = rs.random_sample((npt, 3))
        x = np.where(m < .3, 0., np.where(m < .5, np.nextafter(L, 0), np.where(m < .8, np.floor(x / L * 6) * L / 6, x)))
    elif far == 'far':
        x += L * rs.randint(-3, 4, (npt, 3))
    return x


def run(sc, ctx):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, ctx)


def _run(sc, ctx):
    from pyhipp.field.cubic_box.field import Field
    from pyhipp.field.cubic_box.mesh import Mesh
    from pyhipp.field.cubic_box.fft import NdRealFFT
    from pyhipp.field.cubic_box.smoothing import FFTSmoothing, FourierSpaceSmoothing
    from pyhipp.field.cubic_box.gravity import TidalField
    from pyhipp.field.cubic_box.cosmic_web import FieldInterpolator, TidalClassifier
    from pyhipp.field.neighbor import kd_mesh, kd_tree
    from pyhipp.io import h5
    FD = sc['fields']
    if not FD:
        return
    sh = ctx.shim
    sh.enable(ctx.scratch, False)
    rules = [sh.rule(f['sys'], f['nth'], f['n'], 2 if f['act'] == 'short' else 1, f['e']) for f in sc['io']]
    sh.nofault()

    def fired():
        return sum(sh.fired(r) for f, r in zip(sc['io'], rules) if f['act'] == 'err')
    arrs = [array(d) for d in FD]
    keep = [a.copy() for a in arrs]
    flds = [field(d, a) for d, a in zip(FD, arrs)]
    NF = len(FD)
    # common operators, used by every client
    OPS = {'sm': [FFTSmoothing(n_workers=w, r_sm=r, method=m) for w, r, m in ((None, .2, 'gaussian'), (1, .1, 'tophat'), (2, 1., 'gaussian'), (None, 0., 'tophat'))],
           'fss': [FourierSpaceSmoothing(n_workers=w, r_sm=r, method=m) for w, r, m in ((None, .2, 'gaussian'), (1, .1, 'tophat'), (2, 1., 'gaussian'), (None, 0., 'tophat'))],
           'tid': [TidalField(n_workers=w, r_sm=r, correct_shape=c) for w, r, c in ((None, .2, 'cic'), (1, .1, False), (2, 0., 'cic'), (None, 1., False))]}
    OPAR = {'sm': [(.2, 'gaussian'), (.1, 'tophat'), (1., 'gaussian'), (0., 'tophat')], 'tid': [(.2, 'cic'), (.1, False), (0., 'cic'), (1., False)]}
    OPAR['fss'] = OPAR['sm']

    def lam_for(d, v):
        rs = np.random.RandomState(v & 0x7fffffff)
        n = d['n']
        return np.sort(rs.choice([-2., -.5, -.25, 0., .25, .5, 2.], (n, n, n, 3)), axis=-1)
    clss = []
    for i, d in enumerate(FD):
        lam = lam_for(d, d['v'])
        src = lam.copy()
        clss.append((TidalClassifier(src, flds[i].mesh, lam_th=(0., .25, -.25)[i % 3]), lam, (0., .25, -.25)[i % 3], d))
        src[...] = 7.
    trees = []
    for d in FD:
        rs = np.random.RandomState(d['v'] & 0x7fffffff)
        x = points(rs, d.get('np', 25), d['L'], 'in')
        if d['v'] % 3 == 0:
            x[:8] = x[8:16]
        x[:5, 0] = 0.
        src = x.copy()
        t = kd_tree.PE(src, d['L'], n_workers=1)
        src[...] = d['L'] / 3
        trees.append((t, x, d['L']))

    def close(got, ref, kind, what, tol=1e-9, scale=None):
        g = np.asarray(got)
        ctx.check(g.shape == np.shape(ref), kind, f'{what}: shape {g.shape}, expected {np.shape(ref)}')
        if g.size:
            s = max(float(np.abs(ref).max()), scale or 0., 1e-300)
            dd = np.abs(g - ref)
            ctx.check(bool(np.isfinite(g).all()) and dd.max() <= tol * s, kind, f'{what}: differs by {dd.max():g} at {np.unravel_index(int(np.nanargmax(dd)), dd.shape)}, largest value {s:g}')

    def inputs_kept(what):
        for i, (a, b) in enumerate(zip(arrs, keep)):
            ctx.check(np.array_equal(a, b), 'input-changed', f'{what}: common field {i} changed')

    def classifier(t, lam, th, d, o, rs, what, exact=True, amp=0.):
        n, L = d['n'], d['L']
        l32 = lam.astype('f4')
        scale = max(float(np.abs(lam).max()), amp)
        amb = np.zeros(lam.shape[:3], bool) if exact else (np.abs(lam - th) < 1e-5 * np.abs(lam).max() + 1e-12 * amp + 1e-6 * abs(th)).any(-1)
        nl = np.count_nonzero(l32 > np.float32(th), axis=-1)
        close(t.lam, lam, 'lam-differs', f'{what}: lam', 5e-6, scale)
        ctx.check(t.n_lams.shape == nl.shape and np.array_equal(t.n_lams[~amb], nl[~amb]), 'web-type', f'{what}: number of eigenvalues above {th} is wrong in {np.count_nonzero(t.n_lams != nl)} of {nl.size} cells')
        names = {'knot': 3, 'filament': 2, 'sheet': 1, 'void': 0}
        if not amb.any():
            for nm, v in names.items():
                m = nl == v
                ctx.check(np.array_equal(getattr(t, 'is_' + nm), m), 'web-type', f'{what}: is_{nm}')
                ctx.check(abs(getattr(t, 'f_' + nm) - m.mean()) < 1e-12, 'web-fraction', f'{what}: f_{nm} = {getattr(t, "f_" + nm)!r}, expected {m.mean()!r}')
                for key in (nm, nm[0]):
                    g = t.grid_points_of_web_type(key)
                    ctx.check(g.shape == (m.sum(), 3), 'web-points', f'{what}: {g.shape} points of type {key}, {m.sum()} expected')
                    idx = np.rint(g.astype('f8') / (L / n)).astype(int)
                    ctx.check(np.allclose(idx * (L / n), g, rtol=1e-5, atol=1e-6 * L) and {tuple(r) for r in idx.tolist()} == {tuple(r) for r in np.argwhere(m).tolist()}, 'web-points', f'{what}: points of type {key}')
        xs = points(rs, o['npt'], L, o['far'])
        u = xs / (L / n)
        ok = (np.abs(u - np.floor(u) - .5) > 1e-6).all(-1)
        xi = np.floor(u + .5).astype(int) % n
        if o['v'] % 2:
            b = np.zeros((len(xs), 6))
            b[:, ::2] = xs
            xs = b[:, ::2]
        x0 = xs.copy()
        w, lm = t.web_type_at(xs), t.lam_at(xs)
        ctx.check(w.shape == (len(xs),) and lm.shape == (len(xs), 3), 'web-type', f'{what}: answers of shapes {w.shape}, {lm.shape} to {len(xs)} points')
        sel = ok & ~amb[tuple(xi.T)]
        ctx.check(np.array_equal(w[sel], nl[tuple(xi.T)][sel]), 'web-type', f'{what}: web_type_at differs from the nearest cell for {np.count_nonzero(w[sel] != nl[tuple(xi.T)][sel])} of {len(xs)} points')
        close(lm[ok], lam[tuple(xi.T)][ok], 'lam-differs', f'{what}: lam_at', 5e-6, scale)
        ctx.check(np.array_equal(xs, x0), 'input-changed', f'{what}: query points changed')

    def interp(ip, a, L, o, rs, what, tol=1e-9):
        xs = points(rs, o['npt'], L, o['far'])
        if o['v'] % 2:
            b = np.zeros((len(xs), 6))
            b[:, ::2] = xs
            xs = b[:, ::2]
        x0 = xs.copy()
        close(ip.value_at(xs), o_interp(a, L, xs), 'interpolation', f'{what} at {len(xs)} points', tol, float(np.abs(a).max()))
        if a.shape[0] > 0 and o['npt']:
            n = a.shape[0]
            g = np.stack(np.unravel_index(rs.randint(0, n**3, 5), (n, n, n)), -1)
            close(ip.value_at(g * (L / n)), a[tuple(g.T)], 'interpolation', f'{what} at grid points', 1e-8, float(np.abs(a).max()))
        ctx.check(np.array_equal(xs, x0), 'input-changed', f'{what}: query points changed')

    def client(ci):
        held = []                       # (array handed out, value when handed out, what)
        for j, o in enumerate(sc['clients'][ci]['ops']):
            k, what = o['k'], f'client {ci} op {j} {o["k"]}'
            fi = o['f'] % NF
            d = FD[fi]
            n, L = d['n'], d['L']
            rs = np.random.RandomState(o['v'] & 0x7fffffff)
            path = os.path.join(ctx.scratch, f'{ci}.{j}.h5')
            a, f = arrs[fi], flds[fi]
            if k == 'fft':
                v = o['v']
                dim = (1, 2, 3)[v % 3]
                shp = tuple(rs.randint(1, 7, dim))
                x = rs.standard_normal(shp)
                norm = (None, 'ortho', 'forward', 'backward')[v // 3 % 4]
                kw = {}
                if v // 12 % 3 == 1:
                    kw['shape'] = tuple(int(s) for s in rs.randint(2, 8, dim))
                elif v // 12 % 3 == 2:
                    kw['axes'] = (int(rs.randint(dim)),)
                    if v // 36 % 2:
                        kw['shape'] = (int(rs.randint(2, 8)),)
                ax = kw.get('axes', tuple(range(dim)))
                s = kw.get('shape', tuple(shp[q] for q in ax))

                def act(x=x, kw=kw, norm=norm, s=s):
                    fwd_ = NdRealFFT(norm=norm, n_workers=o['nw'], **kw).forward(x)
                    return fwd_, NdRealFFT(norm=norm, n_workers=o['nw'], shape=s, axes=kw.get('axes')).backward(fwd_)

                def judge(r, x=x, kw=kw, norm=norm, ax=ax, s=s):
                    ref = np.fft.rfftn(x, s=s, axes=ax, norm=norm)
                    close(r[0], ref, 'transform', f'{what} forward of {x.shape} {kw} {norm}', scale=float(np.abs(x).max()))
                    close(r[1], np.fft.irfftn(ref, s=s, axes=ax, norm=norm), 'transform', f'{what} backward to {s}', scale=float(np.abs(x).max()))
                x0 = x.copy()
                self_kept = lambda: ctx.check(np.array_equal(x, x0), 'input-changed', what)
            elif k in ('sm', 'fss', 'tid'):
                mine = o['own']
                if mine:
                    a = array({**d, 'v': o['v']})
                    f = field(d, a)
                op, par = OPS[k][o['op']], OPAR[k][o['op']]
                if o['v'] % 3:
                    r = o['r'] * L / 4
                    par = (r, o['cs'] if k == 'tid' else o['m'])
                    if k == 'tid':
                        op = TidalField(n_workers=o['nw'], r_sm=r, correct_shape=o['cs'])
                    else:
                        op = (FFTSmoothing if k == 'sm' else FourierSpaceSmoothing)(n_workers=o['nw'], r_sm=r, method=o['m'])
                a0 = a.copy()
                low = k != 'sm' and a.mean() < 1e-10
                act = lambda op=op, f=f: op.run(f)

                def judge(r, a=a, a0=a0, par=par, f=f):
                    w_ = window(n, L, par[0], par[1] if k != 'tid' else 'gaussian')
                    tag = f'{what} of {d["kind"]} n={n} L={L} {par}'
                    amp = float(np.abs(a0).max())
                    if k == 'sm':
                        close(r.data, bwd(fwd(a0) * w_, n), 'smoothing', tag, scale=amp)
                        ctx.check(r.mesh.l_box == L and r.mesh.n_grids == n and r.shape == (n, n, n), 'smoothing', f'{tag}: result has another mesh')
                        ctx.check(not np.shares_memory(r.data, a), 'aliased', f'{tag}: the result is the input array')
                        held.append((r.data, r.data.copy(), tag))
                        return
                    ctx.check(float(r.l_box) == L and int(r.n_grids) == n and np.array_equal(r.rho_x, a0), 'result-differs', f'{tag}: l_box, n_grids or rho_x')
                    if k == 'fss':
                        dx = a0 / a0.mean() - 1
                        dk = fwd(dx)
                        sk = dk * w_ / cic(n)
                        ref = {'delta_x': dx, 'delta_k': dk, 'delta_sm_k': sk, 'delta_sm_x': bwd(sk, n)}
                    else:
                        ref = o_tidal(a0, L, *par)
                    sc_ = amp / abs(a0.mean()) + 1
                    for q, v in ref.items():
                        close(getattr(r, q), v, 'smoothing' if k == 'fss' else 'tidal', f'{tag}: {q}', scale=sc_)
                        held.append((getattr(r, q), np.array(getattr(r, q)), f'{tag}: {q}'))
                    if o['dump']:
                        dump(r, ref, k, d, tag, sc_)
                    if k == 'tid':
                        th = o['th']
                        classifier(TidalClassifier(r.lam, f.mesh, lam_th=th), ref['lam'], th, d, o, rs, tag, False, sc_)

                def self_kept(a=a, a0=a0, mine=mine):
                    ctx.check(np.array_equal(a, a0), 'input-changed', f'{what}: input field changed')

                def dump(r, ref, k, d, tag, scale):
                    """store the result, restart after failures, and work from the file"""
                    def store(att):
                        with h5.File(path, 'ac') as h:
                            g = h.create_group('r', flag='ac')
                            r.dump(g, flag='ac') if att else r.dump(g)
                    for t in range(2 if o['dump'] == 'again' else 1):
                        for att in range(4):
                            n0 = fired()
                            sh.nofault(att >= 2)
                            out = ctx.call(f'{ci}.{j}.d{t}{att}', store, att + t)
                            sh.nofault()
                            ctx.event('dump', ci, j, out.kind)
                            if out.ok:
                                break
                            ctx.check(out.injected or fired() > n0, 'call-failed', f'{tag}: dump {out!r}')
                            gc.collect()
                            if fired() > n0:            # a disk error may leave an unusable file: start the file again
                                os.path.exists(path) and os.remove(path)
                        else:
                            ctx.violate('call-failed', f'{tag}: dump never succeeds')
                    tol = 1e-9
                    th = o['th']

                    def load():
                        with h5.File(path, 'r') as h:
                            g = h['r']
                            got = g.load()
                            kw = {} if o['key'] == 'dflt' else {'key': o['key']}
                            return got, FieldInterpolator.new_density_field_from_file(g, **kw), TidalClassifier.new_from_file(g, lam_th=th) if k == 'tid' else None
                    for att in range(4):
                        n0 = fired()
                        sh.nofault(att >= 2)
                        out = ctx.call(f'{ci}.{j}.l{att}', load)
                        sh.nofault()
                        if out.ok:
                            break
                        ctx.check(out.injected or fired() > n0, 'call-failed', f'{tag}: loading {out!r}')
                        gc.collect()
                    else:
                        ctx.violate('call-failed', f'{tag}: loading never succeeds')
                    got, ip, t = out.value
                    want = {q: getattr(r, q) for q in ('l_box', 'n_grids', 'rho_x', *ref)}
                    ctx.check(set(got) == set(want), 'dump-differs', f'{tag}: file holds {sorted(got)}, expected {sorted(want)}')
                    for q, v in want.items():
                        ctx.check(np.array_equal(got[q], v), 'dump-differs', f'{tag}: {q} in the file differs from the result')
                    interp(ip, 1. + ref['delta_x' if o['key'] == 'dflt' else o['key']], d['L'], o, rs, f'{tag}: from file', tol)
                    if k == 'tid':
                        ctx.check(t.mesh.n_grids == d['n'] and t.mesh.l_box == d['L'] and t.lam_th == th, 'dump-differs', f'{tag}: classifier from file has another mesh or threshold')
                        classifier(t, ref['lam'], th, d, o, rs, f'{tag}: from file', False, scale)
                    ctx.state(('dump', k, d['n'], o['dump'], o['key']))
                if low:
                    out = ctx.call(f'{ci}.{j}.0', act)
                    if not out.injected:
                        ctx.check(not out.ok and isinstance(out.exc, ValueError), 'not-rejected', f'{what}: a field of mean {a.mean()} gave {out!r}')
                        ctx.nontrivial = True
                    self_kept()
                    ctx.pause()
                    continue
            elif k == 'cls':
                t, lam, th, cd = clss[fi]
                if o['own']:
                    lam, th, cd = lam_for(d, o['v']), (0., .25, 1.)[o['v'] % 3], d
                    act = lambda: classifier(TidalClassifier(lam, Mesh.new(d['n'], d['L']), lam_th=th), lam, th, d, o, rs, what)
                else:
                    act = lambda: classifier(t, lam, th, cd, o, np.random.RandomState(o['v'] & 0x7fffffff), what)
                judge = self_kept = lambda *r: None
            elif k == 'itp':
                if o['own']:
                    a = array({**d, 'v': o['v']})
                    f = field(d, a)
                act = lambda a=a, f=f: interp(FieldInterpolator(f), np.array(a), L, o, np.random.RandomState(o['v'] & 0x7fffffff), what)
                judge = self_kept = lambda *r: None
            elif k == 'kd':
                t, x, TL = trees[fi]
                p = points(rs, 1, TL, 'edge' if o['far'] == 'edge' else 'in')[0] if o['npt'] else x[o['v'] % 25].copy()
                r = o['r'] * TL / 2 + 1e-3 * TL
                act = lambda: (t.query_r_1(p if o['v'] % 2 else list(p), r), t.query_r_1(p, r, return_d=True))

                def judge(res, p=p, r=r, x=x, TL=TL):
                    dx = np.abs(x - p)
                    dist = np.sqrt((np.minimum(dx, TL - dx)**2).sum(-1))
                    for ids in (res[0], res[1][0]):
                        s = ids.tolist()
                        ctx.check(len(set(s)) == len(s) and set(np.flatnonzero(dist < r * (1 - 1e-9)).tolist()) <= set(s) <= set(np.flatnonzero(dist <= r * (1 + 1e-9)).tolist()), 'neighbours',
                                  f'{what}: radius {r} around {p.tolist()} in a box of {TL} gave {sorted(s)}, expected {np.flatnonzero(dist <= r).tolist()}')
                        ctx.check(ids.dtype.kind == 'i', 'neighbours', f'{what}: ids have type {ids.dtype}')
                    close(res[1][1], dist[res[1][0]], 'distance', f'{what}: distances', scale=TL)
                self_kept = lambda: None
            elif k == 'kdm':
                ng = 1 + o['v'] % 5
                np_ = o['npt']
                x = points(rs, np_, L, o['far'] if o['far'] != 'edge' else 'in')
                x[:, 0] += np.arange(np_) * 1e-9 * L         # the first coordinate names the point
                q = points(rs, 4, L, 'in')
                rr = np.minimum(np.full(4, o['r'] * L / 2), .8 * L) * rs.random_sample(4)
                if o['v'] % 3 == 0 and np_:
                    b = np.zeros((np_, 6))
                    b[:, ::2] = x
                    x = b[:, ::2]
                x0 = x.copy()

                def act(x=x, q=q, rr=rr):
                    hits = np.zeros((4, np_), 'i8')
                    p = kd_mesh._PE3_from_meshing_points(kd_mesh._PE3Mesh(L, ng), x)
                    p.query_points(V[0](q, rr, hits, x[:, 0].copy()))
                    return hits

                def judge(hits, x=x, q=q, rr=rr, ng=ng):
                    dx = (x[None] - q[:, None]) % L
                    dist = np.sqrt((np.minimum(dx, L - dx)**2).sum(-1))
                    must = dist < rr[:, None] * (1 - 1e-6)
                    ctx.check(bool((hits[must] > 0).all()), 'neighbours', f'{what}: {np.count_nonzero(hits[must] == 0)} points within the radius were not visited ({ng} cells, L {L})')
                    few = np.ceil(2 * rr / (L / ng)) + 1 <= ng
                    ctx.check(bool((hits[few] <= 1).all()), 'neighbours', f'{what}: a point was visited twice')
                self_kept = lambda x=x, x0=x0: ctx.check(np.array_equal(x, x0), 'input-changed', what)
            elif k == 'mesh':
                nn, LL = 1 + o['v'] % 40, (1., 2., 100., .3, 75.)[o['v'] // 40 % 5]

                def act(nn=nn, LL=LL):
                    m = Mesh.new(nn, LL) if o['v'] % 2 else Mesh.new(n_grids=nn, l_box=LL)
                    z = Field.new_zeros(m)
                    return m, z, repr(m), z.mesh

                def judge(r, nn=nn, LL=LL):
                    for m in (r[0], r[3]):
                        ctx.check(m.n_grids == nn and m.l_box == LL and np.allclose([m.l_grid, m.volume, m.cell_volume], [LL / nn, LL**3, (LL / nn)**3], rtol=1e-12) and m.total_n_grids == nn**3, 'mesh', f'{what}: {r[2]}')
                    z = r[1]
                    ctx.check(z.shape == (nn,) * 3 and z.data.shape == (nn,) * 3 and not z.data.any() and z.dtype == np.float64 and z.n_dims == 3, 'field', f'{what}: new_zeros')
                    z.data[0, 0, 0] = 5.
                    ctx.check(not Field.new_zeros(r[0]).data.any(), 'aliased', f'{what}: new_zeros shares its data')
                self_kept = lambda: None
            elif k == 'dflt':       # default arguments, limits and shapes
                a = array({**d, 'v': o['v'], 'kind': 'peaks'})
                f = field(d, a)
                kind = o['v'] // 7 % 9
                rep = o['v'] // 63
                judge = self_kept = lambda *r: None

                def same_res(r, e, tag):
                    for q, v in e.items():
                        close(getattr(r, q), v, 'defaults', f'{what} {tag}: {q}', scale=float(a.max() / a.mean()) + 1)

                def o_fss(a, r, m):
                    dx = a / a.mean() - 1
                    sk = fwd(dx) * window(n, L, r, m) / cic(n)
                    return {'delta_x': dx, 'delta_k': fwd(dx), 'delta_sm_k': sk, 'delta_sm_x': bwd(sk, n)}

                def refused(fn, what_, exc=(AssertionError, ValueError, KeyError, TypeError, IndexError)):
                    try:
                        fn()
                    except exc:
                        return
                    ctx.violate('not-rejected', f'{what}: {what_}')
                if kind == 0:
                    def act():
                        for r, e in ((FFTSmoothing().run(f), (1., 'gaussian')), (FFTSmoothing(None, .3 * L).run(f), (.3 * L, 'gaussian')), (FFTSmoothing(1, .3 * L, 'tophat').run(f), (.3 * L, 'tophat')), (FFTSmoothing(method='tophat').run(f), (1., 'tophat'))):
                            close(r.data, bwd(fwd(a) * window(n, L, *e), n), 'defaults', f'{what}: smoothing {e}')
                elif kind == 1:
                    def act():
                        for r, e in ((FourierSpaceSmoothing().run(f), (1., 'gaussian')), (FourierSpaceSmoothing(None, .3 * L).run(f), (.3 * L, 'gaussian')), (FourierSpaceSmoothing(1, .3 * L, 'tophat').run(f), (.3 * L, 'tophat'))):
                            same_res(r, o_fss(a, *e), f'Fourier-space smoothing {e}')
                elif kind == 2:
                    def act():
                        for r, e in ((TidalField().run(f), (1., 'cic')), (TidalField(None, .3 * L).run(f), (.3 * L, 'cic')), (TidalField(1, .3 * L, False).run(f), (.3 * L, False))):
                            same_res(r, o_tidal(a, L, *e), f'tidal field {e}')
                            ctx.check(r.T_x.shape == (n, n, n, 3, 3) and r.lam.shape == (n, n, n, 3), 'defaults', f'{what}: shapes')
                elif kind == 3:             # nothing in a file is replaced without being asked to
                    r_ = (FourierSpaceSmoothing if rep % 2 else TidalField)(r_sm=.2 * L).run(f)
                    own_key = ['l_box', 'delta_sm_x', 'n_grids', 'rho_x', 'delta_k'][rep // 2 % 5]

                    def act():
                        with h5.File(path, 'w') as h:
                            h.datasets.create(own_key, np.arange(3))
                            refused(lambda: r_.dump(h), f'a dump replaced {own_key}', ValueError)
                            ctx.check(np.array_equal(h.datasets[own_key], np.arange(3)), 'dump-differs', f'{what}: {own_key} changed by a refused dump')
                            g = h.create_group('g')
                            r_.dump(g)
                            ctx.check(np.array_equal(g.datasets['rho_x'], a), 'dump-differs', f'{what}: rho_x')
                            refused(lambda: r_.dump(g), 'a second dump was accepted', ValueError)
                            refused(lambda: r_.dump(g, 'x'), 'a second dump was accepted', ValueError)
                            r_.dump(g, 'ac')
                elif kind == 4:
                    lam = lam_for(d, o['v'])
                    dt = ['f8', 'f4', 'f8'][rep % 3]
                    th = (0., .25, -.25)[rep // 3 % 3]

                    def act():
                        mine = lam.astype(dt)
                        t = TidalClassifier(mine if rep % 2 else mine.tolist(), f.mesh, **({'lam_th': th} if th else {}))
                        mine[...] = 7.
                        nl = np.count_nonzero(lam > th, axis=-1)
                        ctx.check(t.lam_th == th and np.array_equal(t.lam, lam) and np.array_equal(t.n_lams, nl), 'web-type', f'{what}: threshold {th} (0 is the default), eigenvalues follow the array of the caller or are wrong')
                        with h5.File(path, 'w') as h:
                            h.dump({'lam': lam, 'l_box': L, 'n_grids': n})
                            t = TidalClassifier.new_from_file(h, **({'lam_th': th} if th else {}))
                        ctx.check(t.lam_th == th and np.array_equal(t.n_lams, nl) and t.mesh.n_grids == n and t.mesh.l_box == L, 'web-type', f'{what}: from file with threshold {th} (0 is the default)')
                        for nm, v in {'knot': 3, 'filament': 2, 'sheet': 1, 'void': 0, 'k': 3, 'f': 2, 's': 1, 'v': 0}.items():
                            ctx.check(t.web_types[nm] == v, 'web-type', f'{what}: web_types')
                        ctx.check(repr(t).count('f_') >= 4 and 'lam_th' in repr(t), 'web-type', f'{what}: {t!r:.200}')
                elif kind == 5:
                    def act():
                        for m, e in ((Mesh.new(), (32, 1.)), (Mesh.new(n), (n, 1.)), (Mesh.new(l_box=L), (32, L)), (Mesh.new(n, L), (n, L)), (Field.new_zeros(Mesh.new(3)).mesh, (3, 1.))):
                            ctx.check((m.n_grids, m.l_box) == e and abs(m.l_grid - e[1] / e[0]) <= 1e-14 * e[1], 'mesh', f'{what}: {m!r}, expected {e}')
                        q = FieldInterpolator.new_density_field_from_file
                        with h5.File(path, 'w') as h:
                            h.dump({'delta_x': a, 'delta_sm_x': -a, 'l_box': L, 'n_grids': n})
                            interp(q(h), 1. + a, L, o, rs, f'{what}: default key')
                            interp(q(h, 'delta_sm_x'), 1. - a, L, o, rs, f'{what}: other key')
                            refused(lambda: q(h, 'none'), 'an absent field was interpolated', KeyError)
                elif kind == 6:             # one cell out of order is enough
                    lam = lam_for(d, o['v'])
                    at_ = tuple(rs.randint(0, n, 3))
                    lam[at_] = [[1., 0., 2.], [0., 2., 1.], [2., 1., 0.], [np.nan, 0., 1.]][rep % 4]
                    good = np.sort(lam, -1)
                    good[at_] = 1.
                    t, p = TidalClassifier(good, f.mesh), points(rs, 3, L, 'in')
                    sh_ = [(3, 2), (3, 4), (3,), (3, 3, 1), (0,)][rep // 4 % 5]
                    ip = FieldInterpolator(f)

                    def act():
                        refused(lambda: TidalClassifier(lam, f.mesh), f'eigenvalues {lam[at_]} out of order in cell {at_} were accepted')
                        for nm, fn in (('web_type_at', t.web_type_at), ('lam_at', t.lam_at), ('value_at', ip.value_at)):
                            refused(lambda: fn(np.zeros(sh_)), f'{nm} of points of shape {sh_} was accepted')
                        for bad in (np.zeros((n, n)), np.zeros((n, n, n, 1)), np.zeros((n, n + 1, n)), np.zeros((n + 1, n, n)), np.zeros((n, n, n + 1))):
                            refused(lambda: Field.new_by_data(bad, f.mesh), f'data of shape {bad.shape} on a mesh of {n}')
                        for bad in (good[..., :2], good[:, :, :-1], np.concatenate([good, good], -1), good[0], good.reshape(n * n, n, 3)):
                            refused(lambda: TidalClassifier(bad, f.mesh), f'eigenvalues of shape {bad.shape} on a mesh of {n}')
                        ctx.check(np.array_equal(t.web_type_at(p.tolist()), t.web_type_at(p)) and np.array_equal(t.lam_at(p.tolist()), t.lam_at(p)), 'web-type', f'{what}: points in a list')
                elif kind == 7:             # the normalisation is arbitrary, down to a limit
                    sc_ = [1e-9, 1e-6, 1e8, 1.][rep % 4]
                    b = a / a.mean() * sc_
                    fb = field(d, b)
                    r_ = [.3 * L, 1e-9 * L, 30. * L][rep // 4 % 3]

                    def act():
                        same_res(FourierSpaceSmoothing(r_sm=r_, method=o['m']).run(fb), o_fss(b, r_, o['m']), f'mean {sc_}')
                        same_res(TidalField(r_sm=r_).run(fb), o_tidal(b, L, r_, 'cic'), f'mean {sc_}')
                        close(FFTSmoothing(r_sm=r_, method=o['m']).run(fb).data, bwd(fwd(b) * window(n, L, r_, o['m']), n), 'defaults', f'{what}: mean {sc_}')
                        low = field(d, b / sc_ * 5e-11)
                        refused(lambda: FourierSpaceSmoothing(r_sm=r_).run(low), 'a field of mean 5e-11', ValueError)
                        refused(lambda: TidalField(r_sm=r_).run(low), 'a field of mean 5e-11', ValueError)
                else:
                    m_, x_ = ((3,), (2, 3), (4, 3, 2))[rep % 3], None
                    x_ = rs.standard_normal(m_)
                    from pyhipp.field.cubic_box.fft import default_nd_real_fft as df

                    def act():
                        y = np.fft.rfftn(x_)
                        for g_ in (df, NdRealFFT(), NdRealFFT(n_workers=1), NdRealFFT(m_), NdRealFFT(m_, None, 'backward'), NdRealFFT(m_, tuple(range(len(m_))))):
                            close(g_.forward(x_.copy()), y, 'transform', f'{what}: default transform of {m_}', scale=1.)
                        x0 = x_.copy()
                        df.forward(x_), NdRealFFT(norm='ortho').forward(x_)
                        y0 = y.copy()
                        back = NdRealFFT(m_).backward(y)
                        ctx.check(np.array_equal(x_, x0) and np.array_equal(y, y0), 'input-changed', f'{what}: a transform changed its input')
                        close(back, x_, 'transform', f'{what}: there and back {m_}', scale=1.)
                        even = NdRealFFT(norm='ortho').backward(np.fft.rfftn(np.ones((3, 4)), norm='ortho'))
                        close(even, np.ones((3, 4)), 'transform', f'{what}: default shape of the transform back')
            elif k == 'new':
                def act():
                    c = f.copied()
                    c.data[...] += 1.
                    return c

                def judge(c):
                    ctx.check(np.allclose(c.data, keep[fi] + 1.) and c.mesh.l_box == L and c.mesh.n_grids == n, 'field', f'{what}: copy')
                self_kept = lambda: None
            else:
                m = Mesh.new(n, L)
                z = np.zeros
                bads = [lambda: Field.new_by_data(z((n, n, n + 1)), m), lambda: Field.new_by_data(z((n + 1,) * 3), m), lambda: FFTSmoothing(r_sm=1., method='box').run(f),
                        lambda: FourierSpaceSmoothing(r_sm=1., method='cic').run(f) if a.mean() > 0 else FourierSpaceSmoothing().run(f), lambda: TidalField(correct_shape='ngp'),
                        lambda: TidalClassifier(z((n, n, n, 2)), m), lambda: TidalClassifier(np.arange(n**3 * 3.)[::-1].reshape(n, n, n, 3), m), lambda: TidalClassifier(z((n + 1,) * 3 + (3,)), m),
                        lambda: FieldInterpolator(f).value_at(z((4, 2))), lambda: clss[fi][0].web_type_at(z((3, 4))),
                        lambda: trees[fi][0].query_r_1([-1e-3, 0., 0.], 1.), lambda: trees[fi][0].query_r_1([0., 0., trees[fi][2]], 1.),
                        lambda: clss[fi][0].grid_points_of_web_type('wall'), lambda: clss[fi][0].lam_at(z(3)), lambda: kd_tree.PE(np.full((3, 3), 2. * L), L)]
                out = ctx.call(f'{ci}.{j}.0', bads[o['v'] % len(bads)])
                with ctx.quiet():
                    if not out.injected:
                        ctx.check(not out.ok and isinstance(out.exc, (AssertionError, ValueError, KeyError, TypeError, IndexError)), 'not-rejected', f'{what}: request {o["v"] % len(bads)} gave {out!r}')
                        ctx.nontrivial = True
                        ctx.probe('rejected request')
                    inputs_kept(what)
                ctx.state(('bad', o['v'] % len(bads)))
                ctx.pause()
                continue
            for att in range(3):
                out = ctx.call(f'{ci}.{j}.{att}', act)
                ctx.event(k, ci, j, out.kind)
                with ctx.quiet():
                    self_kept()
                if out.ok:
                    break
                ctx.check(out.injected, 'call-failed', f'{what} (n={n}, {d["kind"]}): {out!r}')
                ctx.probe('repeated after an interrupt')
            else:
                ctx.violate('call-failed', f'{what} never succeeds')
            with ctx.quiet():
                judge(out.value)
                inputs_kept(what)
                if o['mut'] and k in ('sm', 'fss', 'tid') and o['own']:
                    # new contents of the same field object: later results follow, earlier ones stay
                    held[:] = [h for h in held if not np.shares_memory(h[0], a)]
                    a[...] = array({**d, 'v': o['v'] + 1, 'kind': 'peaks'})
                    if k == 'sm':
                        close(op.run(f).data, bwd(fwd(a) * window(n, L, *par), n), 'smoothing', f'{what}: after a change of the field')
                    else:
                        close(op.run(f).delta_x, a / a.mean() - 1, 'smoothing', f'{what}: after a change of the field')
                for h, v, w in held:
                    ctx.check(np.array_equal(h, v), 'result-changed', f'{w}: an earlier result changed (noticed after {what})')
            ctx.state((k, n, d['kind'], o['m'] if k in ('sm', 'fss') else o['cs'] if k == 'tid' else o['far'], out.kind))
            ctx.pause()
    ctx.run_clients([lambda c=c: client(c) for c in range(len(sc['clients']))], faults=sc['faults'])
    for f, r in zip(sc['io'], rules):
        ctx.fault(f'{f["act"]}-{f["sys"].lower()}', sh.fired(r))
