"""C26  Interpolators, transforms, units, cosmologies and power spectra keep their defining relations.

Clients query common objects and build, reset and query their own; a rejected reset
changes nothing, an accepted one leaves nothing of the old setting.  The oracle is
plain numpy, the published fits written out again, and the relations between results."""
import math

import numpy as np

PROP = 'C26'
RUNS = {'quick': 900, 'thorough': 40000}
RULE = ('one run = 1-3 clients applying 4-12 operations each (searches, interpolation and derivatives, transforms to a normal, angles, unit systems, cosmological densities, times and distances, virial and NFW '
        'relations, transfer functions and power spectra with resets of the cosmology) on common and own objects under a line-level schedule with interrupts followed by a repeat and rejected requests; '
        'non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (operation, variant, outcome)'
REAL = ['pyhipp.numerical.interpolate', 'pyhipp.stats.prob_dist', 'pyhipp.stats.stacking', 'pyhipp.astro.coords.cvt', 'pyhipp.astro.quantity.unit_system', 'pyhipp.astro.cosmology (model, halo_theory, flat_lambda_cdm_nr, power_spectrum)', 'numba', 'astropy', 'scipy', 'numpy']
STUB = ['thread choice and interruption points (simulated scheduler)']
ASSUME = ['a call into compiled code is atomic', 'tabulated halo quantities are those of C16']
KINDS = ['bis', 'bis', 'lin', 'lin', 'lin', 'ptn', 'ptn', 'ang', 'us', 'us', 'usj', 'lcdm', 'lcdm', 'lcdm', 'vir', 'vir', 'cosj', 'tf', 'tf', 'tf', 'ps', 'ps', 'stack', 'bad', 'bad']
MPC, GYR, MSUN, C, G = 3.085677581491367e+22, 3.15576e+16, 1.988409870698051e+30, 299792458., 6.6743e-11
COSM = [(.6774, .3089, .0486, .9667, .8159), (.7, .3, .045, .95, .9), (.73, .25, .045, 1., .9), (.5, 1., .1, 1., .6)]


def warmup(tmp):
    import warnings
    warnings.simplefilter('ignore')
    from pyhipp.numerical import interpolate as I
    from pyhipp.astro.cosmology import power_spectrum as ps, flat_lambda_cdm_nr as fl, model
    from pyhipp.astro.coords import cvt  # noqa: F401
    from pyhipp.stats import prob_dist
    import astropy.cosmology as ac
    x = np.arange(5.)
    for y in (x, x.astype(int)):
        I.bisearch(y, 1.5), I.bisearch_nearest(y, 1.5), I.bisearch_nearest_array(y, x), I.bisearch_interp_weight(y, 1.5), I.bisearch_interp(y, x, 1.5), I.bisearch_interp_fix_oob(y, x, 1.5, 0., 1.)
    I.linear_interp_weight(.5, 0., 1.)
    I.bisearch_interp_2d(x, x, np.ones((5, 5)), 1., 1.), I.bisearch_interp_2d(x, x, np.ones((5, 5, 2)), 1., 1.)
    L = I.Linear(x, x)
    L.value_at(1.), L.derivative().value_at(1.), I.Linear(x, x, False), I.Linear(x, x, True)
    for b in (True, False):
        c = fl._FlatLambdaCDMNR(*COSM[0])
        P = ps._PowerSpectrumFlatLambdaCDMNR(c, b)
        P.sigma_sqr(8., 0.), P.sigma_sqr_at_mass(1., 0.), P.power(1., 0.), P.big_delta_sqr(1., 0.), P.growth_fac(1.), P.delta_crit(1.), P.transfer_func(1.), P.window_func(1., 1.), P.interp_lg_sigma_at_lg_mass((0., 1.), 2).value_at(.5)
        t = ps._TransferFunctionFlatLambdaCDMNR(c, b)
        t.transfer_function(1.), t.set_variant(c, b)
    t = ps._TransferFunctionEH98()
    t.set_cosmology(.3, .1, .7), t.set_cosmology(.3, .1, .7, 2.7), t.transfer_function(1.), t._transfer_function(1.)
    t = ps._TransferFunctionEH99(False)
    t = ps._TransferFunctionEH99()
    t.set_cosmology(.3, .045, 0., 0, .7, .7), t.set_cosmology(.3, .045, 0., 0, .7, .7, 1.), t.transfer_function(1.), t._transfer_function(1.), t.set_variant(True)
    d = c.densities()
    d.crit0(), d.crit(1.), d.mean0(), d.mean(1.), d.r_to_m(1.), d.m_to_r(1.)
    c.efunc(1.), c.efunc_sqr(1.), c.omega_m(1.), c.omega_l(1.), c.big_hubble(1.), c.a2z(.5), c.z2a(1.), c.baryon_fraction()
    z = np.array([.5, 1.])
    c.efunc(z), c.efunc_sqr(z), c.omega_m(z), c.omega_l(z), c.big_hubble(z), c.a2z(z), c.z2a(z), d.crit(z), d.mean(z), d.r_to_m(z), d.m_to_r(z)
    fl._UnitSystem(1., 1., 1., 1.), fl._make_us_for_cosmology(.7)
    g = ps._GrowthFactorCarroll92(c)
    g.growth_factor(1.), g.delta_crit(1.)
    m = model.LambdaCDM.from_astropy_model(ac.Planck15)
    m.redshifts.at_comoving(np.array([100.])), m.age(z), m.times.lookback_at(z), m.distances.luminosity_at(z), m.distances.angular_diameter_at(z), m.distances.distance_modulus_at(z)
    h = m.halo_theory
    h.vir_props_mean(1., z=1.), h.nfw_profile.v_max2vir_to_c(1.1)
    p = prob_dist.ProbTransToNorm(x)
    p.back(p.forw(x[1:-1]))


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(4, 13)):
            ops.append({'k': rng.choice(KINDS), 'v': rng.randrange(1 << 30), 'w': rng.randrange(8), 'own': rng.random() < .5})
            if rng.random() < .12:
                faults.append({'op': f'{c}.{j}.0', 'line': rng.randrange(1, 40), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'seed': rng.randrange(1 << 30), 'clients': clients, 'faults': faults, 'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .4])} if nc > 1 else {'mode': 'serial'}}


# ---- oracles ---------------------------------------------------------------
def eh98(om, fb, h, kk, tcmb=2.728):
    """Eisenstein & Hu 1998: full, baryon and CDM transfer functions"""
    k = abs(kk * h)
    if k == 0.:
        return 1., 1., 1.
    om = om * h * h
    ob = om * fb
    th = tcmb / 2.7
    zeq, keq = 2.5e4 * om / th**4, .0746 * om / th**2
    b1, b2 = .313 * om**-.419 * (1 + .607 * om**.674), .238 * om**.223
    zd = 1291 * om**.251 / (1 + .659 * om**.828) * (1 + b1 * ob**b2)
    R = lambda z: 31.5 * ob / th**4 * 1000 / z
    Rd, Re = R(1 + zd), R(zeq)
    s = 2 / 3 / keq * math.sqrt(6 / Re) * math.log((math.sqrt(1 + Rd) + math.sqrt(Rd + Re)) / (1 + math.sqrt(Re)))
    ksilk = 1.6 * ob**.52 * om**.73 * (1 + (10.4 * om)**-.95)
    ac = ((46.9 * om)**.67 * (1 + (32.1 * om)**-.532))**-fb * ((12 * om)**.424 * (1 + (45 * om)**-.582))**-(fb**3)
    bc = 1 / (1 + .944 / (1 + (458 * om)**-.708) * ((1 - fb)**((.395 * om)**-.0266) - 1))
    y = zeq / (1 + zd)
    gy = y * (-6 * math.sqrt(1 + y) + (2 + 3 * y) * math.log((math.sqrt(1 + y) + 1) / (math.sqrt(1 + y) - 1)))
    ab = 2.07 * keq * s * (1 + Rd)**-.75 * gy
    bn, bb = 8.41 * om**.435, .5 + fb + (3 - 2 * fb) * math.sqrt((17.2 * om)**2 + 1)
    q, xx = k / 13.41 / keq, k * s
    lb, l0 = math.log(2.718282 + 1.8 * bc * q), math.log(2.718282 + 1.8 * q)
    p = 386 / (1 + 69.9 * q**1.08)
    f = 1 / (1 + (xx / 5.4)**4)
    tc = f * lb / (lb + (14.2 + p) * q * q) + (1 - f) * lb / (lb + (14.2 / ac + p) * q * q)
    st = s * (1 + (bn / xx)**3)**(-1 / 3)
    t0 = l0 / (l0 + (14.2 + p) * q * q)
    tb = math.sin(k * st) / (k * st) * (t0 / (1 + (xx / 5.2)**2) + ab / (1 + (bb / xx)**3) * math.exp(-(k / ksilk)**1.4))
    return fb * tb + (1 - fb) * tc, tb, tc


def eh99(om, ob, ohdm, nnu, ol, h, kk, z=0.):
    """Eisenstein & Hu 1999: transfer functions of CDM + baryons, and with neutrinos"""
    th = 2.728 / 2.7
    n = float(max(nnu, 1))
    ob, on = ob or 1e-5, ohdm or 1e-5
    curv = 1 - om - ol
    m, b = om * h * h, ob * h * h
    fb, fn = ob / om, on / om
    fc = 1 - fb - fn
    fcb, fbn = fc + fb, fb + fn
    zeq = 2.5e4 * m / th**4
    b1, b2 = .313 * m**-.419 * (1 + .607 * m**.674), .238 * m**.223
    zd = 1291 * m**.251 / (1 + .659 * m**.828) * (1 + b1 * b**b2)
    yd = zeq / (1 + zd)
    s = 44.5 * math.log(9.83 / m) / math.sqrt(1 + 10 * b**.75)
    pc, pcb = .25 * (5 - math.sqrt(1 + 24 * fc)), .25 * (5 - math.sqrt(1 + 24 * fcb))
    den = ol + (1 + z)**2 * (curv + om * (1 + z))
    lz, mz = ol / den, om * (1 + z)**3 / den
    gk = zeq / (1 + z) * 2.5 * mz / (mz**(4 / 7) - lz + (1 + mz / 2) * (1 + lz / 70))
    anu = fc / fcb * (5 - 2 * (pc + pcb)) / (5 - 4 * pcb) * (1 + yd)**(pcb - pc) * (1 + fbn * (-.553 + .126 * fbn**2)) / (1 - .193 * math.sqrt(fn * n) + .169 * fn * n**.2) * (
        1 + (pc - pcb) / 2 * (1 + 1 / (3 - 4 * pc) / (7 - 4 * pcb)) / (1 + yd))
    ag, bc = math.sqrt(anu), 1 / (1 - .949 * fbn)
    k = kk * h
    q = k / m * th**2
    yf = 17.2 * fn * (1 + .488 * fn**(-7 / 6)) * (n * q / fn)**2
    t1, t2 = gk**(1 - pcb), (gk / (1 + yf))**.7
    gcb, gcbn = (1 + t2)**(pcb / .7) * t1, (fcb**(.7 / pcb) + t2)**(pcb / .7) * t1
    ge = m * (ag + (1 - ag) / (1 + (k * s * .43)**4))
    qe = q * m / ge
    L, Cc = math.log(2.71828 + 1.84 * bc * ag * qe), 14.4 + 325 / (1 + 60.5 * qe**1.11)
    qn = 3.92 * q * math.sqrt(n / fn)
    tm = L / (L + Cc * qe**2) * (1 + 1.2 * fn**.64 * n**(.3 + .6 * fn) / (qn**-1.6 + qn**.8))
    return tm * gcb / gk, tm * gcbn / gk


def grow(c, z):
    def f(z):
        e2 = 1 - c[1] + c[1] * (1 + z)**3
        m, l = c[1] * (1 + z)**3 / e2, (1 - c[1]) / e2
        return 2.5 * m / (1 + z) / (m**(4 / 7) - l + (1 + m / 2) * (1 + l / 70))
    return f(z) / f(0.)


def run(sc, ctx):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, ctx)


def _run(sc, ctx):
    import astropy.cosmology as ac
    from scipy.stats import norm
    from pyhipp.numerical import interpolate as I
    from pyhipp.stats.prob_dist import ProbTransToNorm
    from pyhipp.stats.stacking import Stack
    from pyhipp.astro.coords import cvt
    from pyhipp.astro.quantity import UnitSystem
    from pyhipp.astro.cosmology import power_spectrum as ps, flat_lambda_cdm_nr as fl
    from pyhipp.astro.cosmology.model import LambdaCDM
    g0 = np.random.RandomState(sc['seed'] & 0x7fffffff)

    def nodes(g, n):
        x = np.cumsum(g.choice([.25, .5, 1., 3.], n)) - 2.
        return x, np.round(g.uniform(-4, 4, n) * 4) / 4
    X, Y = nodes(g0, [1, 2, 3, 6, 9][sc['seed'] % 5])
    LX, LY = nodes(g0, 2 + sc['seed'] % 6)
    DX = g0.standard_normal(12) * 3
    common = [X, Y, LX, LY, DX]
    kept = [a.copy() for a in common]
    clin, cptn = I.Linear(LX, LY), ProbTransToNorm(DX)
    cus = UnitSystem.create_for_cosmology(.7)
    PAR = {'hubble': .7, 'omega_m0': .3, 'omega_l0': .7, 'omega_b0': .045, 't_cmb': 2.7255}
    ccosm = LambdaCDM.from_parameters(PAR, name='c737')
    cj = fl._FlatLambdaCDMNR(*COSM[0])
    cps = [ps._PowerSpectrumFlatLambdaCDMNR(cj, b) for b in (False, True)]

    def eq(got, ref, what, tol=1e-9, kind='value'):
        g, r = np.asarray(got), np.asarray(ref)
        ctx.check(g.shape == r.shape and bool(np.allclose(g, r, rtol=tol, atol=tol * (1e-3 if tol < 1e-6 else 1e-9), equal_nan=True)), kind, lambda: f'{what}: {g.tolist()!r:.200}, expected {r.tolist()!r:.200}')

    def interp(x, y, q):
        return np.interp(q, x, y)

    def tf_ref(kind, s, k):
        if kind == '98':
            return eh98(*s[:3], k, *s[3:])
        return eh99(*s[:6], k, *s[6:])

    def client(ci):
        own = {}
        for j, o in enumerate(sc['clients'][ci]['ops']):
            k, w, v = o['k'], o['w'], o['v'] // 7
            what = f'client {ci} op {j} {k}/{w}/{o["v"]}'
            with ctx.quiet():
                g = np.random.RandomState(o['v'] & 0x7fffffff)
                act, judge, err = build(o, k, w, v, g, what, own)
            for att in range(3):
                out = ctx.call(f'{ci}.{j}.{att}', act)
                ctx.event(k, ci, j, out.kind)
                if out.ok or err:
                    break
                ctx.check(out.injected, 'call-failed', f'{what}: {out!r}')
                ctx.probe('repeated after an interrupt')
            else:
                ctx.violate('call-failed', f'{what} never succeeds')
            with ctx.quiet():
                if err:
                    if not out.injected:
                        ctx.check(out.isa(err), 'not-rejected', f'{what}: {out!r}')
                        ctx.nontrivial = True
                        ctx.probe('rejected request')
                    judge(None)
                else:
                    judge(out.value)
                for i, (a, b) in enumerate(zip(common, kept)):
                    ctx.check(np.array_equal(a, b), 'input-changed', f'{what}: common array {i} changed')
            ctx.state((k, w, v % 6, out.kind))
            ctx.pause()

    def build(o, k, w, v, g, what, own):
        if k == 'bis':
            x, y = (X, Y) if not o['own'] else nodes(g, 1 + v % 7)
            n = len(x)
            q = np.concatenate([x, x + .125, x - .125, [x[0] - 5., x[-1] + 5.], (x[1:] + x[:-1]) / 2])
            xi = x
            if w == 3:
                xi = np.arange(n) * (1 + v % 3)
                q = np.arange(-1, n * 3 + 1) * .5
            ref = np.searchsorted(xi, q, side='right') - 1
            if w < 2:
                return lambda: [I.bisearch(xi, z) for z in q], lambda r: eq(r, ref, what), None
            if w == 2 and v % 29 == 0:      # many at once
                q = np.resize(q, 2500)
            near = [int(min(range(n), key=lambda a: (abs(xi[a] - z), -a))) for z in q]
            if w < 4:
                return lambda: (I.bisearch_nearest_array(xi, q), [I.bisearch_nearest(xi, z) for z in q]), lambda r: (eq(r[0], near, what), eq(r[1], near, what)), None
            if w < 5:
                def judge(r):
                    for (l, rr, wl, wr), z in zip(r, q):
                        ctx.check(0 <= l <= rr < n and wl >= 0 and wr >= 0 and abs(wl + wr - 1) < 1e-12, 'value', f'{what}: weights {(l, rr, wl, wr)}')
                        eq(xi[l] * wl + xi[rr] * wr, min(max(z, xi[0]), xi[-1]), what)
                return lambda: [I.bisearch_interp_weight(xi, z) for z in q], judge, None
            if w < 6:
                return lambda: ([I.bisearch_interp(x, y, z) for z in q], [I.bisearch_interp_fix_oob(x, y, z, -77., 99.) for z in q]), lambda r: (
                    eq(r[0], interp(x, y, q), what), eq(r[1], [-77. if z < x[0] else 99. if z > x[-1] else interp(x, y, z) for z in q], what)), None
            x2, _ = nodes(g, 1 + v % 4)
            yy = g.uniform(-1, 1, (n, len(x2), 2) if v % 2 else (n, len(x2)))
            q2 = g.choice(np.concatenate([x2, x2 + .125, [x2[0] - 1., x2[-1] + 1.]]), len(q))

            def ref2(a, b):
                t = np.apply_along_axis(lambda c: interp(x, c, a), 0, yy)
                return np.apply_along_axis(lambda c: interp(x2, c, b), 0, t)
            return lambda: [I.bisearch_interp_2d(x, x2, yy, a, b) for a, b in zip(q, q2)], lambda r: eq(np.array(r), np.array([ref2(a, b) for a, b in zip(q, q2)]), what), None
        if k == 'lin':
            if o['own']:
                if 'lin' not in own or w == 0:
                    x, y = nodes(g, 2 + v % 6)
                    own['lin'] = [None, x, y]
                    act = lambda: I.Linear(x, y, check=True) if v % 2 else I.Linear(x, y)
                    return act, lambda r: (own['lin'].__setitem__(0, r), eq([r.value_at(z) for z in x], y, what)), None
                L, x, y = own['lin']
                if w == 1:
                    y[v % len(y)] += 1.             # the arrays are referred to
                    return lambda: [L.value_at(z) for z in x], lambda r: eq(r, y, what), None
            else:
                L, x, y = clin, LX, LY
            q = np.concatenate([x, x + .125, x - .125, [x[0] - 5., x[-1] + 5.]])
            n = len(x)
            d = [(y[min(i + 1, n - 1)] - y[max(i - 1, 0)]) / (x[min(i + 1, n - 1)] - x[max(i - 1, 0)]) for i in range(n)]
            y0 = y.copy()
            if w < 5:
                return lambda: [L.value_at(z) for z in q], lambda r: eq(r, interp(x, y, q), what), None

            def act():
                D = L.derivative()
                return [D.value_at(z) for z in q], [L.value_at(z) for z in q]
            return act, lambda r: (eq(r[0], interp(x, np.array(d), q), f'{what}: derivative'), eq(r[1], interp(x, y, q), what), ctx.check(np.array_equal(y, y0), 'input-changed', what)), None
        if k == 'ptn':
            if not o['own']:
                p, x = cptn, DX
            else:
                if 'ptn' not in own:
                    own['ptn'] = (None, g.permutation(np.cumsum(g.uniform(.1, 2, 3 + v % 9)) * [1, 1000.][v % 2]))
                    if v % 3 == 0:
                        own['ptn'] = (None, own['ptn'][1].astype(int) * 2 + np.arange(len(own['ptn'][1])) * 0)
                        if len(set(own['ptn'][1].tolist())) < len(own['ptn'][1]):
                            own['ptn'] = (None, g.permutation(9) * 3)
                p, x = own['ptn']
            x0 = x.copy()
            xs = np.sort(x).astype(float)
            q = np.concatenate([xs[1:-1], (xs[1:] + xs[:-1]) / 2])
            cdf = np.interp(q, xs, np.arange(len(xs)) / (len(xs) - 1.))

            def act():
                p_ = p or ProbTransToNorm(x)
                a, b = p_.forw(q), p_.forw(q, with_norm=False)
                return a, b, p_.back(a), p_.back(b, False), p_.forw(xs[[0, -1]]), p_.back(np.array([-40., 40.])), p_.forw(xs[[0, -1]], with_norm=False), p_
            return act, lambda r: (eq(r[0], norm.ppf(cdf), what, 1e-8), eq(r[1], cdf, what), eq(r[2], q, f'{what}: back', 1e-8), eq(r[3], q, f'{what}: back', 1e-8), eq(r[5], xs[[0, -1]], what), eq(r[6], [0., 1.], what),
                                   ctx.check(r[4][0] < -8. and r[4][1] > 8., 'value', f'{what}: ends {r[4]}'), ctx.check(np.array_equal(x, x0), 'input-changed', f'{what}: sample changed'),
                                   o['own'] and own.__setitem__('ptn', (r[7], x))), None
        if k == 'ang':
            s = -1 if v % 3 == 0 else 1
            d, m, c = int(g.randint(0, 90)) if v % 5 else 0, int(g.randint(0, 60)), round(float(g.uniform(0, 60)), 3)
            ref = s * (d + m / 60 + c / 3600)
            t = f'{"-" if s < 0 else ["", "+"][v % 2]}{d:02d}:{m:02d}:{c:06.3f}'
            tup = (s * float(d) if d else math.copysign(0., s), m, c)
            if w == 7:
                return lambda: (cvt.dms_to_deg((0., s * m, c)) if s > 0 else cvt.dms_to_deg((-d - 1., -m, -c)), 0), lambda r: eq(r[0], m / 60 + c / 3600 if s > 0 else -(d + 1 + m / 60 + c / 3600), what), None
            return lambda: (cvt.dms_to_deg(t), cvt.dms_to_deg(tup), cvt.hms_to_deg(t), cvt.hms_to_deg(tup)), lambda r: eq(r, [ref, ref, ref * 15, ref * 15], f'{what} {t}'), None
        if k == 'us':
            if o['own']:
                h = float(g.uniform(.4, 1.2))
                l, t, m = (10.**g.uniform(-5, 25), 10.**g.uniform(-5, 18), 10.**g.uniform(-5, 40)) if v % 2 else (MPC / h, GYR / h, MSUN * 1e10 / h)
                mk = (lambda: UnitSystem(l, t, m)) if v % 2 else lambda: UnitSystem.create_for_cosmology(h)
            else:
                l, t, m = MPC / .7, GYR / .7, MSUN * 1e10 / .7
                mk = lambda: cus
            vel = l / t
            names = ['u_l_to_pc', 'u_t_to_yr', 'u_m_to_sol', 'u_v_to_kmps', 'u_e_to_erg', 'u_power_to_ergps', 'c_gravity', 'c_m_sun', 'c_light_speed', 'c_m_p', 'c_h_planck']
            ref = [l / (MPC / 1e6), t / (GYR / 1e9), m / MSUN, vel / 1e3, m * vel**2 * 1e7, m * vel**2 / t * 1e7, G / (l**3 / t**2 / m), MSUN / m, C / vel, 1.67262192369e-27 / m, 6.62607015e-34 / (m * vel * l)]
            si = {'u_l': l, 'u_t': t, 'u_m': m, 'u_v': vel, 'u_e': m * vel**2, 'u_power': m * vel**2 / t, 'u_angular_momentum': m * vel * l, 'u_gravity_constant': l**3 / t**2 / m, 'u_density': m / l**3, 'u_big_hubble': 1 / t}

            def judge(u):
                for n_, r in zip(names, ref):
                    ctx.check(abs(getattr(u, n_) / r - 1) < 1e-6, 'value', f'{what}: {n_} is {getattr(u, n_)}, expected {r}')
                for n_, r in si.items():
                    ctx.check(abs(getattr(u, n_).si.value / r - 1) < 1e-9, 'value', f'{what}: {n_} is {getattr(u, n_)}, expected {r} SI')
                repr(u)
                ctx.check(set(u.to_simple_repr()) >= {'u_l', 'u_t', 'u_m', 'u_v'}, 'value', f'{what}: {u!r}')
            return mk, judge, None
        if k == 'usj':
            h = float(g.uniform(.4, 1.2))
            l, t, m = (10.**g.uniform(-5, 25), 10.**g.uniform(-5, 18), 10.**g.uniform(-5, 40)) if v % 2 else (MPC / h, GYR / h, MSUN * 1e10 / h)
            vel = l / t
            ref = {'u_length': l, 'u_time': t, 'u_mass': m, 'u_gravity_constant': l**3 / t**2 / m, 'u_density': m / l**3, 'u_big_hubble': 1 / t, 'u_velocity': vel, 'u_velocity_in_kmps': vel / 1e3, 'proton_mass': 1.67262192369e-27 / m,
                   'solar_mass': MSUN / m, 'pc': MPC / 1e6 / l, 'yr': GYR / 1e9 / t, 'salpeter_time': .45049 * GYR / t, 'light_speed': C / vel, 'gravity_constant': G / (l**3 / t**2 / m)}
            return (lambda: fl._UnitSystem(l, t, m, 1.)) if v % 2 else lambda: fl._make_us_for_cosmology(h), lambda u: [
                ctx.check(abs(getattr(u, n_) / r - 1) < 1e-9, 'value', f'{what}: {n_} is {getattr(u, n_)}, expected {r}') for n_, r in ref.items()], None
        if k in ('lcdm', 'vir'):
            if o['own']:
                par = {'hubble': round(float(g.uniform(.5, .9)), 4), 'omega_m0': round(float(g.uniform(.1, .6)), 4), 'omega_b0': .04, 't_cmb': [2.7255, 0.][v % 2], 'sigma_8': .8, 'n_spec': .96}
                par['omega_l0'] = 1 - par['omega_m0']
                own_a = ac.FlatLambdaCDM(H0=par['hubble'] * 100, Om0=par['omega_m0'], Tcmb0=par['t_cmb'], Ob0=par['omega_b0'])
                mk = (lambda: LambdaCDM.from_parameters(par)) if v // 2 % 2 else lambda: LambdaCDM.from_astropy_model(own_a, name='a')
            else:
                par, mk = PAR, lambda: ccosm
            h, om = par['hubble'], par['omega_m0']
            A = ac.FlatLambdaCDM(H0=h * 100, Om0=om, Tcmb0=par['t_cmb'], Ob0=par['omega_b0'])
            z = [0., .5, np.array([0., 1., 3.5]), np.array([2.]), 6.][v // 4 % 5]
            z0 = np.array(z)
            a = 1 / (1 + z0)
            H0 = .1022712165045695
            GG = G / (MPC**3 / GYR**2 / (MSUN * 1e10))
            crit = 3 * (H0 * A.efunc(z))**2 / (8 * np.pi * GG)
            matter = crit * A.Om(z)
            if k == 'lcdm':
                zp, zf, near0 = np.array([.1, 1., 4.]), np.array([-.5, -.1, .3]), np.array([0., 10., -1.])

                def act():
                    m = mk()
                    m.redshifts.at_comoving(near0)
                    return (m.big_hubble(z), m.rho_crit(z), m.rho_matter(z), m.omega_m(z), m.omega_l(z), m.omega_b(z), m.age(z), m.times.lookback_at(z), m.distances.comoving_at(z), m.distances.angular_diameter_at(z),
                            m.distances.luminosity_at(z), m.distances.distance_modulus_at(zp), m.redshifts.at_comoving(m.distances.comoving_at(zp)) if w < 3 else zp, m.omega_b(zf), m.omega_m(zf), m.omega_l(zf), m)

                def judge(r):
                    d = A.comoving_distance(z).to('Mpc').value
                    refs = [H0 * A.efunc(z), crit, matter, A.Om(z), A.Ode(z), A.Ob(z), A.age(z).to('Gyr').value * h, A.lookback_time(z).to('Gyr').value * h, d * h, d * h * a, d * h / a,
                            5 * np.log10(A.luminosity_distance(zp).to('pc').value / 10), zp, A.Ob(zf), A.Om(zf), A.Ode(zf)]
                    for q, (x, y) in enumerate(zip(r, refs)):
                        eq(x, y, f'{what} number {q}', 1e-5)
                    m = r[-1]
                    ctx.check(all(abs(getattr(m, n_) - par[n_]) < 1e-3 for n_ in ('hubble', 'omega_m0', 'omega_l0', 'omega_b0', 't_cmb')), 'value', f'{what}: parameters')
                    eq(m.baryon_fraction0, par['omega_b0'] / om, what)
                    ctx.check(m.distances is m.distances and m.times is m.times and m.redshifts is m.redshifts and m.halo_theory is m.halo_theory, 'value', f'{what}: calculators are not kept')
                    ctx.check(np.array_equal(z, z0) and near0.tolist() == [0., 10., -1.], 'input-changed', f'{what}: redshifts changed')
                return act, judge, None
            f = [200., 97., 500.][v // 20 % 3]
            mv = [100., np.array([1., 10., 1e4])][v // 3 % 2] if np.ndim(z) == 0 else 100. * np.ones(len(z))
            c = np.concatenate([[5., 10., 77., 500.], 10.**np.random.default_rng(v).uniform(.7, 3., 3), np.random.default_rng(v).uniform(52., 99., 2)])
            mu = np.log(1 + c) - c / (1 + c)

            def act():
                t = mk().halo_theory
                kw = {'z': z} if v % 7 else {}
                kw |= {'f': f} if f != 200. else {}
                p = t.nfw_profile
                return t.vir_props_mean(mv, **kw), t.vir_props_crit(mv, **kw), p.v_max2vir_to_c(p.c_to_v_max2vir(c)), p.mu(c), p.c_to_v_max2vir(c), t.v_vir(100., .5, to_kmps=True), t.v_vir(100., .5)

            def judge(r):
                if v % 7 == 0:
                    aa, cr = 1., 3 * (H0 * A.efunc(0.))**2 / (8 * np.pi * GG)
                    ma = cr * A.Om(0.)
                else:
                    aa, cr, ma = a, crit, matter
                for p, rho in ((r[0], f * ma * aa**3), (r[1], f * cr * aa**3)):
                    eq(p.rho, rho, f'{what}: density', 1e-5)
                    rr = (mv / rho / (4 / 3 * np.pi))**(1 / 3)
                    eq(p.r, rr, f'{what}: radius', 1e-5), eq(p.r_phy, aa * rr, f'{what}: physical radius', 1e-5), eq(p.v, np.sqrt(GG * mv / (aa * rr)), f'{what}: velocity', 1e-4)
                    eq(p.t_dyn, p.r_phy / p.v, what), eq(p.m, mv, what)
                eq(r[2], c, f'{what}: concentration', 4e-4), eq(r[2][-2:], c[-2:], f'{what}: concentration', 5e-6), eq(r[3], mu, what), eq(r[4], np.sqrt(.216217 * c / mu), what)
                eq(r[6], math.sqrt(GG * 200.), what, 1e-4), eq(r[5], r[6] * MPC / GYR / 1e3, what, 1e-6)
            return act, judge, None
        if k == 'cosj':
            cs = COSM[v % 4]
            z = [0., 1.5, np.array([0., 1., 9.])][v // 4 % 3]
            mk = (lambda: fl._FlatLambdaCDMNR(*cs)) if o['own'] else lambda: cj
            if not o['own']:
                cs = COSM[0]
            e2 = 1 - cs[1] + cs[1] * (1 + z)**3
            cr = 3 * .1022712165045695**2 / (8 * np.pi * G / (MPC**3 / GYR**2 / (MSUN * 1e10)))

            def act():
                c = mk()
                d = c.densities()
                return c.efunc_sqr(z), c.efunc(z), c.omega_m(z), c.omega_l(z), c.big_hubble(z), c.a2z(c.z2a(z)), c.z2a(z), c.baryon_fraction(), d.crit0(), d.crit(z), d.mean0(), d.mean(z), d.m_to_r(d.r_to_m(z)), d.r_to_m(z), c.omega_l0

            def judge(r):
                refs = [e2, np.sqrt(e2), cs[1] * (1 + z)**3 / e2, (1 - cs[1]) / e2, .1022712165045695 * np.sqrt(e2), z, 1 / (1 + z), cs[2] / cs[1], cr, cr * e2, cr * cs[1], cr * cs[1] * (1 + z)**3, z, 4 / 3 * np.pi * z**3 * cr * cs[1], 1 - cs[1]]
                for q, (x, y) in enumerate(zip(r, refs)):
                    eq(x, y, f'{what} number {q}', 1e-7)
            return act, judge, None
        if k == 'tf':
            ks = np.array([1e-4, .01, .07, .2, 1., 30.])
            kind = '98' if w < 3 else '99' if w < 6 else 'both'
            cs = COSM[v % 4]
            if kind == 'both':
                b = v // 4 % 2 == 1
                cc = fl._FlatLambdaCDMNR(*cs)
                if 'both' not in own:
                    def act():
                        t = ps._TransferFunctionFlatLambdaCDMNR(cc, b)
                        return t, [t.transfer_function(q) for q in ks]
                else:
                    t_ = own['both']

                    def act():
                        t_.set_variant(cc, b)
                        return t_, [t_.transfer_function(q) for q in ks]
                ref = [eh98(cs[1], cs[2] / cs[1], cs[0], q)[0] if b else eh99(cs[1], cs[2], 0., 0, 1 - cs[1], cs[0], q)[0] for q in ks]
                return act, lambda r: (own.__setitem__('both', r[0]), eq(r[1], ref, f'{what}: cosmology {cs}, baryons {b}', 1e-7)), None
            key = 'tf' + kind
            if kind == '98':
                s = (cs[1], cs[2] / cs[1], cs[0]) + ((), (2.9,))[v // 4 % 2]
                bad = [(0., .1, .7), (.3, 0., .7), (.3, .1, -1.), (.3, .1, .7, 0.)][v // 8 % 4]
                ks = np.append(ks, [0., -.2])
            else:
                s = (cs[1], [cs[2], 0.][v // 4 % 2], [0., .01, .05][v // 8 % 3], [0, 1, 3][v // 24 % 3], [1 - cs[1], .2][v // 72 % 2], cs[0]) + ((), (1.5,))[v // 144 % 2]
                bad = [(.3, -.1, 0., 0, .7, .7), (.3, .1, -.1, 0, .7, .7), (.3, .1, 0., 0, .7, 0.), (.3, .1, 0., 0, .7, 2.5), (.3, .1, 0., 0, .7, .7, -1.5), (.3, .1, 0., 0, .7, .7, 120.)][v // 8 % 6]
            if key in own and own[key][0] is not None and w % 3 == 2:
                t, cur, nu = own[key]
                return lambda: t.set_cosmology(*bad), lambda r: ([eq(t._transfer_function(q), tf_ref(kind, cur, q), f'{what}: after a rejected setting', 1e-7) for q in ks]), ValueError
            t = own[key][0] if key in own else ps._TransferFunctionEH98() if kind == '98' else ps._TransferFunctionEH99()
            nu = kind == '99' and v // 288 % 2 == 1

            def act():
                t.set_cosmology(*s)
                if kind == '99':
                    t.set_variant(nu)
                return [t._transfer_function(q) for q in ks], [t.transfer_function(q) for q in ks]

            def judge(r):
                own[key] = (t, s, nu)
                ref = [tf_ref(kind, s, q) for q in ks]
                eq(np.array(r[0]), np.array(ref), f'{what}: cosmology {s}', 1e-7), eq(r[1], [q[1 if nu else 0] for q in ref], f'{what}: cosmology {s}, neutrinos {nu}', 1e-7)
            return act, judge, None
        if k == 'ps':
            b = bool(v % 2)
            cs = COSM[0]
            if o['own']:
                if 'ps' not in own or w == 0:
                    own['ps'] = (None, COSM[v // 2 % 4], b)
                P_, cs, b = own['ps']
            else:
                P_ = cps[b]
            z = [0., .5, 3.][v // 8 % 3]
            ks, rs = np.array([1e-4, .01, .2, 5.]), np.array([1e-9, .5, 8., 20.])

            def act():
                P = P_ or ps._PowerSpectrumFlatLambdaCDMNR(fl._FlatLambdaCDMNR(*cs), b)
                out = (P.sigma_sqr(8., 0.), [P.power(q, z) for q in ks], [P.big_delta_sqr(q, z) for q in ks], P.growth_fac(z), P.delta_crit(z), [P.transfer_func(q) for q in ks], [P.window_func(.7, q) for q in rs],
                       P.sigma_sqr(2., z), P.sigma_sqr(2., 0.), P.sigma_sqr_at_mass(50., 0.))
                it = P.interp_lg_sigma_at_lg_mass((-1., 2.), 4) if w in (1, 2) else None
                return out + ([it.value_at(q) for q in (-1., 0., 1., 2., 1.5, -3.)] if it is not None else None, P)

            def judge(r):
                if o['own']:
                    own['ps'] = (r[-1], cs, b)
                T = np.array([eh98(cs[1], cs[2] / cs[1], cs[0], q)[0] if b else eh99(cs[1], cs[2], 0., 0, 1 - cs[1], cs[0], q)[0] for q in ks])
                D = grow(cs, z)
                eq(r[0], cs[4]**2, f'{what}: sigma_8', 1e-6), eq(r[3], D, f'{what}: growth'), eq(r[4], 1.686 / D, f'{what}: critical overdensity'), eq(r[5], T, f'{what}: transfer function', 1e-7)
                p = np.array(r[1])
                eq(r[2], p * ks**3 / (2 * np.pi**2), f'{what}: power against Delta^2', 1e-9)
                eq(p / p[2], ks**cs[3] * T**2 / (ks[2]**cs[3] * T[2]**2), f'{what}: shape of the power spectrum', 1e-7)
                x = .7 * rs
                eq(r[6], [1. if q < 1e-5 else 3 * (math.sin(q) - q * math.cos(q)) / q**3 for q in x], f'{what}: window', 1e-9)
                eq(r[7], r[8] * D * D, f'{what}: growth of the variance', 1e-6)
                lk = np.linspace(math.log(1e-4), math.log(60.), 1500)
                kk = np.exp(lk)
                Tk = np.array([eh98(cs[1], cs[2] / cs[1], cs[0], q)[0] if b else eh99(cs[1], cs[2], 0., 0, 1 - cs[1], cs[0], q)[0] for q in kk]) if w == 3 else None
                if Tk is not None:
                    W = lambda rad: 3 * (np.sin(kk * rad) - kk * rad * np.cos(kk * rad)) / (kk * rad)**3
                    it = lambda rad: np.trapezoid(kk**(3 + cs[3]) * (Tk * W(rad))**2, lk)
                    eq(r[8] / r[0], it(2.) / it(8.), f'{what}: ratio of variances', 1e-3)
                cr = 3 * .1022712165045695**2 / (8 * np.pi * G / (MPC**3 / GYR**2 / (MSUN * 1e10)))
                P = r[-1]
                rad = lambda m: (m / (cr * cs[1]) * 3 / 4 / np.pi)**(1 / 3)
                eq(r[9], P.sigma_sqr(rad(50.), 0.), f'{what}: variance at mass', 1e-6)
                if r[10] is not None:
                    ls = [.5 * math.log10(P.sigma_sqr(rad(10.**m), 0.)) for m in (-1., 0., 1., 2.)]
                    eq(r[10], ls + [(ls[2] + ls[3]) / 2, ls[0]], f'{what}: interpolated variance', 1e-6)
            return act, judge, None
        if k == 'stack':
            a = g.standard_normal((1 + v % 5, 3)) if w < 4 else g.standard_normal(4)
            a0 = a.copy()
            return lambda: Stack.mean_and_sd(a.tolist() if v % 2 else a), lambda r: (eq(r[0], a0.sum(0) / len(a0), what), eq(r[1], np.sqrt(((a0 - a0.mean(0))**2).sum(0) / len(a0)), what), ctx.check(np.array_equal(a, a0), 'input-changed', what)), None
        x = np.arange(4.)
        bads = [(lambda: I.bisearch(x[:0], 1.), AssertionError), (lambda: I.Linear(x, x[:3]), AssertionError), (lambda: I.Linear(x[:1], x[:1]), AssertionError), (lambda: I.Linear(np.array([0., 1., 1.]), x[:3]), AssertionError),
                (lambda: I.Linear(np.array([0., 2., 1.]), x[:3]), AssertionError), (lambda: I.Linear(x[::-1].copy(), x), AssertionError), (lambda: ProbTransToNorm(np.array([1., 2., 1.])), AssertionError),
                (lambda: cptn.forw(np.array([DX.max() + 1.])), ValueError), (lambda: cptn.back(np.array([1.5]), with_norm=False), ValueError), (lambda: cvt.dms_to_deg('1:2'), ValueError), (lambda: cvt.hms_to_deg('a:b:c'), ValueError),
                (lambda: ccosm.halo_theory.mass_function(1., 2., .1, 0., mass_def='fof'), ValueError), (lambda: LambdaCDM.from_parameters({'hubble': .7}), KeyError), (lambda: ccosm.sigma_8, KeyError),
                (lambda: LambdaCDM.from_conf_file('x.yaml'), AssertionError), (lambda: ps._TransferFunction().transfer_function(1.), NotImplementedError), (lambda: ps._GrowthFactor().growth_factor(1.), NotImplementedError),
                (lambda: ccosm.halo_theory.nfw_profile.v_max2vir_to_c(.5), ValueError)]
        f, e = bads[v % len(bads)]
        return f, lambda r: None, e

    ctx.run_clients([lambda c=c: client(c) for c in range(len(sc['clients']))], faults=sc['faults'])
    for b, P in zip((False, True), cps):
        eq(P.sigma_sqr(8., 0.), COSM[0][4]**2, 'common power spectrum at the end', 1e-6)
        eq(P.transfer_func(.2), eh98(COSM[0][1], COSM[0][2] / COSM[0][1], COSM[0][0], .2)[0] if b else eh99(COSM[0][1], COSM[0][2], 0., 0, 1 - COSM[0][1], COSM[0][0], .2)[0], 'common power spectrum at the end', 1e-7)
    eq([clin.value_at(z) for z in LX], LY, 'common interpolator at the end')
