"""C25  Array helpers give their defined values, and touch nothing they were not asked to change.

Clients apply every helper to common and own arrays; in-place variants work on own arrays
and are repeated after interrupts.  The oracle is a loop over plain Python numbers."""
import math

import numpy as np

PROP = 'C25'
RUNS = {'quick': 3000, 'thorough': 100000}
RULE = ('one run = 1-3 clients applying 4-14 helper calls each (bounds, logs, norms, masks, periodic shifts, frames, chunks, filters, offsets, bin edges, array objects, point groups; in place or '
        'by copy) to common and own arrays under a line-level schedule with interrupts followed by a repeat and rejected requests; non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (helper, variant, array kind, outcome)'
REAL = ['pyhipp.core.dataproc (num, mask, frame, iter, filter, data_structs)', 'pyhipp.core.arrays', 'pyhipp.stats.binning (Bin, Hist1D)', 'pyhipp.group_theory.point_group', 'numpy']
STUB = ['thread choice and interruption points (simulated scheduler)']
ASSUME = ['a call into numpy is atomic', 'periodic shifts are given positions at most one box outside']
KINDS = ['num', 'num', 'num', 'mask', 'mask', 'mask', 'box', 'box', 'box', 'polar', 'chunk', 'filter', 'struct', 'struct', 'bins', 'bins', 'arr', 'arr', 'arr', 'grp', 'bad']
N = 12


def warmup(tmp):
    import pyhipp.core.arrays, pyhipp.stats.binning, pyhipp.group_theory.point_group, pyhipp.core.dataproc  # noqa: F401,E401
    import numpy.linalg  # noqa: F401


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(4, 15)):
            ops.append({'k': rng.choice(KINDS), 'v': rng.randrange(1 << 30), 'w': rng.randrange(12), 'own': rng.random() < .4, 'a': rng.randrange(4), 'inp': rng.random() < .4})
            if rng.random() < .12:
                faults.append({'op': f'{c}.{j}.0', 'line': rng.randrange(1, 14), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'seed': rng.randrange(1 << 30), 'n': rng.choice([0, 1, 2, 5, 9]) if rng.random() < .995 else rng.choice([300, 1500, 5000]), 'clients': clients, 'faults': faults,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .4])} if nc > 1 else {'mode': 'serial'}}


def arrays(seed, n):
    rs = np.random.RandomState(seed & 0x7fffffff)
    x = rs.uniform(-3, 5, n)
    if n:
        x[rs.randint(n)] = 0.
    return [x, rs.randint(-4, 9, n), rs.uniform(-1, 2, (n, 3)), rs.choice([-1., 0., 1e-12, .5, 1., 2.], n)]


def run(sc, ctx):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, ctx)


def _run(sc, ctx):
    from pyhipp.core.dataproc import Num, Mask, frame, iter as it, filter as flt, data_structs as ds
    from pyhipp.core import arrays as ca
    from pyhipp.core.arrays import array as caa
    from pyhipp.stats.binning import Bin, Hist1D
    from pyhipp.group_theory import point_group as pg
    common = arrays(sc['seed'], sc['n'])
    kept = [a.copy() for a in common]
    cdict = {'x': common[0], 'i': common[1], 'p': common[2]}
    groups = {k: pg.Group.create(k) for k in ('cubic', 'square')}
    gkeep = {k: np.array([o.mat for o in g]) for k, g in groups.items()}
    cobj = caa.Array(common[0])

    def eq(got, ref, kind, what, tol=1e-12):
        g, r = np.asarray(got), np.asarray(ref)
        ctx.check(g.shape == r.shape, kind, f'{what}: shape {g.shape}, expected {r.shape}')
        ok = bool((np.isclose(g, r, rtol=tol, atol=tol, equal_nan=True)).all()) if g.dtype.kind in 'fiub' and r.dtype.kind in 'fiub' else bool((g == r).all())
        ctx.check(ok, kind, f'{what}: {g.tolist()!r:.300}, expected {r.tolist()!r:.300}')

    def common_kept(what):
        for i, (a, b) in enumerate(zip(common, kept)):
            ctx.check(a.shape == b.shape and np.array_equal(a, b), 'input-changed', f'{what}: common array {i} changed')
        for k, g in groups.items():
            ctx.check(len(list(g)) == len(gkeep[k]) and all(np.array_equal(o.mat, m) for o, m in zip(g, gkeep[k])), 'input-changed', f'{what}: common group {k} changed')
        ctx.check(set(cdict) == {'x', 'i', 'p'} and np.array_equal(cobj._impl, kept[0]), 'input-changed', f'{what}: common object changed')

    def build(o, what):
        """(action, judge, final check of an in-place target, array which a copy must not share)"""
        rs = np.random.RandomState(o['v'] & 0x7fffffff)
        v, w, inp = o['v'] // 7, o['w'], o['inp']
        if o['own'] or inp:
            A = arrays(o['v'], rs.choice([0, 1, 3, 7]))
        else:
            A = common
        x, xi, xp, xz = A
        n = len(x)
        src = [A[o['a'] % 2], A[0], A[3]][v % 3]           # a 1-d array
        fresh = []

        def cp(r, s):
            """with copying: the answer is another array than the argument"""
            ctx.check(not np.shares_memory(r, s), 'aliased', f'{what}: the copy is the argument itself')
        k = o['k']
        if k == 'num':
            lo, hi = [(None, None), (-.5, None), (None, 2.), (-.5, 2.), (0, 1)][v % 5]
            L = lambda z: z if lo is None or not z < lo else lo
            H = lambda z: z if hi is None or not z > hi else hi
            if w in (0, 1):
                s = x if w else xi
                if s.dtype.kind == 'i':
                    lo, hi = [(None, None), (0, None), (None, 2), (0, 2), (-1, 1)][v % 5]
                ref = [H(L(z)) for z in s.tolist()]
                f = Num.bound_array if v % 2 else Num.bound
                if inp:
                    return lambda: f(s, lo=lo, hi=hi, copy=False), lambda r: (eq(r, np.array(ref, s.dtype), 'value', what), eq(s, np.array(ref, s.dtype), 'in-place', what))
                return lambda: f(s, lo, hi), lambda r: (eq(r, np.array(ref, s.dtype), 'value', what), cp(r, s))
            if w == 2:
                z = float(rs.uniform(-2, 4)) if v % 2 else int(rs.randint(-3, 5))
                return lambda: (Num.bound(z, lo, hi), Num.bound_scalar(z, lo=lo, hi=hi)), lambda r: [eq(q, H(L(z)), 'value', what) for q in r]
            if w == 3:
                l_ = [1e-10, .3][v % 2]
                y = xz if len(xz) == n else x
                ref = [a / max(b, l_) for a, b in zip(x.tolist(), y.tolist())]
                return (lambda: Num.safe_div(x, y)) if v % 2 == 0 else (lambda: Num.safe_div(x, y, lo=l_)), lambda r: eq(r, ref, 'value', what)
            if w in (4, 5):
                g, sg, fn = (Num.lg, Num.safe_lg, math.log10) if w == 4 else (Num.ln, Num.safe_ln, math.log)
                pos = np.abs(x) + .1
                ref = [fn(z) for z in pos.tolist()]
                ref2 = [fn(max(z, .2)) for z in x.tolist()]
                ref3 = [fn(max(z, 1e-10)) for z in xz.tolist()]
                return lambda: (g(pos), g(pos, pos), sg(x, lo=.2), sg(xz, xz), sg(0.), g(100.), sg(x, xz, lo=.2)), lambda r: (
                    eq(r[0], ref, 'value', what), ctx.check(type(r[1]) is tuple and len(r[1]) == 2, 'value', what), eq(r[1][1], ref, 'value', what), eq(r[2], ref2, 'value', what),
                    ctx.check(type(r[3]) is tuple and len(r[3]) == 2, 'value', what), eq(r[3][0], ref3, 'value', what), eq(r[3][1], ref3, 'value', what), eq(r[4], fn(1e-10), 'value', what), eq(r[5], fn(100.), 'value', what), eq(r[6][0], ref2, 'value', what), eq(r[6][1], [fn(max(z, .2)) for z in xz.tolist()], 'value', what))
            if w in (6, 7):
                s = [xp, xp.T, x, xp.tolist()][v % 4] if n else xp
                ax = [-1, 0][v // 4 % 2]
                s_ = np.asarray(s)
                ref = np.sqrt((s_ * s_).sum(axis=ax))
                return lambda: (Num.norm(s, axis=ax), Num.norm(s, ax, keepdims=True), Num.norm(s)), lambda r: (
                    eq(r[0], ref, 'value', what), eq(r[1], np.expand_dims(ref, ax), 'value', what), eq(r[2], np.sqrt((s_ * s_).sum(axis=-1)), 'value', what))
            s = xp
            if v % 3 == 0 and n and not inp:
                s = xp * 1.
                s[0] = [0., 0., 1e-12]
            ax = -1 if v % 2 or not n else 0
            s0 = s.copy()
            nn = np.maximum(np.sqrt((s0 * s0).sum(axis=ax, keepdims=True)), 1e-10)
            if inp:
                return lambda: Num.normalize(s, axis=ax, inplace=True), lambda r: (eq(r, s0 / nn, 'value', what), eq(s, s0 / nn, 'in-place', what))
            if v % 7 == 1 and n:
                s = np.eye(3)[rs.permutation(3)] * rs.choice([-1., 1.], (3, 1))
                s0 = s.copy()
                return lambda: Num.normalize(s), lambda r: (eq(r, s0, 'value', what), cp(r, s))
            if v % 5 == 0 and n:
                s3 = s.reshape(n, 3, 1) * np.array([1., 2.])
                return lambda: (Num.normalize(s), Num.normalize(s3)), lambda r: (eq(r[0], s0 / np.maximum(np.sqrt((s0 * s0).sum(axis=-1, keepdims=True)), 1e-10), 'value', what),
                                                                           eq(r[1], s3 / np.maximum(np.sqrt((s3 * s3).sum(axis=-1, keepdims=True)), 1e-10), 'value', what))
            return lambda: Num.normalize(s, axis=ax), lambda r: (eq(r, s0 / nn, 'value', what), eq(s, s0, 'input-changed', what), cp(r, s))
        if k == 'mask':
            m = rs.random_sample(n) < .5
            m2 = rs.random_sample(n) < .5
            if w == 0:
                dst = np.array(x, copy=True)
                val = [np.arange(n) + 10., 7., np.array([3.])][v % 3]
                ref = [(val[i] if np.ndim(val) and len(val) == n else float(np.ravel(val)[0])) if m[i] else x[i] for i in range(n)]
                return lambda: Mask.put(dst, val, m), lambda r: eq(dst, ref, 'in-place', what)
            if w in (1, 2):
                d = [None, -5., 0][v % 3]
                ref = [x[i] if m[i] else (i + .5 if m2[i] else (d or 0.)) for i in range(n)]
                return lambda: Mask.zip([m, m2], [x, np.arange(n) + .5], **({} if v % 2 and d is None else {'default': d})), lambda r: eq(r, ref, 'value', what)
            if w in (3, 4):
                idx = [i for i in range(n) if m[i]]
                mm = m.tolist() if v % 2 and n else m
                def act():
                    a = Mask.bool_to_idx(mm)
                    return a, Mask.idx_to_bool(n, a.tolist() if v % 2 and len(a) else a)
                return act, lambda r: (eq(r[0], np.array(idx, int), 'value', what), eq(r[1], m, 'value', what), ctx.check(r[1].dtype == bool, 'value', what))
            mask, ref = [(m, x[m]), (slice(1, None, 2), x[1::2]), (np.flatnonzero(m)[::-1], x[m][::-1]), (slice(None), x), ([], x[:0]) if True else None][v % 5]
            if v % 5 == 4:
                mask = np.array([], int)
            if w in (5, 6):
                c = v // 5 % 2 == 0
                def judge(r):
                    eq(r, ref, 'value', what)
                    if c:
                        cp(r, x)
                    elif isinstance(mask, slice) and r.size:
                        ctx.check(np.shares_memory(r, x), 'value', f'{what}: copied though not asked to')
                if not c and v // 10 % 2:
                    return lambda: Mask.on_array(mask, x) if w == 5 else Mask.on_arrays(mask, x), judge
                return lambda: Mask.on_array(mask, x, copy=c) if w == 5 else Mask.on_arrays(mask, x, copy=c), judge
            if w == 7 and n:
                i = int(rs.randint(-n, n))
                c = v // 5 % 2 == 0
                return lambda: (Mask.on_array(i, x, copy=c), Mask.on_array(i, xp, copy=c)), lambda r: (eq(r[0], x[i], 'value', what), eq(r[1], xp[i], 'value', what))
            if w in (8, 9):
                c = v // 5 % 2 == 0
                ks = list(np.arange(n)[mask])
                return lambda: Mask.on_arrays(mask, x, xi, xp, copy=c), lambda r: (ctx.check(type(r) is tuple and len(r) == 3, 'value', what), eq(r[0], ref, 'value', what), eq(r[1], xi[ks], 'value', what), eq(r[2], xp[ks], 'value', what),
                                                                                 [cp(q, s) for q, s in zip(r, (x, xi, xp))] if c else None)
            c = v // 5 % 2 == 0
            from collections import OrderedDict
            from pyhipp.core import DataDict
            typ = [dict, OrderedDict, DataDict][v // 10 % 3]
            dd = typ({'x': x, 'i': xi, 'p': xp}) if v % 2 or A is not common else cdict
            ks = list(np.arange(n)[mask])
            return lambda: Mask.on_dict(dd, mask, copy=c), lambda r: (ctx.check(type(r) is type(dd) and list(r.keys()) == ['x', 'i', 'p'] and r is not dd, 'value', what), eq(r['x'], ref, 'value', what),
                                                                   eq(r['i'], xi[ks], 'value', what), eq(r['p'], xp[ks], 'value', what), [cp(r[q], s) for q, s in (('x', x), ('i', xi), ('p', xp))] if c else None,
                                                                   ctx.check(dd['x'] is x and dd['p'] is xp, 'input-changed', f'{what}: dictionary changed'))
        if k == 'box':
            L = [1., 2.5, 100.][v % 3]
            s = np.round(rs.uniform(-1, 2, (len(x), 3) if w % 2 else len(x)) * 8) / 8 * L if v // 3 % 2 else rs.uniform(-.999, 1.999, (len(x), 3) if w % 2 else len(x)) * L
            s = np.clip(s, -L, 1.99 * L)
            if s.size and w == 2:
                s.flat[0] = -1e-18
            wh = None if v // 6 % 2 else rs.random_sample(s.shape) < .6
            if w < 5:
                ref = s.copy()
                for q in np.ndindex(*s.shape):
                    if wh is None or wh[q]:
                        if ref[q] < 0:
                            ref[q] += L
                        if ref[q] >= L:
                            ref[q] -= L
                s0 = s.copy()
                if inp:
                    return lambda: frame.PeriodicBox.shift_in(s, L, where=wh, copy=False), lambda r: (eq(r, ref, 'value', what), eq(s, ref, 'in-place', what), ctx.check(wh is not None or frame.PeriodicBox.test_bound(s, L), 'in-box', what))
                return lambda: frame.PeriodicBox.shift_in(s, L, where=wh), lambda r: (eq(r, ref, 'value', what), eq(s, s0, 'input-changed', what), cp(r, s), ctx.check(wh is not None or bool(((r >= 0) & (r < L)).all()), 'in-box', f'{what}: {r.tolist()} in a box of {L}'))
            if w < 10:
                xr = np.round(rs.uniform(0, 1, 3 if s.ndim == 2 else 1) * 8) / 8 * L if v % 2 else rs.uniform(0, 1, s.shape) * L
                s = np.where(s < 0, s + L, np.where(s >= L, s - L, s))
                s0, ref = s.copy(), s.copy()
                xb = np.broadcast_to(xr, s.shape)
                for q in np.ndindex(*s.shape):
                    if wh is None or wh[q]:
                        d = s0[q] - xb[q]
                        if d < -.5 * L:
                            ref[q] += L
                        elif d >= .5 * L:
                            ref[q] -= L
                near = lambda r: ctx.check(wh is not None or bool((np.abs(r - xr) <= .5 * L * (1 + 1e-12)).all()), 'nearest-image', f'{what}: {r.tolist()} to {xr.tolist()} in a box of {L}')
                if inp:
                    return lambda: frame.PeriodicBox.shift_to(s, xr, L, where=wh, copy=False), lambda r: (eq(r, ref, 'value', what), eq(s, ref, 'in-place', what), near(s))
                return lambda: frame.PeriodicBox.shift_to(s, xr, L, where=wh), lambda r: (eq(r, ref, 'value', what), eq(s, s0, 'input-changed', what), cp(r, s), near(r))
            if v % 5 == 0:
                s = np.abs(s) % L
            ref = all(0 <= z < L for q, z in np.ndenumerate(s) if wh is None or wh[q])
            return lambda: frame.PeriodicBox.test_bound(s, L, where=wh), lambda r: ctx.check(bool(r) == ref, 'value', f'{what}: {r!r}, expected {ref} for {s.tolist()} where {wh} in a box of {L}')
        if k == 'polar':
            P = frame.Polar
            if w == 0:
                th, ph = rs.uniform(0, 3, (n, 2)), rs.uniform(0, 3, (n, 2))
                return lambda: (P.unit_vec_to_cart(th, ph), P.unit_vec_to_cart_2d(th)), lambda r: (
                    eq(r[0], np.moveaxis([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], 0, 2), 'value', what), eq(r[1], np.moveaxis([np.cos(th), np.sin(th)], 0, 2), 'value', what))
            if w < 4:
                st = v % 2 == 0
                ref = [(math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)) for t, p in zip(x.tolist(), xz.tolist())]
                ref = np.array(ref).reshape(n, 3)
                return lambda: P.unit_vec_to_cart(x, xz) if st and v % 4 else P.unit_vec_to_cart(x, xz, stack=st), lambda r: (eq(r, ref, 'value', what) if st else (ctx.check(type(r) is tuple, 'value', what), [eq(r[q], ref[:, q], 'value', what) for q in range(3)]))
            if w < 6:
                st = v % 2 == 0
                ref = np.array([(math.cos(t), math.sin(t)) for t in x.tolist()]).reshape(n, 2)
                return lambda: P.unit_vec_to_cart_2d(x) if st and v % 4 else P.unit_vec_to_cart_2d(x, stack=st), lambda r: (eq(r, ref, 'value', what) if st else [eq(r[q], ref[:, q], 'value', what) for q in range(2)])
            pos = rs.uniform(-1, 1, (n, 3)) + [.01, .01, 0.]
            if v % 3 == 0:
                pos = np.round(pos * 4) + [5., 0., 0.]
            vel = rs.standard_normal((n, 3))
            ref = []
            for p, q in zip(pos, vel):
                ez = p / np.sqrt(p @ p)
                ex = np.array([-p[1], p[0], 0.])
                ex /= np.sqrt(ex @ ex)
                ey = np.array([ez[1] * ex[2] - ez[2] * ex[1], ez[2] * ex[0] - ez[0] * ex[2], ez[0] * ex[1] - ez[1] * ex[0]])
                ref.append(ex * q[0] + ey * q[1] + ez * q[2])
            ref = np.array(ref).reshape(n, 3)
            given = pos
            if n and v % 3 == 0:
                given = pos.astype(int) if v % 2 else pos.astype(int).tolist()
            elif n and v % 3 == 1:
                given = pos.tolist()
            vg = vel.tolist() if v % 2 and n else vel
            p0 = pos.copy()
            return lambda: P.rt_to_cart(given, vg), lambda r: (eq(r, ref, 'value', what, 1e-9), eq(np.asarray(given), p0, 'input-changed', what),
                                                             eq((np.asarray(r)**2).sum(-1), (vel**2).sum(-1), 'norm', f'{what}: lengths', 1e-9))
        if k == 'chunk':
            sizes = rs.randint(0, 4, rs.randint(0, 5)).tolist()
            b = [0]
            for q in sizes:
                b.append(b[-1] + q)
            given = [sizes, tuple(sizes), np.array(sizes, int)][v % 3]
            if v % 4 == 3:
                given = (q for q in sizes)
            X, Y = np.arange(b[-1] + v % 2), list(range(100, 100 + b[-1]))
            if inp:
                given = (q for q in sizes)          # consumed by a single try: list it per try
                return lambda: [(int(p), int(q)) for p, q in it.Chunks.ranges_by_sizes(iter(sizes))], lambda r: ctx.check(r == list(zip(b, b[1:])), 'value', f'{what}: {r}, expected {list(zip(b, b[1:]))}')
            if v % 4 == 3:
                given = sizes
            if w % 3 == 0:
                return lambda: [(int(p), int(q)) for p, q in it.Chunks.ranges_by_sizes(given)], lambda r: ctx.check(r == list(zip(b, b[1:])), 'value', f'{what}: {r}')
            if w % 3 == 1:
                return lambda: list(it.Chunks.slices_by_sizes(given, Y)), lambda r: ctx.check(r == [Y[p:q] for p, q in zip(b, b[1:])], 'value', f'{what}: {r}')
            return lambda: list(it.Chunks.slices_by_sizes(given, X, Y, Y)), lambda r: ctx.check(len(r) == len(sizes) and all(type(t) is tuple and len(t) == 3 and np.array_equal(t[0], X[p:q]) and t[1] == Y[p:q] == t[2] for t, p, q in zip(r, b, b[1:])), 'value', f'{what}: {r}')
        if k == 'filter':
            lo, hi = [(None, None), (0., None), (None, 1.), (0., 1.), (0, 2), (.5, .5)][v % 6]
            s = src
            ref = [z for z in s.tolist() if (lo is None or z >= lo) and (hi is None or z < hi)]
            F = flt.Range(lo, hi) if v % 2 else flt.Range(max=hi, min=lo)
            s_ = s.tolist() if v % 3 == 0 and len(s) else s
            return lambda: (F(s_), F(s_)), lambda r: [eq(q, np.array(ref, s.dtype), 'value', what) for q in r]
        if k == 'struct':
            if w < 2:
                a, b = {'p': 1, 'q': x}, {'q': 3, 'r': None}
                if w:
                    return lambda: (ds.Dict.combine_dicts(a, None, b, s=5, p=7), ds.Dict(a, b, t=1).d), lambda r: (ctx.check(r[0] == {'p': 7, 'q': 3, 'r': None, 's': 5} and list(r[0]) == ['p', 'q', 'r', 's'] and r[1] == {'p': 1, 'q': 3, 'r': None, 't': 1}, 'value', f'{what}: {r}'),
                                                                                                               ctx.check(set(a) == {'p', 'q'} and a['q'] is x and b == {'q': 3, 'r': None} and r[0] is not a, 'input-changed', what))

                def j(r):
                    ctx.check(r[0] == {} and r[1] is a and r[2] == {} and r[0] is not r[2], 'value', f'{what}: {r}')
                    r[0]['leak'] = 1
                    ctx.check(ds.Dict.none_to_empty() == {}, 'aliased', f'{what}: empty dictionaries are shared')
                return lambda: (ds.Dict.none_to_empty(None), ds.Dict.none_to_empty(a), ds.Dict.none_to_empty()), j
            if w < 6:
                c = v % 2 == 0
                lst = x.tolist()
                def j(r):
                    ctx.check(type(r[0]) is tuple and len(r[0]) == 4 and r[0][2] is None and r[2] is None, 'value', f'{what}: {r}')
                    for q, s in ((r[0][0], x), (r[0][1], np.array(lst)), (r[0][3], np.array(5)), (r[1], xp)):
                        ctx.check(type(q) is np.ndarray, 'value', f'{what}: {type(q)}')
                        eq(q, s, 'value', what)
                    if c:
                        cp(r[0][0], x), cp(r[1], xp)
                    else:
                        ctx.check(r[1] is xp or np.shares_memory(r[1], xp) or not xp.size, 'value', f'{what}: copied though not asked to')
                kw = {} if c and v % 3 else {'copy': c}
                return lambda: (ds.Array.as_array(x, lst, None, 5, **kw), ds.Array.as_array(xp, **kw), ds.Array.as_array(None, **kw)), j
            cnt = rs.randint(0, 5, rs.randint(1, 6))
            if v // 3 % 3:
                cnt = rs.randint(0, 120, rs.randint(1, 6)).astype(['i1', 'i2', 'u1', 'i4'][v // 9 % 4])
            off = [0]
            for q in cnt.tolist():
                off.append(off[-1] + q)
            g = [cnt, cnt.tolist(), tuple(cnt.tolist())][v % 3]
            return lambda: (ds.Array.count_to_offset(g), ds.Array.count_to_offset(g, has_end=False), ds.Array.count_to_offset_pairs(g)), lambda r: (
                eq(r[0], off, 'value', what), eq(r[1], off[:-1], 'value', what), eq(r[2], list(zip(off, off[1:])), 'value', what), ctx.check(cnt.dtype.kind == 'u' and g is cnt or all(q.dtype.kind == 'i' for q in r), 'value', what))
        if k == 'bins':
            e = np.cumsum(rs.randint(1, 5, rs.randint(2, 7))) * .5 - 1
            g = e.tolist() if v % 3 == 0 else tuple(e.tolist()) if v % 3 == 1 else e
            e0 = e.copy()
            sd = 1 + v // 3 % min(3, len(e) - 1)
            if w < 3:
                m_ = len(e) - sd
                return lambda: (Bin.edges_to_centers(g, sd), Bin.edges_to_widths(g, stride=sd), Bin.edges_to_centers(g), Bin.edges_to_widths(g)), lambda r: (
                    eq(r[0], [(e0[i] + e0[i + sd]) / 2 for i in range(m_)], 'value', what), eq(r[1], [e0[i + sd] - e0[i] for i in range(m_)], 'value', what),
                    eq(r[2], (e0[1:] + e0[:-1]) / 2, 'value', what), eq(r[3], e0[1:] - e0[:-1], 'value', what), eq(e, e0, 'input-changed', what))
            if w < 6:
                ref = [e0[i] + (e0[i + 1] - e0[i]) * q / sd for i in range(len(e) - 1) for q in range(sd)] + [e0[-1]]
                return lambda: (Bin.insert_sub_bins_into_edges(g, sd), Bin.parse_sub_bin_spec(g, sd), Bin.parse_sub_bin_spec(5, sd, range=(1., 2.))), lambda r: (
                    eq(r[0], ref, 'value', what), eq(r[1][0], ref, 'value', what), ctx.check(r[1][1] == sd and tuple(r[1][2]) == (e0[0], e0[-1]) and r[2][0] == 5 * sd and r[2][1] == sd and tuple(r[2][2]) == (1., 2.), 'value', f'{what}: {r}'), eq(e, e0, 'input-changed', what))
            if w < 8:
                h = rs.randint(0, 9, (len(e), 2) if v % 2 else len(e))
                h0 = h.copy()
                hg = h.tolist() if v % 5 == 0 else h
                return lambda: Bin.combine_adjacent_bins(hg, sd), lambda r: (eq(r, [h0[i:i + sd].sum(0) for i in range(len(e) - sd + 1)], 'value', what), eq(h, h0, 'input-changed', what))
            if w < 10:
                y = rs.standard_normal(9)
                pr, rg = [None, (.1, .9), (0., 1.)][v % 3], [None, (-1., .5)][v // 3 % 2]
                lo, hi = (rg if rg else (y.min(), y.max()) if not pr else np.quantile(y, pr))
                if rg and pr:
                    a, b = np.quantile(y, pr)
                    lo, hi = max(lo, a), min(hi, b)
                return lambda: (Bin.parse_p_range_spec(y, range=rg, p_range=pr), Bin.parse_p_range_spec(range=(3., 4.))), lambda r: (eq(np.array(r[0]), [lo, hi], 'value', what), eq(np.array(r[1]), [3., 4.], 'value', what))
            y, wt = rs.uniform(0, 1, 20), rs.uniform(0, 1, 20)
            nb = 6
            ed = np.linspace(0, 1, nb + 1)
            sd = 1 + v % 3
            hh = np.array([wt[(y >= ed[i]) & ((y < ed[i + 1]) | (i == nb - 1))].sum() for i in range(nb)])
            return lambda: Hist1D.from_overlapped_bins(y, nb, sd, (0., 1.), weights=wt), lambda r: (
                eq(r['sub_e'], ed, 'value', what), eq(r['x'], (ed[sd:] + ed[:-sd]) / 2, 'value', what), eq(r['dx'], ed[sd:] - ed[:-sd], 'value', what), eq(r['h'], [hh[i:i + sd].sum() for i in range(nb - sd + 1)], 'value', what, 1e-9))
        if k == 'arr':
            A_ = caa.Array
            s = [x, xi, xp][v % 3]
            if w < 3:
                c = v // 3 % 2 == 0
                dt = [None, 'f8', 'i4', ca.DType('f4'), np.dtype('f8'), ca.DType('>f8'), '>i4'][v // 6 % 7]
                if dt is not None:
                    c = True
                g = [s, s.tolist() if s.size else s, A_(s)][v // 30 % 3]
                npdt = dt._impl if isinstance(dt, ca.DType) else dt
                ref = np.array(s if v // 30 % 3 != 1 or not s.size else s.tolist(), dtype=npdt)
                def j(r):
                    eq(r._impl, ref, 'value', what)
                    ctx.check(r._impl.dtype == ref.dtype and r.dtype._impl == ref.dtype and r.n_dims == ref.ndim and r.size == ref.size and len(r) == len(ref) and tuple(r.shape._impl) == ref.shape, 'value', f'{what}: {r!r}')
                    if c:
                        cp(r._impl, s)
                        if isinstance(g, A_):
                            cp(r._impl, g._impl)
                    repr(r)
                    d_ = r.dtype
                    ctx.check(d_.size == ref.dtype.itemsize and d_.alignment == ref.dtype.alignment and d_.byte_order == ref.dtype.byteorder, 'value', f'{what}: {d_!r}')
                kw = {'copy': c} if v % 2 or not c else {}
                return lambda: A_(g, dtype=dt, **kw), j
            if w < 5:
                sh = [(2, 3), 4, [3], (0, 2), caa.Shape((2, 2))][v % 5]
                tsh = (sh,) if np.isscalar(sh) else tuple(int(q) for q in (sh._impl if isinstance(sh, caa.Shape) else sh))
                dt = [None, 'i8', ca.DType.float32(), ca.DType.int32(), ca.DType(ca.DType.float64()), ca.DType.int64()][v // 5 % 6]
                npdt = np.dtype(['f8', 'i8', 'f4', 'i4', 'f8', 'i8'][v // 5 % 6])
                def j(r):
                    for q, f in zip(r, (0, 1)):
                        eq(q._impl, np.full(tsh, f, npdt), 'value', what)
                        ctx.check(q._impl.dtype == npdt and type(q) is A_, 'value', f'{what}: {q._impl.dtype}')
                    r[0]._impl[...] = 3
                    eq(A_.zeros(sh, dt)._impl, np.zeros(tsh, npdt), 'aliased', what)
                return lambda: (A_.zeros(sh, dt), A_.ones(sh, dtype=dt)), j
            if w < 9:
                ob, s = (cobj, common[0]) if A is common and w == 5 else (A_(s), s)
                flat = s.ravel()
                def j(r):
                    eq(r[0]._impl, s, 'value', f'{what} copied')
                    eq(r[1]._impl, flat, 'value', f'{what} flatten')
                    eq(r[2]._impl, flat, 'value', f'{what} flatten')
                    eq(r[3]._impl, np.array(sorted(flat.tolist()), s.dtype), 'value', f'{what} sorted')
                    eq(r[4]._impl, np.array([sorted(q) for q in s.tolist()]).reshape(s.shape) if s.ndim == 2 else np.array(sorted(s.tolist()), s.dtype), 'value', f'{what} sorted along the last axis')
                    ctx.check(not s.size or np.shares_memory(r[2]._impl, ob._impl), 'value', f'{what}: flatten(copy=False) copied')
                    q = ob.to_simple_repr()
                    ctx.check(q['n_dims'] == s.ndim and tuple(q['shape']) == s.shape, 'value', f'{what}: described as {q}')
                    cp(r[0]._impl, ob._impl), cp(r[1]._impl, ob._impl), cp(r[3]._impl, ob._impl)
                    r[0]._impl[...] = 77
                    r[1]._impl[...] = 77
                    eq(ob._impl, s, 'aliased', what)
                return lambda: (ob.copied(), ob.flatten(), ob.flatten(copy=False), ob.sorted(), ob.sorted(axis=-1)), j
            if w < 11:
                ob, s = (cobj, common[0]) if A is common else (A_(s), s)
                flat = s.ravel()
                def j(r):
                    ctx.check(type(r[0]) is caa.FlatIndexArray and r[0].n_indexed == flat.size and type(r[1]) is caa.IntArray, 'value', f'{what}: {type(r[0])}, {type(r[1])}')
                    eq(np.sort(r[0]._impl), np.arange(flat.size), 'value', what)
                    eq(flat[r[0]._impl], np.array(sorted(flat.tolist()), s.dtype), 'value', what)
                    eq(np.take_along_axis(s, r[1]._impl, -1), np.sort(s, axis=-1), 'value', what)
                return lambda: (ob.argsort(), ob.argsort(axis=-1, kind='stable')), j
            idx = rs.randint(0, 2, (4, 2))
            def j(r):
                ctx.check(r[0].n_indexed == 9 and tuple(r[1].shape_indexed._impl) == (2, 3) and len(r[1]) == 4, 'value', f'{what}: {r}')
                eq(r[0]._impl, [1, 5, 2], 'value', what), eq(r[1]._impl, idx, 'value', what)
            return lambda: (caa.FlatIndexArray(9, [1, 5, 2]), caa.IndexArray((2, 3), idx)), j
        if k == 'grp':
            nm = ['cubic', 'square'][v % 2]
            size, dim = (48, 3) if nm == 'cubic' else (8, 2)
            g = groups[nm]
            pts = rs.standard_normal((5, dim))
            if w < 4:
                nm2 = ['3d', '2d'][v % 2] if v // 2 % 2 else nm
                def j(r):
                    ms = np.array([o_.mat for o_ in r])
                    ctx.check(len(r) == size and len({tuple(q) for q in np.rint(ms).astype(int).reshape(size, -1).tolist()}) == size, 'group', f'{what}: {len(r)} elements')
                    key = {tuple(q) for q in np.rint(ms).astype(int).reshape(size, -1).tolist()}
                    for _ in range(8):
                        a, b = rs.randint(0, size, 2)
                        ctx.check(tuple(np.rint(ms[a] @ ms[b]).astype(int).ravel().tolist()) in key and tuple(np.rint(ms[a].T).astype(int).ravel().tolist()) in key, 'group', f'{what}: not closed')
                    ctx.check(tuple(np.eye(dim).astype(int).ravel().tolist()) in key and np.allclose(ms @ ms.transpose(0, 2, 1), np.eye(dim)), 'group', f'{what}: identity or orthogonality')
                    r[3].mat[...] = 5.
                    ctx.check(np.array_equal(np.array([o_.mat for o_ in pg.Group.create(nm2)]), gkeep[nm]), 'aliased', f'{what}: changing one group changed the next one created')
                return lambda: pg.Group.create(nm2), j
            if w < 7:
                def j(r):
                    ctx.check(np.array_equal(np.array([o_.mat for o_ in r]), gkeep[nm]), 'value', f'{what}: copy differs')
                    r[1].mat[...] = 9.
                    r.ops.pop()
                return lambda: g.copied() if v % 4 < 2 else g.combined(), j
            i1, i2, i3 = rs.randint(0, size, 3)
            def j(r):
                eq(r[0], pts @ gkeep[nm][i1].T, 'value', what)
                eq(r[0], [gkeep[nm][i1] @ p for p in pts], 'value', what)
                eq(r[1].mat, gkeep[nm][i1] @ gkeep[nm][i2] @ gkeep[nm][i3], 'value', what)
                eq((r[0]**2).sum(-1), (pts**2).sum(-1), 'value', f'{what}: lengths')
                r[1].mat[...] = 4.
                r[2].mat[...] = 4.
                q = r[3].to_simple_repr()
                ctx.check(np.array_equal(q['mat'], gkeep[nm][i2]) and len(g.to_simple_repr()) == size and len(pg.Group()) == 0, 'value', f'{what}: described as {q}')
                repr(r[3])
            return lambda: (g[int(i1)](pts), g[int(i1)].combined(g[int(i2)], g[int(i3)]), g[int(i1)].copied(), g[int(i2)]), j
        return None

    bads = [lambda: Mask.bool_to_idx(np.ones((2, 2), bool)), lambda: Mask.idx_to_bool(4, [[1]]), lambda: Mask.idx_to_bool(4, [4]), lambda: list(it.Chunks.slices_by_sizes([1, 2])), lambda: ds.Array.as_array(),
            lambda: Bin.combine_adjacent_bins([1, 2], 0), lambda: Bin.combine_adjacent_bins([1, 2], 3), lambda: Bin.combine_adjacent_bins(5, 1), lambda: Bin.parse_p_range_spec(), lambda: Bin.parse_p_range_spec(range=(0, 1), p_range=(0, 1)),
            lambda: Bin.parse_sub_bin_spec(4, 0, range=(0, 1)), lambda: Bin.parse_sub_bin_spec(4, 1), lambda: Bin.parse_sub_bin_spec([0, 1], 1, range=(0, 1)), lambda: caa.Shape([[1]]), lambda: caa.FlatIndexArray(3, [[1]]),
            lambda: caa.IndexArray((2, 3, 4), [[1, 2]]), lambda: pg.Group.create('hexagonal'), lambda: caa.IndexArray((2, 3), [1, 2])]

    def client(ci):
        for j, o in enumerate(sc['clients'][ci]['ops']):
            what = f'client {ci} op {j} {o["k"]}/{o["w"]}/{o["v"]}'
            if o['k'] == 'bad':
                b = o['v'] % len(bads)
                out = ctx.call(f'{ci}.{j}.0', bads[b])
                if not out.injected:
                    ctx.check(not out.ok and isinstance(out.exc, (AssertionError, ValueError, KeyError, IndexError, TypeError)), 'not-rejected', f'{what}: bad request {b} gave {out!r}')
                    ctx.nontrivial = True
                    ctx.probe('rejected request')
                ctx.state(('bad', b))
                with ctx.quiet():
                    common_kept(what)
                ctx.pause()
                continue
            with ctx.quiet():
                act, judge = build(o, what)
            for att in range(3):
                out = ctx.call(f'{ci}.{j}.{att}', act)
                ctx.event(o['k'], ci, j, out.kind)
                with ctx.quiet():
                    common_kept(what)
                if out.ok:
                    break
                ctx.check(out.injected, 'call-failed', f'{what}: {out!r}')
                ctx.probe('repeated after an interrupt')
            else:
                ctx.violate('call-failed', f'{what} never succeeds')
            with ctx.quiet():
                judge(out.value)
                common_kept(what)
                if isinstance(out.value, np.ndarray) and out.value.size and not o['inp'] and out.value.flags.writeable and not any(np.shares_memory(out.value, a) for a in common):
                    out.value[...] = 1      # what a helper returned belongs to the caller
                    common_kept(what)
            ctx.state((o['k'], o['w'], o['v'] // 7 % 12, o['inp'], out.kind))
            ctx.pause()
    ctx.run_clients([lambda c=c: client(c) for c in range(len(sc['clients']))], faults=sc['faults'])
