"""C10  Nested tables map to spreadsheet sheets and back.

Clients save nested tables to their own workbooks - by name, or through a writer
they hold open over several calls - and load them back, while the (stub) engine
or the disk fails; the nested dict of tables itself is the model."""
import gc, os
import numpy as np
import pandas as pd
from sim import xlstub

PROP = 'C10'
RUNS = {'quick': 1500, 'thorough': 12000}
RULE = ('one run = 1-3 clients executing 2-5 saves/loads of nested tables each, under a line-level schedule, with engine failures, '
        'disk errors, a full disk and interruptions; non-trivial = client switch or fault fired')
STATE = 'distinct (operation, nesting shape, options, outcome)'
REAL = ['pyhipp.io.excel', 'pyhipp.core.DataTable', 'pandas (frame formatting, parsing, writer/reader life cycle)', 'kernel file system (scratch directory)']
STUB = ['the spreadsheet engine (sheets stored as JSON in a zip)', 'thread choice and interruption points (simulated scheduler)', 'disk errors and capacity (libc shim)']
ASSUME = ['keys contain no ".", top-level keys are not empty and text cells do not look like numbers or missing values', 'cells are integers, floats, booleans or text']
KEYS = ['galaxies', 'halos', 'panel_a', 'z', 'log M', 'n_*', 'été', 'B', 'A', 'a b', 'stars', '0']
COLS = ['M', 'log_Sigma_*', 'id', 'w_p', 'flag', 'name', 'x y', 'été', 'z']


def warmup(tmp):
    xlstub.install(lambda: None)
    from pyhipp.io.excel import Excel
    p = os.path.join(tmp, 'w.xlsx')
    Excel.dump_file(p, {'a': pd.DataFrame({'x': [1, 2], 's': ['a', 'b']})})
    Excel.load_file(p)
    Excel.load_file(p, as_datatables=True)


def gen_tree(rng, depth=0):
    t = {}
    late = not depth and rng.random() < .15         # many plain tables before the nested ones
    for q, k in enumerate(rng.sample(KEYS + [''] * (depth > 0), rng.choice([0, 1, 1, 2, 3]) if depth else rng.choice([6, 7, 8]) if late else rng.choice([1, 1, 2, 3, 4]))):
        if depth < 3 and rng.random() < .35 and (not late or q > 4):
            t[k] = gen_tree(rng, depth + 1)
        else:
            t[k] = {'_': rng.randrange(1 << 30), 'rows': rng.choice([0, 1, 2, 5, 12]),
                    'cols': [[c, rng.choice('ifFbs')] for c in rng.sample(COLS, rng.choice([1, 2, 3]))]}
    if not depth and not any('_' in v for v in t.values()):
        t['top'] = {'_': rng.randrange(1 << 30), 'rows': 2, 'cols': [['id', 'i']]}
    return t


def gen(rng, tier, i):
    nc = rng.choice([1, 1, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(2, 6)):
            ops.append({'k': rng.choice(['dump', 'dump', 'load', 'load', 'writer']), 't': gen_tree(rng), 'u': gen_tree(rng), 'index': rng.random() < .25,
                        'ff': rng.choice([None, None, '%.2f', '%.3e']), 'prefix': rng.choice(['', '', 'run 1', 'p']), 'pref2': rng.choice(['second', 'zz']),
                        'dt': rng.random() < .4, 'ro': rng.random() < .75, 'by': rng.choice(['path', 'file', 'Path']),
                        'eng': [rng.choice(['open', 'write', 'write', 'save', 'load', 'sheet']), rng.randrange(4), rng.choice(sorted(xlstub.ERRORS))] if rng.random() < .15 else None})
            if rng.random() < .07:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 30), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    io = []
    if nc == 1 and rng.random() < .35:
        s = rng.choice(['OPEN', 'READ', 'WRITE'])
        io.append({'sys': s, 'nth': rng.randrange({'OPEN': 5, 'READ': 8, 'WRITE': 6}[s]), 'n': rng.choice([1, 1, 3]), 'e': rng.choice([5, 28 if s == 'WRITE' else 24]), 'act': 'err'})
    if rng.random() < .2:
        io.append({'sys': rng.choice(['READ', 'WRITE']), 'nth': rng.randrange(10), 'n': 20, 'act': 'short', 'e': rng.choice([1, 30])})
    return {'clients': clients, 'faults': faults, 'io': io, 'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3])}}


SHRINK = ('io', 'cols')


def frame(s):
    rs = np.random.RandomState(s['_'] & 0x7fffffff)
    n, d = s['rows'], {}
    for c, k in s['cols']:
        if k == 'i':
            v = rs.randint(-10 ** 6, 10 ** 6, n)
        elif k == 'f':
            v = rs.standard_normal(n) * 10. ** rs.randint(-5, 9)
        elif k == 'F':
            v = rs.standard_normal(n)
            v[rs.random_sample(n) < .3] = np.nan
            if n:
                v[0] = .5
        elif k == 'b':
            v = rs.random_sample(n) < .5
        else:
            v = np.array(['gal_' + 'abcxyzé '[rs.randint(8)] + f'{x}q' for x in range(n)], dtype=object)
        d[c] = v
    return pd.DataFrame(d)


def build(t):
    return {k: frame(v) if '_' in v else build(v) for k, v in t.items()}


def flat(t, pre=''):
    out = []
    for k, v in t.items():
        p = pre + '.' + k if pre else k
        out += flat(v, p) if isinstance(v, dict) else [(p, v)]
    return out


def nest(fl):
    """what a loader should rebuild from [(sheet, table)]"""
    out = {}
    for p, v in fl:
        q = p.split('.')
        d = out
        for k in q[:-1]:
            d = d.setdefault(k, {})
        d[q[-1]] = v
    return out


def expect(df, o):
    df = df.copy()
    if o['ff']:
        for c in df.columns:
            if df[c].dtype.kind == 'f':
                df[c] = [np.nan if np.isnan(x) else float(o['ff'] % x) for x in df[c]]
    if o['index']:
        df.insert(0, 'Unnamed: 0', np.arange(len(df)))
    return df


def same_table(got, want, dt):
    from pyhipp.core import DataTable
    if dt:
        if not isinstance(got, DataTable):
            return f'is a {type(got)}'
        cols = {k: np.asarray(v) for k, v in got.items()}
    else:
        if not isinstance(got, pd.DataFrame):
            return f'is a {type(got)}'
        cols = {k: got[k].to_numpy() for k in got.columns}
    if list(cols) != list(want.columns):
        return f'columns {list(cols)} != {list(want.columns)}'
    for k, g in cols.items():
        w = want[k].to_numpy()
        if g.shape != w.shape:
            return f'column {k!r} has shape {g.shape}, not {w.shape}'
        if not len(w):
            continue
        if w.dtype.kind == 'f':
            ok = g.dtype.kind == 'f' and np.array_equal(g, w, equal_nan=True)
        elif w.dtype.kind in 'ib':
            ok = g.dtype.kind == w.dtype.kind and np.array_equal(g, w)
        else:
            ok = list(g) == list(w)
        if not ok:
            return f'column {k!r}: {g!r:.120} != {w!r:.120}'


def same_tree(got, want, dt, pre=''):
    if not isinstance(got, dict):
        return f'{pre or "top"} is a {type(got)}'
    if list(got) != list(want):
        return f'{pre or "top level"}: entries {list(got)} != {list(want)}'
    for k, w in want.items():
        d = same_tree(got[k], w, dt, pre + '/' + k) if isinstance(w, dict) else same_table(got[k], w, dt)
        if d:
            return f'{pre}/{k}: {d}'


def run(sc, ctx):
    from pyhipp.io.excel import Excel
    from pathlib import Path
    sh = ctx.shim
    W, R = xlstub.install(ctx.pause)
    xlstub.FAIL.clear()
    xlstub.LOG.clear()
    sh.enable(ctx.scratch, False)
    single = len(sc['clients']) == 1
    rules = [sh.rule(f['sys'], f['nth'], f['n'], 2 if f['act'] == 'short' else 1, f['e']) for f in sc['io']]

    def fired():
        return sum(sh.fired(r) for f, r in zip(sc['io'], rules) if f['act'] == 'err') + sum(e[0] == 'fail' for e in xlstub.LOG)

    def body(c, cl):
        def clear():
            for x in [x for x in xlstub.FAIL if x[1] == c]:
                del xlstub.FAIL[x]
        state = {}          # path -> [(sheet, expected frame)]
        for j, o in enumerate(cl['ops']):
            oid, k = f'{c}.{j}', o['k']
            with ctx.quiet():
                t, u = build(o['t']), build(o['u'])
                ft, fu = flat(t), flat(u)
            kw = {'index': o['index'], 'float_format': o['ff']}
            if o['eng']:
                xlstub.FAIL[o['eng'][0], c] = o['eng'][1]
                xlstub.KIND[c] = o['eng'][2]
            n0 = fired()
            p = os.path.join(ctx.scratch, f'w{c}_{len(state) % 2}.xlsx')
            what = f'client {c} step {j}: {k}, sheets {[x for x, _ in ft]}, {kw}, prefix {o["prefix"]!r}'
            if k == 'dump':
                pre = o['prefix']
                d, fl = t, flat(t, pre)
                if pre and o['dt'] and ft:
                    d, fl = ft[0][1], [(pre, ft[0][1])]
                dd = d

                def fn():
                    if pre:
                        Excel.dump_file(p, d, sheet_prefix=pre, **kw)
                    else:
                        Excel.dump_file(p, d, **kw)
            elif k == 'writer':
                fl = flat(t, o['prefix'] or 'first') + flat(u, o['pref2'])
                left_open = []

                def fn():
                    with pd.ExcelWriter(p) as w:
                        s0 = w.saved
                        try:
                            Excel.dump_file(w, t, sheet_prefix=o['prefix'] or 'first', **kw)
                        finally:
                            left_open.append(w.saved == s0 and not w._handles.handle.closed)
                        Excel.dump_file(w, u, sheet_prefix=o['pref2'], **kw)
                        left_open.append(w.saved == s0 and not w._handles.handle.closed)
            else:
                if not state:
                    clear()
                    continue
                p = sorted(state)[o['t'].__len__() % len(state)]

                def fn():
                    src = p if o['by'] == 'path' else Path(p) if o['by'] == 'Path' else None
                    if src is None:
                        with pd.ExcelFile(p) as f:
                            return Excel.load_file(f, as_datatables=o['dt'], reorder=o['ro'])
                    return Excel.load_file(src, **({'as_datatables': True} if o['dt'] else {}), **({} if o['ro'] else {'reorder': False}))
            if single:
                ctx.held = sh.open_fds
            out = ctx.call(oid, fn)
            ctx.held = None
            with ctx.quiet():
                hit = fired() > n0
                clear()
                ctx.event(c, j, k, out.kind)
                ctx.state((k, sorted(x.count('.') for x, _ in ft), o['index'], o['ff'], o['dt'], o['ro'], out.kind))
                if not out.ok:
                    ctx.check(out.injected or hit, 'call-failed', f'{what}: {out!r}')
                elif single:
                    ctx.check(not hit, 'error-ignored', f'{what}: engine or disk failed but the call succeeded')
                if k == 'writer':
                    ctx.check(all(left_open), 'writer-closed', f'{what}: the supplied writer was closed or saved')
                if k != 'load':
                    for (x, a), (_, b) in zip(ft, flat(build(o['t']))):
                        ctx.check(a.equals(b), 'input-changed', f'{what}: table {x} changed')
                if out.held:
                    # (pandas itself keeps the file when writing it out fails; an interruption may come before its exit code)
                    fine = out.injected or hit and 'failed in write' not in str(out.exc)
                    ctx.check(fine, 'not-closed', f'{what}: file still open when {out!r} was raised')
                ok, exc, val = out.ok, out, out.value
                out = None
                if single:
                    gc.collect()
                    ctx.check(sh.open_fds() == 0, 'not-closed', f'{what}: {exc!r}: file still open')
                if k == 'load':
                    if ok:
                        fl = state[p]
                        d = same_tree(val, nest(fl) if o['ro'] else dict(fl), o['dt'])
                        ctx.check(not d, 'tables-differ', f'{what} as {"column tables" if o["dt"] else "frames"}, nested={o["ro"]}: {d}')
                    continue
                if not ok:
                    state.pop(p, None)
                    sh.nofault()
                    ctx.sched.begin_op(None)
                    try:
                        fn()
                    except Exception as e:
                        ctx.violate('retry-failed', f'{what}: {exc!r}; repeated: {e!r}')
                    finally:
                        sh.nofault(False)
                fl = [(x, expect(v, o)) for x, v in fl]
                want = dict(fl)
                state[p] = fl
                # what the engine holds
                sh.nofault()
                import json
                import zipfile
                with zipfile.ZipFile(p) as z:
                    doc = json.loads(z.read('xl/workbook.xml'))
                sh.nofault(False)
                ctx.check([x for x, _ in doc] == list(want), 'sheets-differ', f'{what}: engine received sheets {[x for x, _ in doc]}, expected {list(want)}')
            ctx.pause()
        # everything saved is still there
        with ctx.quiet():
            sh.nofault()
            for p, fl in state.items():
                d = same_tree(Excel.load_file(p), nest(fl), False)
                ctx.check(not d, 'tables-differ', f'client {c}, {os.path.basename(p)} at the end: {d}')
            sh.nofault(False)

    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    for f, r in zip(sc['io'], rules):
        ctx.fault(f'{f["act"]}-{f["sys"].lower()}', sh.fired(r))
    ctx.fault('engine failure', sum(e[0] == 'fail' for e in xlstub.LOG))
    gc.collect()
    ctx.check(sh.open_fds() == 0, 'not-closed', 'files open at the end')
