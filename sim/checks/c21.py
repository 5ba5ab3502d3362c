"""C21  Plot configurations of different clients do not leak into one another.

Clients update, edit and apply configurations of their own; the model is nested
dictionaries and, for the global parameters, the history of applications."""
import copy
import warnings
from collections import OrderedDict
from collections.abc import Mapping

PROP = 'C21'
RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('one run = 1-3 clients applying 4-16 operations each (creation, update, edit, style sheets, application) to configurations of their own and the '
        'library-wide one, built from common dictionaries they go on changing, under a line-level schedule with failing updates, rejected values and '
        'interrupts; non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (operation, sections given, outcome)'
REAL = ['pyhipp.plot.runtime_config', 'matplotlib.rc and rcParams']
STUB = ['thread choice and interruption points (simulated scheduler)', 'mappings that fail while being read (harness)']
ASSUME = ['matplotlib.rc of one section is atomic']
VAL = {'font': {'family': ['serif', 'sans-serif'], 'size': [9, 11.5], 'weight': ['normal', 'bold']}, 'mathtext': {'default': ['it', 'rm', 'bf'], 'fontset': ['cm', 'stix']},
       'figure': {'dpi': [72, 150], 'figsize': [[3, 4], [8, 2.5]]}, 'figure.subplot': {'wspace': [.1, .3], 'hspace': [.2]}, 'axes': {'labelsize': [7, 8], 'grid': [True, False], 'linewidth': [.5, 3], 'titlesize': [6]},
       'xtick': {'top': [True, False], 'direction': ['in', 'out']}, 'xtick.major': {'width': [.3, 4.]}, 'lines': {'linewidth': [.4, 9.], 'markersize': [2, 3]}, 'legend': {'fontsize': [5, 6], 'loc': ['upper left', 'best']},
       'savefig': {'dpi': [77, 88]}, 'image': {'cmap': ['gray', 'viridis']}}
BAD = [['axes', {'nonsense': 1}], ['lines', {'linewidth': 'thick'}], ['grid', {'alpha': 'x'}], ['font', 5], ['legend', {'loc': 17.5}]]


def warmup(tmp):
    import pyhipp.plot  # noqa: F401


def conf(rng):
    out = []
    for s in rng.sample(sorted(VAL), rng.choice([0, 1, 1, 2, 3])):
        out.append([s, [[k, rng.choice(VAL[s][k])] for k in rng.sample(sorted(VAL[s]), rng.randrange(1, len(VAL[s]) + 1))]])
    return out


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(4, 17)):
            k = rng.choice(['new', 'new', 'update', 'update', 'update', 'updbad', 'updfail', 'apply', 'apply', 'apply', 'sheet', 'sheet', 'sheets', 'sheetbad', 'edit', 'msrc', 'msrc', 'none'])
            ops.append({'k': k, 'd': rng.randrange(3), 's': rng.randrange(3), 'x': rng.randrange(100), 'c': conf(rng)})
            if rng.random() < .12:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 30), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'clients': clients, 'src': [conf(rng) for _ in range(3)], 'faults': faults, 'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.05, .2, .5])} if nc > 1 else {'mode': 'serial'}}


class Failing(Mapping):
    def __init__(self, d, at):
        self.d, self.at = d, at

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for i, k in enumerate(self.d):
            if i == self.at:
                raise RuntimeError('source failed')
            yield k
        raise RuntimeError('source failed')

    def __getitem__(self, k):
        return self.d[k]


def build(c):
    return {s: {k: (tuple(v) if isinstance(v, list) else v) for k, v in kv} for s, kv in c}


def run(sc, ctx):
    if len(sc['src']) < 3:
        return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, ctx)


def _run(sc, ctx):
    import matplotlib as mpl
    from pyhipp import plot
    from pyhipp.plot import RuntimeConfig
    defaults = copy.deepcopy(RuntimeConfig.default_config_dict)
    sheets = copy.deepcopy(RuntimeConfig.stylesheets)
    raw = lambda: {k: v for k, v in dict.items(mpl.rcParams) if not k.startswith(('backend', '_internal', 'date.epoch'))}
    initial = raw()
    check_rc = mpl.RcParams()
    hist = {}           # parameter -> [value, start, end] of every application of it
    clock = [0]
    common = build(sc['src'][2])          # given by every client, changed by none

    def norm(m):
        """what applying the model sets, in order: [(section, {parameter: value} or None when it fails)]"""
        out = []
        for s, kv in m.items():
            if not isinstance(kv, dict):
                out.append((s, None))
                continue
            try:
                q = {}
                for k, v in kv.items():
                    check_rc[f'{s}.{k}'] = v
                    q[f'{s}.{k}'] = check_rc[f'{s}.{k}']
                out.append((s, q))
            except Exception:
                out.append((s, q))
                out.append((s, None))
        return out

    def now():
        clock[0] += 1
        return clock[0]

    def globals_ok(what):
        cur = raw()
        ctx.check(list(cur) == list(initial), 'global-differs', f'{what}: other parameters than before')
        for k, v in cur.items():
            if k not in hist and v is initial[k]:
                continue
            cands = []
            hs = hist.get(k, [])
            sure = [a for _, a, b, done in hs if b is not None and done]      # finished, certain
            for val, a, b, done in [[initial[k], 0, 0, True]] + hs:
                if b is not None and any(x > b for x in sure):
                    continue
                cands.append(val)
            ctx.check(any(type(v) is type(c) and v == c or repr(v) == repr(c) for c in cands), 'global-differs', lambda: f'{what}: {k} is {v!r}, expected {cands!r:.300}')

    def fixed(what):
        ctx.check(RuntimeConfig.default_config_dict == defaults, 'defaults-changed', lambda: f'{what}: defaults now {diff(RuntimeConfig.default_config_dict, defaults)}')
        ctx.check(RuntimeConfig.stylesheets == sheets, 'sheets-changed', lambda: f'{what}: style sheets now {diff(RuntimeConfig.stylesheets, sheets)}')

    def diff(a, b):
        return {k: a.get(k) for k in set(a) | set(b) if a.get(k) != b.get(k)}

    def body(c, cl):
        with ctx.quiet():
            srcs = [build(sc['src'][0]), build(sc['src'][1]), common]
            ds = [[RuntimeConfig(), copy.deepcopy(defaults)] for _ in range(2)]
            ds.append([plot.runtime_config, copy.deepcopy(defaults)] if c == 0 else [RuntimeConfig(srcs[0]), copy.deepcopy({**defaults, **srcs[0]})])

        def verify(what):
            fixed(what)
            for q, (d, m) in enumerate(ds):
                ctx.check(d.config_dict == m, 'config-differs', lambda: f'{what}: configuration {q} has {diff(d.config_dict, m)!r:.300}, expected {diff(m, d.config_dict)!r:.300}')
            globals_ok(what)

        def partial(d, m, givens, what):
            """each section wholly old or wholly new"""
            for given in givens:
                for s, kv in given.items():
                    if d.config_dict.get(s) == kv:
                        m[s] = copy.deepcopy(kv)
        for j, o in enumerate(cl['ops']):
            with ctx.quiet():
                k = o['k']
                d, m = ds[o['d']]
                what = f'client {c} step {j}: {k} on configuration {o["d"]}'
                src = srcs[o['s']]
                given, err, new, applies = {}, None, None, False
                givens = None
                if k == 'msrc':
                    src = srcs[o['s'] % 2]
                    for kv in src.values():
                        for z in kv:
                            if isinstance(kv[z], (int, float)) and not isinstance(kv[z], bool):
                                kv[z] += 1
                    if o['x'] % 2:
                        src['savefig'] = {'dpi': 60 + o['x']}
                    call = None
                elif k == 'edit':
                    ss = [s for s in m if isinstance(m[s], dict) and 'linewidth' in m[s]]
                    for s in ss[:1]:
                        for x in (d.config_dict, m):
                            x[s]['linewidth'] = o['x'] + .25
                    call = None
                elif k == 'new':
                    given = src if o['x'] % 3 else {}
                    call = (lambda: RuntimeConfig(given)) if given or o['x'] % 2 else (lambda: RuntimeConfig())
                    new = copy.deepcopy({**defaults, **given})
                elif k in ('update', 'none'):
                    given = {} if k == 'none' else src if o['x'] % 2 else build(o['c'])
                    arg = None if k == 'none' else OrderedDict(given) if o['x'] % 4 == 2 else given
                    call = lambda: d.update(arg)
                elif k == 'updbad':
                    s, kv = BAD[o['x'] % len(BAD)]
                    given = {**build(o['c']), s: kv}
                    call = lambda: d.update(given)
                elif k == 'updfail':
                    given = build(o['c'])
                    arg = Failing(given, o['x'] % 3) if o['x'] % 4 else [1, 2, 3]
                    call, err = (lambda: d.update(arg)), Exception
                elif k == 'apply':
                    call, applies = (lambda: d.set_global()), True
                else:
                    names = {'sheet': [['default', 'mathtext-it'][o['x'] % 2]], 'sheets': [['default', 'mathtext-it'], ['mathtext-it', 'default'], []][o['x'] % 3], 'sheetbad': [['default', 'nope'], ['nope'], ['mathtext-it', 'nope', 'default']][o['x'] % 3]}[k]
                    applies = o['x'] % 5 > 1
                    for z in names:
                        if z == 'nope':
                            err, applies = KeyError, False
                            break
                        given = {**given, **sheets[z]}
                        givens = (givens or []) + [given]
                    call = (lambda: d.use_stylesheets(*names)) if o['x'] % 5 > 1 and o['x'] % 2 else (lambda: d.use_stylesheets(*names, set_global=o['x'] % 5 > 1))
                given = copy.deepcopy(given)
                plan, rec = [], []
                if applies:
                    plan = norm({**m, **given})
                    t = now()
                    seen = {}
                    for s, q in plan:
                        if q is None:
                            err = Exception
                            break
                        for p, v in q.items():
                            r = [v, t, None, True]
                            rec.append(r)
                            hist.setdefault(p, []).append(r)
            if call is None:
                with ctx.quiet():
                    ctx.event(c, j, k)
                    verify(what)
                ctx.pause()
                continue
            out = ctx.call(f'{c}.{j}', call)
            with ctx.quiet():
                what += f': {out!r}'
                ctx.event(c, j, k, out.kind)
                ctx.state((k, len(given), applies, out.kind))
                t = now()
                if err is not None:
                    ctx.nontrivial = True
                for r in rec:
                    r[2] = t
                    if not out.ok:
                        r[3] = False          # an unfinished application may have set it or not
                if out.ok:
                    ctx.check(err is None, 'not-rejected', what)
                    if new is not None:
                        ctx.check(type(out.value) is RuntimeConfig and all(out.value is not x for x, _ in ds), 'not-new', what)
                        if o['d'] != 2:
                            ds[o['d']] = [out.value, new]
                        else:
                            ctx.check(out.value.config_dict == new, 'config-differs', lambda: f'{what}: new configuration has {diff(out.value.config_dict, new)}')
                    else:
                        ctx.check(out.value is d, 'not-chained', f'{what}: returned {type(out.value)}')
                        m.update(given)
                else:
                    ctx.check(err is not None or out.injected, 'rejected', what)
                    ctx.check(out.injected or isinstance(out.exc, err), 'wrong-error', what)
                    if new is None:
                        partial(d, m, givens or [given], what)
                verify(what)
            ctx.pause()
        with ctx.quiet():
            verify(f'client {c} at its end')
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    fixed('at the end')
    globals_ok('at the end')
