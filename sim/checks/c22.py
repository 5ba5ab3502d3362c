"""C22  Every drawing uses exactly the data and the style given to its own axes.

Clients style and draw on their own row of a common array of axes (and on figures of
their own); the backend axes are recorders that may fail at any call.  The model is a
plain dictionary of style values per axes and a second, directly driven recorder."""
import copy
import inspect
import threading
import warnings

import numpy as np

PROP = 'C22'
RUNS = {'quick': 2500, 'thorough': 80000}
RULE = ('one run = 1-3 clients applying 6-24 operations each (style and frame settings on one axes or on a row, drawings, legends, grids of axes and figures, secondary '
        'axes, 2-D histograms, rejected keys and colours) under a line-level schedule with failing backends and interrupts followed by a retry; '
        'non-trivial = client switch, rejected operation or fault fired')
STATE = 'distinct (operation, target, number of backend calls, outcome)'
REAL = ['pyhipp.plot.axes', 'pyhipp.plot.artist_formatter', 'pyhipp.plot.figure', 'pyhipp.plot.shortcut', 'pyhipp.plot.color', 'pyhipp.plot.two_dim', 'pyhipp.astro.plot.shortcuts', 'matplotlib.colors']
STUB = ['thread choice and interruption points (simulated scheduler)', 'matplotlib axes and figures (recorders with the signatures of the real ones, failing on request)']
ASSUME = ['one call of the drawing backend is atomic']
COL = ['k', 'r', 'C1', '#102030', (.1, .2, .3), (.4, .5, .6, .7), 'shared0', 'shared1', 'shared2', 'shared3', 'tab:blue', '.5', 'w']
ALIAS = {'c': 'color', 'lw': 'linewidth', 'ls': 'linestyle', 'ms': 'markersize', 'mew': 'markeredgewidth', 'mec': 'markeredgecolor', 'mfc': 'markerfacecolor', 'ec': 'edgecolor', 'fc': 'facecolor'}
FMT = {'marker': {'style': ['o', 's', '^'], 'c': 'C', 'a': 'A', 's': [4, 25.5], 'ec': 'C', 'fc': 'C', 'ea': 'A', 'fa': 'A', 'elw': [.5, 2]},
       'fill': {'c': 'C', 'a': 'A', 'ec': 'C', 'fc': 'C', 'ea': 'A', 'fa': 'A', 'lw': [.5, 3], 'ls': ['--', ':']},
       'line': {'c': 'C', 'a': 'A', 'lw': [.5, 3.5], 'ls': ['--', ':', 'none']},
       'errorbar': {'c': 'C', 'a': 'A', 'lw': [.25, 2], 'capsize': [0, 3], 'capthick': [.5, 2]},
       'text': {'use_tex': [True, False], 'c': 'C', 'a': 'A', 's': [7, 21]}}
FRAME = {'lim': lambda r: {'x': r.choice([None, [0, 1], [-3, 2.5]]), 'y': r.choice([None, [1, 9]]), **r.choice([{}, {}, {'auto': True}])},
         'label': lambda r: {'x': r.choice([None, 'u', 'v w']), 'y': r.choice([None, 'n']), **r.choice([{}, {}, {'fontsize': 6}])},
         'scale': lambda r: {'x': r.choice([None, 'log', 'linear']), 'y': r.choice([None, 'symlog'])},
         'ticks': lambda r: {'x': r.choice([None, [0, 1, 2]]), 'y': r.choice([None, [], [.5]]), **r.choice([{}, {}, {'minor': True}])},
         'ticklabels': lambda r: {'x': r.choice([None, ['a', 'b']]), 'y': r.choice([None, ['c']])},
         'tick_params': lambda r: {'x': r.choice([None, {'top': False}, {'which': 'minor', 'labelsize': 3}]), 'y': r.choice([None, {'right': True}]), 'both': r.choice([None, {'direction': 'in'}]), **r.choice([{}, {}, {'width': 2}])},
         'label_outer': lambda r: r.choice([True, True, False])}
DRAW = ['plot', 'plot', 'plot', 'scatter', 'scatter', 'errorbar', 'fill_between', 'errorfill', 'stairs', 'hist', 'text', 'text']
OVER = {'plot': ['zorder', 'lw', 'c', 'marker', 'alpha', 'ms'], 'scatter': ['zorder', 's', 'facecolors', 'alpha', 'marker'], 'errorbar': ['zorder', 'ecolor', 'c', 'ms', 'capsize'], 'fill_between': ['zorder', 'ec', 'lw', 'alpha'],
        'errorfill': ['zorder', 'lw', 'c'], 'stairs': ['zorder', 'ec', 'ls'], 'hist': ['zorder', 'fc', 'cumulative', 'stacked'], 'text': ['zorder', 'fontsize', 'rotation', 'transform', 'color']}
OVAL = {'zorder': 7, 'lw': 9.5, 'c': 'm', 'marker': 'x', 'alpha': .125, 'ms': 2.5, 's': 3.5, 'facecolors': 'y', 'ecolor': 'c', 'capsize': 8, 'ec': 'g', 'ls': '-.', 'fc': 'b', 'cumulative': True, 'stacked': True,
        'fontsize': 33, 'rotation': 45, 'transform': 'T', 'color': 'g'}
LOC = {'r': 'right', 'lr': 'lower right', 'll': 'lower left', 'cl': 'center left', 'ur': 'upper right', 'ul': 'upper left', 'uc': 'upper center', 'c': 'center', 'cr': 'center right'}


def warmup(tmp):
    import matplotlib
    matplotlib.use('Agg')
    import pyhipp.plot  # noqa: F401
    import pyhipp.astro.plot.shortcuts  # noqa: F401


def fmt_kw(rng, which, n=None):
    f = FMT[which]
    ks = rng.sample(sorted(f), n or rng.choice([1, 1, 2, 3]))
    if which == 'marker' and 'style' not in ks:
        ks.append('style')
    out = []
    for k in ks:
        v = f[k]
        out.append([k, ['C', rng.randrange(len(COL))] if v == 'C' else ['V', rng.choice([.1, .35, 1., 0])] if v == 'A' else ['V', rng.choice(v)]])
    return out


def frame_kw(rng):
    return [[k, FRAME[k](rng)] for k in rng.sample(sorted(FRAME), rng.choice([1, 1, 1, 2, 3]))]


def gen(rng, tier, i):
    nc = rng.choice([1, 2, 2, 3])
    m = rng.choice([1, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(6, 25)):
            k = rng.choice(['fmt'] * 4 + ['c', 'c', 'frame', 'frame', 'short', 'multi', 'bad', 'badc'] + ['draw'] * 12 + ['leg', 'grid', 'axis', 'figure', 'subplots', 'subfigs', 'colorbar', 'sec', 'poly', 'mesh', 'contour', 'scat', 'last', 'seq'])
            o = {'k': k, 't': rng.choice(['ax', 'ax', 'ax', 'row', 'flat', 'T', 'slice']), 'a': rng.randrange(m), 'x': rng.randrange(1000)}
            if k in ('fmt', 'bad', 'badc'):
                o['w'] = rng.choice(sorted(FMT))
                o['kw'] = fmt_kw(rng, o['w'])
            if k == 'c':
                o['kw'] = [rng.choice([None, rng.randrange(len(COL))]), rng.choice([None, .2, .9])]
            if k in ('frame', 'multi') or k == 'bad' and rng.random() < .3:
                o['fr'] = frame_kw(rng)
            if k == 'multi':
                o['kws'] = [[w, fmt_kw(rng, w)] for w in rng.sample(sorted(FMT), rng.choice([1, 2, 3]))]
            if k == 'short':
                o['s'] = rng.choice(['lim', 'label', 'scale', 'tick_params', 'label_outer'])
                o['v'] = FRAME[o['s']](rng)
            if k == 'draw':
                o['d'] = rng.choice(DRAW)
                o['ov'] = rng.sample(OVER[o['d']], rng.choice([0, 0, 0, 1, 2]))
            if rng.random() < .1:
                o['fail'] = rng.randrange(1, 4)
                o['exc'] = rng.choice(['RuntimeError', 'ValueError', 'MemoryError', 'KeyError'])
            ops.append(o)
            if rng.random() < .1:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 40), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    return {'m': m, 'one': rng.random() < .5, 'clients': clients, 'faults': faults, 'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.05, .2, .5])} if nc > 1 else {'mode': 'serial'}}


def run(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _run(sc, ctx)


_SIG = {}


def sig(name, cls):
    k = cls, name
    if k not in _SIG:
        _SIG[k] = inspect.signature(getattr(cls, name)) if hasattr(cls, name) else None
    return _SIG[k]


def nan(v):
    return [nan(x) for x in v] if isinstance(v, list) else 'nan' if isinstance(v, float) and v != v else v


def norm(v):
    if isinstance(v, np.ndarray):
        return ('A', v.shape, nan(v.tolist()))
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v != v:
        return 'nan'
    if isinstance(v, (list, tuple)):
        return ('S', *(norm(x) for x in v)) if not all(isinstance(x, (int, float, np.number, bool)) for x in v) else ('A', (len(v),), nan([x.item() if isinstance(x, np.generic) else x for x in v]))
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return v


class Art:
    """what the backend returns"""


class Backend:
    fails = 0
    exc = None
    calls = 0

    def tick(self):
        self.calls += 1
        if self.fails:
            self.fails -= 1
            if not self.fails:
                raise self.exc


class Rec:
    """a backend axes: remembers what it was asked to draw and how its frame looks"""

    def __init__(self, be, cls):
        self.__dict__.update(be=be, cls=cls, log=[], frame={}, arts=[], kids=[], transAxes=Art(), figure=None)

    def bound(self, name, a, kw):
        s = sig(name, self.cls)
        if s is None:
            raise AttributeError(name)
        b = s.bind(None, *a, **kw)
        b.apply_defaults()
        out = {}
        for k, v in list(b.arguments.items())[1:]:
            p = s.parameters[k]
            if p.kind is p.VAR_KEYWORD:
                for q, x in v.items():
                    q = ALIAS.get(q, q)
                    if q in out:
                        raise TypeError(f'{name} got both forms of {q!r}')
                    out[q] = norm(x)
            elif p.kind is p.VAR_POSITIONAL:
                out['*'] = norm(list(v))
            else:
                out[k] = norm(v)
        return {k: v for k, v in out.items() if v is not None}

    def __getattr__(self, name):
        if name.startswith('_') or name.startswith('get_') or sig(name, self.cls) is None:
            raise AttributeError(name)

        def call(*a, **kw):
            return self.do(name, a, kw)
        return call

    def do(self, name, a, kw):
        self.be.tick()
        b = self.bound(name, a, kw)
        f = self.frame
        if name in ('set_xlim', 'set_ylim'):
            q = name[4]
            lo, hi = b.pop({'x': 'left', 'y': 'bottom'}[q], None), b.pop({'x': 'right', 'y': 'top'}[q], None)
            if hi is None and isinstance(lo, tuple):
                lo, hi = lo[2]
            f[q + 'lim'] = [lo, hi, b]
        elif name in ('set_xlabel', 'set_ylabel'):
            f[name[4] + 'label'] = b
        elif name in ('set_xscale', 'set_yscale'):
            q = name[4]
            f[q + 'scale'] = b
            f.pop(q + 'ticks', None)
            f.pop(q + 'ticklabels', None)
        elif name in ('set_xticks', 'set_yticks'):
            f[name[4] + 'ticks'] = b
        elif name in ('set_xticklabels', 'set_yticklabels'):
            f[name[4] + 'ticklabels'] = b
        elif name == 'tick_params':
            ax = b.pop('axis', 'both')
            which = b.pop('which', 'major')
            for q in 'xy' if ax == 'both' else ax:
                for w in ('major', 'minor') if which == 'both' else (which,):
                    for k, v in b.items():
                        f[q, w, k] = v
        elif name == 'label_outer':
            f['outer'] = True
        else:
            art = Art()
            if name.startswith('secondary_'):
                art = Rec(self.be, self.cls)
                self.kids.append(art)
            self.log.append((name, b))
            self.arts.append(art)
            return art


class FigRec(Rec):
    """a backend figure"""

    def do(self, name, a, kw):
        from matplotlib.axes import Axes as A
        self.be.tick()
        b = self.bound(name, a, kw)
        self.log.append((name, b))
        if name in ('subplots', 'subfigures'):
            n = (b['nrows'], b['ncols'])
            out = np.empty(n, object)
            for q in np.ndindex(*n):
                out[q] = Rec(self.be, A) if name == 'subplots' else FigRec(self.be, self.cls)
                self.kids.append(out[q])
            r = out.squeeze()
            return r if r.ndim else r.item()
        art = Art()
        self.arts.append(art)
        return art


class Model:
    def __init__(self, be, cls):
        self.line = dict(c='k', a=1., lw=2.5, ls='-')
        self.marker = dict(style=None, s=10, ec='k', fc='k', ea=1., fa=.3, elw=1.)
        self.errorbar = dict(c='k', a=1., lw=1, capsize=4, capthick=1)
        self.fill = dict(fc='k', ec='k', fa=.2, ea=1, lw=1, ls='-')
        self.text = dict(use_tex=True, c='k', a=1., s=15)
        self.frame = dict.fromkeys(FRAME)
        self.rec = Rec(be, cls)

    def set(self, which, kw):
        f = getattr(self, which)
        kw = dict(kw)
        if which in ('marker', 'fill'):
            c, a = kw.pop('c', None), kw.pop('a', None)
            f.update({k: c for k in ('fc', 'ec') if c is not None})
            f.update({k: a for k in ('fa', 'ea') if a is not None})
        f.update(kw)

    def color(self, c, a):
        for w in ('line', 'errorbar'):
            self.set(w, {k: v for k, v in (('c', c), ('a', a)) if v is not None})
        for w in ('marker', 'fill'):
            self.set(w, {'c': c, 'a': a})

    def apply(self, kw):
        self.frame.update(kw)
        r = self.rec
        for k in ('lim', 'label', 'scale', 'ticks', 'ticklabels'):
            v = self.frame[k]
            if v is not None:
                rest = {q: z for q, z in v.items() if q not in 'xy'}
                for q in 'xy':
                    if v.get(q) is not None:
                        getattr(r, f'set_{q}{k}')(v[q], **rest)
        v = self.frame['tick_params']
        if v is not None:
            rest = {q: z for q, z in v.items() if q not in ('x', 'y', 'both')}
            for q in ('x', 'y', 'both'):
                if v.get(q) is not None:
                    r.tick_params(axis=q, **v[q], **rest)
        if self.frame['label_outer']:
            r.label_outer()


def _run(sc, ctx):
    from matplotlib import colors as mc, pylab, pyplot
    from matplotlib.axes import Axes as MA
    from matplotlib.figure import Figure as MF
    from pyhipp import plot
    from pyhipp.plot import Axes, AxesArray, Color, Figure
    from pyhipp.plot.color import ScalarMappable
    from pyhipp.astro.plot.shortcuts import Axes as Short
    nc, m = len(sc['clients']), sc['m']
    shared = [Color('r', .25), Color((.2, .4, .6, .8)), np.array([.25, .5, .125, .75]), np.array([.5, .25, .75])]
    plain = lambda: [tuple(c) if isinstance(c, np.ndarray) else tuple(c.get_rgba()) for c in shared]
    shared0 = plain()
    color = lambda i: shared[int(COL[i][6])] if isinstance(COL[i], str) and COL[i].startswith('shared') else COL[i]

    def rgba(c, a):
        r = c.get_rgba() if isinstance(c, Color) else mc.to_rgba(c)
        return r if a is None else (*r[:3], a)

    val = lambda v: color(v[1]) if v[0] == 'C' else v[1]
    xs = np.linspace(0., 1., 5)
    data = [xs, xs * xs - .25, np.array([.5, .1, .2, .3, .4]), np.arange(5), np.array([1., np.nan, 3., -4., 5.])]
    data0 = [d.copy() for d in data]
    created = []
    bes = [Backend() for _ in range(nc)]
    model_be = Backend()
    if sc['one']:
        raws = np.array([[None] * m for _ in range(nc)])
        for q in np.ndindex(nc, m):
            raws[q] = Rec(bes[q[0]], MA)
        whole = AxesArray(raws)
    else:
        raws = np.empty((nc, m), object)
        for q in np.ndindex(nc, m):
            raws[q] = Rec(bes[q[0]], MA)
        wraps = np.empty((nc, m), object)
        for q in np.ndindex(nc, m):
            wraps[q] = Axes(raws[q])
        whole = AxesArray(wraps)
    ctx.check(whole.shape == (nc, m) and len(whole) == nc and whole.size == nc * m, 'array-differs', f'array of axes has shape {whole.shape}, expected {(nc, m)}')
    cur = {}

    def mkfig(*a, **kw):
        be = cur[threading.get_ident()]
        be.tick()
        f = FigRec(be, MF)
        f.__dict__['asked'] = norm(dict(zip(('num', 'figsize', 'dpi'), a)) | kw)
        created.append(f)
        return f
    pylab.figure = pyplot.figure = mkfig

    def body(c, cl):
        be = bes[c]
        with ctx.quiet():
            row = whole[c] if c % 2 else list(whole)[c]
            ctx.check(isinstance(row, AxesArray) and len(row) == m, 'array-differs', f'row {c} of the array is {row!r:.80}')
            models = [Model(model_be, MA) for _ in range(m)]
            mylog = [[] for _ in range(m)]
            arts = [None] * m

        def verify(what, only=None):
            for q in range(m) if only is None else only:
                r = raws[c, q]
                ctx.check(len(r.log) == len(mylog[q]), 'drawings-differ', f'{what}: axes {q} of client {c} got {len(r.log)} drawings, expected {len(mylog[q])}')
                ctx.check(r.frame == models[q].rec.frame, 'frame-differs', lambda: f'{what}: frame of axes {q}: {dif(r.frame, models[q].rec.frame)}')
            ctx.check(plain() == shared0, 'input-changed', f'{what}: colours {plain()} of the caller, were {shared0}')
            ctx.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(data, data0)), 'input-changed', f'{what}: data of the caller changed')

        def dif(a, b):
            return ', '.join(f'{k}: {a.get(k)!r} instead of {b.get(k)!r}' for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k))[:400]

        def drawing(o, M):
            """(positional, keywords, expected backend calls) of a drawing"""
            d, x = o['d'], o['x']
            rng = np.random.default_rng(x)
            X, Y = data[x % 3], data[(x // 3) % 5]
            if x % 4 == 0:
                X, Y = list(X), list(Y)
            ov = {k: OVAL[k] for k in o.get('ov', ())}
            if ov and x % 5 == 0:
                ov = copy.deepcopy(ov)
            lab = {} if x % 7 else {'label': f'l{x}'}
            ln, mk, eb, fl, tx = M.line, M.marker, M.errorbar, M.fill, M.text
            lkw = lambda: dict(c=rgba(ln['c'], ln['a']), lw=ln['lw'], ls=ln['ls'])
            mkw = lambda: dict(marker=mk['style'], ms=mk['s'], mew=mk['elw'], mec=rgba(mk['ec'], mk['ea']), mfc=rgba(mk['fc'], mk['fa']))
            fkw = lambda: dict(ec=rgba(fl['ec'], fl['ea']), fc=rgba(fl['fc'], fl['fa']), lw=fl['lw'], ls=fl['ls'])
            if d == 'plot':
                return (X, Y), {**lab, **ov}, lambda: [('plot', (X, Y), {**lkw(), **mkw(), **lab, **ov})]
            if d == 'scatter':
                return (X, Y), {**lab, **ov}, lambda: [('scatter', (X, Y), {**dict(s=mk['s'], linewidths=mk['elw'], marker=mk['style'], edgecolors=rgba(mk['ec'], mk['ea']), facecolors=rgba(mk['fc'], mk['fa'])), **lab, **ov})]
            if d == 'errorbar':
                e = {k: v for k, v in (('yerr', [None, .5, data[2], [data[2], data[3]]][x % 4]), ('xerr', [None, data[2], .1][x % 3])) if v is not None}
                if x % 5 == 0:
                    e[['lolims', 'uplims', 'xlolims', 'xuplims'][x % 4]] = True
                return (X, Y), {**e, **lab, **ov}, lambda: [('errorbar', (X, Y), {**e, **lkw(), **mkw(), **lab, **dict(ecolor=rgba(eb['c'], eb['a']), elinewidth=eb['lw'], capsize=eb['capsize'], capthick=eb['capthick']), **ov})]
            if d == 'fill_between':
                e = {k: v for k, v in (('y2', [None, 1, data[2]][x % 3]), ('where', [None, data[2] > .2][x % 2]), ('interpolate', [None, True][x % 2]), ('step', [None, 'mid'][x % 5 == 1])) if v is not None}
                return (X, Y), {**e, **lab, **ov}, lambda: [('fill_between', (X, Y), {**e, **fkw(), **lab, **ov})]
            if d == 'errorfill':
                e = [.5, data[2], [data[2], data[3]], np.array([data[2], data[3]]), list(data[2])][x % 5]
                lo, hi = (e, e) if np.ndim(e) < 2 else e
                fk = [{}, {'lw': 4.5}, {'label': 'own'}][x % 3]
                y = np.asarray(Y)
                kw = {**lab, **ov}
                if x % 2:
                    kw['fill_label'] = f'f{x}'
                if fk:
                    kw['fill_between_kw'] = fk
                fkw2 = {k: v for k, v in {'label': kw.get('fill_label'), **fk}.items() if v is not None}
                return (X, Y, e), kw, lambda: [('plot', (X, Y), {**lkw(), **mkw(), **lab, **ov}), ('fill_between', (X, y - np.asarray(lo)), {'y2': y + np.asarray(hi), **fkw(), **fkw2})]
            if d == 'stairs':
                e = {k: v for k, v in (('orientation', [None, 'horizontal'][x % 2]), ('baseline', [None, 2.5][x % 3 == 0]), ('fill', [None, False][x % 5 == 0])) if v is not None}
                edges = [] if x % 2 else [np.arange(6)]
                return (Y, *edges), {**e, **lab, **ov}, lambda: [('stairs', (Y, *edges), {'fill': True, **e, **fkw(), **lab, **ov})]
            if d == 'hist':
                e = {k: v for k, v in (('bins', [None, 7, data[0]][x % 3]), ('range', [None, (0, 2)][x % 2]), ('density', [None, True][x % 5 == 0]), ('weights', [None, data[2]][x % 7 == 0]), ('log', [None, True][x % 11 == 0]),
                                       ('align', [None, 'left'][x % 3 == 0]), ('rwidth', [None, .5][x % 3 == 1]), ('histtype', [None, 'step'][x % 2]), ('orientation', [None, 'horizontal'][x % 2])) if v is not None}
                return (Y,), {**e, **ov}, lambda: [('hist', (Y,), {'histtype': 'stepfilled', **e, **fkw(), **ov})]
            s, at = f'a_{x}', (.25, rng.random())
            e = {k: v for k, v in (('va', [None, 'top'][x % 2]), ('ha', [None, 'right'][x % 3 == 0])) if v is not None}
            return (s, at), {**e, **ov}, lambda: [('text', (*at, f'${s}$' if tx['use_tex'] else s), {'transform': M.tr, 'color': rgba(tx['c'], tx['a']), 'fontsize': tx['s'], 'va': 'center', 'ha': 'left', **e, **ov})]

        for j, o in enumerate(cl['ops']):
            with ctx.quiet():
                k, q, x = o['k'], o['a'] % m, o['x']
                M, raw = models[q], raws[c, q]
                M.tr = raw.transAxes
                ax = row[q]
                what = f'client {c} step {j}: {k} {o.get("d", o.get("w", o.get("s", "")))} on {o["t"]} {q}'
                t, sel = ax, [q]
                if o['t'] != 'ax' and k in ('fmt', 'c', 'frame', 'short', 'multi', 'bad', 'leg', 'grid'):
                    t, sel = {'row': (row, range(m)), 'flat': (row.flat, range(m)), 'T': (row.T, range(m)), 'slice': (row[q:], range(q, m))}[o['t']]
                err, change, calls, style, res, own = None, None, None, True, None, None
                before = []
                if k in ('fmt', 'bad', 'badc', 'c', 'frame', 'short', 'multi'):
                    kw = {a: val(v) for a, v in o['kw']} if k in ('fmt', 'bad', 'badc') else None
                    fr = dict(copy.deepcopy(o['fr'])) if 'fr' in o else None
                    if fr and x % 3 == 0:
                        fr = {a: ((v['x'], v['y']) if isinstance(v, dict) and set(v) == {'x', 'y'} and a != 'tick_params' else v) for a, v in fr.items()}
                    asmap = lambda f: {a: (dict(zip('xy', v)) if isinstance(v, tuple) else copy.deepcopy(v)) for a, v in f.items()}
                    if k == 'c':
                        cc, a = o['kw']
                        cc = None if cc is None else color(cc)
                        call, change = (lambda: t.c(cc, a) if x % 2 else t.c(c=cc, a=a)), lambda M: M.color(cc, a)
                    elif k == 'fmt':
                        w = o['w']
                        call, change = (lambda: getattr(t, 'fmt_' + w)(**kw)), lambda M: M.set(w, kw)
                        before = [kw, dict(kw)]
                    elif k == 'frame':
                        mf = asmap(fr)
                        before = [fr, copy.deepcopy(fr)]
                        call, change = (lambda: t.fmt_frame(**fr)), lambda M: M.apply(copy.deepcopy(mf))
                    elif k == 'short':
                        s, v = o['s'], copy.deepcopy(o['v'])
                        if s == 'label_outer':
                            call, change = (lambda: t.label_outer()), lambda M: M.apply({s: True})
                        elif s == 'tick_params':
                            both = v.pop('both', None)
                            vx, vy, rest = v.pop('x'), v.pop('y'), v
                            before = [[vx, vy, both], copy.deepcopy([vx, vy, both])]
                            call, change = (lambda: t.tick_params(vx, vy, both, **rest)), lambda M: M.apply({s: copy.deepcopy({'x': vx, 'y': vy, 'both': both, **rest})})
                        else:
                            vx, vy = v['x'], v['y']
                            if s == 'label':
                                change = lambda M: M.apply({s: {'x': vx if vx is None or not M.text['use_tex'] else f'${vx}$', 'y': vy if vy is None or not M.text['use_tex'] else f'${vy}$'}})
                            else:
                                change = lambda M: M.apply({s: {'x': vx, 'y': vy}})
                            call = (lambda: getattr(t, s)(vx, vy)) if x % 2 else (lambda: getattr(t, s)(x=vx, y=vy))
                    elif k == 'multi':
                        kws = {w: {a: val(v) for a, v in z} for w, z in o['kws']}
                        if fr:
                            kws['frame'] = fr
                            mf = asmap(fr)
                        before = [kws, copy.copy({w: copy.deepcopy(z) if w == 'frame' else dict(z) for w, z in kws.items()})]

                        def change(M):
                            for w, z in kws.items():
                                M.apply(copy.deepcopy(mf)) if w == 'frame' else M.set(w, z)
                        call = lambda: t.fmt(**kws)
                    elif k == 'bad':
                        err = KeyError
                        nk = ['nonsense', 'color', 'linewidth', '_x'][x % 4]
                        if fr:
                            mf = asmap(fr)
                            bad = {**fr, nk: 1} if x % 2 else {nk: 1, **fr}
                            call, legal, change = (lambda: t.fmt_frame(**bad)), (lambda: t.fmt_frame(**fr)), lambda M: M.apply(copy.deepcopy(mf))
                        else:
                            w = o['w']
                            if x % 2 == 0 and w in ('line', 'text', 'errorbar'):
                                bad = {nk: 1, **kw}
                            else:
                                bad = {**kw, nk: 1}
                            call, legal, change = (lambda: getattr(t, 'fmt_' + w)(**bad)), (lambda: getattr(t, 'fmt_' + w)(**kw)), lambda M: M.set(w, kw)
                    else:                 # a colour that does not exist is refused when it is used
                        w = o['w']
                        bc = {'line': 'c', 'text': 'c', 'errorbar': 'c', 'marker': 'fc', 'fill': 'ec'}[w]
                        d = {'line': 'plot', 'text': 'text', 'errorbar': 'errorbar', 'marker': 'scatter', 'fill': 'stairs'}[w]
                        old = getattr(M, w)[bc]
                        getattr(ax, 'fmt_' + w)(**{bc: 'nocolour', **({'style': M.marker['style']} if w == 'marker' else {})})
                        a, kw2, _ = drawing({'d': d, 'x': x}, M)
                        err, call, calls = ValueError, (lambda: getattr(ax, d)(*a, **kw2)), []
                        legal = lambda: getattr(ax, 'fmt_' + w)(**{bc: old, **({'style': M.marker['style']} if w == 'marker' else {})})
                        change = lambda M: None
                elif k == 'draw':
                    a, kw2, exp = drawing(o, M)
                    calls = exp()
                    before = [[a, kw2], [copy.deepcopy(a), {z: (v if z == 'transform' else copy.deepcopy(v)) for z, v in kw2.items()}]]
                    call = lambda: getattr(ax, o['d'])(*a, **kw2)
                    style = False
                elif k in ('leg', 'grid', 'axis'):
                    style = False
                    if k == 'leg':
                        loc = (list(LOC) + list(LOC.values()) + ['best', None])[x % (2 * len(LOC) + 2)]
                        kw2 = {z: v for z, v in (('fontsize', 5), ('ncol', 3), ('title', 'T'), ('frameon', False), ('handlelength', 2.5), ('labelcolor', 'mec'), ('borderpad', .1), ('markerscale', 2), ('shadow', True), ('columnspacing', .3), ('title_fontsize', 4), ('framealpha', .5), ('numpoints', 2), ('scatterpoints', 4), ('handleheight', 1.5), ('handletextpad', .7), ('borderaxespad', .9), ('labelspacing', .6)) if (x * 7 + len(z) * 13) % 5 == 0}
                        if loc:
                            kw2['loc'] = loc
                        args = (['a'],) if x % 3 == 0 else ()
                        call, calls = (lambda: t.leg(*args, **kw2)), [('legend', args, {'ncol': 1, **kw2, 'loc': LOC.get(loc, loc or 'best')})]
                    elif k == 'grid':
                        kw2 = {z: v for z, v in (('visible', False), ('which', 'both'), ('axis', 'x'), ('lw', 2), ('ls', ':'), ('c', 'r'), ('alpha', .5)) if (x * 3 + len(z) * 5) % 3 == 0}
                        call, calls = (lambda: t.grid(**kw2)), [('grid', (), {'visible': True, 'which': 'major', 'axis': 'both', **kw2})]
                    else:
                        call, calls = (lambda: ax.axis_off() if x % 2 else ax.axis_on()), [('set_axis_off' if x % 2 else 'set_axis_on', (), {})]
                elif k == 'poly':
                    P = np.array([[0., 1.], [.5, 2.], [1., 3.]])
                    Q = P[::-1] * 2 if x % 2 else P * 3
                    args = (P[:, 0], P[:, 1], Q[:, 0], Q[:, 1])
                    kw2 = [{}, {'c': 'r', 'a': .5}, {'patch_kw': {'lw': 3.}}][x % 3]
                    before = [[args, kw2], copy.deepcopy([args, kw2])]
                    call, style = (lambda: Short(ax).fill_between_xy(*args, **kw2)), False

                    def res(r):
                        n, b = raw.log[-1]
                        p = b.get('p')
                        ctx.check(n == 'add_patch' and np.array_equal(p.get_xy()[:6], np.concatenate([P, Q[::-1]])) and p.get_facecolor() == mc.to_rgba(kw2.get('c', 'k'), kw2.get('a', 1.)) and (x % 3 != 2 or p.get_linewidth() == 3.),
                                  'drawing-differs', f'{what}: patch {n} {p and p.get_xy().tolist()} {p and p.get_facecolor()}')
                    calls = 1
                elif k == 'sec':
                    kind, loc = ['id', 'lg', 'interp', 'bad'][x % 4], ['top', 'bottom', 'left', 'right'][x // 4 % 4]
                    dirn = 'x' if loc in ('top', 'bottom') else 'y'
                    ticks, label, hide = [None, [1, 2]][x // 2 % 2], [None, 'Z'][x // 3 % 2], x % 5 != 0
                    kw2 = dict(location=loc if kind != 'bad' else 'middle', hide_first_ticks=hide, **({'ticks': ticks} if ticks else {}), **({'label': label} if label else {}))
                    sh = Short(ax)
                    if kind == 'lg':
                        call = lambda: sh.add_secondary_axis_lgzp1_to_z(**kw2)
                        ticks, label = ticks or [0, 1, 2, 3, 4, 5, 7, 10, 14], label or '$z$'
                    elif kind == 'interp':
                        call = lambda: sh.add_secondary_axis_interp(np.array([0., 1., 2.]), np.array([1., 3., 7.]), **kw2)
                    else:
                        call = lambda: sh.add_secondary_identical_axis(**kw2)
                        if kind == 'bad':
                            err = ValueError
                    kids = len(raw.kids)
                    legal = lambda: None
                    change = lambda M: None
                    if kind != 'bad':
                        calls, style = 1, False
                        tp = {'tick_params': {dirn: {'which': 'both', loc: False}, **{z: None for z in ('x', 'y', 'both') if z != dirn}}}

                        def res(r):
                            n, b = raw.log[-1]
                            ctx.check(n == f'secondary_{dirn}axis' and b['location'] == loc and len(raw.kids) == kids + 1 and isinstance(r, Axes), 'drawing-differs', f'{what}: {n} at {b.get("location")}')
                            kid = raw.kids[-1]
                            fwd, bwd = b['functions'][1:]
                            for u in (.25, 1., 1.5):
                                f = {'id': u, 'lg': 10**u - 1., 'interp': float(np.interp(u, [0, 1, 2], [1, 3, 7]))}[kind]
                                ctx.check(abs(float(fwd(u)) - f) < 1e-9 and abs(float(bwd(f)) - u) < 1e-9, 'drawing-differs', f'{what}: functions map {u} to {float(fwd(u))} and {f} to {float(bwd(f))}')
                            e = {}
                            if label:
                                e[dirn + 'label'] = {dirn + 'label': label}
                            if ticks:
                                e[dirn + 'ticks'] = {'ticks': norm(ticks)}
                            got = {z: {y: w for y, w in v.items() if y in ('xlabel', 'ylabel', 'ticks')} for z, v in kid.frame.items()}
                            ctx.check(got == e and not kid.log, 'frame-differs', lambda: f'{what}: frame of the secondary axis {got}, expected {e}')

                        def change(M):
                            if hide:
                                M.apply(tp)
                elif k in ('mesh', 'contour', 'scat'):
                    rng = np.random.default_rng(x)
                    X, Y, W = rng.random(40), rng.random(40) * 2, rng.random(40) if x % 3 == 0 else None
                    R, nb = ((-.1, 1.05), (-.3, 2.2)), [4, (3, 5)][x % 2]
                    rg = {'range': R}
                    if x % 5 == 0:          # the range of the data
                        rg, R = {}, ((X.min(), X.max()), (Y.min(), Y.max()))
                    nbk = {'n_bins': nb}
                    if x % 7 == 0:
                        nbk, nb = {}, 10
                    nbx, nby = (nb, nb) if isinstance(nb, int) else nb
                    Z, ex, ey = np.histogram2d(X, Y, bins=(nbx, nby), range=R, weights=W, density=True)
                    tr = [None, np.sqrt][x // 2 % 2]
                    Zt = (tr(Z) if tr else Z).T
                    kw2 = {z: v for z, v in (('cmap', 'gray'), ('vmin', .1), ('alpha', .5), ('zorder', 3)) if (x + len(z)) % 3 == 0}
                    before = [[X, Y, W, kw2], copy.deepcopy([X, Y, W, kw2])]
                    s2 = lambda: ax.scatter_2d(X if x % 9 else X.tolist(), Y, weight=W, **rg, **nbk, **({'z_transform': tr} if tr else {}))
                    from pyhipp.plot import KNearestNeighbor2D
                    if x % 4 == 1 and k != 'contour':       # an estimator of the caller
                        est2 = KNearestNeighbor2D(k=3)
                        if x % 8 == 1:
                            est2.fit(X[:2] + 3, Y[:2])
                        s2_ = s2
                        s2 = lambda: ax.scatter_2d(X, Y, weight=W, density_estimator=est2, **rg, **nbk, **({'z_transform': tr} if tr else {}))

                        def dens3(px, py):
                            dd = (px[:, None] - X[None])**2 + (py[:, None] - Y[None])**2
                            o3 = np.argsort(dd, 1, kind='stable')[:, :3]
                            with np.errstate(all='ignore'):
                                return (np.ones(40) if W is None else W)[o3].sum(1) / (np.pi * np.take_along_axis(dd, o3, 1)[:, -1])
                        Z = dens3(*[z.ravel() for z in np.meshgrid((ex[1:] + ex[:-1]) / 2, (ey[1:] + ey[:-1]) / 2, indexing='ij')]).reshape(len(ex) - 1, len(ey) - 1)
                        Zt = (tr(Z) if tr else Z).T
                        zp = dens3(X, Y)
                    else:
                        zp = Z[np.where(X == ex[-1], len(ex) - 2, np.searchsorted(ex, X, side='right') - 1), np.where(Y == ey[-1], len(ey) - 2, np.searchsorted(ey, Y, side='right') - 1)]
                    zp = tr(zp) if tr else zp
                    style, calls = False, 1
                    if k == 'scat':
                        p0 = [None, .5, .9, 0., 1.][x // 8 % 5]
                        kw2.pop('cmap', None), kw2.pop('vmin', None)
                        kw2.update({z: v for z, v in (('marker', 'x'), ('s', 4.), ('c', 'r'), ('edgecolors', 'b'), ('linewidths', 2.)) if (x // 3 + len(z)) % 4 == 0})
                        before[1][3] = dict(kw2)
                        call = (lambda: s2().scatter(**kw2)) if p0 is None and x % 3 else (lambda: s2().scatter(p0, **kw2))

                        def res(r):
                            n, b = raw.log[-1]
                            e = raw.bound('scatter', (X, Y), {**dict(marker='o', s=10, c='k', edgecolors='none', linewidths=1), **kw2})
                            gx, gy = (np.array(b[z][2]) for z in 'xy')
                            keep_ = np.isin(X, gx)
                            ctx.check(n == 'scatter' and {z: v for z, v in b.items() if z not in 'xy'} == {z: v for z, v in e.items() if z not in 'xy'} and np.array_equal(X[keep_], gx) and np.array_equal(Y[keep_], gy) and r.ax is ax, 'drawing-differs', lambda: f'{what}: {n} {b!r:.300}, expected {e!r:.300}')
                            # shown: exactly the points below the density that encloses the fraction
                            zs = np.sort(Zt.ravel())
                            cum = np.cumsum(zs) / np.cumsum(zs)[-1]
                            if p0 is None:
                                ctx.check(keep_.all(), 'drawing-differs', f'{what}: {keep_.sum()} of 40 points')
                            elif np.abs(cum - (1. - p0)).min() > 1e-9 and not np.isnan(zs).any():
                                i_ = int((cum < 1. - p0).sum())
                                hi_, lo_ = zs[i_], zs[max(i_ - 1, 0)]
                                bad = keep_ & (zp >= hi_ * (1 + 1e-9)) | ~keep_ & (zp < lo_ * (1 - 1e-9))
                                ctx.check(not bad.any(), 'drawing-differs', lambda: f'{what}: hidden in {p0}: densities shown {np.sort(zp[keep_]).tolist()}, hidden {np.sort(zp[~keep_]).tolist()}, level between {lo_} and {hi_}')
                    elif k == 'mesh':
                        call = lambda: s2().mesh(**kw2)

                        def res(r):
                            n, b = raw.log[-1]
                            a = b['*'][1:]
                            ctx.check(n == 'pcolormesh' and len(a) == 3 and all(np.allclose(u[2], v, rtol=1e-12) for u, v in zip(a, (ex, ey, Zt))) and all(b.get(z) == v for z, v in {'cmap': 'jet', 'edgecolor': None, **kw2}.items() if z != 'edgecolor'),
                                      'drawing-differs', f'{what}: {n} {b!r:.300}')
                    else:
                        ps = [None, (.9, .5), np.array([.6])][x % 3]
                        fillc = x % 4 == 0
                        zs = np.sort(Zt.ravel())
                        cum = np.cumsum(zs) / zs.sum()
                        lv = [zs[np.searchsorted(cum, 1. - p) if np.searchsorted(cum, 1. - p) < len(zs) else -1] for p in (ps if ps is not None else (.99, .95, .68))]
                        tie = any(np.abs(cum - (1. - p)).min() < 1e-9 for p in (ps if ps is not None else (.99, .95, .68)))
                        call = lambda: s2().contour(ps, use_fill=fillc, **kw2)

                        def res(r):
                            n, b = raw.log[-1]
                            a = b['*'][1:]
                            ctx.check(n == ('contourf' if fillc else 'contour') and len(a) == 3 and all(np.allclose(u[2], v, rtol=1e-12) for u, v in zip(a, ((ex[1:] + ex[:-1]) / 2, (ey[1:] + ey[:-1]) / 2, Zt)))
                                      and (tie or np.allclose(b['levels'][2], lv, rtol=1e-9)), 'drawing-differs', f'{what}: {n} {b!r:.300}, expected levels {lv}')
                elif k == 'last':
                    if arts[q] is None:
                        ctx.pause()
                        continue
                    call, style, calls = (lambda: ax.last_draw), False, []
                    want = arts[q]
                    res = lambda r: ctx.check(r._raw is want or isinstance(want, (list, tuple)) and any(r._raw is w for w in want), 'last-differs', f'{what}: not the last drawing')
                elif k == 'seq':
                    name = ['dark2', 'tab10', 'set1', 'set2'][x % 4]
                    import matplotlib.pyplot as P2
                    e = [mc.to_rgba(z) for z in P2.get_cmap({'dark2': 'Dark2', 'tab10': 'tab10', 'set1': 'Set1', 'set2': 'Set2'}[name]).colors]
                    cmx = P2.get_cmap('viridis')
                    four = [(.1, .2, .3, .25), [.5, .5, .5, 0.], '#10203040', (.1, .2, .3), np.array([.2, .4, .6, .8]), 'C3', ('r', .5), 'none']
                    own = lambda: (plot.ColorSeq.predefined(name), Color(shared[x % 2], .125).alpha(.75).get_rgba())
                    call, style, calls = own, False, []

                    def res(r):
                        ctx.check([Color(z).get_rgba() for z in four] == [mc.to_rgba(z) for z in four] and [Color(z, .125).get_rgba() for z in four] == [(*mc.to_rgba(z)[:3], .125) for z in four] and Color().get_rgba() == mc.to_rgba('k')
                                  and [Color(Color(z)).get_alpha() for z in four] == [mc.to_rgba(z)[3] for z in four], 'colours-differ', f'{what}: colours of {four}')
                        lv = [5, np.linspace(.1, .7, 3), [.25], 2, 1][x % 5]
                        ev = cmx(np.linspace(0., 1., lv) if isinstance(lv, int) else lv, alpha=[None, .5][x // 3 % 2])
                        from pyhipp.plot import artist_formatter as AFM
                        F_ = [AFM.LineFormatter, AFM.MarkerFormatter, AFM.ErrorBarFormatter, AFM.FillFormatter, AFM.TextFormatter][x % 5]
                        one, two = F_(), F_()
                        old = {z: two[z] for z in two._fmt_dict} if hasattr(two, '_fmt_dict') else {}
                        some = 'lw' if F_ in (AFM.LineFormatter, AFM.ErrorBarFormatter, AFM.FillFormatter) else 's'
                        one[some] = 41.
                        one |= {some: one[some] + 1.}
                        r3 = one.update({some: one[some] + 1.}, {some: 44.})
                        ctx.check(r3 is one and one[some] == 44. and one.update(**{some: 45.})[some] == 45. and two[some] == old.get(some, two[some]) != 45., 'style-differs', f'{what}: {F_.__name__}[{some!r}] = {one[some]}, another one has {two[some]}')
                        for how_ in (lambda: one.__setitem__('no_such', 1), lambda: one.update(no_such=1), lambda: one.update({'no_such': 1}), lambda: one.__ior__({'no_such': 1}), lambda: F_(no_such=1)):
                            try:
                                how_()
                                ctx.violate('bad-accepted', f'{what}: {F_.__name__} accepted an unknown key')
                            except (KeyError, TypeError):
                                pass
                        try:
                            one['no_such']
                            ctx.violate('bad-accepted', f'{what}: {F_.__name__} stored an unknown key')
                        except KeyError:
                            pass
                        ctx.check(one.c('#102030', .5) is one and all(g_().get_rgba() == (*mc.to_rgba('#102030')[:3], .5) for g_ in (getattr(one, z) for z in ('get_c', 'get_fc', 'get_ec') if hasattr(one, z))), 'colours-differ', f'{what}: colours of {F_.__name__}')
                        one.c(a=.25)
                        ctx.check(all(g_().get_rgba() == (*mc.to_rgba('#102030')[:3], .25) for g_ in (getattr(one, z) for z in ('get_c', 'get_fc', 'get_ec') if hasattr(one, z))), 'colours-differ', f'{what}: opacity of {F_.__name__}')
                        one.c('r')
                        ctx.check(all(g_().get_rgba() == (*mc.to_rgba('r')[:3], .25) for g_ in (getattr(one, z) for z in ('get_c', 'get_fc', 'get_ec') if hasattr(one, z))), 'colours-differ', f'{what}: colour of {F_.__name__}')
                        cm_, nm_ = P2.get_cmap('gray'), mc.Normalize(-2., 6.)
                        sm = ScalarMappable.from_cmap(plot.color.Colormap(cm_), plot.color.Normalize(nm_))
                        ctx.check(type(sm) is ScalarMappable and sm._raw.norm is nm_ and sm._raw.get_cmap() == cm_ and np.allclose(sm._raw.to_rgba([0., 6.]), cm_([.25, 1.])) and (nm_.vmin, nm_.vmax) == (-2., 6.), 'colours-differ', f'{what}: a scalar mappable of its own colour map and range')
                        ctx.check(np.allclose(plot.color.Colormap(cm_)(np.array([.1, .9]), alpha=.25), cm_([.1, .9], alpha=.25)) and np.allclose(plot.color.Colormap(cm_)(.3), cm_(.3)), 'colours-differ', f'{what}: colour map evaluated')
                        sq = plot.ColorSeq.from_cmap('viridis' if x % 2 else plot.color.Colormap(cmx), lv, alpha=[None, .5][x // 3 % 2]).get_rgba()
                        ctx.check(np.allclose(sq, ev, atol=1e-12) and len(sq) == len(ev), 'colours-differ', f'{what}: {sq} from the colour map, expected {ev}')
                        ctx.check(plot.ColorSeq(four).get_rgba() == [mc.to_rgba(z) for z in four], 'colours-differ', f'{what}: sequence of {four}')
                        ctx.check(r[0].get_rgba() == e and r[1] == (*shared0[x % 2][:3], .75), 'colours-differ', f'{what}: {r[0].get_rgba()!r:.200}, {r[1]}')
                        for z in r[0].colors:
                            z.alpha(.5)
                else:
                    style, calls = False, []
                    n = [1, 3, (1, 2), (2, 2), (3, 1), (2, 3)][x % 6]
                    nr, ncol = (1, n) if np.isscalar(n) else n
                    share, extent = [False, True, 'row', (True, False), ('col', 'all')][x % 5], [None, .9, (.1, .8), [.9, .8, .2, .1], (1., 1., 0., 0.)][x // 2 % 5]
                    space, ratios, margin = [None, .1, (.2, .3), 0][x // 3 % 4], [None, ([1, 2], [3, 4]), (None, [1, 1])][x // 5 % 3], [None, None, .1, (.05, .15), (.1, .2, .3, .4)][x // 7 % 5]
                    sk, gk = [None, {'projection': 'polar'}][x % 2], [{}, {'left': .33}][x // 11 % 2]
                    fs, sub, lay, fk = [None, 3, (3, 5)][x % 3], [None, 2, (2, 3)][x // 2 % 3], [None, 'constrained'][x // 3 % 2], [None, {'dpi': 50}, {'layout': 'none'}][x // 5 % 3]
                    ef = dict(zip(('top', 'right', 'bottom', 'left'), (extent,) * 4 if extent is None or np.isscalar(extent) else (extent[1], extent[1], extent[0], extent[0]) if len(extent) == 2 else extent))
                    if margin is not None:
                        mg = (margin,) * 4 if np.isscalar(margin) else (margin[1], margin[1], margin[0], margin[0]) if len(margin) == 2 else margin
                        ef = {'top': 1. - mg[0], 'right': 1. - mg[1], 'bottom': mg[2], 'left': mg[3]}
                    sp = space if isinstance(space, tuple) else (space, space)
                    ra = ratios or (None, None)
                    before = [[n, share, extent, space, ratios, margin, sk, gk, fs, sub, fk], copy.deepcopy([n, share, extent, space, ratios, margin, sk, gk, fs, sub, fk])]
                    figs0 = len(created)
                    cur[threading.get_ident()] = be
                    drop = lambda d: {z: v for z, v in d.items() if v is not None}

                    def want_fig(f, subs):
                        fsz = fs if fs is not None else None
                        if subs and fsz is None:
                            z = sub if sub is not None else (4 if k == 'subplots' else 5)
                            w, h = (z, z) if np.isscalar(z) else z
                            fsz = w * ncol, h * nr
                        if np.isscalar(fsz):
                            fsz = fsz, fsz
                        ly = lay if lay is not None else None
                        if k == 'subplots' and ly is None and space is None or not subs and lay is None:
                            ly = 'tight'
                        e = drop(norm({'figsize': fsz, 'layout': ly, **(fk or {})}))
                        g = drop(f.asked)
                        ctx.check(g == e, 'figure-differs', f'{what}: figure asked with {g}, expected {e}')

                    def want_grid(out, f, subs):
                        e = {'nrows': nr, 'ncols': ncol, 'wspace': sp[0], 'hspace': sp[1], 'width_ratios': ra[0], 'height_ratios': ra[1]}
                        name, g = f.log[-1]
                        if not subs:
                            s = share if isinstance(share, tuple) else (share, share)
                            e = {'nrows': nr, 'ncols': ncol, 'sharex': s[0], 'sharey': s[1], **{z: v for z, v in {**{z: e[z] for z in ('wspace', 'hspace', 'width_ratios', 'height_ratios')}, **ef, **gk}.items()}, 'subplot_kw': sk or {}}
                            g = {**{z: v for z, v in g.items() if z in ('nrows', 'ncols', 'sharex', 'sharey')}, **g.get('gridspec_kw', {}), **{z: g[z] for z in ('width_ratios', 'height_ratios') if z in g}, 'subplot_kw': g.get('subplot_kw', {})}
                        else:
                            g = {z: v for z, v in g.items() if z in e or z == 'facecolor'}
                            e['facecolor'] = 'none' if k == 'subfigs' and x % 2 else None
                        e, g = drop(norm(e)), drop(g)
                        ctx.check(name == ('subfigures' if subs else 'subplots') and g == e, 'grid-differs', lambda: f'{what}: {name} asked with {g}, expected {e}')
                        many = nr * ncol > 1
                        flat = [out] if not many else [out[z] for z in np.ndindex(*(s for s in (nr, ncol) if s > 1))]
                        ctx.check([z._raw for z in flat] == f.kids, 'grid-differs', f'{what}: {len(flat)} items in {type(out).__name__}, not the {len(f.kids)} created')
                        return flat
                    gkw = drop(dict(share=share, extent=extent, space=space, ratios=ratios, margin=margin, mpl_subplot_kw=sk)) | gk
                    skw = drop(dict(space=space, ratios=ratios))
                    fkw = drop(dict(figsize=fs, layout=lay))
                    if k == 'figure':
                        call = lambda: plot.figure(**fkw, **(fk or {})) if 'layout' not in (fk or {}) else plot.figure(**{**fkw, **fk})
                        res = lambda r: want_fig(r._raw, False)
                    elif k == 'subplots':
                        call = lambda: plot.subplots(n, **fkw, **drop(dict(subsize=sub, figure_kw=fk)), **gkw)

                        def res(r):
                            want_fig(r[0]._raw, True)
                            f = want_grid(r[1], r[0]._raw, False)
                            r2 = f[0]._raw
                            f[0].plot([0], [1])
                            ctx.check(r2.log and r2.log[0] == ('plot', r2.bound('plot', ([0], [1]), dict(c=rgba('k', 1.), lw=2.5, ls='-', ms=10, mew=1., mec=rgba('k', 1.), mfc=rgba('k', .3)))), 'style-differs', f'{what}: a new axes draws {r2.log!r:.300}')
                    elif k == 'subfigs':
                        if x % 2:
                            call = lambda: plot.subfigures(n, **fkw, **drop(dict(subsize=sub, figure_kw=fk)), **skw)
                        else:
                            ff = Figure(FigRec(be, MF))
                            call = lambda: (ff, ff.subfigures(n, **skw))

                        def res(r):
                            if x % 2:
                                want_fig(r[0]._raw, True)
                            sf = want_grid(r[1], r[0]._raw, True)
                            a = sf[-1].subplots((1, 2), share=True)
                            ctx.check([z._raw for z in a] == sf[-1]._raw.kids and all(not z._raw.log for z in sf[:-1]), 'grid-differs', f'{what}: axes of a sub-figure')
                            one = Figure(FigRec(be, MF))
                            o1, o2 = one.subplots(), one.subfigures()
                            (_, l1), (_, l2) = one._raw.log
                            ctx.check([z.get(y) for z in (l1, l2) for y in ('nrows', 'ncols')] == [1] * 4 and not l1.get('sharex') and not l1.get('sharey') and [o1._raw, o2._raw] == one._raw.kids, 'grid-differs', f'{what}: by default {one._raw.log!r:.300}')
                            if nr * ncol > 1:
                                kw3 = dict(n=(2, 1), share=['row', True, False][x % 3], extent=.9, space=[.1, (.2, .3)][x % 2], ratios=([1, 2], None), mpl_subplot_kw={'projection': 'polar'}, left=.2)
                                for kw4 in ({}, kw3):
                                    for z in sf:
                                        z._raw.kids.clear()
                                    a = r[1].subplots(**kw4)
                                    one.subplots(**kw4)
                                    ctx.check(a.shape == tuple(s for s in (nr, ncol) if s > 1) and all(z._raw.log[-1] == one._raw.log[-1] for z in sf)
                                              and all([y._raw for y in (b if kw4 else [b])] == z._raw.kids for b, z in zip(a.flat, sf)), 'grid-differs', lambda: f'{what}: axes of the sub-figures with {kw4}: {sf[0]._raw.log[-1]!r:.300}, one figure {one._raw.log[-1]!r:.300}')
                            if nr * ncol > 1 and (nr == 1 or ncol == 1):
                                for z in sf:
                                    z._raw.kids.clear()
                                a = r[1].subplots(2, share=True)
                                ctx.check(a.shape == (nr * ncol,) and all([y._raw for y in b] == z._raw.kids for b, z in zip(a, sf)), 'grid-differs', f'{what}: axes of the sub-figures')
                    else:
                        ff = Figure(FigRec(be, MF))
                        mp = Art()
                        how = x % 5
                        axs = [None, ax, row, [row[0], raws[c, m - 1]], None][how]
                        if how == 4:        # a column of axes
                            col = np.empty((m, 1), object)
                            col[:, 0] = list(raws[c])
                            axs = AxesArray(col)
                        kw2 = drop(dict(location=[None, 'top'][x % 2], fraction=[None, .2][x // 2 % 2], pad=[None, .3][x // 3 % 2], ticks=[None, [1, 2]][x // 5 % 2], label=[None, 'L'][x // 7 % 2], cax=[None, ax][how == 0], shrink=[None, .5][x // 3 % 2], extend=[None, 'both'][x // 5 % 2], orientation=[None, 'horizontal'][x // 3 % 2], aspect=[None, 7.][x // 11 % 2]))
                        if x % 3 == 0:          # not the first one on the figure
                            fails_, be.fails = be.fails, 0
                            ff.colorbar(Art(), ax=row)
                            be.fails = fails_
                        call = lambda: ff.colorbar(ScalarMappable(mp) if x % 2 else mp, ax=axs, **kw2)

                        def res(r):
                            n, b = ff._raw.log[-1]
                            e = {'mappable': mp, 'fraction': .1, 'shrink': 1., 'aspect': 20, 'pad': 0, **kw2}
                            if 'cax' in e:
                                e['cax'] = raw
                            if axs is not None:
                                e['ax'] = [None, raw, list(raws[c]), [raws[c, 0], raws[c, m - 1]], list(raws[c])][how]
                            e = ff._raw.bound('colorbar', (), e)
                            ctx.check(n == 'colorbar' and b == e and r is ff and ff.last_draw._raw is ff._raw.arts[-1], 'drawing-differs', lambda: f'{what}: {n} {b}, expected {e}')
                lens = [len(raws[c, z].log) for z in range(m)]
                fault = None
                if o.get('fail'):
                    be.exc = fault = {'RuntimeError': RuntimeError, 'ValueError': ValueError, 'MemoryError': MemoryError, 'KeyError': KeyError}[o['exc']]('backend failed')
                    be.fails = o['fail']
                kids0 = len(created)
            out = ctx.call(f'{c}.{j}', call)
            with ctx.quiet():
                failed = fault is not None and not be.fails
                be.fails = 0
                n_calls = sum(len(raws[c, z].log) for z in range(m)) - sum(lens)
                ctx.event(c, j, k, out.kind, n_calls)
                ctx.state((k, o['t'], o.get('d'), n_calls, out.kind, failed))
                if failed:
                    ctx.fault('backend-error')
                if out.injected:
                    failed = failed and out.exc is fault
                elif failed:
                    ctx.check(not out.ok and out.exc is fault, 'error-lost', f'{what}: the backend failed with {fault!r}, the call ended with {out!r}')
                elif err:
                    ctx.nontrivial = True
                    ctx.check(out.isa(err), 'bad-accepted', f'{what}: {out!r}, expected {err.__name__}')
                    if k == 'sec':
                        ctx.check(n_calls == 0, 'drawings-differ', f'{what}: drawn')
                else:
                    ctx.check(out.ok, 'legal-rejected', f'{what}: {out!r}')
                if before:
                    ctx.check(same(before[0], before[1]), 'input-changed', lambda: f'{what}: arguments of the caller now {before[0]!r:.300}, were {before[1]!r:.300}')
                # drawings: each expected backend call at most once, in order, on the right axes
                if isinstance(calls, list):
                    exp_ = [(zz, raw.bound(zz, a_, k_)) for zz, a_, k_ in calls] if calls else []
                    for z in range(m):
                        got = raws[c, z].log[lens[z]:]
                        ez = exp_ if z in sel else []
                        ctx.check(got == ez[:len(got)] and (len(got) == len(ez) or not out.ok), 'drawing-differs', lambda: f'{what}: axes {z} was asked for {fm(got, ez)}')
                        mylog[z].extend([None] * len(got))
                        if got and k not in ('grid', 'axis'):
                            last = raws[c, z].arts[-1]
                            # an interrupted call may have drawn without noting it yet
                            if out.ok or failed:
                                arts[z] = last
                            else:
                                arts[z] = None
                elif calls == 1:
                    got = len(raw.log) - lens[q]
                    ctx.check(got <= 1 and n_calls == got and (got == 1 or not out.ok), 'drawings-differ', f'{what}: {got} drawings')
                    mylog[q].extend([None] * got)
                else:
                    ctx.check(n_calls == 0, 'drawings-differ', f'{what}: {n_calls} drawings')
                if out.ok and res is not None:
                    res(out.value)
                if out.ok and k in ('fmt', 'c', 'frame', 'short', 'multi', 'leg', 'grid', 'axis') or out.ok and k == 'draw':
                    r = out.value
                    ctx.check(r is t or isinstance(r, AxesArray) and r.to_list() == t.to_list(), 'not-chained', f'{what}: returned {r!r:.80}')
                if style and change is not None:
                    if not out.ok:
                        (legal if err else call)()
                    for z in sel:
                        change(models[z])
                elif k == 'sec' and change is not None and (out.ok or not err):
                    if not out.ok:                # make the ticks of the failed call definite
                        if hide:
                            ax.tick_params(**tp['tick_params'])
                    change(M)
                verify(what, None if j % 4 == 0 else sel)
        with ctx.quiet():
            verify(f'client {c} at the end')
            for q in range(m):
                M, raw, ax = models[q], raws[c, q], row[q]
                M.tr = raw.transAxes
                for d in ('plot', 'scatter', 'errorbar', 'fill_between', 'text'):
                    a, kw2, exp = drawing({'d': d, 'x': 5}, M)
                    n0 = len(raw.log)
                    getattr(ax, d)(*a, **kw2)
                    e = [(z, raw.bound(z, a_, k_)) for z, a_, k_ in exp()]
                    ctx.check(raw.log[n0:] == e, 'drawing-differs', lambda: f'client {c} at the end: axes {q} was asked for {fm(raw.log[n0:], e)}')
                    mylog[q].append(None)
                ctx.check(ax.last_draw._raw is raw.arts[-1], 'last-differs', f'client {c} at the end')
            done[c] = [len(x) for x in mylog]

    def fm(got, e):
        if [x[0] for x in got] != [x[0] for x in e]:
            return f'{[x[0] for x in got]}, expected {[x[0] for x in e]}'
        return '; '.join(f'{a[0]} {k}={a[1].get(k)!r:.120} instead of {b[1].get(k)!r:.120}' for a, b in zip(got, e) for k in sorted(set(a[1]) | set(b[1])) if a[1].get(k) != b[1].get(k))

    def same(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return type(a) is type(b) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return type(a) is type(b) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
        return a is b or type(a) is type(b) and (a == b or a != a and b != b)

    done = {}
    ctx.run_clients([(lambda c=c, cl=cl: body(c, cl)) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    for c in range(nc):
        if c in done:
            ctx.check([len(raws[c, q].log) for q in range(m)] == done[c], 'drawings-differ', f'axes of client {c} were drawn on by others')
