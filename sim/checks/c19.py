"""C19  Log lines are complete, named, timed and switchable.

Clients log through their own and through common objects to a simulated stream,
under a simulated clock; every piece the stream receives is attributed to the call
that wrote it."""
import itertools
import os
import sys
import threading
import time

PROP = 'C19'
RUNS = {'quick': 3000, 'thorough': 100000}
RULE = ('one run = 1-3 clients making 4-20 log calls, verbosity switches, renamings, clock jumps and stream changes each on own and common objects, '
        'under a line- and write-level schedule with failing writes, failing text conversion and interrupts; non-trivial = client switch, clock jump or fault fired')
STATE = 'distinct (operation, verbose, options, time zone, outcome)'
REAL = ['pyhipp.core.abc.HasLog', 'pyhipp.field.cubic_box.DensityField (as a logging object)', 'interpreter (print, strftime, localtime)']
STUB = ['output stream (harness)', 'real-time clock (simulated at the system interface)', 'thread choice and interruption points (simulated scheduler)']
ASSUME = ['one write to a text stream is atomic']
TZ = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3']
FMT = ['%Y-%m-%d %H:%M:%S', '%H:%M', '%j %Z', 'at %S s', '%y%m%d', '']
T0 = [0, 951827180, 1711846790, 1729990790, 1710054000, 2147483640, 4102444790, 1600000000]


def warmup(tmp):
    from pyhipp.field.cubic_box.mass_assignment import DensityField
    DensityField(10., 2)


def gen(rng, tier, i):
    nc = rng.choice([1, 1, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(4, 21)):
            k = rng.choice(['log'] * 11 + ['chain', 'on', 'off', 'toggle', 'rename', 'new', 'jump', 'jump', 'tick', 'swap', 'break'])
            o = {'k': k, 'o': rng.randrange(4), 'x': rng.randrange(1000)}
            if k in ('log', 'chain'):
                o['a'] = [rng.choice(['s', 's', 'i', 'e', 'p', 'n', 'nl', 'bad'] if rng.random() < .25 else ['s', 'i', 'p']) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
                o['kw'] = {}
                for q, v in (('end', ['', ' | ', '\n\n', None]), ('sep', [' ', ', ', None, '--']), ('flush', [False, True]), ('named', [False, True]), ('timed', [True, True, True, False]), ('time_fmt', FMT)):
                    if rng.random() < (.5 if q == 'timed' else .2):
                        o['kw'][q] = rng.choice(v)
            ops.append(o)
            if rng.random() < .12:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 14), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops, 'v': [rng.random() < .7 for _ in range(3)], 'cls': [rng.choice(['log', 'log', 'sub', 'field']) for _ in range(3)], 'n': [rng.choice([None, 'x', 'é]', 3, '', '5%Y', '%', '{0}', 'a%%b']) for _ in range(3)]})
    return {'clients': clients, 'common': [rng.random() < .7, rng.choice([None, 'both'])], 'tz': rng.choice(TZ), 't0': rng.choice(T0), 'tick': rng.choice([0, 1, 300_000_000, 999_999_999]),
            'faults': faults, 'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.1, .3, .6])} if nc > 1 else {'mode': 'serial'}}


class Broken(OSError):
    pass


class ClosedStream(ValueError):
    pass


def run(sc, ctx):
    from pyhipp.core import abc
    from pyhipp.field.cubic_box.mass_assignment import DensityField
    tz, stdout = os.environ.get('TZ'), sys.stdout
    os.environ['TZ'] = sc['tz']
    time.tzset()
    ctx.shim.clock(sc['t0'] * 10**9 + 5, sc['tick'])
    try:
        _run(sc, ctx, abc, DensityField)
    finally:
        sys.stdout = stdout
        ctx.shim.clock_off()
        os.environ.pop('TZ')
        if tz is not None:
            os.environ['TZ'] = tz
        time.tzset()


def _run(sc, ctx, abc, DensityField):
    shim = ctx.shim
    now = {}                     # thread -> call record

    class Stream:
        def __init__(self, name):
            self.name, self.pieces, self.fail, self.closed = name, [], 0, False

        def write(self, s):
            with ctx.quiet():
                rec = now.get(threading.get_ident())
                if self.fail and self.fail != 'flush':
                    kind, self.fail = self.fail, 0
                    ctx.fault('stream:' + kind)
                    if rec is not None:
                        rec['broke'] = True
                    if kind == 'half':
                        self.pieces.append((rec, s[:len(s) // 2]))
                    if kind == 'closed':
                        self.closed = False
                        raise ClosedStream('I/O operation on closed file.')
                    raise Broken(28, 'No space left on device')
                self.pieces.append((rec, s))
            ctx.pause()
            return len(s)

        def flush(self):
            with ctx.quiet():
                rec = now.get(threading.get_ident())
                if self.fail == 'flush':
                    self.fail = 0
                    ctx.fault('stream:flush')
                    if rec is not None:
                        rec['broke'] = True
                    raise Broken(5, 'Input/output error')
                if rec is not None:
                    rec['flushed'] = len(self.pieces)
            ctx.pause()
    streams = [Stream('A'), Stream('B')]
    sys.stdout = streams[0]
    which = [0]                  # history of the stream in use
    segs = [[shim.clock_now(), None]]       # clock values passed, between jumps

    class Sub(abc.HasDictRepr, abc.HasLog):
        repr_attr_keys = ('name',)

    class Text:
        def __init__(self, s, bad=False):
            self.s, self.bad = s, bad

        def __str__(self):
            ctx.pause()
            if self.bad:
                raise Broken(22, 'no text')
            return self.s

    class Obj:
        """a logging object and every name and verbosity it had"""

        def __init__(self, cls, name, verbose):
            kw = {} if name is None else {'name': name}
            if verbose is not None:
                kw['verbose'] = verbose
            if cls == 'field':
                self.o = DensityField(10., 2)
                name, verbose = None, None
            else:
                self.o = {'log': abc.HasLog, 'sub': Sub}[cls](**kw)
            self.names = [str(name) if name is not None else type(self.o).__name__]
            self.verb = [bool(verbose)]
            self.stable, self.pending = 0, 0          # switches in progress: what was set before them may still show
            if cls == 'field':
                ctx.check(getattr(self.o, 'verbose', None) is False, 'verbose-differs', 'a DensityField is verbose from the start')

    common = Obj('log', sc['common'][1], sc['common'][0])
    calls = []

    def cands(rec):
        """every text the call may write, seen with the clock values, names and verbosities during it"""
        o, kw = rec['obj'], rec['kw']
        sep = kw.get('sep', '')
        sep = ' ' if sep is None else sep
        end = kw.get('end', '\n')
        end = '\n' if end is None else end
        if not rec['timed']:
            times = [None]
        else:
            s = segs[rec['seg']:rec['seg1'] + 1]
            spans = [[a, b] for a, b in s]
            spans[0][0] = rec['t']
            spans[-1][1] = rec['t1']
            ints = sorted({v for a, b in spans for v in range(a // 10**9, b // 10**9 + 1)})
            times = [time.strftime(kw.get('time_fmt', FMT[0]), time.localtime(v)) for v in ints]
        out = []
        for n, t in itertools.product(o.names[rec['nm']:rec['nm1']], times):
            p = (f'[{n}]' if kw.get('named', True) else '') + ('' if t is None else f'[{t}]')
            out.append(sep.join(([p, ' '] if p else []) + rec['text']) + end)
        return out, o.verb[rec['vb']:rec['vb1']]

    def body(c, cl):
        me = threading.get_ident()
        with ctx.quiet():
            objs = [Obj(*x) for x in zip(cl['cls'], cl['n'], cl['v'])] + [common]

        def begin(ob, texts, kw, j):
            rec = {'obj': ob, 'text': texts, 'kw': kw, 'timed': kw.get('timed', False), 'c': c, 'j': j, 'nm': len(ob.names) - 1, 'vb': ob.stable if ob.pending else len(ob.verb) - 1, 'seg': len(segs) - 1, 't': shim.clock_now(), 'wh': len(which) - 1, 'bad': False}
            calls.append(rec)
            now[me] = rec
            return rec

        def finish(rec, out, what):
            now.pop(me, None)
            ob = rec['obj']
            rec.update(nm1=len(ob.names), vb1=len(ob.verb), seg1=len(segs) - 1, t1=shim.clock_now(), wh1=len(which))
            full, verb = cands(rec)
            got = {s.name: ''.join(p for r, p in s.pieces if r is rec) for s in streams}
            got = {k: v for k, v in got.items() if v}
            ctx.check(len(got) <= 1, 'scattered', f'{what}: wrote to both streams: {got!r}')
            text = ''.join(got.values())
            for s in got:
                ctx.check(s in [streams[w].name for w in which[rec['wh']:rec['wh1']]], 'wrong-stream', f'{what}: wrote to stream {s}')
            if out.ok:
                ctx.check(not rec.get('broke'), 'error-lost', f'{what}: the stream failed and the call returned')
                ctx.check(not rec['bad'] or False in verb, 'error-lost', f'{what}: an argument has no text and the call returned')
                ctx.check(text in full and True in verb or text == '' and False in verb, 'line-differs',
                          f'{what}: wrote {text!r}, expected {full[:3]!r}' + ('' if True in verb else ' but nothing as it is not verbose'))
                if text and rec['kw'].get('flush', True):
                    ctx.check(rec.get('flushed') is not None, 'not-flushed', f'{what}: no flush after the line')
            else:
                ctx.check(out.injected or rec.get('broke') or rec['bad'], 'raised', what)
                ctx.check(out.injected or isinstance(out.exc, (Broken, ClosedStream)), 'raised', what)
                ctx.check(True in verb or text == '', 'line-differs', f'{what}: wrote {text!r} though not verbose')
                if not rec['bad']:
                    ctx.check(any(f.startswith(text) for f in full), 'line-differs', f'{what}: wrote {text!r}, expected the beginning of {full[:3]!r}')
            rec['ok'] = out.ok
            rec['got'] = text

        for j, o in enumerate(cl['ops']):
            with ctx.quiet():
                k, ob = o['k'], objs[o['o']]
                what = f'client {c} step {j}: {k}'
                call = None
                if k in ('log', 'chain'):
                    texts, args = [], []
                    for z, a in enumerate(o['a']):
                        s = f'<{c}.{j}.{z}>' if z == 0 else {'e': '', 'n': 'None', 'nl': 'two\nlines'}.get(a, f'é{o["x"]}')
                        texts.append(s)
                        args.append(Text(s) if a == 'p' else Text(s, True) if a == 'bad' and z else None if s == 'None' else o['x'] if a == 'i' and z else s)
                        if a == 'i' and z:
                            texts[-1] = str(o['x'])
                    kw = dict(o['kw'])
                    rec = begin(ob, texts, kw, j)
                    rec['bad'] = any(isinstance(a, Text) and a.bad for a in args)
                    what += f'{tuple(texts)!r} {kw!r} on object {o["o"]}'
                    if k == 'log':
                        call = lambda: ob.o.log(*args, **kw)
                    else:
                        def call():
                            x = ob.o.log(*args, **kw)
                            with ctx.quiet():
                                call.mid = True
                                finish(rec, Done, what)
                                call.rec = begin(ob, [f'<{c}.{j}.second>'], {}, j)
                            return x.log(f'<{c}.{j}.second>')
                        call.mid = False
                elif k in ('on', 'off', 'toggle'):
                    v = {'on': True, 'off': False, 'toggle': not ob.verb[-1]}[k]
                    if not ob.pending:
                        ob.stable = len(ob.verb) - 1
                    ob.pending += 1
                    ob.verb.append(v)      # may show from now on; the old one no longer when the call is over

                    def call():
                        if k == 'on':
                            return ob.o.verbose_on()
                        if k == 'off':
                            return ob.o.verbose_off()
                        ob.o.verbose = v
                elif k == 'rename':
                    if o['o'] != 3:
                        n = f'n{o["x"]}' + ['', '%H', '{}', ' ', '%'][o['x'] % 5]
                        ob.names.append(n)
                        ob.o.name = n
                elif k == 'new':
                    if o['o'] != 3:
                        objs[o['o']] = Obj(['log', 'sub'][o['x'] % 2], None if o['x'] % 3 else f'new{o["x"]}', [None, True, False][o['x'] % 7 % 3])
                elif k in ('jump', 'tick'):
                    t = shim.clock_now()
                    segs[-1][1] = t
                    t = (sc['t0'] + (o['x'] * 86399 if k == 'jump' else 59)) * 10**9 + o['x'] if o['x'] % 3 else max(0, t - o['x'] * 10**9 * 3600)
                    shim.clock_set(t)
                    segs.append([t, None])
                    ctx.fault('clock-jump')
                elif k == 'swap':
                    w = 1 - which[-1]
                    which.append(w)
                    sys.stdout = streams[w]
                elif k == 'break':
                    s = streams[which[-1]]
                    s.fail = ['fail', 'half', 'flush', 'closed'][o['x'] % 4]
                    s.closed = s.fail == 'closed'
                ver = len(ob.verb)
            if call is None:
                with ctx.quiet():
                    ctx.event(c, j, k)
                ctx.pause()
                continue
            out = ctx.call(f'{c}.{j}', call)
            with ctx.quiet():
                what += f': {out!r}'
                ctx.event(c, j, k, out.kind)
                ctx.state((k, ob.verb[-1], sorted(o.get('kw', {})), sc['tz'][:3], out.kind))
                if k in ('on', 'off', 'toggle'):
                    # only the newest setting counts unless another client set it meanwhile
                    if out.ok:
                        pend = ob.verb[ver - 1:] + ([] if ob.pending == 1 else ob.verb[ob.stable:])
                        ctx.check(ob.o.verbose in pend, 'verbose-differs', f'{what}: verbose is {ob.o.verbose!r}')
                    else:
                        ctx.check(out.injected, 'raised', what)
                    ob.verb.append(bool(ob.o.verbose))
                    ob.pending -= 1
                elif k == 'log':
                    finish(rec, out, what)
                    if out.ok:
                        ctx.check(out.value is ob.o, 'not-chained', f'{what}: returned {type(out.value)}')
                else:
                    if call.mid:
                        finish(call.rec, out, what + ', second line')
                        if out.ok:
                            ctx.check(out.value is ob.o, 'not-chained', f'{what}: returned {type(out.value)}')
                    else:
                        finish(rec, out, what)
            ctx.pause()

    class Done:
        ok, injected, exc = True, None, None
    ctx.run_clients([lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])], faults=sc['faults'])
    ctx.sim_seconds += sum((b if b is not None else shim.clock_now()) - a for a, b in segs) / 1e9
    # complete lines: no other call's text inside the line of a completed one
    for s in streams:
        pieces = [(r, p) for r, p in s.pieces if p]
        for r in calls:
            if r.get('ok') and r['got']:
                at = [q for q, (x, _) in enumerate(pieces) if x is r]
                if at:
                    mixed = [x for x in range(at[0], at[-1] + 1) if x not in at]
                    ctx.check(not mixed, 'lines-mixed', lambda: f'line {r["got"]!r} of client {r["c"]} is interrupted by {pieces[mixed[0]][1]!r}')
