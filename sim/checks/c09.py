"""C09  Layered YAML configuration is read consistently.

Reader clients share configuration files and parsers; writer clients atomically
replace the files (also by unparsable ones, or remove them) at any moment, reads
hit disk errors and interruptions.  The generated documents themselves say what
each call may return."""
import errno, gc, json, math, os
import yaml

PROP = 'C09'
RUNS = {'quick': 1500, 'thorough': 50000}
RULE = ('one run = 1-3 reader clients executing 2-8 reads through shared parsers of 1-2 files while up to 2 writers replace the '
        'files 0-8 times, under a schedule with points at every library line and before every block the YAML reader fetches; '
        'non-trivial = client switch or fault fired')
STATE = 'distinct (nesting, defined keys per level, outcome, versions spanned)'
REAL = ['pyhipp.io.yaml', 'pyhipp.core.DataDict', 'PyYAML', 'Python file objects', 'kernel file system (scratch directory)']
STUB = ['thread choice and interruption points (simulated scheduler)', 'open/read errors and short reads (libc shim)', 'the processes that rewrite the file']
ASSUME = ['writers replace the file atomically (rename)', 'requested keys contain no "/"', 'inner nodes are mappings']
NODES = ['run', 'default', 'TNG', 'z0', 'sub sample', 'L205', 'x']
KEYS = ['n', 'h', 'box', 'path', 'flags', 'été', 'opt', 'x', 'seed']
VALS = [0, 1, -7, 2.5, 1e-30, True, False, None, 'text', 'a: b', '12', 'null', '', 'né', [1, 2, [3]], [], {'q': 1, 'r': {'s': [1.5]}}, {},
        'line\nbreak', 12345678901234567890, '0x1f', 'yes', '2020-01-01', '# no comment', '$HOME', '${PATH}/x', '~/data', '%(n)s {n}', '@x', '*x', '&a b', ' lead', 'trail ', '1_000', '1:30', '.5', '- x', float('inf'), [{}, None], {'n': {'n': 1}}, {'q': None}]


def warmup(tmp):
    from pyhipp.io.yaml import ConfigFileParser
    p = os.path.join(tmp, 'w.yaml')
    with open(p, 'w') as f:
        f.write('a: 1\n')
    ConfigFileParser(p, [], []).get(['a'])


def gen_doc(rng, path, v):
    """a document whose nodes along `path` exist (mostly) and define random keys"""
    def level(depth):
        d = {}
        for k in rng.sample(KEYS, rng.randrange(0, 6)):
            d[k] = rng.choice(VALS) if rng.random() < .6 else f'v{v}.{depth}.{k}'
        d['tag'] = f'v{v}@{depth}'
        if depth < len(path):
            sub = level(depth + 1)
            if rng.random() < .97:
                d[path[depth]] = sub
            elif rng.random() < .3:
                d[path[depth]] = rng.choice([None, 5, 'text'])
        if rng.random() < .3:
            d[rng.choice(NODES) + '_'] = {'n': 'decoy', 'tag': 'decoy'}
        if rng.random() < .3:
            items = list(d.items())
            rng.shuffle(items)
            d = dict(items)
        return d
    return level(0)


def gen(rng, tier, i):
    files = []
    for f in range(rng.choice([1, 1, 2])):
        path = [rng.choice(NODES) for _ in range(rng.randrange(0, 6))]
        vs, big = [], rng.choice([70000, 70001]) if rng.random() < .035 else 0
        for v in range(rng.choice([1, 2, 3, 5, 8])):
            r = rng.random()
            vs.append({'bad': rng.choice(['a: [1', '\ta: 1', 'a: b: c', '- 1\nb: 2', 'x: !!python/nope 1', ''])} if r < .06 and v else
                      {'gone': 1} if r < .1 and v else
                      {'doc': gen_doc(rng, path, v), 'tail': rng.choice(['---\nn: 1\n', '---\n', '--- [\n', '...\n---\ntag: 3\n', '\tn: 1\n', 'n: [1\n']) if rng.random() < .04 and v else '', 'flow': rng.random() < .3, 'pad': rng.choice([0, 0, 0, 300]), 'big': big})
        files.append({'path': path, 'vs': vs})
    parsers = []
    for p in range(rng.choice([1, 2, 3])):
        f = rng.randrange(len(files))
        path = files[f]['path']
        a = rng.randrange(0, len(path) + 1)
        b = rng.randrange(a, len(path) + 1)
        init, nest = path[:a], path[a:b]
        if rng.random() < .06:
            nest = nest + ['absent']
        if rng.random() < .04:
            init = init + ['absent']
        parsers.append({'f': f, 'init': init, 'nest': nest, 'verbose': rng.random() < .2, 'tup': rng.random() < .3})
    nc = rng.choice([1, 1, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        for j in range(rng.randrange(2, 9)):
            keys = rng.sample(KEYS, rng.randrange(0, 4))
            if rng.random() < .7:
                keys = ['tag'] + keys
            ops.append({'p': rng.randrange(len(parsers)), 'keys': keys, 'spoil': rng.random() < .3, 'like': rng.random() < .7, 'w': rng.randrange(3) if nc == 1 else 0})
            if rng.random() < .06:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 40), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'ops': ops})
    io = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        s = rng.choice(['OPEN', 'READ', 'READ'])
        io.append({'sys': s, 'nth': rng.randrange(8 if s == 'OPEN' else 20), 'n': rng.choice([1, 1, 2]),
                   'act': 'err' if s == 'OPEN' else rng.choice(['err', 'short', 'short']), 'e': rng.choice([5, 5, 24, 13]), 'max': rng.choice([1, 7, 60])})
    return {'files': files, 'parsers': parsers, 'clients': clients, 'faults': faults, 'io': io,
            'plan': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.005, .02, .1, .3])}}


SHRINK = ('io', 'vs')


def want(doc, init, nest, keys):
    """(values, None) or (None, 'key') or (values or None, 'shape')"""
    for k in init:
        if not isinstance(doc, dict):
            return None, 'shape' if isinstance(doc, str) else 'null'
        if k not in doc:
            return None, 'key'
        doc = doc[k]
    levels = [doc]
    for k in nest:
        if not isinstance(doc, dict):
            return None, 'shape' if isinstance(doc, str) else 'null'
        if k not in doc:
            return None, 'key'
        doc = doc[k]
        levels.append(doc)
    if not isinstance(doc, dict):
        return None, 'shape' if isinstance(doc, str) or not keys else 'null'
    out = {}
    for k in keys:
        for x in reversed(levels):
            if k in x:
                out[k] = x[k]
                break
        else:
            return None, 'key'
    return out, None


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(eq, a, b))
    return a == b


class Doc:
    def __init__(self, path, spec):
        self.path, self.vs, self.v = path, spec['vs'], -1

    def advance(self):
        if self.v + 1 >= len(self.vs):
            return
        self.v += 1
        v = self.vs[self.v]
        if 'gone' in v:
            if os.path.exists(self.path):
                os.unlink(self.path)
            return
        text = v['bad'] if 'bad' in v else yaml.safe_dump(
            v['doc'], allow_unicode=True, sort_keys=False, default_flow_style=v['flow']) + '# pad\n' * v['pad'] * 10 + v.get('tail', '')
        if v.get('big'):
            pad = '# ' + 'x' * v['big'] + '\n'
            text = pad + text if v['big'] & 1 else text + '\n' * v['flow'] + pad
        with open(self.path + '.new', 'w') as f:
            f.write(text)
        os.rename(self.path + '.new', self.path)


def run(sc, ctx):
    from pyhipp.io.yaml import ConfigFileParser
    from pyhipp.core import DataDict
    sh = ctx.shim
    sh.enable(ctx.scratch, False)
    docs = [Doc(os.path.join(ctx.scratch, f'conf{k}.yaml'), s) for k, s in enumerate(sc['files'])]
    if not all(d.vs for d in docs):
        return
    sh.nofault()
    for d in docs:
        d.advance()
    sh.nofault(False)
    ps = []
    for p in sc['parsers']:
        levels = [(tuple if p['tup'] else list)(p[z]) for z in ('init', 'nest')]
        ps.append(ConfigFileParser(docs[p['f']].path, *levels, verbose=p['verbose']))
        if not p['tup']:            # the caller reuses its lists
            for z in levels:
                z.append('no such node')
    base = {s: sh.count(s) for s in ('OPEN', 'READ')}
    rules = [sh.rule(f['sys'], base[f['sys']] + f['nth'], f['n'], 2 if f['act'] == 'short' else 1, f['max'] if f['act'] == 'short' else f['e'])
             for f in sc['io']]

    def fired():
        return sum(sh.fired(r) for f, r in zip(sc['io'], rules) if f['act'] == 'err')
    single = len(sc['clients']) == 1

    def replace(d):
        with ctx.quiet():
            sh.nofault()
            d.advance()
            sh.nofault(False)

    def writer(d):
        while d.v + 1 < len(d.vs):
            ctx.pause()
            replace(d)

    def body(c, cl):
        for j, o in enumerate(cl['ops']):
            ip = o['p'] % len(ps)
            spec, p = sc['parsers'][ip], ps[ip]
            d = docs[spec['f']]
            keys = list(o['keys']) if o['like'] else tuple(o['keys'])
            keys0 = list(keys)
            v0, n0 = d.v, fired()
            if single:
                ctx.held = sh.open_fds
            out = ctx.call(f'{c}.{j}', p.get, keys)
            ctx.held = None
            with ctx.quiet():
                hit = fired() > n0
                span = range(v0, d.v + 1)
                what = f'client {c} read {j}: keys {keys0} below {spec["init"]} / {spec["nest"]}, version {v0}' + (f'..{d.v}' if d.v > v0 else '')
                ctx.check(list(keys) == keys0, 'request-changed', f'{what}: the list of keys became {list(keys)}')
                cand = []
                for v in span:
                    x = d.vs[v]
                    if 'gone' in x:
                        cand.append((None, 'gone'))
                    elif x.get('bad') == '':
                        cand.append(want(None, spec['init'], spec['nest'], keys0))
                    elif 'bad' in x or x.get('tail'):
                        cand.append((None, 'bad'))
                    else:
                        cand.append(want(x['doc'], spec['init'], spec['nest'], keys0))
                ctx.event(c, j, out.kind, d.v - v0)
                ctx.state((len(spec['init']), len(spec['nest']), sorted(keys0), out.kind, len(cand)))
                for _, why in cand:
                    if why:
                        ctx.probe(f'version with {why} problem read')
                if out.ok:
                    ctx.check(isinstance(out.value, DataDict), 'wrong-type', f'{what}: {type(out.value)}')
                    got = dict(out.value.get_dict())
                    if single:
                        ctx.check(not hit, 'error-ignored', f'{what}: the disk failed but the call returned {got}')
                    ctx.check(any(w == 'shape' or w is None and eq(got, x) for x, w in cand), 'config-differs',
                              f'{what}: got {got!r}, possible were {cand!r}')
                    if o['spoil']:
                        for k, v in got.items():
                            if isinstance(v, list):
                                v.append('spoiled')
                            elif isinstance(v, dict):
                                v['spoiled'] = 1
                        out.value['spoiled'] = 1
                else:
                    ok = out.injected or hit
                    for x, w in cand:
                        ok = ok or w in ('shape', 'bad', 'null') or w == 'key' and isinstance(out.exc, KeyError) or w == 'gone' and isinstance(out.exc, FileNotFoundError)
                    ctx.check(ok, 'call-failed', f'{what}: {out!r}, possible were {cand!r:.300}')
                held = out.held and not out.injected and out.kind
                out = None
            if single:
                ctx.check(not held, 'not-closed', f'{what}: file still open when {held} was raised')
                gc.collect()
                ctx.check(sh.open_fds() == 0, 'not-closed', f'{what}: file still open')
                for _ in range(o['w']):
                    replace(d)
            ctx.pause()

    fns = [lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])]
    if not single:
        fns += [lambda d=d: writer(d) for d in docs]
    real = yaml.reader.Reader.update_raw

    def update_raw(self, *a, **kw):       # a scheduling point before every block read
        ctx.pause()
        return real(self, *a, **kw)
    yaml.reader.Reader.update_raw = update_raw
    ctx.run_clients(fns, faults=sc['faults'])
    for f, r in zip(sc['io'], rules):
        ctx.fault(f'{f["act"]}-{f["sys"].lower()}', sh.fired(r))
    ctx.fault('configuration replaced', sum(d.v for d in docs))
    gc.collect()
    ctx.check(sh.open_fds() == 0, 'not-closed', 'files open at the end')
