"""C08  Fortran sequential sections are returned exactly or rejected.

Readers (each with its own file, or several on one file) load, skip and rewind over
sections whose file was cut, damaged, is still being written by another client, or sits on
a disk that returns errors and short reads; a table of the bytes on disk decides
what every call must return."""
import errno, gc, os, struct
import numpy as np

PROP = 'C08'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = 1-3 readers executing 3-20 load/skip/seek calls over a file of 1-8 sections, optionally truncated, with damaged '
        'markers or growing under a concurrent writer, under a line-level schedule with read faults and interruptions; '
        'non-trivial = client switch, damage met, or fault fired')
STATE = 'distinct (call, section type, damage, outcome)'
REAL = ['pyhipp.io.binary', 'numpy.fromfile', 'Python file objects', 'kernel file system (scratch directory)']
STUB = ['thread choice and interruption points (simulated scheduler)', 'read errors and short reads (libc shim)', 'the writing Fortran program']
ASSUME = ['section markers are native 4-byte integers, as in the library']
DT = ['i4', 'i8', 'f4', 'f8', '>f4', '>i2', 'u1', 'S5', 'c16', 'u8', 'rec', 'sub']
RAISE = [EOFError, ValueError, AssertionError, OSError, KeyError, RuntimeError, StopIteration, IndexError, TypeError, MemoryError]
REC = [('id', 'i8'), ('x', 'f4', (3,)), ('t', 'S3')]


def dtype_of(d):
    return np.dtype(REC) if d == 'rec' else np.dtype(('f4', (3,))) if d == 'sub' else np.dtype(d)


def warmup(tmp):
    from pyhipp.io import binary
    import pyhipp.io.binary.fortran
    with open(os.path.join(tmp, 'w.bin'), 'wb') as f:
        f.write(struct.pack('iii', 4, 7, 4))
    from pyhipp.io.binary.fortran import BinaryFile
    with BinaryFile(os.path.join(tmp, 'w.bin')) as f:
        f.load_sect(np.int32)


def gen(rng, tier, i):
    nf = rng.choice([1, 1, 2])
    files = []
    for f in range(nf):
        secs = [{'d': rng.choice(DT), 'n': rng.choice([None, 0, 1, 2, 3, 7, 50, rng.randrange(400)]), 'v': rng.randrange(1 << 30),
                 'echo': rng.random() < .45} for _ in range(rng.randrange(1, 9))]
        if rng.random() < .02:
            s = rng.choice(secs)
            s['d'], s['n'] = rng.choice(['i4', 'f8', '>i2', 'u1']), rng.choice([100001, 150000, 250000])
        dmg = []
        if rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2])):
                dmg.append({'s': rng.randrange(len(secs)), 'w': rng.choice(['lead', 'tail', 'both', 'both']),
                            'by': rng.choice([1, -1, 4, -4, 8, 1 << 20, -1000000])})
        files.append({'secs': secs, 'dmg': dmg, 'cut': rng.randrange(1 << 30) if rng.random() < .35 else None,
                      'pre': rng.choice([0, 0, 3, 16]),
                      'grow': [rng.choice([1, 3, 4, 8, 30, 200]) for _ in range(rng.randrange(3, 30))] if rng.random() < .25 else None})
    nc = rng.choice([1, 1, 2, 3])
    clients, faults = [], []
    for c in range(nc):
        ops = []
        fi = rng.randrange(nf)
        for j in range(rng.randrange(3, 21)):
            ops.append({'k': rng.choice(['load'] * 6 + ['skip'] * 4 + ['wrong', 'wrongskip', 'rewind', 'bytes', 'rec', 'reopen', 'raise']),
                        'r': rng.randrange(1 << 20)})
            if rng.random() < .05:
                faults.append({'op': f'{c}.{j}', 'line': rng.randrange(1, 14), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        clients.append({'f': fi, 'ops': ops})
    io = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        io.append({'nth': rng.randrange(60), 'n': rng.choice([1, 1, 2, 10]), 'act': rng.choice(['err', 'err', 'short']),
                   'max': rng.choice([1, 5, 100])})
    plan = {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3, .6])}
    return {'files': files, 'clients': clients, 'faults': faults, 'io': io, 'plan': plan}


SHRINK = ('io', 'secs', 'dmg', 'grow', 'files')


def make(sec):
    dt = dtype_of(sec['d'])
    n = 1 if sec['n'] is None else sec['n']
    size = dt.itemsize * n
    rs = np.random.RandomState(sec['v'] & 0x7fffffff)
    raw = rs.bytes(size)
    if sec['echo']:        # contents that look like the markers
        raw = (struct.pack('i', size) * (size // 4 + 1))[:size]
        if sec['v'] & 1 and size >= 16:
            raw = raw[:4] + struct.pack('ii', 4, 4) + raw[12:]
    return dt, n, size, raw


class Image:
    """the bytes of one file and where its sections lie"""

    def __init__(self, spec):
        self.spec = spec
        out = bytearray(b'\x07' * spec['pre'])
        self.secs = []
        for i, s in enumerate(spec['secs']):
            dt, n, size, raw = make(s)
            lead = tail = size
            for d in spec['dmg']:
                if d['s'] == i:
                    lead += d['by'] if d['w'] in ('lead', 'both') else 0
                    tail += d['by'] if d['w'] in ('tail', 'both') else 0
            self.secs.append(dict(off=len(out), dt=dt, n=s['n'], size=size, raw=raw, good=lead == tail == size))
            out += struct.pack('i', lead) + raw + struct.pack('i', tail)
        self.end = len(out)
        self.full = bytes(out)
        self.present = len(out)
        if spec['cut'] is not None:
            self.present = spec['cut'] % (len(out) + 1)
        self.limit = self.present
        self.growing = bool(spec['grow'])
        if self.growing:
            self.present = min(self.present, spec['pre'])

    def start(self, path):
        self.path = path
        with open(path, 'wb') as f:
            f.write(self.full[:self.present])

    def extend(self, n):
        n = min(n, self.limit - self.present)
        if n > 0:
            with open(self.path, 'ab') as f:
                f.write(self.full[self.present:self.present + n])
            self.present += n


def same(got, sec):
    want = np.frombuffer(sec['raw'], dtype=sec['dt'])
    if sec['n'] is None:
        want = want.reshape((1,) + want.shape[1:])[0] if want.size else want
        if not isinstance(got, (np.generic, np.ndarray)) or isinstance(got, np.ndarray) and got.shape != np.shape(want):
            return f'a scalar of {sec["dt"]} came back as {type(got)} {np.shape(got)}'
    else:
        if not isinstance(got, np.ndarray) or got.shape != want.shape:
            return f'shape {np.shape(got)} != {want.shape}'
    if np.asarray(got).dtype.newbyteorder('=') != want.dtype.newbyteorder('='):
        return f'type {np.asarray(got).dtype} != {want.dtype}'
    if np.asarray(got).astype(want.dtype).tobytes() != np.asarray(want).tobytes():
        return 'elements differ'


def run(sc, ctx):
    from pyhipp.io.binary.fortran import BinaryFile
    sh = ctx.shim
    sh.enable(ctx.scratch, False)
    imgs = [Image(s) for s in sc['files']]
    if not imgs or any(not im.secs for im in imgs):
        return
    sh.nofault()
    for k, im in enumerate(imgs):
        im.start(os.path.join(ctx.scratch, f'd{k}.bin'))
    sh.nofault(False)
    r0 = sh.count('READ')
    rules = [sh.rule('READ', r0 + f['nth'], f['n'], 2 if f['act'] == 'short' else 1, f['max'] if f['act'] == 'short' else errno.EIO)
             for f in sc['io']]

    def fired():
        return sum(sh.fired(r) for f, r in zip(sc['io'], rules) if f['act'] == 'err')

    def writer(im):
        for n in im.spec['grow']:
            with ctx.quiet():
                sh.nofault()
                im.extend(n)
                sh.nofault(False)
            ctx.pause()

    single = len(sc['clients']) == 1 and not any(im.growing for im in imgs)

    def body(c, cl):
        im = imgs[cl['f'] % len(imgs)]
        ops = list(enumerate(cl['ops']))

        raised = []

        def session():
            """one with-block; returns when it asks to be reopened"""
            j0 = ops[0][0]
            f = BinaryFile(im.path)
            early = ops[0][1]['r'] % 3 == 0     # some readers are placed before their block begins
            if early:
                try:
                    f.seek(im.secs[0]['off'])
                except BaseException:
                    f._file.close()
                    raise
            with f as g:
                ctx.check(g is f, 'enter', 'entering the block gave another object')
                pos = 0
                known = early
                while ops:
                    j, o = ops.pop(0)
                    oid = f'{c}.{j}'
                    k, r = o['k'], o['r']
                    if k == 'reopen':
                        return
                    if k == 'raise':
                        e = RAISE[r % len(RAISE)]('raised by the caller inside the block')
                        raised.append(e)
                        raise e
                    # bring the reader to the section at index pos
                    if not known:
                        f.seek(im.secs[pos]['off'] if pos < len(im.secs) else im.end)
                        known = True
                    if k == 'rewind' or pos >= len(im.secs):
                        pos = r % len(im.secs)
                        f.seek(im.secs[pos]['off'])
                        if k == 'rewind':
                            continue
                    s = im.secs[pos]
                    what = f'client {c} step {j}: {k} section {pos} ({s["dt"]}, n={s["n"]}, {s["size"]} bytes)'
                    p0 = im.present
                    n0 = fired()
                    if k == 'bytes':
                        n = r % 60
                        out = ctx.call(oid, f.load_bytes, n)
                        with ctx.quiet():
                            hit = fired() > n0
                            if out.ok:
                                b, off = out.value, s['off']
                                lo, hi = im.full[off:min(off + n, p0)], im.full[off:min(off + n, im.present)]
                                ctx.check(hi.startswith(b) and len(b) >= len(lo), 'bytes-differ',
                                          f'{what}: read {len(b)} bytes, expected {len(lo)}..{len(hi)} (or other contents)', call=k)
                            else:
                                ctx.check(out.injected or hit, 'call-failed', f'{what}: {out!r}', call=k)
                        known = False
                        ctx.event(c, j, k, out.kind)
                        continue
                    if k == 'rec':        # the raw record, markers handled by the caller
                        def fn():
                            f.skip_rec(np.int32)
                            v = f.load_rec(s['dt'], s['n'])
                            f.skip_rec(np.dtype('i4'), 1)
                            return v
                        need, valid = (s['off'] + 4 + s['size'] if s['size'] else 0), True
                    elif k in ('load', 'skip'):
                        fn = lambda: (f.load_sect if k == 'load' else f.skip_sect)(s['dt'], s['n'])
                        need, valid = s['off'] + 8 + s['size'], s['good']
                        if s['dt'].kind in 'ifu' and s['dt'].isnative and r & 1:
                            fn = lambda: (f.load_sect if k == 'load' else f.skip_sect)(s['dt'].type, n=s['n'])
                    else:                 # the section has another size
                        m = (1 if s['n'] is None else s['n'])
                        dt, m = [(s['dt'], m + 1 + r % 3), (np.dtype('i4'), 1 + r % 5), (s['dt'], max(m - 1, 0)), (np.dtype('u1'), 4 + r % 9)][r // 16 % 4]
                        if dt.itemsize * m == s['size'] or s['size'] != struct.unpack('i', im.full[s['off']:s['off'] + 4])[0]:
                            continue
                        fn = lambda: (f.load_sect if k == 'wrong' else f.skip_sect)(dt, m)
                        what += f' as {m} x {dt}'
                        need, valid = 0, False
                    out = ctx.call(oid, fn)
                    with ctx.quiet():
                        hit = fired() > n0
                        ctx.event(c, j, k, pos, out.kind)
                        ctx.state((k, str(s['dt']), valid, im.present >= need, out.kind))
                        if not valid or im.present < need:
                            ctx.nontrivial = True
                        if out.ok:
                            ctx.check(valid, 'not-rejected', f'{what}: returned {np.shape(out.value)} although the markers or sizes disagree', call=k)
                            ctx.check(im.present >= need, 'not-rejected', f'{what}: returned although the file ends at byte {im.present}', call=k)
                            if k in ('load', 'rec'):
                                d = same(out.value, s)
                                ctx.check(not d, 'data-differ', f'{what}: {d}', call=k)
                            at = f._file.tell() if hasattr(f, '_file') else f.seek(0, 1)
                            ctx.check(at == s['off'] + 8 + s['size'], 'position', f'{what}: reader left at byte {at}, section ends at {s["off"] + 8 + s["size"]}', call=k)
                            pos += 1
                        else:
                            ctx.check(not valid or p0 < need or hit or out.injected, 'call-failed', f'{what}: {out!r}', call=k)
                            known = False
                            if r & 2:
                                ops.insert(0, (j + 1000, dict(o, r=r & ~2)))      # try again
                    ctx.pause()

        while ops:
            oid = ops[0][0]
            n0 = fired()
            if single:
                ctx.held = sh.open_fds
            out = ctx.call(f'{c}.s{oid}', session)
            ctx.held = None
            with ctx.quiet():
                e, raised[:] = (raised or [None])[0], []
                ok = out.exc is e if e else out.ok or fired() > n0 and isinstance(out.exc, OSError)
                ctx.check(ok, 'block-failed', f'client {c}: session from step {oid} (the caller raised {e!r}): {out!r}')
                e = None
                ctx.event(c, oid, 'closed', out.kind)
            if single:
                ctx.check(not out.held or out.injected, 'not-closed', f'client {c}: file still open when its block was left by {out.kind}')
                ctx.check(sh.open_fds() == 0, 'not-closed', f'client {c}: file still open after its block ended with {out.kind}')
            if ops and ops[0][0] == oid:
                break

    fns = [lambda c=c, cl=cl: body(c, cl) for c, cl in enumerate(sc['clients'])]
    fns += [lambda im=im: writer(im) for im in imgs if im.growing]
    ctx.run_clients(fns, faults=sc['faults'])
    for f, r in zip(sc['io'], rules):
        ctx.fault(f'{f["act"]}-read', sh.fired(r))
    ctx.fault('file cut', sum(im.spec['cut'] is not None for im in imgs))
    ctx.fault('marker damaged', sum(len(im.spec['dmg']) for im in imgs))
    gc.collect()
    ctx.check(sh.open_fds() == 0, 'not-closed', 'files open at the end')
