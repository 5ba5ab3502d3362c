"""Values and trees for HDF5 workloads: JSON descriptors, builders, comparison."""
import io, os
import numpy as np

DT = ['?', '<i1', '<u1', '<i2', '<u2', '<i4', '<u4', '<i8', '<u8', '<f2', '<f4', '<f8', '<c8', '<c16',
      '>i2', '>i8', '>f4', '>f8', 'S1', 'S7', 'rec']
REC = np.dtype([('id', '<i8'), ('pos', '<f4', (3,)), ('tag', 'S4')])
NAMES = ['a', 'b', 'c', 'x', 'pos', 'vel', 'id', 'n_particles', 'Snapshots', '099', 'data', 'attrs', 'keys', 'file',
         'été', 'lg m', 'a.b', '_p', 'Z' * 40, 'datasets', 'raw', '銀河', '-1', 'B', 'A',
         ' in', 'out ', 'e\u0301te\u0301', 'x[0]', 'n_*', '%s', 'a\\b', '"q"', '{}', '\tt\u00a0']
TEXT = ['', 'x', 'hello world', 'naïve – ünïcödé', '星系\n第二行', 'tab\tend', 'q' * 300, "it's \"quoted\"", ' lead']
BYTES = ['78', '616263', 'ff01fe', '0a0d', '61' * 90]


def dtype(d):
    return REC if d == 'rec' else np.dtype(d)


def gen_value(rng, big=0.04):
    r = rng.random()
    if r < 0.62:
        d = rng.choice(DT)
        q = rng.random()
        if q < 0.10:
            shape = []
        elif q < 0.20:
            shape = [0] if rng.random() < .6 else [rng.randrange(0, 3), 0, 2]
        elif q < 0.55:
            shape = [rng.randrange(1, 9)]
        elif q < 0.80:
            shape = [rng.randrange(1, 5), rng.randrange(1, 5)]
        elif q < 1 - big:
            shape = [rng.randrange(1, 4) for _ in range(rng.randrange(3, 5))]
        else:
            z = rng.random()
            if z < .6:
                shape = [rng.randrange(3000, 24000)]
            elif z < .9:
                shape = [rng.randrange(1000, 9000), rng.randrange(1, 9)]
            else:       # up to some MB
                shape = [rng.randrange(60000, 250000)] if rng.random() < .4 else [rng.randrange(10000, 60000), rng.randrange(2, 5)]
        return {'t': 'arr', 'd': d, 's': shape, 'v': rng.randrange(1 << 30), 'lay': rng.choice('CCCFTVR')}
    if r < 0.70:
        return {'t': 'py', 'k': rng.choice(['int', 'float', 'bool', 'complex', 'negint', 'nan', 'inf']), 'v': rng.randrange(1 << 30)}
    if r < 0.78:
        return {'t': 'np', 'd': rng.choice(DT[:14]), 'v': rng.randrange(1 << 30)}
    if r < 0.91:
        return {'t': 'str', 'v': rng.randrange(len(TEXT)), 'n': rng.randrange(1000)}
    return {'t': 'bytes', 'v': rng.randrange(len(BYTES))}


def fill(d, shape, seed):
    g = np.random.Generator(np.random.PCG64(seed))
    dt = dtype(d)
    n = int(np.prod(shape, dtype=np.int64))
    if dt is REC:
        a = np.zeros(n, dtype=REC)
        a['id'] = g.integers(-2**62, 2**62, n)
        a['pos'] = g.standard_normal((n, 3))
        a['tag'] = g.integers(97, 122, (n, 4)).astype('u1').tobytes() and np.frombuffer(
            g.integers(97, 122, n * 4).astype('u1').tobytes(), 'S4') if n else np.zeros(0, 'S4')
    elif dt.kind == 'b':
        a = g.integers(0, 2, n).astype(bool)
    elif dt.kind in 'iu':
        ii = np.iinfo(dt)
        a = g.integers(ii.min, ii.max, n, dtype=dt.newbyteorder('='), endpoint=True).astype(dt)
    elif dt.kind == 'f':
        a = (g.standard_normal(n) * 10.0 ** g.integers(-3, 4, n)).astype(dt)
        if n > 3:
            a[0], a[1], a[2] = np.nan, -0.0, np.inf
    elif dt.kind == 'c':
        a = (g.standard_normal(n) + 1j * g.standard_normal(n)).astype(dt)
    else:
        w = dt.itemsize
        a = np.frombuffer(g.integers(97, 122, n * w).astype('u1').tobytes(), dt) if n else np.zeros(0, dt)
    return np.ascontiguousarray(a, dtype=dt).reshape(shape)


def build(v):
    """The Python value handed to the library."""
    t = v['t']
    if t == 'arr':
        a = fill(v['d'], v['s'], v['v'])
        lay = v.get('lay', 'C')
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'T' and a.ndim >= 2:
            a = np.ascontiguousarray(a.T).T
        elif lay == 'V' and a.ndim >= 1:
            b = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
            b[::2] = a
            a = b[::2]
        elif lay == 'R':
            a = a.copy()
            a.flags.writeable = False
        return a
    if t == 'np':
        return fill(v['d'], (), v['v'])[()]
    if t == 'py':
        k, x = v['k'], v['v']
        return {'int': x, 'negint': -x - 1, 'float': x / 7.0, 'bool': bool(x & 1), 'complex': complex(x, -1.5),
                'nan': float('nan'), 'inf': float('-inf')}[k]
    if t == 'str':
        return TEXT[v['v']] + (str(v['n']) if v['v'] else '')
    if t == 'bytes':
        return bytes.fromhex(BYTES[v['v']])
    raise ValueError(t)


def expect(x):
    """What reading the stored value must give: bytes for text, else an array."""
    if isinstance(x, str):
        return x.encode()
    if isinstance(x, bytes):
        return bytes(x)
    return np.array(x)


def same(got, want):
    """None if equal, else a description of the difference."""
    if isinstance(want, bytes):
        if isinstance(got, np.ndarray) and got.ndim == 0:
            got = got[()]
        if not isinstance(got, bytes):
            return f'expected bytes, got {type(got).__name__} {got!r:.80}'
        return None if bytes(got) == want else f'bytes differ: {got!r:.80} != {want!r:.80}'
    if isinstance(got, (dict,)) or hasattr(got, 'keys'):
        return f'expected data, got a mapping'
    if not isinstance(got, (np.ndarray, np.generic)):
        return f'expected array or numpy scalar, got {type(got).__name__}'
    g = np.asarray(got)
    if want.ndim == 0 and want.dtype.names is None:      # a numpy scalar has native byte order
        want = want.astype(want.dtype.newbyteorder('='))
        g = g.astype(g.dtype.newbyteorder('=')) if g.ndim == 0 else g
    if g.dtype != want.dtype:
        return f'dtype {g.dtype} != {want.dtype}'
    if g.shape != want.shape:
        return f'shape {g.shape} != {want.shape}'
    if not eqbits(g, want):
        return f'values differ: {str(g)[:120]} != {str(want)[:120]}'
    return None


def eqbits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes():
        return True
    if a.dtype.kind in 'fc':        # the same numbers; any NaN is as good as another
        if not np.array_equal(a, b, equal_nan=True):
            return False
        return all(bool(np.all((np.signbit(x) == np.signbit(y)) | np.isnan(x)))
                   for x, y in ([(a, b)] if a.dtype.kind == 'f' else [(a.real, b.real), (a.imag, b.imag)]))
    return False


def same_tree(got, want, path=''):
    """Compare a loaded mapping with a model tree (dict leaves = expect())."""
    if not hasattr(got, 'keys'):
        return f'{path or "/"}: expected a mapping, got {type(got).__name__}'
    gk, wk = list(got.keys()), set(want)
    if len(gk) != len(set(gk)) or set(gk) != wk:
        return f'{path or "/"}: keys {sorted(gk)} != {sorted(wk)}'
    for k in sorted(wk):
        v = want[k]
        g = got[k] if '/' not in k else None
        d = same_tree(g, v, f'{path}/{k}') if isinstance(v, dict) else same(g, v)
        if d:
            return d if isinstance(v, dict) else f'{path}/{k}: {d}'
    return None


def gen_tree(rng, depth=3, width=4, big=0.04):
    out = {}
    for k in rng.sample(NAMES, rng.randrange(0 if depth < 3 else 1, width + 1)):
        if depth > 0 and rng.random() < (0.3 if depth < 3 else 0.45):
            out[k] = {'t': 'grp', 'c': gen_tree(rng, depth - 1, width, big)}
        else:
            out[k] = gen_value(rng, big)
    return out


def build_tree(tr, wrap=dict):
    return wrap({k: build_tree(v['c'], wrap) if v['t'] == 'grp' else build(v) for k, v in tr.items()})


def expect_tree(tr):
    return {k: expect_tree(v['c']) if v['t'] == 'grp' else expect(build(v)) for k, v in tr.items()}


def copy_tree(t):
    return {k: copy_tree(v) if isinstance(v, dict) else (v if isinstance(v, bytes) else v.copy()) for k, v in t.items()}


def digest(v):
    import hashlib
    if hasattr(v, 'keys'):
        return 'M' + hashlib.md5(repr([(k, digest(v[k])) for k in sorted(v.keys())]).encode()).hexdigest()[:10]
    if isinstance(v, (bytes, str)):
        return 'B' + hashlib.md5(v if isinstance(v, bytes) else v.encode()).hexdigest()[:10]
    a = np.asarray(v)
    return f'{a.dtype}{a.shape}' + hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest()[:10]


def raw_read(path):
    """Independent reader (plain h5py) used as oracle: the whole file as a model tree."""
    import h5py

    def rd(g):
        out = {}
        for k in g.keys():
            o = g[k]
            if isinstance(o, h5py.Group):
                out[k] = rd(o)
            else:
                v = o[()]
                out[k] = v if isinstance(v, bytes) else np.asarray(v)
        return out
    with h5py.File(path, 'r') as f:
        return rd(f)


def obj_count():
    import h5py
    f = h5py.h5f      # transient datatypes are not counted
    return f.get_obj_count(f.OBJ_ALL, f.OBJ_FILE | f.OBJ_DATASET | f.OBJ_GROUP | f.OBJ_ATTR)


def raw(x):
    """the h5py object behind one of the library's"""
    r = getattr(x, '_raw', x)
    if r is x and not type(x).__module__.startswith('h5py'):
        for v in vars(x).values():
            if type(v).__module__.startswith('h5py'):
                return v
    return r
