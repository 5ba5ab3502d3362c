"""Build and drive libsimio.so, the seam between the process and the kernel's
file and clock interface (see simio.c).  Disabled unless a run enables it."""
import ctypes, hashlib, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), 'build')
OPS = ('OPEN', 'READ', 'WRITE', 'TRUNC', 'SYNC', 'CLOSE', 'RENAME', 'UNLINK')
OP = {n: i for i, n in enumerate(OPS)}
ERR, SHORT, KILL = 1, 2, 3


def build():
    src = os.path.join(HERE, 'simio.c')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, f'libsimio-{h}.so')
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=BUILD, suffix='.so')
        os.close(fd)
        subprocess.run(['gcc', '-O2', '-w', '-shared', '-fPIC', '-o', tmp, src, '-ldl', '-lpthread'], check=True)
        os.replace(tmp, out)
    return out


class Rec(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int32) for n in ('op', 'file', 'action', 'err')] + \
               [(n, ctypes.c_int64) for n in ('off', 'len', 'ret', 'data')] + \
               [('flags', ctypes.c_int32), ('file2', ctypes.c_int32)]


class Shim:
    def __init__(self):
        L = ctypes.CDLL(None)
        try:
            L.sim_enable
        except AttributeError:
            raise RuntimeError('libsimio.so is not preloaded')
        i64, i32 = ctypes.c_int64, ctypes.c_int
        L.sim_enable.argtypes = [ctypes.c_char_p, i32]
        L.sim_rule.argtypes = [i32, i64, i64, i32, i64]
        L.sim_capacity.argtypes = [i64]
        L.sim_clock.argtypes = [i32, i64, i64]
        L.sim_clock_set.argtypes = [i64]
        for n in ('sim_enospc', 'sim_rule_fired', 'sim_count', 'sim_nlog', 'sim_clock_now', 'sim_clock_reads'):
            getattr(L, n).restype = i64
        L.sim_log.restype = ctypes.POINTER(Rec)
        L.sim_arena.restype = ctypes.c_void_p
        L.sim_file.restype = ctypes.c_char_p
        self.L = L

    def enable(self, prefix, capture=True):
        self.L.sim_enable(os.fsencode(prefix), 1 if capture else 0)

    def disable(self):
        self.L.sim_disable()

    def nofault(self, x=True):
        self.L.sim_nofault(1 if x else 0)

    def capacity(self, n):
        self.L.sim_capacity(n)

    def enospc(self):
        return self.L.sim_enospc()

    def rule(self, op, nth, count, action, arg):
        return self.L.sim_rule(OP[op], nth, count, action, arg)

    def clear_rules(self):
        self.L.sim_clear_rules()

    def fired(self, i):
        return self.L.sim_rule_fired(i)

    def count(self, op):
        return self.L.sim_count(OP[op])

    def nlog(self):
        return self.L.sim_nlog()

    def open_fds(self):
        return self.L.sim_open_fds()

    def clock(self, now_ns, tick_ns=0):
        self.L.sim_clock(1, now_ns, tick_ns)

    def clock_off(self):
        self.L.sim_clock(0, 0, 0)

    def clock_set(self, now_ns):
        self.L.sim_clock_set(now_ns)

    def clock_now(self):
        return self.L.sim_clock_now()

    def log(self, start=0):
        n, p = self.L.sim_nlog(), self.L.sim_log()
        files = [os.fsdecode(self.L.sim_file(i)) for i in range(self.L.sim_nfiles())]
        arena = self.L.sim_arena()
        out = []
        for i in range(start, n):
            r = p[i]
            data = ctypes.string_at(arena + r.data, r.ret) if r.data >= 0 and r.ret > 0 else None
            out.append(dict(op=OPS[r.op], file=files[r.file] if r.file >= 0 else None, action=r.action, err=r.err,
                            off=r.off, len=r.len, ret=r.ret, data=data, flags=r.flags,
                            file2=files[r.file2] if r.file2 >= 0 else None))
        return out


def replay_images(log, upto=None, torn=None, base=None):
    """Disk contents {path: bytes} after the first `upto` logged operations --
    what survives if the process dies there.  `torn`=(index, nbytes): that write
    reached the disk only in part."""
    img = {k: bytearray(v) for k, v in (base or {}).items()}
    for i, r in enumerate(log[:upto]):
        f, op = r['file'], r['op']
        if op == 'OPEN' and r['ret'] == 0:
            if r['flags'] & os.O_TRUNC or f not in img:
                if r['flags'] & (os.O_CREAT | os.O_TRUNC) or f in img:
                    img[f] = bytearray()
        elif op == 'WRITE' and r['ret'] > 0:
            d = r['data']
            if torn and torn[0] == i:
                d = d[:torn[1]]
            b = img.setdefault(f, bytearray())
            if len(b) < r['off']:
                b.extend(b'\0' * (r['off'] - len(b)))
            b[r['off']:r['off'] + len(d)] = d
        elif op == 'TRUNC' and r['ret'] == 0:
            b = img.setdefault(f, bytearray())
            if len(b) > r['off']:
                del b[r['off']:]
            else:
                b.extend(b'\0' * (r['off'] - len(b)))
        elif op == 'RENAME' and r['ret'] == 0:
            img[r['file2']] = img.pop(f, bytearray())
        elif op == 'UNLINK' and r['ret'] == 0:
            img.pop(f, None)
    return {k: bytes(v) for k, v in img.items()}
