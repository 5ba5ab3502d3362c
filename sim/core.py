"""Run context, single-run execution, lanes, shrinking."""
import contextlib, ctypes, gc, hashlib, json, os, random, select, shutil, signal, sys, time, traceback

from . import sched as S
from .shim import Shim

REPO = os.environ.get('SIM_REPO', '/repo')
ROOT = os.path.join(REPO, 'src', 'pyhipp') + os.sep


_libc = ctypes.CDLL(None)


def die_with_parent():
    _libc.prctl(1, int(signal.SIGKILL), 0, 0, 0)


class ViolationFound(BaseException):
    pass


class Outcome:
    __slots__ = ('ok', 'value', 'exc', 'injected', 'lines', 'held')

    def __init__(self, ok, value, exc, injected, lines):
        self.ok, self.value, self.exc, self.injected, self.lines = ok, value, exc, injected, lines
        self.held = None

    @property
    def kind(self):
        return 'ok' if self.ok else type(self.exc).__name__

    def isa(self, *types):
        return (not self.ok) and isinstance(self.exc, types)

    def __repr__(self):
        return 'ok' if self.ok else f'{type(self.exc).__name__}: {str(self.exc)[:200]}'


def strip(e):
    """Forget the frames of a caught exception so that they keep nothing alive."""
    seen, todo = set(), [e]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        e.__traceback__ = None
        todo += [e.__cause__, e.__context__]


def _isolated(fn, a, kw):
    """Run fn in a generator, which has its own 'exception being handled':
    an exception injected just when a handler is entered would otherwise stay
    there, with all its frames, for as long as the thread lives."""
    try:
        r = True, fn(*a, **kw), None
    except (ViolationFound, S.SimAbort):
        raise
    except BaseException as e:
        r = False, None, e
    yield r


class Ctx:
    def __init__(self, sc, scratch, shim):
        self.sc, self.scratch, self.shim = sc, scratch, shim
        self.violations = []
        self.events = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_seconds = 0.0
        self.steps = 0
        self.sched = None
        self.held = None
        self.sigs = hashlib.sha256()
        self.nontrivial = False
        self.switches = []
        self.nswitch = 0
        self.ops = 0

    # -- recording
    def event(self, *a):
        self.events.append(a)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n
            self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, s):
        if len(self.states) < 400:
            self.states.add(hashlib.blake2b(repr(s).encode(), digest_size=8).hexdigest())

    def violate(self, kind, msg, **key):
        self.violations.append({'kind': kind, 'msg': str(msg)[:1500], 'key': key})
        raise ViolationFound(kind)

    def check(self, cond, kind, msg, **key):
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg, **key)

    # -- calls into the code under test
    def call(self, op, fn, *a, **kw):
        sc = self.sched
        if sc is not None:
            sc.begin_op(op)
        self.ops += 1
        lines, inj = 0, None
        g = _isolated(fn, a, kw)
        try:
            ok, v, exc = next(g)
        finally:
            if sc is not None:
                lines, inj = sc.end_op()
            g.close()
        held = None
        if exc is not None:
            if self.held is not None:       # what is still in use while the caller handles the exception
                held = self.held()
            strip(exc)
        if inj is not None:
            self.fault('interrupt:' + inj['exc'])
        out = Outcome(ok, v, exc, inj, lines)
        out.held = held
        return out

    # -- clients
    def run_clients(self, fns, plan=None, faults=(), opcodes=False, max_steps=400000, roots=None):
        plan = plan if plan is not None else self.sc.get('plan', {'mode': 'serial'})
        s = S.Sched(plan, roots or (ROOT,), faults=faults, opcodes=opcodes, max_steps=max_steps)
        old, self.sched = self.sched, s
        for f in fns:
            s.spawn(f)
        try:
            s.run()
        except S.Stop as e:
            self.violations.append({'kind': 'no-progress', 'msg': str(e), 'key': {}})
            raise ViolationFound('no-progress')
        finally:
            self.sched = old
            self.steps += s.step
            self.sigs.update(s.sig.digest())
            if s.switches:
                self.nswitch += len(s.switches)
                if len(fns) > 1:
                    self.nontrivial = True
            self.switches.append(s.switches)
        return s

    @contextlib.contextmanager
    def quiet(self):
        """harness work on shared state: no scheduling points, no injected faults"""
        t = getattr(S._current, 'task', None)
        if t is None:
            yield
            return
        t.mute += 1
        sys.settrace(None)
        try:
            yield
        finally:
            t.mute -= 1
            if not t.mute:
                t.sched.resume_trace()

    def pause(self):
        if self.sched is not None:
            self.sched.pause()


def run_inline(mod, sc, scratch, shim):
    """Execute one scenario in this process; returns the result record."""
    t0 = time.perf_counter()
    ctx = Ctx(sc, scratch, shim)
    status, tb = 'ok', None
    try:
        mod.run(sc, ctx)
    except ViolationFound:
        pass
    except BaseException as e:
        tb = traceback.format_exc()
        status = 'harness'
        frames = [f for f in traceback.extract_tb(e.__traceback__)]
        lib = any(f.filename.startswith(ROOT) for f in frames)
        if isinstance(e, Exception) and (lib or not isinstance(e, (OSError, MemoryError, ImportError))):
            # a client program that uses only documented behaviour could not go on with what the
            # code under test raised in, or handed to, it
            ctx.violations.append({'kind': f'unexpected-exception:{type(e).__name__}', 'key': {},
                                   'msg': f'{type(e).__name__}: {str(e)[:300]} at ' + ' < '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in frames[:-6:-1])})
    finally:
        shim.disable()
        shim.clock_off()
    if ctx.violations:
        status = 'violation'
    h = hashlib.sha256(repr(ctx.events).encode())
    h.update(ctx.sigs.digest())
    return dict(status=status, tb=tb, violations=ctx.violations, faults=ctx.faults, probes=ctx.probes,
                states=sorted(ctx.states), sim=ctx.sim_seconds, steps=ctx.steps, digest=h.hexdigest()[:24],
                inter=ctx.sigs.hexdigest()[:16], nontrivial=ctx.nontrivial, nswitch=ctx.nswitch, ops=ctx.ops,
                switches=ctx.switches if status == 'violation' else None,
                events=[repr(e)[:160] for e in ctx.events[-80:]] if status != 'ok' or sc.get('_keep') else None,
                wall=time.perf_counter() - t0)


def fork_run(mod, sc, scratch, shim, timeout):
    """Execute one scenario in a forked child: every run starts from the same
    process image, and a crash or hang of the code under test is contained."""
    os.makedirs(scratch, exist_ok=True)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            die_with_parent()
            if not os.environ.get('SIM_STDERR'):
                n = os.open(os.devnull, os.O_WRONLY)
                os.dup2(n, 2)
                os.dup2(n, 1)
            os.chdir(scratch)
            res = run_inline(mod, sc, scratch, shim)
            b = json.dumps(res).encode()
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            try:
                os.write(w, json.dumps({'status': 'harness', 'tb': traceback.format_exc()}).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    buf, end, timed_out = b'', time.monotonic() + timeout, False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    base = dict(tb=None, violations=[], faults={}, probes={}, states=[], sim=0, steps=0, digest='', inter='',
                nontrivial=False, nswitch=0, ops=0, switches=None, events=None, wall=0.0)
    if timed_out:
        return base | {'status': 'timeout'}
    try:
        return base | json.loads(buf)
    except ValueError:
        return base | {'status': 'crash', 'tb': f'child ended with wait status {st}'}


def scenario(mod, seed, i, tier):
    rng = random.Random(f'{mod.PROP}:{seed}:{i}')
    sc = mod.gen(rng, tier, i)
    sc['prop'], sc['seed'], sc['run'] = mod.PROP, seed, i
    return sc


def judge(res):
    """Name the violation class of a result, or None."""
    if res['status'] == 'violation':
        return res['violations'][0]['kind']
    if res['status'] == 'crash':
        return 'process-crash'
    if res['status'] == 'timeout':
        return 'no-progress'
    return None


def execute(mod, sc, base, shim, timeout=None):
    timeout = timeout or getattr(mod, 'TIMEOUT', 60)
    return fork_run(mod, sc, os.path.join(base, 'X00'), shim, timeout)


# ---- shrinking ---------------------------------------------------------------
def _lists(o, keys, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            if k in keys and isinstance(v, list) and v:
                yield path + (k,)
            yield from _lists(v, keys, path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from _lists(v, keys, path + (i,))


def _get(o, p):
    for k in p:
        o = o[k]
    return o


def _with(o, p, v):
    o = json.loads(json.dumps(o))
    q = o
    for k in p[:-1]:
        q = q[k]
    q[p[-1]] = v
    return o


def _ints(o, keys, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            if k in keys and isinstance(v, int) and not isinstance(v, bool):
                yield path + (k,)
            else:
                yield from _ints(v, keys, path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from _ints(v, keys, path + (i,))


def shrink(mod, sc, kind, base, shim, budget=60.0, log=lambda *a: None):
    end = time.monotonic() + budget
    tries = [0]

    def bad(c):
        if time.monotonic() > end:
            return False
        tries[0] += 1
        return judge(execute(mod, c, base, shim)) == kind

    # 1. make the schedule explicit
    res = execute(mod, sc, base, shim)
    sw = res.get('switches')
    if sw and len(sw) == 1 and isinstance(sc.get('plan'), dict) and sc['plan'].get('mode') in ('random', 'pct'):
        c = dict(sc, plan={'mode': 'list', 'sw': sw[0]})
        if bad(c):
            sc = c
    if isinstance(sc.get('plan'), dict) and sc['plan'].get('mode') != 'serial':
        c = dict(sc, plan={'mode': 'serial'})
        if bad(c):
            sc = c
    keys = set(getattr(mod, 'SHRINK', ())) | {'clients', 'ops', 'faults', 'sw'}
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for p in sorted(set(_lists(sc, keys)), key=len):
            try:
                cur = _get(sc, p)
            except (KeyError, IndexError, TypeError):
                continue
            n = 2
            while isinstance(cur, list) and cur and time.monotonic() < end:
                size = max(1, (len(cur) + n - 1) // n)
                hit = False
                for a in range(0, len(cur), size):
                    c = cur[:a] + cur[a + size:]
                    if p[-1] == 'clients' and not c:
                        continue
                    cand = _with(sc, p, c)
                    if bad(cand):
                        sc, cur, hit, changed = cand, c, True, True
                        n = max(n - 1, 2)
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(cur), n * 2)
        for p in list(_ints(sc, set(getattr(mod, 'SHRINK_INT', ())))):
            try:
                v = _get(sc, p)
            except (KeyError, IndexError, TypeError):
                continue
            for nv in (0, 1, v // 2, v - 1):
                if 0 <= nv < v:
                    cand = _with(sc, p, nv)
                    if bad(cand):
                        sc, changed = cand, True
                        break
    log(f'shrunk in {tries[0]} executions')
    return sc, tries[0]
