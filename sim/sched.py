"""Deterministic scheduler for client threads.

Clients are real threads, but exactly one is ever released; the others are
parked on their own gate.  A scheduling point occurs at every traced line (or
opcode) of the code under test, at every explicit pause() of the harness, at
every cooperative lock operation and when a client ends.  Who runs next is
decided by a seeded plan, or by an explicit list of switches (replay), so a run
is a pure function of (plan, code).  The same points can raise an injected
exception (interrupt, allocation failure) in the running client.
"""
import _thread, hashlib, random, sys, threading

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'OSError': OSError}


class SimAbort(BaseException):
    pass


class Stop(Exception):
    """no-progress: step budget exhausted or deadlock"""


_current = threading.local()


class Task:
    __slots__ = ('i', 'fn', 'gate', 'done', 'waiting', 'op', 'op_lines', 'exc', 'sched', 'mute', 'injected')

    def __init__(self, i, fn, sched):
        self.i, self.fn, self.sched = i, fn, sched
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.op, self.op_lines, self.mute, self.exc = None, 0, 0, None
        self.injected = None


class Sched:
    def __init__(self, plan, roots, faults=(), opcodes=False, max_steps=400000):
        self.plan, self.roots, self.opcodes, self.max_steps = plan, tuple(roots), opcodes, max_steps
        self.faults = {(f['op'], f['line']): f for f in faults}
        self.fired = []
        self.tasks = []
        self.step = 0
        self.switches = []
        self.sig = hashlib.sha256()
        self.abort = None
        self.main = _thread.allocate_lock()
        mode = plan.get('mode', 'serial')
        self.mode = mode
        if mode in ('random', 'pct'):
            self.rng = random.Random(plan['seed'])
        if mode == 'pct':
            self.points = set(self.rng.randrange(1, max(2, plan['est'])) for _ in range(plan['d']))
        if mode == 'list':
            self.sw = {}
            for s, t in plan['sw']:
                self.sw.setdefault(s, t)

    # ---- setup / run
    def spawn(self, fn):
        t = Task(len(self.tasks), fn, self)
        self.tasks.append(t)
        return t

    def run(self):
        self.main.acquire()
        ths = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            ths.append(th)
        if self.tasks:
            first = self._pick(None)
            first.gate.release()
            self.main.acquire()
        for th in ths:
            th.join(10)
        self.main.release()
        if self.abort:
            raise Stop(self.abort)
        for t in self.tasks:
            if t.exc is not None:
                raise t.exc

    def _body(self, t):
        t.gate.acquire()
        _current.task = t
        try:
            if self.abort is None:
                sys.settrace(self._trace)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            _current.task = None
        t.done = True
        self.step += 1
        nxt = self._pick(None)
        if nxt is None:
            if any(not x.done for x in self.tasks) and self.abort is None:
                self.abort = 'deadlock: every remaining client waits for a lock'
                for x in self.tasks:
                    x.waiting = None
                nxt = self._pick(None)
        if nxt is None:
            self.main.release()
        else:
            nxt.gate.release()

    # ---- tracing
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.roots):
            return None
        if frame.f_code.co_name == '<module>':      # lazy import: its lock is held, do not park here
            return None
        frame.f_trace_opcodes = self.opcodes
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            t = getattr(_current, 'task', None)
            if t is not None and not t.mute:
                self.point(t, frame.f_code.co_name, frame.f_lineno, True)
        return self._local

    def resume_trace(self):
        """tracing is dropped by the interpreter after an injected exception"""
        if getattr(_current, 'task', None) is not None:
            sys.settrace(self._trace)

    # ---- scheduling points
    def point(self, t, name='', line=0, traced=False):
        if self.abort is not None:
            raise SimAbort()
        self.step += 1
        if self.step > self.max_steps:
            self.abort = f'no progress within {self.max_steps} steps'
            raise SimAbort()
        if traced and t.op is not None:
            t.op_lines += 1
            f = self.faults.get((t.op, t.op_lines))
            if f is not None and not any(x is f for x in self.fired):
                self.fired.append(f)
                t.injected = f
                raise EXC[f['exc']]('injected')
        nxt = self._pick(t)
        if nxt is not t:
            self.sig.update(f'{t.i}>{nxt.i}@{name}:{line};'.encode())
            self._handoff(t, nxt)

    def pause(self):
        t = getattr(_current, 'task', None)
        if t is not None and t.sched is self:
            self.point(t, 'pause')

    def begin_op(self, op):
        t = getattr(_current, 'task', None)
        if t is not None:
            t.op, t.op_lines, t.injected = op, 0, None

    def end_op(self):
        t = getattr(_current, 'task', None)
        if t is None:
            return 0, None
        n, inj = t.op_lines, t.injected
        t.op, t.op_lines, t.injected = None, 0, None
        self.resume_trace()
        return n, inj

    def _handoff(self, t, nxt):
        nxt.gate.release()
        t.gate.acquire()
        if self.abort is not None:
            raise SimAbort()

    def _runnable(self):
        return [x for x in self.tasks if not x.done and x.waiting is None]

    def _pick(self, cur):
        mode, step = self.mode, self.step
        cur_ok = cur is not None and not cur.done and cur.waiting is None
        if len(self.tasks) == 1:
            return self.tasks[0] if not self.tasks[0].done and self.tasks[0].waiting is None else None
        if cur_ok:
            if mode == 'serial':
                return cur
            if mode == 'random' and self.rng.random() >= self.plan['p']:
                return cur
            if mode == 'pct' and step not in self.points:
                return cur
            if mode == 'list' and step not in self.sw:
                return cur
        r = self._runnable()
        if not r:
            return None
        if mode == 'list':
            want = self.sw.get(step)
            nxt = None
            if want is not None:
                nxt = next((x for x in r if x.i == want), None)
            if nxt is None:
                nxt = cur if cur_ok else r[0]
        elif mode in ('random', 'pct'):
            others = [x for x in r if x is not cur] or r
            nxt = others[self.rng.randrange(len(others))]
        else:
            nxt = r[0]
        if nxt is not cur:
            self.switches.append([step, nxt.i])
        return nxt

    # ---- cooperative blocking
    def block_on(self, lock):
        t = _current.task
        t.waiting = lock
        self.step += 1
        nxt = self._pick(t)
        if nxt is None:
            self.abort = 'deadlock: every client waits for a lock'
            for x in self.tasks:
                x.waiting = None
            raise SimAbort()
        self.sig.update(f'{t.i}|{nxt.i};'.encode())
        self._handoff(t, nxt)

    def unblock(self, lock):
        for x in self.tasks:
            if x.waiting is lock:
                x.waiting = None

    def explicit(self):
        return {'mode': 'list', 'sw': self.switches}


class CoopLock:
    """threading.Lock look-alike: inside a simulated client a contended acquire
    parks the client in the scheduler instead of blocking the process."""

    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        t = getattr(_current, 'task', None)
        if t is None:
            return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        while not self._l.acquire(False):
            if not blocking or timeout >= 0:
                return False
            t.sched.block_on(self)
        return True

    def release(self):
        self._l.release()
        t = getattr(_current, 'task', None)
        if t is not None:
            t.sched.unblock(self)

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CoopRLock:
    def __init__(self):
        self._b = CoopLock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        r = self._b.acquire(blocking, timeout)
        if r:
            self._owner, self._count = me, 1
        return r

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._b._at_fork_reinit()
        self._owner, self._count = None, 0


def patch_locks():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
