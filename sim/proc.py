"""A simulated process: a forked child that streams records to its parent and
may die at any point.  Used where a fault can take the whole process down."""
import json, os, select, signal, time


def spawn(fn, timeout=30):
    """Run fn(emit) in a child that always ends by SIGKILL (no cleanup of any
    kind).  Returns (records, wait status, timed_out)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)

            def emit(rec):
                b = json.dumps(rec).encode() + b'\n'
                while b:
                    b = b[os.write(w, b):]
            try:
                fn(emit)
                emit({'end': 1})
            except BaseException:
                import traceback
                emit({'harness': traceback.format_exc()})
        finally:
            os.kill(os.getpid(), signal.SIGKILL)
    os.close(w)
    buf, end, to = b'', time.monotonic() + timeout, False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            to = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    recs = []
    for l in buf.split(b'\n'):
        if l:
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    return recs, st, to
