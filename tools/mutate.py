"""Maintenance tool: systematic mutation of the anchored code; lists the mutants no check notices and the tests pass on.
   mutate.py FILE[:CHECKS] ...      FILE relative to src/pyhipp; --jobs N --skip K --limit M --match FUNC --only LOG (the survivors of LOG)"""
import ast, copy, os, re, shutil, subprocess, sys, tempfile, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
        ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def sites(tree, match):
    """(node path description, function(tree copy) -> None) for every mutation"""
    out = []
    funcs = [f for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.ClassDef))]
    idx = {id(n): i for i, n in enumerate(ast.walk(tree))}
    owner = {}
    for f in funcs:
        for n in ast.walk(f):
            owner[id(n)] = f.name if id(n) not in owner else owner[id(n)].split('>')[0] + '>' + f.name
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    ann = set()
    for n in ast.walk(tree):
        for a in ([n.annotation] if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation is not None else [n.returns] if isinstance(n, ast.FunctionDef) and n.returns is not None else []):
            ann |= {id(x) for x in ast.walk(a)}

    def add(n, what, f):
        if id(n) in ann or id(n) in docs or id(n) not in owner or match and not re.search(match, owner[id(n)]):
            return
        i = idx[id(n)]

        def go():
            t = copy.deepcopy(tree)
            f(list(ast.walk(t))[i])
            return t
        out.append((f'{getattr(n, "lineno", 0)} {owner[id(n)]}: {what}', go))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in SWAP.get(type(op), []):
                    add(n, f'{ast.unparse(n)} -> {new.__name__}', lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, (ast.If, ast.IfExp)):
            for c in (True, False):
                add(n, f'if {ast.unparse(n.test)[:60]} -> {c}', lambda m, c=c: setattr(m, 'test', ast.Constant(c)))
        elif isinstance(n, ast.BoolOp):
            add(n, f'{ast.unparse(n)[:60]} and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f'{ast.unparse(n)[:60]} -> {BIN[type(n.op)].__name__}', lambda m: setattr(m, 'op', BIN[type(m.op)]()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, f'{ast.unparse(n)[:60]} without {type(n.op).__name__}', lambda m: setattr(m, 'op', ast.UAdd()) if isinstance(m.op, ast.USub) else setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand)))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if n.value is True or n.value is False:
                add(n, f'{n.value} -> {not n.value}', lambda m: setattr(m, 'value', not m.value))
            elif isinstance(n.value, int):
                add(n, f'{n.value} -> {n.value + 1}', lambda m: setattr(m, 'value', m.value + 1))
                if n.value > 0:
                    add(n, f'{n.value} -> {n.value - 1}', lambda m: setattr(m, 'value', m.value - 1))
            elif isinstance(n.value, float):
                add(n, f'{n.value} -> *1.01+.001', lambda m: setattr(m, 'value', m.value * 1.01 + .001))
            elif isinstance(n.value, str) and n.value in ('x', 'ac', 'ca', 'w', 'a', 'r', 'rb', 'wb', 'r+'):
                for v in {'x': ['ac'], 'ac': ['x'], 'ca': ['cax'], 'w': ['ac', 'x'], 'a': ['w'], 'r': ['r+', 'a'], 'r+': ['a', 'w'], 'rb': ['r+b']}.get(n.value, []):
                    add(n, f'{n.value!r} -> {v!r}', lambda m, v=v: setattr(m, 'value', v))
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == 'copy' and not n.args:
                add(n, f'{ast.unparse(n)} not copied', lambda m: (setattr(m, 'args', [m.func.value]), setattr(m, 'keywords', []), setattr(m, 'func', ast.parse('(lambda x: x)').body[0].value)))
            elif ast.unparse(f) in ('np.array', 'list', 'dict', 'tuple') and n.args:
                new = {'np.array': 'np.asarray'}.get(ast.unparse(f), '(lambda x: x)')
                add(n, f'{ast.unparse(n)[:60]} -> {new}', lambda m, new=new: (setattr(m, 'func', ast.parse(new).body[0].value), setattr(m, 'keywords', [k for k in m.keywords if k.arg != 'copy'])))
            for k, kw in enumerate(n.keywords):
                if kw.arg is not None:
                    add(n, f'{ast.unparse(n)[:70]} without {kw.arg}', lambda m, k=k: m.keywords.pop(k))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add(n, f'{ast.unparse(n)[:70]} without last argument', lambda m: m.args.pop())
                add(n, f'{ast.unparse(n)[:70]} arguments swapped', lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
        elif isinstance(n, ast.With):
            def nowith(m):
                it = m.items[0]
                body = ([ast.Assign([it.optional_vars], it.context_expr)] if it.optional_vars is not None else [ast.Expr(it.context_expr)]) + m.body
                m.__class__ = ast.If
                m.test, m.body, m.orelse = ast.Constant(True), body, []
            add(n, f'with {ast.unparse(n.items[0])[:60]} dropped', nowith)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            add(n, f'{ast.unparse(n)[:60]} unsliced', lambda m: setattr(m, 'slice', ast.Slice()))
        if isinstance(n, (ast.Assert, ast.Raise)) or isinstance(n, ast.Expr) and id(n) not in docs or isinstance(n, ast.AugAssign) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            def drop(m):
                m.__class__ = ast.Pass
            add(n, f'{ast.unparse(n)[:70]!r} deleted', drop)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, f'{ast.unparse(n)[:60]!r} -> None', lambda m: setattr(m, 'value', ast.Constant(None)))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add(n, f'{ast.unparse(n)[:60]} -> {BIN[type(n.op)].__name__}', lambda m: setattr(m, 'op', BIN[type(m.op)]()))
    return out


def main():
    a, jobs, skip, limit, match, only = sys.argv[1:], 6, 0, 10**9, None, None
    files = []
    while a:
        x = a.pop(0)
        if x == '--jobs':
            jobs = int(a.pop(0))
        elif x == '--skip':
            skip = int(a.pop(0))
        elif x == '--limit':
            limit = int(a.pop(0))
        elif x == '--only':
            only = {l.split(' | ')[0] for l in open(a.pop(0)) if '| SURVIVED' in l}
        elif x == '--match':
            match = a.pop(0)
        else:
            files.append(x)
    q = queue.Queue()
    for spec in files:
        f, checks = spec.split(':')
        src = open(os.environ.get('MUT_SRC', '/repo') + '/src/pyhipp/' + f).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = set()
        for what, go in sites(tree, match)[skip:skip + limit]:
            if only is not None and f'{f} {what}' not in only:
                continue
            try:
                new = ast.unparse(ast.fix_missing_locations(go()))
                compile(new, f, 'exec')
            except Exception:
                continue
            if new != base and new not in seen:
                seen.add(new)
                q.put((f, what, new, checks.split(',')))
    print(q.qsize(), 'mutants', flush=True)
    root = tempfile.mkdtemp(prefix='mutate')
    lock = threading.Lock()
    tally = {}

    def worker(w):
        r = os.path.join(root, f'repo{w}')
        shutil.copytree(os.environ.get('MUT_SRC', '/repo'), r, symlinks=True)
        ts = os.path.join(root, f'test{w}.sh')
        open(ts, 'w').write(open('/opt/vp/test.sh').read().replace('/repo', r))
        while True:
            try:
                f, what, new, checks = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(r, 'src/pyhipp', f)
            old = open(p).read()
            open(p, 'w').write(new)
            res = None
            for c in checks:
                try:
                    o = subprocess.run([os.path.join(V, 'bin/check'), c], capture_output=True, text=True, timeout=900, env={**os.environ, 'SIM_REPO': r, 'SIM_JOBS': '2', 'SIM_NOSHRINK': '1'})
                except subprocess.TimeoutExpired:
                    res = f'TIMEOUT {c}'
                    break
                if o.returncode == 1:
                    res = f'caught {c}'
                    break
                if o.returncode:
                    res = f'HARNESS {c}: {(o.stdout + o.stderr)[-150:]!r}'
                    break
            if res is None or res[0] == 'H':
                t = subprocess.run(['bash', ts, os.path.join(root, f'o{w}.json')], capture_output=True, text=True, cwd=r)
                ok = ' 0 failed' in t.stdout and '27 passed' in t.stdout
                res = (res or 'SURVIVED') if ok else 'killed by tests'
            open(p, 'w').write(old)
            with lock:
                tally[res.split(':')[0]] = tally.get(res.split(':')[0], 0) + 1
                if res[0] in 'STH':
                    print(f, what, '|', res, flush=True)
    try:
        ws = [threading.Thread(target=worker, args=(w,)) for w in range(jobs)]
        [t.start() for t in ws]
        [t.join() for t in ws]
        print(sorted(tally.items()))
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
