"""Maintenance tool: behaviour-preserving rewrites of the whole package in a scratch copy; the checks must stay quiet on each.
   refactor.py [--only NAME,...] [--tests] [--seed N] CHECK...      (default: all checks)"""
import ast, copy, glob, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jitted(f):
    return any('jit' in ast.unparse(d) for d in f.decorator_list)


class Fn(ast.NodeTransformer):
    """visit functions outside numba"""
    n = 0

    def visit_FunctionDef(self, f):
        if jitted(f) or any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(f)):
            return f
        self.generic_visit(f)
        return self.fn(f) or f

    def visit_ClassDef(self, c):
        if any('jit' in ast.unparse(d) for d in c.decorator_list):
            return c
        self.generic_visit(c)
        return self.cls(c) or c

    def fn(self, f):
        pass

    def cls(self, c):
        pass

    def name(self):
        Fn.n += 1
        return f'_rf{Fn.n}'


def doc(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0


class Noop(Fn):
    """a statement that does nothing at the start and before the last statement of each function"""

    def fn(self, f):
        k = doc(f.body)
        f.body.insert(k, ast.parse(f'{self.name()} = None').body[0])
        f.body.insert(len(f.body) - 1, ast.parse('pass').body[0])


class Ret(Fn):
    """results are named before they are returned"""

    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, (ast.Constant, ast.Name)):
            return r
        n = self.name()
        return [ast.Assign([ast.Name(n, ast.Store())], r.value), ast.Return(ast.Name(n, ast.Load()))]


class Cond(Fn):
    """conditions are named, branches swapped"""

    def visit_If(self, i):
        self.generic_visit(i)
        n = self.name()
        a = ast.Assign([ast.Name(n, ast.Store())], ast.Call(ast.Name('bool', ast.Load()), [i.test], []))
        if i.orelse and not (len(i.orelse) == 1 and isinstance(i.orelse[0], ast.If)):
            j = ast.If(ast.UnaryOp(ast.Not(), ast.Name(n, ast.Load())), i.orelse, i.body)
        else:
            j = ast.If(ast.Name(n, ast.Load()), i.body, i.orelse)
        return [a, j]

    def visit_Module(self, m):       # only inside functions
        for i, b in enumerate(m.body):
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                m.body[i] = self.visit(b)
        return m


class Loop(Fn):
    """for loops as while loops over an iterator"""

    def visit_For(self, f):
        self.generic_visit(f)
        if f.orelse or any(isinstance(x, ast.Continue) for x in ast.walk(f)):
            return f
        it, v, end = self.name(), self.name(), self.name()
        s = ast.parse(f'{it} = iter(0)\n{end} = object()\nwhile True:\n    {v} = next({it}, {end})\n    if {v} is {end}:\n        break\n').body
        s[0].value.args = [f.iter]
        s[2].body += [ast.Assign([f.target], ast.Name(v, ast.Load()))] + f.body
        return s

    visit_Module = Cond.visit_Module


class Comp(Fn):
    """list and dictionary comprehensions as loops, where they are the value of a simple statement"""

    def expand(self, st, comp):
        if len(comp.generators) != 1 or isinstance(comp, ast.GeneratorExp) or comp.generators[0].is_async:
            return None
        g = comp.generators[0]
        n = self.name()
        body = ast.parse(f'{n}[0] = 0' if isinstance(comp, ast.DictComp) else f'{n}.append(0)').body
        if isinstance(comp, ast.DictComp):
            body[0].targets[0].slice, body[0].value = comp.key, comp.value
        else:
            body[0].value.args = [comp.elt]
        for t in g.ifs:
            body = [ast.If(t, body, [])]
        init = ast.parse(f'{n} = ' + ('{}' if isinstance(comp, ast.DictComp) else '[]')).body[0]
        st.value = ast.Name(n, ast.Load())
        return [init, ast.For(g.target, g.iter, body, []), st]

    def visit_Assign(self, s):
        if isinstance(s.value, (ast.ListComp, ast.DictComp)):
            used = {x.id for x in ast.walk(s.value.generators[0].target) if isinstance(x, ast.Name)}
            if not used & self.params:
                return self.expand(s, s.value) or s
        return s

    def visit_Return(self, s):
        if isinstance(s.value, (ast.ListComp, ast.DictComp)):
            return self.expand(s, s.value) or s
        return s

    params = set()

    def visit_FunctionDef(self, f):
        old, self.params = self.params, {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
        # names bound by the comprehension itself are in the set; keep only those bound elsewhere
        inner = [x.id for c in ast.walk(f) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)]
        for n in inner:
            if sum(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(f)) <= inner.count(n) and n not in {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}:
                self.params.discard(n)
        r = super().visit_FunctionDef(f)
        self.params = old
        return r

    visit_Module = Cond.visit_Module


class With(Fn):
    """several context managers as nested blocks"""

    def visit_With(self, w):
        self.generic_visit(w)
        while len(w.items) > 1:
            w = ast.With(w.items[:-1], [ast.With(w.items[-1:], w.body)])
        return w


class Order(Fn):
    """methods in another order"""

    def cls(self, c):
        names = [b.name for b in c.body if isinstance(b, ast.FunctionDef)]
        plain = [b for b in c.body if isinstance(b, ast.FunctionDef) and not b.decorator_list and names.count(b.name) == 1]
        at = [i for i, b in enumerate(c.body) if b in plain]
        refs = {x.id for b in c.body if b not in plain for x in ast.walk(b) if isinstance(x, ast.Name)}
        if refs & {b.name for b in plain}:
            return
        for i, b in zip(at, reversed(plain)):
            c.body[i] = b


class Local(Fn):
    """local variables renamed"""

    def fn(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not f for x in ast.walk(f)):
            return
        args = {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'vars', 'eval') for x in ast.walk(f)):
            return
        imp = {(a.asname or a.name).split('.')[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        ren = {x.id: x.id + '_rn' for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in args and x.id not in imp}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
            elif isinstance(x, ast.ExceptHandler) and x.name in ren:
                x.name = ren[x.name]


class Args(Fn):
    """arguments of calls are evaluated into variables first (statement level, all positional and keyword)"""

    def stmt(self, s, get):
        c = get(s)
        if not isinstance(c, ast.Call) or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return s
        if isinstance(c.func, ast.Name) and c.func.id in ('super', 'locals', 'isinstance'):
            return s
        if not isinstance(c.func, ast.Name) and not (isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)):
            return s
        out = []
        for i, a in enumerate(c.args):
            if not isinstance(a, (ast.Name, ast.Constant)):
                n = self.name()
                out.append(ast.Assign([ast.Name(n, ast.Store())], a))
                c.args[i] = ast.Name(n, ast.Load())
        for k in c.keywords:
            if not isinstance(k.value, (ast.Name, ast.Constant)):
                n = self.name()
                out.append(ast.Assign([ast.Name(n, ast.Store())], k.value))
                k.value = ast.Name(n, ast.Load())
        return out + [s]

    def visit_Assign(self, s):
        return self.stmt(s, lambda s: s.value)

    def visit_Expr(self, s):
        return self.stmt(s, lambda s: s.value)

    def visit_Return(self, s):
        return self.stmt(s, lambda s: s.value) if s.value is not None else s

    visit_Module = Cond.visit_Module

    def visit_ClassDef(self, c):
        for i, b in enumerate(c.body):
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                c.body[i] = self.visit(b)
        return c


class Helper(Fn):
    """the body of each plain method moves to a helper method"""

    def cls(self, c):
        new = []
        names = {b.name for b in c.body if isinstance(b, ast.FunctionDef)}
        if any(isinstance(b, ast.Assign) or isinstance(b, ast.AnnAssign) for b in c.body) and any('dataclass' in ast.unparse(d) for d in c.decorator_list):
            return
        for b in c.body:
            a = b.args if isinstance(b, ast.FunctionDef) else None
            if a is None or b.decorator_list or not a.args or a.args[0].arg != 'self' or b.name.startswith('__') and b.name.endswith('__') and b.name in ('__init__', '__new__', '__init_subclass__', '__enter__', '__exit__', '__class_getitem__') \
                    or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(b)) or any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(b)) or jitted(b):
                new.append(b)
                continue
            h = copy.deepcopy(b)
            h.name = '_hlp_' + b.name.strip('_')
            if h.name in names:
                new.append(b)
                continue
            names.add(h.name)
            call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), '_hlp_' + c.name + '_' + b.name.strip('_'), ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
            h.name = '_hlp_' + c.name + '_' + b.name.strip('_')
            for x in (h.args,):
                x.defaults, x.kw_defaults = [], [None] * len(x.kwonlyargs)
            for x in ast.walk(h.args):
                if isinstance(x, ast.arg):
                    x.annotation = None
            h.returns = None
            h.body = h.body[doc(h.body):] or [ast.Pass()]
            b.body = b.body[:doc(b.body)] + [ast.Return(call)]
            new += [h, b]
        c.body = new


KINDS = {'noop': Noop, 'ret': Ret, 'cond': Cond, 'loop': Loop, 'comp': Comp, 'with': With, 'order': Order, 'local': Local, 'args': Args, 'helper': Helper}


def main():
    a = sys.argv[1:]
    only, tests, seed = list(KINDS) + ['all'], False, '1'
    while a and a[0].startswith('--'):
        x = a.pop(0)
        if x == '--only':
            only = a.pop(0).split(',')
        elif x == '--tests':
            tests = True
        elif x == '--seed':
            seed = a.pop(0)
    checks = a or sorted(c[1:3] for c in [])
    if not checks:
        checks = ['C' + os.path.basename(p)[1:3] for p in sorted(glob.glob(V + '/sim/checks/c??.py'))]
    base = tempfile.mkdtemp(prefix='refac')
    try:
        for kind in only:
            r = os.path.join(base, 'repo')
            shutil.rmtree(r, ignore_errors=True)
            shutil.copytree('/repo', r, symlinks=True)
            n = 0
            for p in sorted(glob.glob(r + '/src/pyhipp/**/*.py', recursive=True)):
                s = open(p).read()
                t = ast.parse(s)
                for k in (KINDS if kind == 'all' else kind.split('+')):
                    t = KINDS[k]().visit(t)
                    t = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
                u = ast.unparse(t)
                n += u != ast.unparse(ast.parse(s))
                open(p, 'w').write(u + '\n')
            print(f'== {kind}: {n} files changed', flush=True)
            if tests:
                sh = {}
                for q in ('build', 'test'):
                    s = open(f'/opt/vp/{q}.sh').read().replace('/repo', r)
                    sh[q] = os.path.join(base, q + '.sh')
                    open(sh[q], 'w').write(s)
                b = subprocess.run(['bash', sh['build']], capture_output=True, text=True, cwd=r)
                t = subprocess.run(['bash', sh['test'], os.path.join(base, 'o.json')], capture_output=True, text=True, cwd=r)
                print(f'   build {b.returncode} tests', t.stdout.strip()[-80:], flush=True)
            for c in checks:
                o = subprocess.run([os.path.join(V, 'bin/check'), c], capture_output=True, text=True, env={**os.environ, 'SIM_REPO': r, 'VERIF_SEED': seed})
                if o.returncode or 'VIOLATION' in o.stdout:
                    print(f'   {c} exit {o.returncode}:', '\n'.join(o.stdout.splitlines()[-4:])[:700], o.stderr[-300:], flush=True)
            print('   done', flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
