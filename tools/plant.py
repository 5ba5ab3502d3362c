"""Maintenance tool: (re)create and confirm planted changes.
   plant.py make FILE        FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
   plant.py test ID...       confirm in a scratch copy (build, tests, demo) and run the property's check on it
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, 'seeded')
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SCRATCH="$work"
cd "$work"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" "$here/demo.py"
'''


def make(f):
    ns = {}
    exec(open(f).read(), ns)
    for b in ns['BUGS']:
        d = os.path.join(SD, b['id'])
        w = tempfile.mkdtemp()
        try:
            diff = ''
            files = {}
            for path, old, new in b['edits']:
                path = 'src/pyhipp/' + path
                s = files.get(path) or open('/repo/' + path).read()
                if s.count(old) < 1:
                    print(b['id'], 'NOT FOUND', repr(old)[:80])
                    break
                files[path] = s.replace(old, new, 1)
            else:
                subprocess.run(['git', 'init', '-q', w], check=True)
                for path in files:
                    os.makedirs(os.path.dirname(os.path.join(w, path)), exist_ok=True)
                    shutil.copy('/repo/' + path, os.path.join(w, path))
                subprocess.run(['git', '-C', w, 'add', '-A'], check=True)
                for path, s in files.items():
                    open(os.path.join(w, path), 'w').write(s)
                diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                open(os.path.join(d, 'demo.sh'), 'w').write(SH)
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
                json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1, ensure_ascii=False)
                for x in b.get('files', ()):
                    shutil.copy(x, d)
        finally:
            shutil.rmtree(w)


def test(ids, check=True):
    base = tempfile.mkdtemp(prefix='plant')
    try:
        r = os.path.join(base, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        sh = {}
        for n in ('build', 'test'):
            s = open(f'/opt/vp/{n}.sh').read().replace('/repo', r)
            sh[n] = os.path.join(base, n + '.sh')
            open(sh[n], 'w').write(s)
        for i in ids:
            d = os.path.join(SD, i)
            prop = json.load(open(os.path.join(d, 'meta.json')))['property']
            run = lambda c, **k: subprocess.run(c, capture_output=True, text=True, cwd=r, **k)
            out = [i]
            clean = run(['bash', os.path.join(d, 'demo.sh')])
            out.append(f'demo clean {clean.returncode}')
            a = run(['git', 'apply', os.path.join(d, 'patch.diff')])
            if a.returncode:
                print(i, 'patch does not apply', a.stderr)
                continue
            try:
                bad = run(['bash', os.path.join(d, 'demo.sh')])
                out.append(f'patched {bad.returncode}')
                if '--fast' not in sys.argv:
                    b = run(['bash', sh['build']])
                    t = run(['bash', sh['test'], os.path.join(base, 'o.json')])
                    out.append(f'build {b.returncode} tests {t.stdout.strip().splitlines()[-1][:60] if t.stdout.strip() else t.stderr[-100:]}')
                if clean.returncode or not bad.returncode:
                    out.append('BAD DEMO ' + (clean.stderr[-300:] if clean.returncode else ''))
                if check:
                    c = subprocess.run([os.path.join(V, 'bin/check'), prop], capture_output=True, text=True, env={**os.environ, 'SIM_REPO': r})
                    l = [x for x in c.stdout.splitlines() if x.startswith(prop)]
                    out.append(f'check {prop}: exit {c.returncode} {"CAUGHT" if c.returncode == 1 else "MISSED"} {l[0][:170] if l else c.stderr[-200:]}')
            finally:
                run(['git', 'checkout', '-q', '--', '.'])
            print(' | '.join(out), flush=True)
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        test([x for x in sys.argv[2:] if not x.startswith('-')] or sorted(os.listdir(SD)))
