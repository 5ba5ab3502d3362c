"""Entry point:  run.py <PROP>            run the check (VERIF_SEED, VERIF_TIER)
                 run.py --replay <file>    re-execute a recorded violation
                 run.py <PROP> --one <i>   execute run i and print its log"""
import gc, importlib, json, os, random, select, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bootstrap():
    """Re-exec under the shim and a fixed environment."""
    from sim import shim
    if os.environ.get('SIM_BOOT') == '1':
        return
    so = shim.build()
    env = {k: v for k, v in os.environ.items() if k in (
        'PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR', 'VERIF_SEED', 'VERIF_TIER', 'SIM_STDERR', 'SIM_JOBS', 'SIM_RUNS',
        'SIM_REPO', 'SIM_HASHSEED', 'SIM_DIGESTS', 'SIM_NOSTOP', 'SIM_TIMECAP', 'SIM_NOSHRINK')}
    repo = env.get('SIM_REPO', '/repo')
    env.update(SIM_BOOT='1', LD_PRELOAD=so, PYTHONPATH=f'{repo}/src:{VERIF}', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED=env.get('SIM_HASHSEED', '0'), MPLBACKEND='Agg', TZ='UTC', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', PYTHONUNBUFFERED='1',
               PYTHONWARNINGS='ignore')
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(py, [py, '-m', 'sim.run'] + sys.argv[1:], env)


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith('{'):
                    out.append(json.loads(l))
    return out


def known_match(known, prop, v):
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k['kind'] == v['kind'] \
                and all(v['key'].get(a) == b for a, b in k.get('key', {}).items()):
            return k
    return None


def main():
    bootstrap()
    # from here on: under the shim
    tmp = tempfile.mkdtemp(prefix='vsim-', dir=os.environ.get('TMPDIR') or '/tmp')
    os.environ['MPLCONFIGDIR'] = os.path.join(tmp, 'mpl')
    me = os.getpid()
    try:
        return _main(tmp)
    finally:
        if os.getpid() == me:
            shutil.rmtree(tmp, ignore_errors=True)


def _main(tmp):
    from sim import core, sched
    from sim.shim import Shim
    args = sys.argv[1:]
    shim = Shim()
    import numpy  # noqa: F401   libraries keep their own locks ...
    sched.patch_locks()    # ... the code under test gets cooperative ones
    replay = None
    if args and args[0] == '--replay':
        with open(args[1]) as f:
            replay = json.load(f)
        prop = replay['property']
    else:
        prop = args[0]
    mod = importlib.import_module(f'sim.checks.{prop.lower()}')
    cold = None
    try:
        mod.warmup(tmp)
    except Exception:       # the runs show what fails, from a colder start
        cold = traceback.format_exc()
    gc.collect()
    gc.freeze()
    t0 = time.monotonic()
    if replay is not None:
        return do_replay(mod, replay, tmp, shim)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--one' in args:
        i = int(args[args.index('--one') + 1])
        sc = core.scenario(mod, seed, i, tier)
        sc['_keep'] = True
        print(json.dumps(sc, indent=1)[:6000])
        res = core.execute(mod, sc, tmp, shim)
        print(json.dumps(res, indent=1))
        return 0
    n = int(os.environ.get('SIM_RUNS') or mod.RUNS[tier])
    jobs = int(os.environ.get('SIM_JOBS') or min(8, os.cpu_count() or 1))
    cap = float(os.environ.get('SIM_TIMECAP') or (500 if tier == 'quick' else 6000))
    known = load_known()
    results, harness, viol, known_hits = lanes(mod, seed, tier, n, jobs, cap, tmp, shim, core, known, prop)
    code = 0
    nv = 0
    if viol is not None:
        i, res = viol
        nv = 1
        code = 1
        sc = core.scenario(mod, seed, i, tier)
        kind = core.judge(res)
        again = [core.judge(core.execute(mod, sc, tmp, shim)) for _ in range(2)]
        if kind in ('no-progress', 'process-crash') and kind not in again and res['status'] != 'violation':
            # a stalled or killed child that does not reproduce says nothing about the code
            harness.append((i, f'{kind} did not reproduce'))
            viol, nv, code = None, 0, 2
        else:
            stable = all(a == kind for a in again)
            small, tries = core.shrink(mod, sc, kind, tmp, shim,
                                       budget=0 if os.environ.get('SIM_NOSHRINK') else 60 if tier == 'quick' else 180) if stable else (sc, 0)
            final = core.execute(mod, dict(small, _keep=True), tmp, shim)
            v = (final['violations'] or res['violations'] or [{'kind': kind, 'msg': res.get('tb'), 'key': {}}])[0]
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', f'{prop}-{seed}-{i}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, run=i, kind=v['kind'], msg=v['msg'], key=v['key'],
                               reproducible=stable, digest=final['digest'], shrink_executions=tries,
                               scenario=small, original=sc, events=final.get('events')), f, indent=1)
            print(f'{prop}: run {i} of seed {seed}: {v["kind"]}: {v["msg"]}')
            print(f'VIOLATION property={prop} replay={path}')
    for k, cnt in known_hits.items():
        print(f'KNOWN-FINDING: property={prop} {k} (seen in {cnt} runs)')
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k['what'] not in known_hits:
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    if cold:
        harness.append(('warmup', cold))
    if harness and code == 0:
        code = 2
    for i, tb in harness[:3]:
        print(f'{prop}: harness error in run {i}:\n{tb}', file=sys.stderr)
    wall = time.monotonic() - t0
    if code == 0 and len(results) < n // 4:
        print(f'{prop}: only {len(results)} of {n} runs finished within {cap} s', file=sys.stderr)
        code = 2
    evidence(mod, prop, tier, seed, results, n, wall, nv, core, jobs, tmp, shim)
    d = os.environ.get('SIM_DIGESTS')
    if d:
        with open(d, 'w') as f:
            for i in sorted(results):
                f.write(f'{i} {results[i]["status"]} {results[i]["digest"]}\n')
    print(f'{prop}: {len(results)} simulated runs in {wall:.1f} s, '
          f'{sum(r["ops"] for r in results.values())} operations, exit {code}')
    return code


def lanes(mod, seed, tier, n, jobs, cap, tmp, shim, core, known, prop):
    """Run scenarios 0..n-1 on `jobs` forked lanes; each run in its own child."""
    jobs = max(1, min(jobs, n))
    timeout = getattr(mod, 'TIMEOUT', 60)
    pids, fds = [], {}
    end = time.monotonic() + cap
    sys.stdout.flush()
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                core.die_with_parent()
                for i in range(j, n, jobs):
                    if time.monotonic() > end:
                        break
                    try:
                        sc = core.scenario(mod, seed, i, tier)
                        res = core.fork_run(mod, sc, os.path.join(tmp, f'L{j:02d}'), shim, timeout)
                    except BaseException:
                        import traceback
                        res = {'status': 'harness', 'tb': traceback.format_exc()}
                    b = json.dumps([i, res]).encode() + b'\n'
                    while b:
                        b = b[os.write(w, b):]
            finally:
                os._exit(0)
        os.close(w)
        pids.append(pid)
        fds[r] = b''
    results, harness, viol, known_hits = {}, [], None, {}
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 16)
            if not b:
                os.close(r)
                del fds[r]
                continue
            buf = fds[r] + b
            *lines, fds[r] = buf.split(b'\n')
            for l in lines:
                i, res = json.loads(l)
                k = core.judge(res)
                if k is None and res['status'] == 'harness':
                    harness.append((i, res.get('tb')))
                elif k is not None:
                    v = res['violations'][0] if res['violations'] else {'kind': k, 'key': {}}
                    m = known_match(known, prop, v)
                    if m is not None:
                        known_hits[m['what']] = known_hits.get(m['what'], 0) + 1
                    elif viol is None or i < viol[0]:
                        viol = (i, res)
                if 'digest' in res:
                    results[i] = res
        if viol is not None and not os.environ.get('SIM_NOSTOP'):
            break
        if time.monotonic() > end + timeout + 10:
            break
    for r in list(fds):
        os.close(r)
    for pid in pids:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    for pid in pids:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    return results, harness, viol, known_hits


def evidence(mod, prop, tier, seed, results, n, wall, nv, core, jobs, tmp, shim):
    faults, probes, states, inters, sigs = {}, {}, set(), set(), set()
    steps = sim = ops = sw = 0
    for r in results.values():
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r['states'])
        if r['nswitch']:
            inters.add(r['inter'])
        if r['nontrivial']:
            sigs.add(r['digest'])
        steps += r['steps']
        sim += r['sim']
        ops += r['ops']
        sw += r['nswitch']
    # determinism: a few runs executed a second time, from their seed alone
    again = bad = 0
    if not nv:
        for i in sorted(results)[:: max(1, len(results) // 12)][:12]:
            if results[i]['status'] == 'ok':
                x = core.execute(mod, core.scenario(mod, seed, i, tier), tmp, shim)
                again += 1
                bad += x['digest'] != results[i]['digest']
    samples = []
    for i in sorted(results)[:400]:
        if results[i]['nontrivial'] and len(samples) < 2:
            sc = core.scenario(mod, seed, i, tier)
            s = json.dumps(sc)
            if len(s) < 6000 or not samples:
                samples.append(sc if len(s) < 12000 else s[:6000])
    cov = dict(
        evaluations=len(results), distinct_nontrivial=len(sigs),
        rule=mod.RULE, samples=samples or [core.scenario(mod, seed, 0, tier)],
        planned_runs=n, simulated_runs_per_hour=int(len(results) / max(wall, 1e-3) * 3600),
        seeds_per_hour=int(len(results) / max(wall, 1e-3) * 3600),
        simulated_seconds=round(sim, 3), scheduler_steps=steps, operations=ops, client_switches=sw,
        faults_fired=dict(sorted(faults.items())), probes=dict(sorted(probes.items())),
        distinct_interleavings=len(inters), distinct_states=len(states), state_measure=mod.STATE,
        components_real=mod.REAL, components_stub=mod.STUB,
        determinism=dict(re_executed=again, mismatches=bad), lanes=jobs)
    d = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
             assumptions=mod.ASSUME, wall_s=round(wall, 2), violations=nv)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
    os.replace(p + '.tmp', p)


def do_replay(mod, rep, tmp, shim):
    from sim import core
    sc = dict(rep['scenario'], _keep=True)
    res = core.execute(mod, sc, tmp, shim)
    k = core.judge(res)
    print(json.dumps(dict(status=res['status'], kind=k, digest=res['digest'], violations=res['violations'],
                          events=res['events']), indent=1))
    if k is not None:
        print(f'REPLAYED property={rep["property"]} kind={k} same_kind={k == rep["kind"]} '
              f'same_digest={res["digest"] == rep["digest"]}')
        print(f'VIOLATION property={rep["property"]} replay={sys.argv[2]}')
        return 1
    print(f'replay of {rep["property"]} did not fail (status {res["status"]})')
    return 0 if res['status'] == 'ok' else 2


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
