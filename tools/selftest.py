"""Determinism: the same runs must give the same digests with other lane counts, other hash seeds and in fresh interpreters.
   selftest.py [--runs N] [--seeds 1,2] [CHECK ...]"""
import glob, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    a, runs, seeds = sys.argv[1:], '150', ['1', '2']
    while a and a[0].startswith('--'):
        x = a.pop(0)
        if x == '--runs':
            runs = a.pop(0)
        elif x == '--seeds':
            seeds = a.pop(0).split(',')
    bad = n = 0
    with tempfile.TemporaryDirectory() as d:
        for c in a or ['C' + os.path.basename(p)[1:3] for p in sorted(glob.glob(V + '/sim/checks/c??.py'))]:
            for s in seeds:
                ref = None
                for jobs, hs in (('8', '0'), ('3', '12345'), ('8', '777'), ('5', '0')):
                    f = os.path.join(d, 'x')
                    o = subprocess.run([V + '/bin/check', c], capture_output=True, text=True,
                                       env={**os.environ, 'VERIF_SEED': s, 'SIM_RUNS': runs, 'SIM_JOBS': jobs, 'SIM_HASHSEED': hs, 'SIM_DIGESTS': f, 'SIM_NOSTOP': '1'})
                    g = open(f).read().splitlines()
                    n += len(g)
                    if ref is None:
                        ref = g
                    elif g != ref:
                        k = [x for x, y in zip(g, ref) if x != y]
                        bad += len(k)
                        print(f'{c} seed {s} jobs {jobs} hash seed {hs}: {len(k)} of {len(g)} runs differ, e.g. {k[:2]}', flush=True)
                    if o.returncode:
                        print(c, s, jobs, hs, 'exit', o.returncode, o.stdout[-300:])
            print(c, 'done', flush=True)
    print(f'{n} executions, {bad} differ')
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())
