"""Write MANIFEST.json from the check modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
PURE = {
}
NOTE = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in PURE:
        na.append({'property': i, 'reason': PURE[i]})
    elif os.path.exists(f'{V}/sim/checks/{i.lower()}.py'):
        checks.append({
            'property': i,
            'quick_cmd': f'bin/check {i}',
            'thorough_cmd': f'VERIF_TIER=thorough bin/check {i}',
            'technique': 'deterministic simulation with fault injection: seeded search over client schedules, '
                         'fault placements and crash points, judged against an executable reference model',
            'level': 'exploration',
            'level_note': 'Seeded sampling of histories, schedules and faults, not exhaustive: a pass means no violation '
                          'in the runs counted in the evidence file. Assumptions and the split into real and stub '
                          'components are listed there and in DESIGN.md.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all seams are outside it (LD_PRELOAD libc shim, sys.settrace scheduler, injected '
              'streams, clocks and engines). Checks import pyhipp straight from /repo/src, so they always see the '
              'current tree. Known and fixed findings: known_findings.jsonl.'}
with open(f'{V}/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
