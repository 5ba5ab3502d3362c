"""Rewrite the table of planted changes at the end of DESIGN.md.  mktable.py [MISSED-ID ...]"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
i = s.index('<!--PLANTED-->')
t = '<!--PLANTED-->\n### Planted changes\n\nEach is caught by the check of its own property (quick tier)%s.\n\n| change | needs |\n|---|---|\n' % (
    ', except ' + ', '.join(sys.argv[1:]) if sys.argv[1:] else '')
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    t += f'| {d} | {m["needs"]} |\n'
open(V + '/DESIGN.md', 'w').write(s[:i] + t)
