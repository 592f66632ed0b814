#!/usr/bin/env python3
"""docgen.py: rewrites the generated half of DESIGN.md (per-property decisions, planted bugs, findings) from props/, meta_props, seeded/ and known_findings.json"""
import sys, os, json, glob
D = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [D + '/engine', D + '/props', D]
import importlib
M = json.load(open(D + '/MANIFEST.json')); P = {json.loads(l)['id']: json.loads(l) for l in open(D + '/properties.jsonl')}; K = json.load(open(D + '/known_findings.json'))
out = []
w = out.append
w('## Properties: what decides each\n')
for i in P:
    m = importlib.import_module(i.lower()); w('### %s %s' % (i, P[i]['title']))
    us = getattr(m, 'UNITS', [])
    if us:
        w('Proved (for all inputs, unless an assumption below says otherwise):')
        for u in us: w('- `%s`: %s' % (u.__name__, ' '.join((u.__doc__ or '').split())))
    else: w('No proof unit; bounded contract check only (level *bounded*): %s' % (getattr(m, 'WHYNOT', '') or next((c.get('level', {}).get('text', '') if isinstance(c.get('level'), dict) else '' for c in M['checks'] if i in json.dumps(c)), '')))
    if us and getattr(m, 'WHYNOT', ''): w('Beyond the verifier: ' + m.WHYNOT + '.')
    for nm, t in (('BOUNDED', 'Bounded'), ('TRUSTED', 'Trusted'), ('ASSUMPTIONS', 'Assumed')):
        v = getattr(m, nm, [])
        if v: w('%s: %s.' % (t, '; '.join(v)))
    w('')
w('## Planted bugs (`seeded/`) and the checks that catch them\n')
for f in sorted(glob.glob(D + '/seeded/*/meta.json')):
    d = json.load(open(f)); b = f.split('/')[-2]; w('- %s → **%s**%s. Needs: %s. Breaks: %s' % (b, d['property'], '' if b not in MISSED else ' (missed)', d['needs'], d['what_it_breaks'])) if 0 else w('- %s, caught by **%s**. Needs: %s. Breaks: %s.' % (b, d['property'], d['needs'], d['what_it_breaks']))
w('\n## Findings\n\nRecorded, not repaired (each run prints them as KNOWN-FINDING):\n')
for f in K['findings']: w('- %s `%s`: %s' % (f['property'], f['key'], f['what']))
w('\nRepaired by `fix:` commits in /repo:\n')
for f in K['fixed']: w('- ' + f[7:])
s = open(D + '/DESIGN.md').read(); mark = '<!-- generated by docgen.py from here on -->'
open(D + '/DESIGN.md', 'w').write(s.split(mark)[0].rstrip() + '\n\n' + mark + '\n\n' + '\n'.join(out) + '\n')
