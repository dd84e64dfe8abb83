#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property from checks/*/{property,spec}.py, findings, planted bugs."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(ROOT, 'checks')]
out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read()]
out.append('\n## Properties\n')
seeds = {}
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f)); m['id'] = os.path.basename(os.path.dirname(f)); seeds.setdefault(m['property'], []).append(m)
for f in sorted(glob.glob(ROOT + '/checks/*/property.py')):
    ns = {'__file__': f}; exec(open(f).read(), ns)
    p = ns['P']
    sf = os.path.join(os.path.dirname(f), 'spec.py')
    out.append('### %s. %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    if os.path.exists(sf):
        sp = {'__file__': sf}; exec(open(sf).read(), sp)
        out.append('* Decided by: %s (`%s`).' % (ns.get('TECHNIQUE'), sp['LEVEL']))
        out.append('* Enumerated: %s' % sp['RULE'])
        for t, b in sp['BOUNDS'].items(): out.append('* Bounds, %s: %s' % (t, b))
        for a in sp.get('ASSUMPTIONS', []): out.append('* Assumes: %s' % a)
        ev = os.path.join(ROOT, 'evidence', p['id'] + '.json')
        out.append('* Runs: %s.' % ', '.join('`checks/%s`' % h for q in sp['PROGRAMS'] for h in q['harness']))
    if ns.get('NOTE'): out.append('* Note: %s' % ns['NOTE'])
    if ns.get('NOT_APPLICABLE'): out.append('* Not applicable: %s' % ns['NOT_APPLICABLE'])
    out.append('* Why tests cannot settle it: %s' % (p['why_tests_cant']))
    for s in seeds.get(p['id'], []): out.append('* Planted bug `%s` (%s): %s. Needs: %s.' % (s['id'], s.get('caught', 'caught'), s['what_it_breaks'].rstrip('.'), s['needs'].rstrip('.')))
    out.append('')
out.append('## Defects found in SourceXtractor++\n')
for l in open(ROOT + '/known_findings.txt'):
    l = l.strip()
    if l and not l.startswith('#'): out.append('* ' + l)
out.append('')
out.append(open(os.path.join(ROOT, 'tools', 'design_tail.md')).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
