#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, glob, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'checks'))

def load():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'checks', '*', 'property.py'))):
        ns = {"__file__": f}
        exec(open(f).read(), ns)
        p = ns['P']
        p['_technique'] = ns.get('TECHNIQUE')
        p['_note'] = ns.get('NOTE')
        p['_na'] = ns.get('NOT_APPLICABLE')
        p['_dir'] = os.path.dirname(f)
        out.append(p)
    return out

def main():
    ps = load()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as o:
        for p in ps:
            assert len(p['title']) <= 80, p['id']
            o.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in ps:
        spec = os.path.join(p['_dir'], 'spec.py')
        if p['_na'] or not os.path.exists(spec):
            na.append({'property': p['id'], 'reason': p['_na'] or 'check not built yet'})
            continue
        ns = {"__file__": spec}
        exec(open(spec).read(), ns)
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': p['_technique'], 'level': ns['LEVEL'], 'level_note': p['_note'],
                       'evidence_file': 'evidence/%s.json' % p['id']})
    man = {'version': 1, 'setup_cmd': 'mkdir -p build evidence replays && g++ --version >/dev/null && ninja --version >/dev/null',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: harnesses in /verif/checks compile the real sources of /repo against the stand-in headers of /verif/shim (Elements and Alexandria are not installed).'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as o:
        json.dump(man, o, indent=1)
        o.write('\n')
main()
