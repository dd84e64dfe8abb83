#!/usr/bin/env python3
"""tools/tryseed.py ID...: apply a planted change in /repo, build, run the stable tests, its demo and its property's check; undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    checkonly = '-c' in sys.argv
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in args or sorted(os.listdir(V + '/seeded')):
        d = '%s/seeded/%s' % (V, i)
        meta = json.load(open(d + '/meta.json'))
        assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is dirty'
        res = []
        if not checkonly:
            sh('bash /opt/vp/build.sh')
            r = sh('bash %s/demo.sh' % d, cwd='/repo'); res.append('demo clean: %d' % r.returncode)
            if r.returncode: res.append(r.stdout[-500:] + r.stderr[-1500:])
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: print(i, 'DOES NOT APPLY', r.stderr); continue
        try:
            if not checkonly:
                sh('bash /opt/vp/test.sh /tmp/ts.json'); t = json.load(open('/tmp/ts.json'))
                miss = stable - set(t['passed'])
                res.append('tests ok' if not miss else 'TESTS BROKEN %s' % sorted(miss)[:4])
                r = sh('bash %s/demo.sh' % d, cwd='/repo'); res.append('demo patched: %d' % r.returncode)
            t0 = time.time()
            r = sh('python3 check.py %s quick' % meta['property'], cwd=V)
            vl = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append('check %s: exit %d %s (%.0fs)' % (meta['property'], r.returncode, 'CAUGHT' if r.returncode == 1 and vl else 'MISSED', time.time() - t0))
            if r.returncode not in (0, 1): res.append(r.stdout[-500:] + r.stderr[-500:])
        finally:
            sh('git -C /repo checkout -- .')
        print(i, '|', ' | '.join(res), flush=True)
    if not checkonly: sh('bash /opt/vp/build.sh')
main()
