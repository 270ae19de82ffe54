#!/usr/bin/env python3
"""seedcheck.py [-q] ID...: confirm a planted bug (builds, passes tests, demo discriminates) and run its property's check."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open('/opt/vp/BASELINE.json'))
stable = set(base.get('stable') or base.get('passed') or base.get('tests') or [])
quick = '-q' in sys.argv
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
ids = [a for a in sys.argv[1:] if a != '-q'] or sorted(os.listdir(V + '/seeded'))
for sid in ids:
    d = f'{V}/seeded/{sid}'
    prop = json.load(open(d + '/meta.json'))['property']
    assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip()
    msg = []
    if not quick:
        r = sh('bash', d + '/demo.sh', cwd='/repo')
        if r.returncode: msg.append(f'DEMO FAILS UNPATCHED rc={r.returncode} {r.stderr[-300:]}')
    r = sh('git', '-C', '/repo', 'apply', d + '/patch.diff')
    if r.returncode: print(sid, 'DOES NOT APPLY'); continue
    try:
        if not quick:
            r = sh('bash', '/opt/vp/build.sh', cwd='/repo')
            if r.returncode: msg.append('BUILD FAILS ' + (r.stdout + r.stderr)[-300:])
            else:
                r = sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json', cwd='/repo')
                t = json.load(open('/tmp/seedtest.json'))
                miss = stable - set(t['passed'])
                if miss: msg.append(f'TESTS FAIL {len(miss)} {sorted(miss)[:2]}')
                r = sh('bash', d + '/demo.sh', cwd='/repo')
                if r.returncode in (0, 98, 99): msg.append(f'DEMO rc={r.returncode} WITH PATCH {r.stderr[-300:]}')
        t0 = time.time()
        r = sh('python3', V + '/checks/run.py', prop, '--tier', 'quick', cwd=V)
        caught = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
        first = [l for l in r.stdout.split('\n') if l.strip()][1:3]
        print(sid, prop, 'CAUGHT' if caught else f'MISSED rc={r.returncode}', f'{time.time()-t0:.0f}s', msg or 'valid' if not quick else msg, (first if not caught else first[:1]), flush=True)
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
