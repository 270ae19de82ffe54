#!/usr/bin/env python3
"""try.py HARNESS...: run harness files through the engine and summarise (development aid)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import run, tempfile, re
run.ensure_engine()
tier = 'thorough' if '-t' in sys.argv else 'quick'
mx = 8
for h in [a for a in sys.argv[1:] if a != '-t']:
    w = os.environ.get('TRYDIR') or tempfile.mkdtemp()
    try:
        rep = run.run_harness(h, w, tier)
    except run.Broken as e:
        print(str(e)[:1200]); continue
    f = run.findings_of(rep, {})
    dead, stuck = run.vacuity(rep, {})
    live = [r for r in rep['roots'] if r['reach_stated']]
    print(f"{h}: cells {len(live)} obl {rep['obligations']} findings {len(f)} dead {len(dead)} stuck {len(stuck)} unk {len(rep['unknown_object'])} wall {rep['wall']:.1f}")
    seen = {}
    for k, t in f:
        if 'VF_ALL' in os.environ: print(t.replace(chr(10), ' ')[:190])
        kk = re.sub(r'in cell .*', '', t)
        kk = re.sub(r' \([^)]*\)', '', re.sub(r'<[^-][^<>]*>', '', re.sub(r'<[^<>-]*>', '', kk)))
        if kk in seen: seen[kk][0] += 1
        else: seen[kk] = [1, t]
    for n, t in list(seen.values())[:mx]:
        print(f'[{n}x]', t[:700])
    if len(seen) > mx: print('...', len(seen) - mx, 'more kinds')
    for d in (dead + stuck)[:4]: print('DEAD/STUCK', d[:200])
    calls = {}
    for r in rep['roots']:
        for c in r['calls']: calls[c] = calls.get(c, 0) + 1
    if calls: print('calls', {k[:80]: v for k, v in list(calls.items())[:10]})
    for x in rep['unknown_object'][:2]: print('UNK', x['root'][:100], run.where(x['stack'])[:200])
