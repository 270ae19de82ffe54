#!/usr/bin/env python3
"""refac.py SPEC.py [IDs]: behaviour-preserving edits, each in a scratch copy of /repo; the named checks must stay quiet (development aid).
SPEC: REFACS = [(id, 'Cxx Cyy', file, [(old, new)...]), ...]"""
import sys, os, subprocess, importlib.util, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = importlib.util.spec_from_file_location('spec', sys.argv[1]); mod = importlib.util.module_from_spec(m); m.loader.exec_module(mod)
for rid, props, file, edits in mod.REFACS:
    if len(sys.argv) > 2 and not any(a in rid or a in props for a in sys.argv[2:]):
        continue
    d = tempfile.mkdtemp(prefix='refac.')
    try:
        shutil.copytree('/repo/util', d + '/util')
        norm = lambda s: '\n'.join(l for l in s.split('\n') if l.strip())
        t = norm(open(d + '/' + file).read()) + '\n'
        bad = False
        for old, new in edits:
            old = norm(old) + ('\n' if old.endswith('\n') else '')
            if t.count(old) < 1:
                print(rid, 'NOT FOUND:', old[:80]); bad = True; continue
            t = t.replace(old, new)
        if bad: continue
        open(d + '/' + file, 'w').write(t)
        if os.environ.get('KEEP'):
            shutil.rmtree(os.environ['KEEP'], ignore_errors=True); shutil.copytree(d, os.environ['KEEP']); continue
        for p in props.split():
            t0 = time.time()
            r = subprocess.run([sys.executable, V + '/checks/run.py', p], capture_output=True, text=True, env=dict(os.environ, VF_REPO=d, VERIF_TIER='quick'))
            lines = [l for l in r.stdout.split('\n') if l.startswith('  *')]
            print(rid, p, 'quiet' if r.returncode == 0 else f'ALARM rc={r.returncode}', f'{time.time()-t0:.0f}s', len(lines), lines[:2], r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)
    finally:
        shutil.rmtree(d)
