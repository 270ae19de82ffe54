#!/usr/bin/env python3
"""mkseed.py SPEC.py...: make /verif/seeded/<id>/ from SEEDS = [(id, property, file, [(old, new)...], demo_cc, needs, breaks), ...] (development aid)."""
import sys, os, json, subprocess, importlib.util, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -O1 -g %s -I"$PWD" "$here/demo.cc" %s -o "$d/demo" -pthread || exit 98
timeout 120 "$d/demo"
'''
for spec in sys.argv[1:]:
    m = importlib.util.spec_from_file_location('spec', spec); mod = importlib.util.module_from_spec(m); m.loader.exec_module(mod)
    for sid, prop, file, edits, demo, needs, breaks, *opt in mod.SEEDS:
        d = f'{V}/seeded/{sid}'
        os.makedirs(d, exist_ok=True)
        files = {}
        for e in edits:
            f, old, new = (file, *e) if len(e) == 2 else e
            t = files.get(f) or open('/repo/' + f).read()
            assert t.count(old) >= 1, (sid, 'not found', old)
            assert t.count(old) == 1, (sid, 'ambiguous', old, t.count(old))
            files[f] = t.replace(old, new)
        assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip(), 'repo dirty'
        for f, t in files.items():
            open('/repo/' + f, 'w').write(t)
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cc', 'w').write(demo.lstrip())
        o = opt[0] if opt else {}
        open(d + '/demo.sh', 'w').write(DEMO_SH % (o.get('flags', ''), o.get('src', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        print('made', sid)
