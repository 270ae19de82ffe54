#!/usr/bin/env python3
"""mutate.py [-n PER_FILE] [-s SEED] [-j JOBS] [ID|FILE...]: change one token at a time in the files of the given
properties (all by default), run the properties' checks on the changed copy, list the changes nothing reports
(development aid: survivors are either equivalent changes or gaps)."""
import sys, os, re, random, json, subprocess, shutil, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def opt(k, d):
    if k in args:
        i = args.index(k); v = args[i + 1]; del args[i:i + 2]; return v
    return d
per, seed, jobs = int(opt('-n', 12)), int(opt('-s', 1)), int(opt('-j', 3))
props = [json.loads(l) for l in open(VERIF + '/properties.jsonl')]
man = {c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']}
byfile = {}
for p in props:
    if p['id'] in man:
        for f in p['anchors']['files']: byfile.setdefault(f, []).append(p['id'])
want = [f for f, ids in byfile.items() if not args or any(a in ids or f.endswith('/' + a) or f == a for a in args)]
RULES = [(r'(?<![<=>!+\-*/&|^%])<(?![<=])(?= )', ['<=', '>']), (r'(?<= )<=(?!>)', ['<']), (r'(?<= )>(?= )', ['>=', '<']), (r'(?<= )>=', ['>']),
         (r'==', ['!=']), (r'!=', ['==']), (r'&&(?= )', ['||']), (r'\|\|', ['&&']), (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']),
         (r'\+\+', ['--']), (r'--', ['++']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\|=', ['&=', '=']), (r'&=', ['|=', '=']), (r'(?<= )<<(?= )', ['>>']), (r'(?<= )>>(?= )', ['<<']),
         (r'(?<= )&(?= )', ['|']), (r'(?<= )\|(?= )', ['&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<=[(!])!(?=\w)', ['']), (r'(?<= )\*(?= )', ['/']), (r'(?<= )/(?= )', ['*']),
         (r'(?<= )%(?= )', ['/']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])(\d{1,9})(?=[uU]?[lL]*\b)(?!\.)', ['INC']),
         (r'(\d+\.\d*)f?', ['FINC']), (r'memory_order_(release|acquire|acq_rel)', ['memory_order_relaxed']), (r'^\t+(?!return\b|\}|\{|if\b|for\b|while\b|else\b|case\b|break\b|default\b|template\b|using\b|public|private|constexpr auto|static_assert)[^{}]*\);$', ['DEL']),
         (r'^\t\t+\w[\w\[\].>\-]* (=|\+=|-=|\|=|&=) [^{}]*;$', ['DEL']), (r'^\t\t+(\w[\w.\[\]]*)?(\+\+|--)?[\w.\[\]]*(\+\+|--)?;$', ['DEL']), (r'\bbreak;', [';']), (r'\bcontinue;', [';'])]
def mutants(path):
    lines = open(path).read().split('\n')
    out, cm = [], False
    for n, l in enumerate(lines):
        s = l.split('//')[0]
        if cm:
            if '*/' in s: cm = False
            continue
        if '/*' in s and '*/' not in s: cm = True; continue
        if re.match(r'\s*(#|static_assert|using|template|requires|concept|namespace)', s): continue
        for rx, reps in RULES:
            for m in re.finditer(rx, s):
                if s[:m.start()].count('"') % 2: continue
                for r in reps:
                    t = m.group(0)
                    if r == 'INC': new = str(int(m.group(1)) + 1)
                    elif r == 'FINC': new = t.replace(m.group(1), str(float(m.group(1)) + 0.5))
                    elif r == 'DEL': new = ';'
                    else: new = r
                    if new == t: continue
                    out.append((n, l[:m.start()] + new + l[m.end():]))
    seen, res = set(), []
    for x in out:
        if x not in seen: seen.add(x); res.append(x)
    return lines, res
work = []
for f in want:
    lines, ms = mutants('/repo/' + f)
    random.Random(f'{seed}{f}').shuffle(ms)
    for k, (n, new) in enumerate(ms[:per]): work.append((f, lines, n, new, k))
random.Random(seed).shuffle(work)
stat = {}
def one(job):
    f, lines, n, new, k = job
    d = f'/tmp/mut/{os.getpid()}-{os.path.basename(f)}-{k}'
    shutil.copytree('/repo/util', d + '/util')
    L = list(lines); L[n] = new
    open(d + '/' + f, 'w').write('\n'.join(L))
    res = 'survived'
    for p in byfile[f]:
        try:
            r = subprocess.run(['python3', 'checks/run.py', p], cwd=VERIF, env={**os.environ, 'VF_REPO': d}, capture_output=True, text=True, timeout=900)
            if r.returncode == 1: res = 'caught ' + p; break
            if r.returncode: res = 'nocompile' if 'does not compile' in r.stdout + r.stderr else 'broken ' + p + ' ' + (r.stdout + r.stderr).strip().split('\n')[0][:150]
            if res == 'nocompile': break
        except subprocess.TimeoutExpired: res = 'timeout ' + p
    shutil.rmtree(d)
    return job, res
with cf.ThreadPoolExecutor(jobs) as ex:
    for (f, lines, n, new, k), res in ex.map(one, work):
        s = stat.setdefault(f, {}); s[res.split()[0]] = s.get(res.split()[0], 0) + 1
        if res.split()[0] in ('survived', 'timeout', 'broken'):
            print(f'{res} {byfile[f]} {f}:{n+1}\n   - {lines[n].strip()}\n   + {new.strip()}', flush=True)
print('TOTAL', {k: sum(s.get(k, 0) for s in stat.values()) for k in ('caught', 'survived', 'nocompile', 'timeout', 'broken')})
for f, s in sorted(stat.items()): print('  ', f, s)
