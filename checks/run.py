#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]: decide one property from /repo's current sources.

exit 0: every obligation discharged (or only listed known findings)
exit 1: a 'VIOLATION property=<id> replay=<path>' line was printed
exit 2: the analysis itself is broken (a harness no longer compiles, an anchor vanished, a rule matched nothing)
"""
import sys, os, json, time, subprocess, re, hashlib, concurrent.futures as cf, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'checks'))
BUILD = os.path.join(VERIF, 'build')
VFA = os.path.join(BUILD, 'vfa')
JOBS = int(os.environ.get('VF_JOBS', '8'))

CXXFLAGS = ('-std=c++20 -O2 -Xclang -disable-llvm-passes -Xclang -disable-lifetime-markers -g1 -S -emit-llvm '
            '-fno-access-control -fno-strict-aliasing -fno-finite-loops -fno-exceptions -fno-threadsafe-statics '
            '-fno-delete-null-pointer-checks '
            '-fsanitize=bounds,signed-integer-overflow,shift,float-cast-overflow,integer-divide-by-zero,return '
            '-fsanitize-trap=all -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS -Wno-everything').split()


class Refuted(Exception):
    """The compiler itself refutes an obligation: a stated type-level fact fails, or repository code cannot be instantiated."""


class Broken(Exception):
    pass


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(VERIF, 'engine', f) for f in ('vfa.cpp', 'linear.hpp', 'bits.hpp', 'fp.hpp', 'Makefile')]
    if os.path.exists(VFA) and all(os.path.getmtime(VFA) >= os.path.getmtime(s) for s in src):
        return
    import fcntl
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(VFA) and all(os.path.getmtime(VFA) >= os.path.getmtime(s) for s in src):
            return
        r = subprocess.run(['make', '-s', '-C', os.path.join(VERIF, 'engine')], capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot build the engine:\n' + r.stderr[-3000:])


def short(path):
    for base in (REPO + '/', VERIF + '/'):
        if path.startswith(base):
            return path[len(base):]
    return path.replace('/usr/include/', '')


START = time.time()
DEADLINE = {'quick': START + 560, 'thorough': START + 3000}


def run_harness(h, work, tier, extra=()):
    """One harness translation unit through clang and vfa. Returns the report."""
    src = os.path.join(VERIF, 'harness', h)
    text = open(src).read()
    ll = os.path.join(work, h + '.ll')
    js = os.path.join(work, h + '.json')
    cflags = re.findall(r'//\s*CXXFLAGS:\s*(.*)', text)
    vflags = re.findall(r'//\s*VFA:\s*(.*)', text)
    if tier == 'thorough':
        cflags.append('-DVF_THOROUGH')
    cmd = ['clang++-18', *CXXFLAGS, '-I' + os.path.join(VERIF, 'harness'), '-I' + REPO, *' '.join(cflags).split(), *extra, src, '-o', ll]
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        for m in re.finditer(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', r.stderr, re.M):
            inrepo = m.group(1).startswith(REPO + '/')
            if inrepo or 'static assertion failed' in m.group(3):
                what = 'cannot be instantiated' if inrepo else 'stated fact about types or constants fails'
                raise Refuted(f'{what}: {m.group(3)[:300]}\n      at {short(m.group(1))}:{m.group(2)}, analysing {h}')
            break
        raise Broken(f'harness {h} does not compile against {REPO}:\n' + r.stderr[:4000])
    nroots = len(re.findall(r'^define [^\n]*__vf_cell', open(ll).read(), re.M))
    shards = max(1, min(JOBS, nroots // 12))

    def one(i):
        try:
            return engine(i)
        except subprocess.TimeoutExpired:
            return None

    def engine(i):
        return subprocess.run([VFA, '-unroll-threshold=100000', *' '.join(vflags).split(), ll, f'-shard={i}', f'-shards={shards}', f'-o-json={js}.{i}', f'-o-ir={js}.{i}.opt.ll'],
                              capture_output=True, text=True, timeout=max(30, DEADLINE[tier] - time.time()))
    with cf.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    rep = {}
    if None in rs:
        raise Refuted(f'undecided: the analysis of {h} does not come to an end; its loops or states are no longer bounded as they were')
    for i, r in enumerate(rs):
        if r.returncode:
            raise Broken(f'engine failed (status {r.returncode}) on {h}:\n' + r.stderr[:4000])
        part = json.load(open(f'{js}.{i}'))
        for k, v in part.items():
            rep[k] = rep[k] + v if k in rep else v
        os.remove(f'{js}.{i}')
        if os.environ.get('VF_KEEP'):
            with open(js + '.opt.ll', 'a' if i else 'w') as f:
                f.write(open(f'{js}.{i}.opt.ll').read())
        os.remove(f'{js}.{i}.opt.ll')
    rep['harness'] = h
    rep['wall'] = time.time() - t
    os.remove(ll)
    return rep


def where(stack):
    return ' <- '.join(f"{short(s['file'])}:{s['line']} ({s['fn']})" for s in stack)


def findings_of(rep, opts):
    """Residual obligations of a report as (key, text)."""
    out = []
    seen = set()
    for x in rep['residual']:
        inner = x['stack'][0] if x['stack'] else {'file': '?', 'line': 0, 'fn': '?'}
        code = next((s for s in x['stack'] if s['file'].startswith(REPO + '/')), None)
        key = f"{rep['harness']}|{x['root']}|{x['kind']}|{x['what']}|{(code or inner)['fn']}"
        k2 = (x['root'], x['kind'], x['what'], inner['file'], inner['line'])
        if k2 in seen:
            continue
        seen.add(k2)
        kind = {'prove': 'obligation not met', 'bounds': 'memory access may leave its object', 'ub': 'undefined behaviour / failed library precondition',
                'recursion': 'recursion deeper than the analysed bound'}[x['kind']]
        out.append((key, f"{kind}: {x['what']}\n      in cell {x['root']}\n      at {where(x['stack'])}"))
    return out


def vacuity(rep, opts):
    """Roots whose witness vanished."""
    dead, stuck = [], []
    for r in rep['roots']:
        if r['reach_stated'] and not r['reach'] and not r['residual']:
            (stuck if r['loops'] else dead).append(r['name'])
    return dead, stuck


def load_known(pid):
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import registry
    spec = registry.CHECKS[pid]
    work = os.path.join(BUILD, f'work-{pid}-{os.getpid()}')
    os.makedirs(work, exist_ok=True)
    problems, viol, cov = [], [], {}
    try:
        harnesses = list(spec.get('harness', []))
        if tier == 'thorough':
            harnesses += spec.get('harness_thorough', [])
        reps = []
        if harnesses:
            ensure_engine()
            with cf.ThreadPoolExecutor(JOBS) as ex:
                futs = [ex.submit(run_harness, h, work, tier) for h in harnesses]
                for f in futs:
                    try:
                        reps.append(f.result())
                    except Refuted as e:
                        viol.append((f"compile|{str(e)}", str(e)))
                    except Broken as e:
                        problems.append(str(e))
        nroots = ncells = nobl = nexp = nb = 0
        functions = set()
        for rep in reps:
            for key, text in findings_of(rep, spec):
                viol.append((key, text))
            dead, stuck = vacuity(rep, spec)
            for s in stuck:
                viol.append((f"{rep['harness']}|{s}|stuck||", f"the code under analysis never returns\n      in cell {s}"))
            for d in dead:
                problems.append(f"{rep['harness']}: vacuous cell {d}")
            live = [r for r in rep['roots'] if r['reach_stated']]
            nroots += len(live)
            nobl += rep['obligations']; nexp += rep['explicit_obligations']; nb += rep['bounds_obligations']
            functions |= {':'.join(a.split(':')[:2]) for a in rep['analysed']}
            if 'unknown_ok' in spec and not spec['unknown_ok'] and rep['unknown_object']:
                for u in rep['unknown_object']:
                    viol.append((f"{rep['harness']}|{u['root']}|unknown-object||", f"access through a pointer whose object cannot be determined\n      in cell {u['root']}\n      at {where(u['stack'])}"))
            allowed = spec.get('calls_allowed')
            if allowed is not None:
                for r in rep['roots']:
                    for c in r['calls']:
                        if not any(re.search(a, c) for a in allowed):
                            viol.append((f"{rep['harness']}|{r['name']}|call|{c}|", f"call leaves the analysed code: {c}\n      in cell {r['name']}"))
        if reps:
            if nroots < spec.get('min_roots', 1):
                problems.append(f'only {nroots} live cells, expected at least {spec.get("min_roots", 1)}')
            if not functions and not problems:
                problems.append('no function of the repository was analysed')
            cov.update(obligations=nobl, discharged=nobl - len(viol), stated_obligations=nexp, bounds_obligations=nb, cells=nroots,
                       repo_functions_analysed=sorted(functions), harnesses=[r['harness'] for r in reps],
                       loop_invariants=sum(r['invariants'] for r in reps), affine_relations=sum(r['affine_relations'] for r in reps))
        for fn in spec.get('custom', []):
            try:
                res = fn(REPO, work, tier)
            except Broken as e:
                problems.append(str(e)); continue
            for k, t in res.get('violations', []):
                viol.append((k, t))
            problems += res.get('problems', [])
            for k, v in res.get('coverage', {}).items():
                if isinstance(v, (int, float)) and k in cov:
                    cov[k] += v
                elif isinstance(v, list) and k in cov:
                    cov[k] = sorted(set(cov[k]) | set(v))
                else:
                    cov[k] = v
    except Broken as e:
        problems.append(str(e))
    finally:
        if not os.environ.get('VF_KEEP'):
            subprocess.run(['rm', '-rf', work])

    known = load_known(pid)
    new, hit = [], {}
    for key, text in viol:
        m = next((i for i, (rx, _) in enumerate(known) if rx.search(key)), None)
        if m is None:
            new.append((key, text))
        else:
            hit[m] = hit.get(m, 0) + 1
    for i, n in hit.items():
        print(f'KNOWN-FINDING: property={pid} {known[i][1]}')
    cov['explanation'] = spec['explanation'] if 'explanation' in spec else 'static analysis, see DESIGN.md'
    cov['rule'] = spec.get('rule', '')
    cov['known_findings_seen'] = len(hit)
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'other'), coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {cov.get('cells', 0)} cells, {cov.get('obligations', 0)} obligations, "
          f"{len(cov.get('repo_functions_analysed', []))} repo functions, {ev['wall_s']} s")
    rp0 = os.path.join(VERIF, 'evidence', f'{pid}.violation.txt')
    if os.path.exists(rp0):
        os.remove(rp0)
    if new:
        rp = os.path.join(VERIF, 'evidence', f'{pid}.violation.txt')
        with open(rp, 'w') as f:
            f.write(f'property {pid}, {len(new)} unmet obligation(s)\n')
            for k, t in new:
                f.write(f'\n* {t}\n      key {k}\n')
        for k, t in new[:12]:
            print('  * ' + t)
        if len(new) > 12:
            print(f'  ... {len(new) - 12} more in {rp}')
        for p in problems[:3]:
            print('  note: ' + p)
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if problems:
        for p in problems[:10]:
            print('ANALYSIS BROKEN: ' + p)
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
