"""Rules over the event paths that engine/vft.cpp enumerates (memory ordering, ownership, wait-freedom)."""
import json, os, subprocess
import run
FLAGS = ('-std=c++20 -O1 -Xclang -disable-llvm-passes -g1 -S -emit-llvm -fno-access-control -fno-exceptions '
         '-fno-threadsafe-statics -Wno-everything').split()
ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


def trace(repo, work, h, extra=()):
    run.ensure_engine()
    ll = os.path.join(work, h + '.trace.ll'); js = ll + '.json'
    r = subprocess.run(['clang++-18', *FLAGS, *extra, '-I' + os.path.join(run.VERIF, 'harness'), '-I' + repo, os.path.join(run.VERIF, 'harness', h), '-o', ll],
                       capture_output=True, text=True)
    if r.returncode:
        raise run.Broken(f'{h} does not compile against {repo}:\n' + r.stderr[:3000])
    r = subprocess.run([os.path.join(run.BUILD, 'vft'), ll, '-o-json=' + js], capture_output=True, text=True)
    if r.returncode:
        raise run.Broken(f'vft failed on {h}: ' + r.stderr[:2000])
    rep = json.load(open(js))
    for f in rep['functions']:
        parts = f['name'].split('__')
        f['kind'] = parts[0][4:]
        f['obj'] = parts[1]
        f['op'] = parts[2] if len(parts) > 2 else f['kind']
        f['layout'] = rep['globals'].get('vft_layout__' + f['obj'])
        if f['overflow']:
            raise run.Broken(f'{h}: too many paths in {f["name"]}')
    return rep['functions']


def loc(e):
    return run.where(e.get('stack') or []) or '?'


class Out:
    def __init__(self):
        self.v, self.seen = [], set()

    def bad(self, h, f, rule, text, e):
        k = (f['name'], rule)
        if k in self.seen:
            return
        self.seen.add(k)
        self.v.append((f"{h}|{f['name']}|{rule}||", f"{text}\n      in {f['op']} ({f['name']})\n      at {loc(e)}"))


def repo_functions(fs, repo):
    out = set()
    for f in fs:
        for p in f['paths']:
            for e in p['events']:
                for s in e.get('stack') or []:
                    if s['file'].startswith(repo + '/'):
                        out.add(s['file'][len(repo) + 1:] + ':' + s['fn'])
    return sorted(out)


def fifo_events(f):
    """(path, [(event, cls)]) with cls: head tail slot config local"""
    L = f['layout']
    for p in f['paths']:
        out = []
        for e in p['events']:
            cls = None
            if e['ev'] in ('load', 'store', 'rmw', 'cas'):
                if e['base'] == 'arg0':
                    if not e['var'] and e['off'] == L[0]: cls = 'head'
                    elif not e['var'] and e['off'] == L[1]: cls = 'tail'
                    elif L[3] and (e['var'] or L[2] <= e['off'] < L[2] + L[3]): cls = 'slot'
                    elif e['var']: cls = 'slot'
                    else: cls = ('config', e['off'])
                elif e['base'] in ('local', 'arg1', 'arg2'): cls = 'local'
                else: cls = 'slot'
            out.append((e, cls))
        yield p, out


def fifo_order(repo, work, tier):
    h = 'trace_fifo.cc'
    fs = trace(repo, work, h)
    o = Out()
    paths = events = slots = pubs = 0
    cfg = {}
    for f in fs:
        own, other = ('head', 'tail') if f['kind'] == 'prod' else ('tail', 'head')
        for p, evs in fifo_events(f):
            paths += 1; events += len(evs)
            is_slot = [i for i, (e, c) in enumerate(evs) if c == 'slot']
            slots += len(is_slot)
            stores = []
            other_loads = []
            acq_fence = rel_fence = -1
            for i, (e, c) in enumerate(evs):
                if isinstance(c, tuple):
                    cfg.setdefault((f['obj'], c[1]), {}).setdefault((f['kind'], e['ev'] != 'load'), (f, e))
                    continue
                if e['ev'] == 'fence' and not e['single']:
                    if e['ord'] in ACQ: acq_fence = i
                    if e['ord'] in REL: rel_fence = i
                if c not in ('head', 'tail'):
                    continue
                if e['ord'] == 'plain':
                    o.bad(h, f, 'plain', f'position counter ({c}) accessed without an atomic operation: races with the other side', e)
                if e['ev'] in ('store', 'rmw', 'cas'):
                    if c == other:
                        o.bad(h, f, 'foreign', f'the {"producer" if own == "head" else "consumer"} writes the other side\'s position ({c})', e)
                    else:
                        stores.append(i)
                if e['ev'] in ('load', 'rmw', 'cas') and c == other:
                    other_loads.append(i)
            for i in stores:
                e = evs[i][0]
                before = [j for j in is_slot if j < i]
                fenced = rel_fence >= 0 and any(evs[j][0]['ev'] == 'fence' and evs[j][0]['ord'] in REL and not evs[j][0]['single'] and all(k < j for k in before) for j in range(i))
                if e['ord'] not in REL and not fenced:
                    o.bad(h, f, 'release', 'position published without release ordering: the other side may see the new position before the slot access is done', e)
                pubs += 1
            for j in is_slot:
                e = evs[j][0]
                if any(i < j for i in stores):
                    o.bad(h, f, 'slot-after-publish', 'slot accessed after the position was published: the other side may already be using it', e)
                got = [i for i in other_loads if i < j]
                if not got:
                    o.bad(h, f, 'no-acquire', 'slot accessed without looking at the other side\'s position first', e)
                for i in got:
                    fenced = any(i < k < j and evs[k][0]['ev'] == 'fence' and not evs[k][0]['single'] and evs[k][0]['ord'] in ACQ for k in range(len(evs)))
                    if evs[i][0]['ord'] not in ACQ and not fenced:
                        o.bad(h, f, 'acquire', 'the other side\'s position is read without acquire ordering before the slot is accessed', evs[i][0])
            if len(stores) > 1:
                o.bad(h, f, 'twice', 'position published twice in one operation: an intermediate position is visible', evs[stores[1]][0])
    for (obj, off), acc in cfg.items():
        writers = [k for (k, w) in acc if w]
        if writers and len({k for (k, w) in acc}) > 1:
            f, e = acc[(writers[0], True)]
            o.bad(h, f, 'shared-plain', f'unsynchronised member at offset {off} is written by one side and used by the other', e)
    probs = []
    if slots < 20 or pubs < 40:
        probs.append(f'{h}: only {slots} slot accesses and {pubs} publications seen')
    return dict(violations=o.v, problems=probs,
                coverage=dict(paths=paths, events=events, slot_accesses=slots, publications=pubs, operations=len(fs), repo_functions_analysed=repo_functions(fs, repo),
                              obligations=slots + pubs, discharged=slots + pubs - len(o.v)))


ALLOWED_CALL = ('vft_ext_',)


def wait_free(harnesses):
    def check(repo, work, tier):
        o = Out()
        n = paths = 0
        funcs = []
        for h in harnesses:
            fs = trace(repo, work, h)
            funcs += repo_functions(fs, repo)
            for f in fs:
                n += 1
                for p in f['paths']:
                    paths += 1
                    for e in p['events']:
                        if e['ev'] == 'loop':
                            o.bad(h, f, 'loop', 'number of steps is not bounded: a loop depends on what others do or on unknown data', e)
                        elif e['ev'] == 'call' and not e['fn'].startswith(ALLOWED_CALL):
                            o.bad(h, f, 'call', f'calls out of the operation: {e["fn"]} may block, allocate or call the system', e)
        return dict(violations=o.v, coverage=dict(paths=paths, operations=n, repo_functions_analysed=funcs, obligations=paths, discharged=paths - len(o.v)))
    return check


def pool_claim(repo, work, tier):
    h = 'trace_pool.cc'
    fs = trace(repo, work, h)
    o = Out()
    paths = claims = 0
    for f in fs:
        flags, n, data, dsz = f['layout']
        for p in f['paths']:
            paths += 1
            last = p['events'][-1] if p['events'] else {}
            if f['kind'] == 'clear':
                claims += n
                freed = set()
                for e in p['events']:
                    if e['ev'] not in ('load', 'store', 'rmw', 'cas', 'call'):
                        continue
                    if e['ev'] == 'call' or e['base'] not in ('arg0', 'local'):
                        o.bad(h, f, 'alias', 'call or access the analysis cannot attribute', e)
                        continue
                    if e['base'] == 'local':
                        continue
                    isflag = flags <= e['off'] < flags + n
                    if e['var']:
                        o.bad(h, f, 'index', 'index not determined', e)
                    elif isflag and e['ord'] == 'plain':
                        o.bad(h, f, 'plain', 'slot flag accessed without an atomic operation', e)
                    elif isflag and e['ev'] != 'load':
                        if e.get('val', e.get('desired')) != 0 or e.get('op', 'xchg') not in ('xchg', 'and'):
                            o.bad(h, f, 'clear-value', 'clearing must mark slots unused', e)
                        if e['ord'] not in REL:
                            o.bad(h, f, 'clear-order', 'slot given back without release ordering: the next owner may miss the reset', e)
                        freed.add(e['off'] - flags)
                    elif e['ev'] == 'store' and data <= e['off'] < data + dsz:
                        first, last_ = (e['off'] - data) * n // dsz, (e['off'] + max(e['size'], 1) - 1 - data) * n // dsz
                        for i in range(first, last_ + 1):
                            if i in freed:
                                o.bad(h, f, 'clear-data', 'object reset after its slot was given back: the next owner may already be using it', e)
                if p['ret'] != 'unreachable' and len(freed) < n:
                    o.bad(h, f, 'clear-all', 'a path that does not give back every slot', last)
                continue
            cas = {}
            held = []
            for e in p['events']:
                if e['ev'] in ('load', 'store', 'rmw', 'cas') and e['base'] not in ('arg0', 'local'):
                    o.bad(h, f, 'alias', 'access through an address the analysis cannot attribute', e)
                isflag = e['ev'] in ('load', 'store', 'rmw', 'cas') and e['base'] == 'arg0' and (e['var'] or flags <= e['off'] < flags + n)
                if isflag and e['ev'] == 'store' or isflag and e['ev'] == 'rmw' and 'id' not in e:
                    o.bad(h, f, 'unclaimed-write', 'slot flag changed other than by compare-and-swap or exchange: two callers can both take the slot', e)
                if isflag and e['ord'] == 'plain':
                    o.bad(h, f, 'plain', 'slot flag accessed without an atomic operation', e)
                if isflag and e['var']:
                    o.bad(h, f, 'index', 'flag index not determined', e)
                if e['ev'] == 'cas' or e['ev'] == 'rmw' and 'id' in e:
                    cas[e['id']] = e
                if e['ev'] == 'casresult' and e['ok']:
                    held.append(cas[e['id']])
                if e['ev'] in ('load', 'store') and e['base'] == 'arg0' and not isflag and e['ev'] == 'store' and data <= e['off'] < data + dsz:
                    if f['kind'] == 'claim' and not held:
                        o.bad(h, f, 'data', 'object written before its slot was claimed', e)
                    if f['kind'].startswith('release') and held:
                        o.bad(h, f, 'data', 'object written after its slot was given back', e)
            ret = p['ret']
            if f['kind'] == 'claim':
                claims += 1
                if ret in (None, 'loop', 'unreachable'):
                    if ret != 'unreachable':
                        o.bad(h, f, 'ret', 'the claimed index is not determined on some path', last)
                elif ret >= 0:
                    if len(held) != 1:
                        o.bad(h, f, 'claim', f'slot {ret} handed out although this call took {len(held)} slots', last)
                    else:
                        c = held[0]
                        if c['off'] != flags + ret:
                            o.bad(h, f, 'claim-index', f'slot {ret} handed out, but the claim was on another slot', c)
                        if not (c['expected'] == 0 and c['desired'] not in (0, None)):
                            o.bad(h, f, 'claim-value', 'a claim must take the flag from unused to used', c)
                        if c['ord'] not in ACQ:
                            o.bad(h, f, 'claim-order', 'claim without acquire ordering: the previous owner\'s writes may be seen late', c)
                else:
                    if held:
                        o.bad(h, f, 'leak', 'a slot was taken but reported as unavailable', held[0])
                    tried = {c['off'] - flags for c in cas.values() if not c['weak']}
                    looked = {e['off'] - flags for e in p['events'] if e['ev'] == 'load' and e['base'] == 'arg0'}
                    if len(tried | looked) < n:
                        o.bad(h, f, 'refuse', 'refused without trying every slot (or after an attempt that may fail spuriously)', last)
            elif f['kind'].startswith('release'):
                claims += 1
                idx = 0 if f['kind'] == 'release0' else n - 1
                if ret == 1:
                    if len(held) != 1 or held[0]['off'] != flags + idx or held[0]['desired'] != 0 or held[0]['expected'] in (0, None):
                        o.bad(h, f, 'release', 'reports the slot released without having taken its flag from used to unused', held[0] if held else last)
                    elif held[0]['ord'] not in REL:
                        o.bad(h, f, 'release-order', 'release without release ordering: the next owner may miss this owner\'s writes', held[0])
                elif ret == 0:
                    if held:
                        o.bad(h, f, 'release-lost', 'slot released but reported as not released', held[0])
                    if any(c['weak'] for c in cas.values()):
                        o.bad(h, f, 'weak', 'release may fail spuriously', last)
                else:
                    o.bad(h, f, 'ret', 'result is not determined by the flag', last)
            else:
                for e in p['events']:
                    if e['ev'] == 'load' and e['base'] == 'arg0' and e['ord'] not in ACQ:
                        o.bad(h, f, 'query-order', 'used flag read without acquire ordering', e)
    probs = [] if claims > 20 else [f'{h}: only {claims} claim paths seen']
    return dict(violations=o.v, problems=probs, coverage=dict(paths=paths, claim_paths=claims, operations=len(fs), repo_functions_analysed=repo_functions(fs, repo), obligations=claims, discharged=claims - len(o.v)))


def handoff(repo, work, tier):
    h = 'trace_handoff.cc'
    fs = trace(repo, work, h)
    o = Out()
    paths = reads = 0
    for f in fs:
        flag, size = f['layout']
        for p in f['paths']:
            paths += 1
            taken = cleared = None
            nread = 0
            for e in p['events']:
                if e['ev'] in ('load', 'store', 'rmw', 'cas') and e['base'] == 'arg0' and e['off'] == flag and not e['var']:
                    if e['ord'] == 'plain':
                        o.bad(h, f, 'plain', 'new-data flag accessed without an atomic operation', e)
                    if f['kind'] == 'mark':
                        if e['ev'] != 'load' and e['ord'] not in REL:
                            o.bad(h, f, 'release', 'new data announced without release ordering', e)
                        cleared = e
                    else:
                        if e['ev'] in ('load', 'rmw', 'cas'):
                            if e['ord'] not in ACQ: o.bad(h, f, 'acquire', 'new-data flag taken without acquire ordering', e)
                            taken = taken or e
                        if e['ev'] in ('store', 'rmw', 'cas'):
                            if nread: o.bad(h, f, 'clear-late', 'flag cleared after readings were taken: an announcement in between is lost', e)
                            cleared = e
                if e['ev'] == 'call' and e['fn'].startswith('vft_ext_read'):
                    nread += 1; reads += 1
                    if not taken: o.bad(h, f, 'unasked', 'readings taken without new data', e)
                    if not cleared: o.bad(h, f, 'clear-missing', 'readings taken before the flag was cleared', e)
            if f['kind'] == 'mark' and not cleared:
                o.bad(h, f, 'lost', 'announcement does not set the flag', p['events'][-1] if p['events'] else {})
            if f['kind'] == 'take' and cleared and cleared['ev'] == 'store' and nread != 3:
                o.bad(h, f, 'count', f'flag cleared but {nread} of 3 readings taken', cleared)
    probs = [] if reads >= 3 else [f'{h}: no reading seen']
    return dict(violations=o.v, problems=probs, coverage=dict(paths=paths, operations=len(fs), repo_functions_analysed=repo_functions(fs, repo), obligations=reads + paths, discharged=reads + paths - len(o.v)))
