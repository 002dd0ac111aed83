#!/usr/bin/env python3
"""check.py PROPERTY -- decide one property of /verif/properties.jsonl on /repo's current tree.

1. extract the functions the property depends on from /repo/src and attach the contracts of /verif/contracts;
2. have Verus discharge every obligation of those functions and their callees;
3. run the executable contracts of /verif/replay against the real crate (replays a failed obligation as an
   input, and stands in, bounded, for whatever the verifier cannot reach).
"""
import json, os, re, subprocess, sys, time, threading, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plan
BUILD = os.path.join(HERE, 'build')
SRC = '/repo/src'
EXTRACT = os.path.join(HERE, 'extract/target/release/extract')
REPLAY = os.path.join(HERE, 'replay/target/debug/replay')
VERUS = 'verus'
BASELINE = os.path.join(HERE, 'contracts/baseline.json')
NCPU = os.cpu_count() or 4


def sh(cmd, cwd=None, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode('utf-8', 'replace'), (e.stderr or b'').decode('utf-8', 'replace')


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def build_tool(name, args):
    rc, out, err = sh(['cargo', 'build', '--offline', '-q'] + args, cwd=os.path.join(HERE, name), timeout=600)
    return rc, err


# ------------------------------------------------------------------ contracts
def extract(bundle, out, keep=None, stubs=None, smoke=False):
    cmd = [EXTRACT, '--src', SRC, '--out', out + '.rs', '--meta', out + '.json']
    if os.path.exists(BASELINE):
        cmd += ['--baseline', BASELINE]
    if keep is not None:
        with open(out + '.keep', 'w') as f:
            f.write('\n'.join(keep))
        cmd += ['--keep', out + '.keep']
    if smoke:
        cmd += ['--smoke', '1']
    for k, r in (stubs or {}).items():
        cmd += ['--stub', k + '=' + r]
    for opt, f in plan.BUNDLES[bundle]:
        cmd += ['--' + opt, os.path.join(HERE, 'contracts', f)]
    rc, o, e = sh(cmd, timeout=120)
    if rc != 0:
        raise RuntimeError('extraction failed: ' + e[-2000:])
    return json.load(open(out + '.json'))


def closure(items, prop):
    fns = {i['id']: i for i in items if i['kind'] == 'fn'}
    byname = {}
    for i in fns.values():
        byname.setdefault(i['key'].split('::')[-1], []).append(i['id'])
    want = [k for k, i in fns.items() if prop in i['props']]
    seen = set(want)
    while want:
        k = want.pop()
        for c in fns[k]['callees']:
            for d in byname.get(c, []):
                if d not in seen:
                    seen.add(d)
                    want.append(d)
    return [k for k in fns if k in seen], fns


def run_verus(path, extra, rlimit):
    cmd = [VERUS, os.path.basename(path), '--output-json', '--time-expanded', '--error-format=json', '--rlimit', str(rlimit), '--num-threads', '2'] + extra
    t0 = time.time()
    rc, out, err = sh(cmd, cwd=os.path.dirname(path), timeout=plan.VERUS_TIMEOUT)
    res = {'rc': rc, 'wall': time.time() - t0, 'cmd': ' '.join(cmd), 'diags': [], 'json': None, 'raw': ''}
    try:
        res['json'] = json.loads(out[out.index('{'):])
    except ValueError:
        pass
    for l in err.splitlines():
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and d.get('spans'):
                res['diags'].append(d)
            elif d.get('level') == 'error' and not d['message'].startswith('aborting'):
                res['raw'] += d.get('rendered') or d['message']
        else:
            res['raw'] += l + '\n'
    return res


def owner(items, line):
    for i in items:
        if i['kind'] == 'fn' and i['line0'] <= line <= i['line1']:
            return i['id']
    return None


def diag_owner(items, d):
    sp = sorted(d['spans'], key=lambda s: not s['is_primary'])
    for s in sp:
        while s:
            o = owner(items, s['line_start'])
            if o:
                return o
            s = (s.get('expansion') or {}).get('span')
    return None


def verify(prop, tier):
    """returns the report of the deductive part"""
    bundle = plan.BUNDLE_OF.get(prop)
    rep = {'bundle': bundle, 'functions': [], 'failed': {}, 'undecided': {}, 'verified': 0, 'errors': 0, 'clauses': 0,
           'smt_ms': 0, 'wall': 0.0, 'cmds': [], 'assumed': [], 'lemmas': 0, 'toolfail': None}
    if bundle is None:
        return rep
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    try:
        meta = extract(bundle, os.path.join(d, 'all'))
    except Exception as e:
        rep['toolfail'] = str(e)
        return rep
    ids, fns = closure(meta['items'], prop)
    ids = [i for i in ids if not plan_skip(bundle, i)]
    rep['functions'] = [i for i in ids if not fns[i]['assumed']]
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    rep['assumed'] = [i for i in ids if fns[i]['assumed']]
    for i in ids:
        if fns[i]['lost']:
            rep['undecided'][i] = '; '.join(fns[i]['lost'])
    todo = [i for i in ids if not fns[i]['assumed']]
    cost = lambda i: plan.COST.get(i, 1 + fns[i]['loops'] * 3 + fns[i]['ensures'])
    total = sum(cost(i) for i in todo)
    nsh = max(1, min(plan.SHARDS, int(total / 25) + 1, len(todo)))
    shards = [[0, []] for _ in range(nsh)]
    for i in sorted(todo, key=cost, reverse=True):
        s = min(shards, key=lambda s: s[0])
        s[0] += cost(i)
        s[1].append(i)
    shards = [s for c, s in shards]
    results = [None] * len(shards)

    def work(n, keep):
        stubs = {}
        for rnd in range(6):
            out = os.path.join(d, 's%d' % n)
            try:
                m = extract(bundle, out, keep=keep, stubs=stubs)
            except Exception as e:
                results[n] = ('toolfail', str(e), None, stubs)
                return
            extra = [] if n == 0 else ['--verify-root']
            r = run_verus(out + '.rs', extra, plan.RLIMIT)
            ok_run = r['json'] and 'verification-results' in r['json'] and not r['json']['verification-results'].get('encountered-vir-error') \
                and 'smt' in r['json'].get('times-ms', {})
            vr = (r['json'] or {}).get('verification-results', {})
            compile_err = not ok_run or (vr.get('encountered-error') and not (vr.get('verified') or vr.get('errors')))
            if not compile_err:
                results[n] = ('ok', r, m, stubs)
                return
            new = {}
            for dg in r['diags']:
                o = diag_owner(m['items'], dg)
                if o and o not in stubs:
                    new[o] = 'outside the verified subset: ' + dg['message'][:200]
            if r['rc'] == -9 or not new:
                results[n] = ('toolfail', ('timed out' if r['rc'] == -9 else (r['raw'] + '\n'.join(x.get('rendered') or '' for x in r['diags'])))[-1500:], m, stubs)
                return
            stubs.update(new)
        results[n] = ('toolfail', 'no compilable extraction after 6 rounds', None, stubs)

    th = [threading.Thread(target=work, args=(n, s)) for n, s in enumerate(shards)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    q = {}  # solver queries by function (a lemma checked in two shards counts once)
    for n, res in enumerate(results):
        kind, r, m, stubs = res
        for k, why in stubs.items():
            rep['undecided'].setdefault(k, why)
        if kind == 'toolfail':
            for k in shards[n]:
                rep['undecided'].setdefault(k, 'verifier gave no answer: ' + r)
            rep['toolfail'] = r
            continue
        rep['cmds'].append(r['cmd'])
        for mm in r['json']['times-ms']['smt'].get('smt-run-module-times', []):
            rep['smt_ms'] += mm.get('time', 0)
            for f in mm.get('function-breakdown', []):
                q.setdefault(f['function'].split('::', 1)[-1], []).append(f.get('success', False))
        if r['rc'] == -9:
            rep['toolfail'] = 'timed out'
        for dg in r['diags']:
            o = diag_owner(m['items'], dg)
            name = o or '(lemma or prelude)'
            text = (dg.get('rendered') or dg['message'])[:1500]
            if 'esource limit' in dg['message'] or 'rlimit' in dg['message'] or 'timed out' in dg['message'].lower():
                rep['undecided'].setdefault(name, dg['message'])
            elif not o:
                # a lemma about the specification alone: nothing in /repo can make it false
                rep['undecided'].setdefault(name, 'a lemma was not proved: ' + dg['message'])
            elif not aligned(base.get(o), meta['baseline'].get(o)):
                rep['undecided'].setdefault(name, 'the function no longer has the structure its annotations were written for, and the proof does not go through: ' + dg['message'])
            else:
                rep['failed'].setdefault(name, []).append({'message': dg['message'], 'text': text})
    rep['verified'] = sum(1 for v in q.values() if all(v))
    rep['errors'] = sum(1 for v in q.values() if not all(v))
    for i in ids:
        rep['clauses'] += fns[i]['ensures'] + fns[i]['invariants']
    rep['wall'] = time.time() - t0
    return rep


def plan_skip(bundle, i):
    return i in plan.SKIP.get(bundle, ())


def aligned(b, c):
    if b is None or c is None:
        return True
    return len(b['binders']) == len(c['binders']) and b['ifs'] == c['ifs'] and b['loops'] == c['loops'] and b.get('calls') == c.get('calls')


# ------------------------------------------------------------------ executable contracts
def search(prop, secs, seed, tag):
    out = os.path.join(BUILD, prop, 'search-%s.json' % tag)
    log = os.path.join(BUILD, prop, 'case-%s.log' % tag)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for f in (out, log):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ, REPLAY_LOG=log)
    cmd = [REPLAY, 'search', prop, str(secs), str(seed), out]
    rc, o, e = sh(cmd, cwd=os.path.join(BUILD, prop), timeout=secs + 240, env=env)
    if os.path.exists(out):
        r = json.load(open(out))
        r['rc'] = rc
        return r
    # the process died: the case it was in is the failing one
    case = open(log).read().split() if os.path.exists(log) else []
    if len(case) >= 2:
        return {'rc': rc, 'evaluations': 0, 'distinct_nontrivial': 0, 'inconclusive': 0, 'subchecks': {}, 'samples': [],
                'failures': [{'sub': ' '.join(case[:-1]), 'idx': int(case[-1]), 'message': 'the process was killed (exit status %d): %s' % (rc, e[-400:]), 'input': ''}]}
    return {'rc': rc, 'error': e[-500:], 'failures': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'inconclusive': 0, 'subchecks': {}, 'samples': []}


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) sub=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, prop), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc, err = build_tool('extract', ['--release'])
    if rc != 0:
        die('building the extractor: ' + err[-1500:])
    rc, err = build_tool('replay', [])
    if rc != 0:
        die('building the executable contracts against /repo: ' + err[-1500:])
    secs = plan.SEARCH_SECS[tier if tier in plan.SEARCH_SECS else 'quick']
    box = {}
    ts = threading.Thread(target=lambda: box.__setitem__('s', search(prop, secs, seed, 'a')))
    ts.start()
    rep = verify(prop, tier)
    ts.join()
    s = box['s']
    if s.get('error') is not None and not s['failures']:
        die('the executable contracts did not run: ' + s['error'])
    # a rejected obligation, or one the verifier cannot decide on the changed code: look harder for an input
    if (rep['failed'] or rep['undecided']) and not s['failures']:
        for k in range(2):
            s2 = search(prop, plan.HUNT_SECS, seed * 1000 + 77 + k, 'b%d' % k)
            s['evaluations'] += s2['evaluations']
            s['distinct_nontrivial'] += s2['distinct_nontrivial']
            if s2['failures']:
                s['failures'] = s2['failures']
                s['seed'] = seed * 1000 + 77 + k
                break
    known, fresh = [], []
    kf = known_findings()
    for f in s['failures']:
        hit = None
        for (p, sub, pat, what) in kf:
            if p == prop and sub == f['sub'] and re.search(pat, f['input'] + ' => ' + f['message']):
                hit = what
        (known if hit else fresh).append((f, hit))
    for what in sorted(set(h for _, h in known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    nviol = 0
    vpath = os.path.join(BUILD, prop, 'violation.json')
    if os.path.exists(vpath):
        os.unlink(vpath)
    if fresh:
        f = fresh[0][0]
        sd = s.get('seed', seed)
        json.dump({'property': prop, 'kind': 'failing input', 'sub': f['sub'], 'idx': f['idx'], 'seed': sd, 'input': f['input'], 'message': f['message'],
                   'replay_cmd': 'cd %s/replay && cargo build --offline && ./target/debug/replay case %s %s %d %d' % (HERE, prop, f['sub'], f['idx'], sd),
                   'failed_obligations': rep['failed'], 'undecided_obligations': rep['undecided'], 'other_failures': [x[0] for x in fresh[1:]]}, open(vpath, 'w'), indent=1)
        nviol = len(fresh)
        print('failing input: %s %s #%d: %s' % (prop, f['sub'], f['idx'], f['message'][:600]))
        print('  input: ' + f['input'][:800])
        for n in rep['failed']:
            print('failed obligation in %s: %s' % (n, rep['failed'][n][0]['message']))
        for n, why in rep['undecided'].items():
            print('obligation not discharged in %s: %s' % (n, why[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, vpath))
    elif rep['failed']:
        json.dump({'property': prop, 'kind': 'failed obligation, no failing input found', 'failed_obligations': rep['failed'], 'verifier': rep['cmds'],
                   'searched': {'evaluations': s['evaluations'], 'distinct_nontrivial': s['distinct_nontrivial']}}, open(vpath, 'w'), indent=1)
        nviol = 1
        for n in rep['failed']:
            print('failed obligation in %s: %s\n%s' % (n, rep['failed'][n][0]['message'], rep['failed'][n][0]['text']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, vpath))
    write_evidence(prop, tier, seed, rep, s, t0, nviol)
    und = ['%s (%s)' % (k, v[:160]) for k, v in rep['undecided'].items()]
    if und and not nviol:
        print('undecided by the verifier, decided by the bounded stand-in: ' + '; '.join(und))
    print('%s: %d functions under contract, %d obligations discharged, %d not; %d inputs tried; %.1f s' % (prop, len(rep['functions']), rep['verified'], rep['errors'] + len(rep['undecided']), s['evaluations'], time.time() - t0))
    sys.exit(1 if nviol else 0)


def write_evidence(prop, tier, seed, rep, s, t0, nviol):
    level = plan.LEVEL[prop]
    cov = {
        'evaluations': s['evaluations'], 'distinct_nontrivial': s['distinct_nontrivial'], 'inconclusive': s.get('inconclusive', 0),
        'rule': 'generated inputs (' + ', '.join('%s x%d' % kv for kv in sorted(s.get('subchecks', {}).items())) + '); a case is non-trivial when its oracle was conclusive '
                '(no i128 overflow of the exact arithmetic, magnitudes in range); distinct by hash of the printed input',
        'samples': s.get('samples', [])[:8] or ['(none)'],
    }
    if rep['bundle']:
        cov.update({
            'obligations': rep['verified'] + rep['errors'] + len([u for u in rep['undecided']]),
            'discharged': rep['verified'],
            'checker_cmd': rep['cmds'][0] if rep['cmds'] else 'verus (no run)',
            'back_end': 'Verus 0.2026.09.13 / Z3; %d ms in the solver, %.1f s wall in %d shards' % (rep['smt_ms'], rep['wall'], len(rep['cmds'])),
            'functions_under_contract': rep['functions'],
            'contract_clauses': rep['clauses'],
            'undecided': rep['undecided'], 'failed': {k: [x['message'] for x in v] for k, v in rep['failed'].items()},
            'bounded_functions': plan.BOUNDED.get(prop, []),
            'trusted_base': plan.trusted(prop, rep),
        })
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': plan.assumptions(prop), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(HERE, 'evidence', prop + '.json'))


if __name__ == '__main__':
    main()
