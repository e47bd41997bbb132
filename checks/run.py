#!/usr/bin/env python3
"""Decide one property on the current tree of /repo.

usage: run.py PROPERTY [--thorough]

exit 0: every obligation that could be decided holds
exit 1: VIOLATION lines name the failing constructs
exit 2: the analysis could not be carried out
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import props as P

ALWAYS = ('memory-safety', 'uninitialised', 'analysis-complete', 'division',
          'termination', 'exception')
EV = os.path.join(ir.VERIF, 'evidence')


def known(pid):
    p = os.path.join(ir.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['known'] if k['property'] == pid]


def suppressed(k, v):
    return all(re.search(k['match'][f], v.get(f, '')) for f in k['match'])


def run_harness(q, mod, cfg, h, limit):
    cmd = [q, mod, '--run', h, '--time', str(limit)]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=limit + 60)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        out, err, rc = '', 'time limit', -1
    for l in out.splitlines():
        if l.startswith('{'):
            d = json.loads(l)
            d['cfg'] = cfg
            return d
    return {'harness': h, 'cfg': cfg, 'error': (err or 'no result')[-500:] +
            ' (rc %d)' % rc, 'obligations': [], 'functions': [],
            'time': time.time() - t}


def analyse(pid, spec, tier):
    """run the abstract interpreter on the entry states of the property"""
    jobs = spec.get('values', [])
    res = []
    if not jobs:
        return res
    q = ir.tool('qai')
    todo = []
    for j in jobs:
        if j.get('tier', 'quick') == 'thorough' and tier != 'thorough':
            continue
        for cfg in j['cfgs']:
            mod = ir.module(cfg, j['drivers'], j.get('extra', ()), rt=True)
            hs = subprocess.check_output([q, mod, '--list'], text=True).split()
            sel = [h for h in hs if re.fullmatch(j['harness'], h)]
            if not sel:
                raise ir.Broken('no entry state matches ' + j['harness'])
            lab = j.get('labels')
            for h in sel:
                todo.append((cfg, mod, h, lab))
    limit = 780 if tier == 'quick' else 3000
    with ThreadPoolExecutor(8) as ex:
        fs = [(t, ex.submit(run_harness, q, t[1], t[0], t[2], limit))
              for t in todo]
        for t, f in fs:
            d = f.result()
            if t[3]:
                d['obligations'] = [o for o in d['obligations']
                                    if re.search(t[3], o['label'])
                                    or o['label'] in ALWAYS]
            res.append(d)
    return res


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or \
        os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = P.PROPS[pid]
    t0 = time.time()
    viols, undec, notes = [], [], []
    cov = {}
    nob = nok = 0
    funcs = set()
    samples = []
    res = analyse(pid, spec, tier)
    ok_h = 0
    for d in res:
        funcs.update(d.get('functions', []))
        if 'error' in d:
            undec.append('%s/%s: %s' % (d['cfg'], d['harness'], d['error']))
            nob += 1
        for o in d['obligations']:
            nob += o['ok'] + o['viol'] + o['undec']
            nok += o['ok']
            if o['viol']:
                viols.append({'cfg': d['cfg'], 'harness': d['harness'],
                              'label': o['label'], 'msg': o['msg']})
            elif o['undec']:
                undec.append('%s/%s: %s (%d): %s' % (
                    d['cfg'], d['harness'], o['label'], o['undec'], o['msg'][:300]))
        if not d['obligations'] and 'error' not in d:
            undec.append('%s/%s: no obligation reached' % (d['cfg'], d['harness']))
        else:
            ok_h += 1
        samples.append({'build': d['cfg'], 'entry': d['harness'],
                        'paths': d.get('paths'), 'merges': d.get('merges'),
                        'instructions': d.get('steps'), 'seconds': d.get('time'),
                        'obligations': {o['label']: o['ok'] for o in d['obligations']
                                        if o['ok']}})
    if res:
        cov['entry_states'] = len(res)
        cov['functions_analysed'] = len(funcs)
        cov['functions'] = sorted(funcs)
        cov['entries'] = samples
    for rule in spec.get('rules', []):
        r = rule(tier)
        nob += r['obligations']
        nok += r['discharged']
        viols += r['violations']
        undec += r.get('undecided', [])
        cov.setdefault('rules', []).append(
            {k: r[k] for k in r if k not in ('violations', 'undecided')})
    if nob == 0:
        raise ir.Broken('no obligation was generated')
    if res and nok == 0 and not viols:
        raise ir.Broken('no obligation could be decided: ' + '; '.join(undec[:3]))

    ks = known(pid)
    real = []
    hit = set()
    for v in viols:
        m = [i for i, k in enumerate(ks) if suppressed(k, v)]
        if m:
            hit.update(m)
        else:
            real.append(v)
    for i, k in enumerate(ks):
        print('KNOWN-FINDING: property=%s %s%s' % (
            pid, k['what'], '' if i in hit else ' (not seen in this run)'))
    os.makedirs(EV, exist_ok=True)
    cov['explanation'] = spec['explanation']
    cov['obligations'] = nob
    cov['discharged'] = nok
    cov['checker_cmd'] = 'python3 checks/run.py ' + pid
    cov['trusted_base'] = P.TRUSTED
    if undec:
        cov['undecided'] = undec[:50]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'],
          'coverage': cov, 'assumptions': spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    tmp = os.path.join(EV, '.%s.tmp' % pid)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(EV, pid + '.json'))
    for u in undec[:20]:
        print('UNDECIDED: ' + u)
    print('%s: %d obligations, %d discharged, %d violated, %d undecided, %.1f s'
          % (pid, nob, nok, len(real), len(undec), time.time() - t0))
    if real:
        rp = os.path.join(EV, pid + '.violations.json')
        json.dump(real, open(rp, 'w'), indent=1)
        for v in real[:20]:
            print('  %s %s: %s: %s' % (v.get('cfg', ''), v.get('harness', ''),
                                     v['label'], v['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ir.Broken as e:
        print('analysis broken: %s' % e)
        sys.exit(2)
