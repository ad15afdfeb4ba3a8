#!/usr/bin/env python3
"""Decide one property on the current source tree.

    python3 /verif/check.py C01            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
    python3 /verif/check.py --replay FILE  (run a recorded counterexample again)

Exit 0: every obligation accepted (or, for the parts labelled bounded, no
failure found).  Exit 1: VIOLATION line on stdout."""
import collections
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SYM = os.environ.get('VERIF_SYM_PYTHON', 'python3-vt')
CON = os.environ.get('VERIF_CON_PYTHON', '/opt/venv/bin/python')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from engine import api, evidence  # noqa: E402

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e['PYTHONHASHSEED'] = '0'
    e.pop('PYTHONPATH', None)
    return e


def run_sym(prop, name, tmp, seconds):
    out = os.path.join(tmp, f'sym-{name}.json')
    log = os.path.join(tmp, f'sym-{name}.log')
    t0 = time.time()
    with open(log, 'w') as f:
        try:
            subprocess.run([SYM, '-B', '-m', 'engine.symrun', prop, name, out, str(seconds)], cwd=HERE, env=env(),
                           stdout=f, stderr=subprocess.STDOUT, timeout=seconds + 45)
            late = False
        except subprocess.TimeoutExpired:
            late = True
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    with open(log) as f:
        tail = f.read()[-2000:]
    return {'contract': name, 'paths': 0, 'unsupported': ['budget: time' if late else 'the symbolic run did not finish: ' + tail], 'crashes': [],
            'obligations': [], 'seconds': time.time() - t0, 'solver_seconds': 0, 'solver_calls': 0, 'functions': []}


COUNT = [0]


def run_con(jobs, tmp, seconds):
    COUNT[0] += 1
    base = os.path.join(tmp, f'con-{COUNT[0]}')
    with open(base + '.job', 'w') as f:
        json.dump(jobs, f)
    with open(base + '.log', 'w') as f:
        try:
            subprocess.run([CON, '-B', '-m', 'engine.concrun', base + '.job', base + '.out'], cwd=HERE, env=env(),
                           stdout=f, stderr=subprocess.STDOUT, timeout=seconds)
        except subprocess.TimeoutExpired:
            pass
    res = []
    if os.path.exists(base + '.out'):
        with open(base + '.out') as f:
            res = json.load(f)
    if len(res) < len(jobs):
        with open(base + '.log') as f:
            tail = f.read()[-2000:]
        for j in jobs[len(res):]:
            res.append({'contract': j['contract'], 'runs': 0, 'failure': None, 'labels': {}, 'error': 'no result: ' + tail})
    return res


def seeds(n, seed, off=0):
    return [seed * 1000003 + off + i for i in range(n)]


def decide(prop, tier, seed):
    t0 = time.time()
    contracts = api.load(prop)
    thorough = tier == 'thorough'
    tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        return _decide(prop, tier, seed, contracts, thorough, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _decide(prop, tier, seed, contracts, thorough, tmp, t0):
    ssec = 900 if thorough else 240
    proved_cs = [c for c in contracts.values() if not c.opts.get('bounded')]
    pool = cf.ThreadPoolExecutor(WORKERS)
    sym_f = {c.name: pool.submit(run_sym, prop, c.name, tmp, ssec) for c in proved_cs}
    con_f = {}
    for c in contracts.values():
        n = c.opts.get('n', 40) * (10 if thorough else 1)
        lim = (600 if thorough else 90)
        if c.opts.get('bounded'):
            # the stand-in: many more runs, shared between processes
            k = c.opts.get('split', 2)
            n = c.opts.get('n', 200) * (10 if thorough else 1)
            con_f[c.name] = [pool.submit(run_con, [dict(prop=prop, contract=c.name, seeds=seeds(n // k + 1, seed, i * 100000),
                                                        seconds=lim, tier=tier)], tmp, lim + 60) for i in range(k)]
        else:
            con_f[c.name] = [pool.submit(run_con, [dict(prop=prop, contract=c.name, seeds=seeds(n, seed), seconds=lim,
                                                        tier=tier)], tmp, lim + 60)]
    sym = {k: f.result() for k, f in sym_f.items()}
    con = {}
    for k, fs in con_f.items():
        rs = [r for f in fs for r in f.result()]
        con[k] = merge(rs)
    # follow-up on everything not proved
    follow = {}
    for c in proved_cs:
        s = sym[c.name]
        if con[c.name].get('failure'):
            continue
        jobs = []
        bad = [o for o in s['obligations'] if o['status'] == 'refuted']
        unk = [o for o in s['obligations'] if o['status'] == 'unknown']
        lim = 60
        for o in bad[:6]:
            if o.get('cex'):
                jobs.append(dict(prop=prop, contract=c.name, seeds=seeds(6, seed, 7000), override=o['cex'], seconds=20))
                jobs.append(dict(prop=prop, contract=c.name, seeds=seeds(60, seed, 7500), override=dict(o['cex'], entries=[]), seconds=30))
                ch = o['cex'].get('choices')
                jobs.append(dict(prop=prop, contract=c.name, seeds=seeds(60, seed, 8000), override={'choices': ch or {}}, seconds=30))
        for x in s['crashes'][:3]:
            jobs.append(dict(prop=prop, contract=c.name, seeds=seeds(30, seed, 9000), override={'choices': x['choices']}, seconds=30))
        if bad or unk or s['crashes'] or s['unsupported'] or not s['obligations']:
            n = c.opts.get('n', 40) * (40 if thorough else 8)
            for i in range(2):
                jobs.append(dict(prop=prop, contract=c.name, seeds=seeds(n, seed, 20000 + i * 50000), seconds=90))
        if jobs:
            follow[c.name] = [pool.submit(run_con, [j], tmp, j['seconds'] + 60) for j in jobs]
    for k, fs in follow.items():
        rs = [r for f in fs for r in f.result()]
        con[k] = merge([con[k]] + rs)
    pool.shutdown()
    return finish(prop, tier, seed, contracts, sym, con, t0)


def merge(rs):
    out = {'contract': rs[0]['contract'], 'runs': 0, 'skipped': 0, 'failure': None, 'labels': {}, 'errors': []}
    for r in rs:
        out['runs'] += r.get('runs', 0)
        out['skipped'] += r.get('skipped', 0)
        for k, v in r.get('labels', {}).items():
            out['labels'][k] = out['labels'].get(k, 0) + v
        if r.get('failure') and not out['failure']:
            out['failure'] = r['failure']
        if r.get('error'):
            out['errors'].append(r['error'])
        out['errors'] += r.get('errors', [])
    return out


def write_replay(prop, k, data):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}-{k}.json')
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return p


def out_of_budget(u):
    return u.startswith('budget') or u in ('out of time', 'path budget exhausted')


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e['contract']: e for e in json.load(f)['findings'] if e['property'] == prop}


def finish(prop, tier, seed, contracts, sym, con, t0):
    viols, notes = [], []
    known = known_findings(prop)
    for name, c in contracts.items():
        s = sym.get(name)
        f = con[name].get('failure')
        if f:
            viols.append({'contract': name, 'obligation': f['label'], 'kind': 'input', 'detail': f['detail'], 'inputs': f['inputs'],
                          'seed': f['seed'], 'override': f.get('override'),
                          'verifier': [o for o in (s or {}).get('obligations', []) if o['status'] != 'proved'][:3]})
            continue
        if s:
            bad = [o for o in s['obligations'] if o['status'] == 'refuted']
            unk = [o for o in s['obligations'] if o['status'] == 'unknown']
            lost = [u for u in s['unsupported'] if not out_of_budget(u)]
            if bad or unk:
                # refused by the verifier: no input was found that shows it on the real code
                o = (bad or unk)[0]
                viols.append({'contract': name, 'obligation': o['label'], 'kind': 'none', 'detail': o['detail'],
                              'verifier': (bad + unk)[:5]})
            elif s['crashes']:
                viols.append({'contract': name, 'obligation': 'no unexpected exception', 'kind': 'none', 'detail': s['crashes'][0]['error'],
                              'verifier': s['crashes'][:3]})
            elif lost or not s['obligations'] and not s['unsupported']:
                # obligations that could not be generated from this source are not discharged
                viols.append({'contract': name, 'obligation': 'every path is followed to its end', 'kind': 'none',
                              'detail': (lost or ['no obligation was generated'])[0], 'verifier': lost[:5]})
            if any(out_of_budget(u) for u in s['unsupported']):
                notes.append(f'{name}: out of time or paths; what is left rests on {con[name]["runs"]} runs on the real code')
        if con[name].get('errors'):
            notes.append(f'{name}: run-time check problem: {con[name]["errors"][0][-300:]}')
    evidence.write(prop, tier, seed, contracts, sym, con, viols, notes, time.time() - t0, known)
    code = 0
    k = 0
    for v in viols:
        kf = known.get(v['contract'])
        if kf:
            print(f'KNOWN-FINDING: property={prop} {kf["what"]}')
            continue
        k += 1
        data = dict(property=prop, **v)
        data['how_to_replay'] = 'python3 /verif/check.py --replay <this file>'
        p = write_replay(prop, k, data)
        print(f'  obligation: {v["contract"]}: {v["obligation"]}')
        print('  ' + str(v['detail'])[:600].replace('\n', '\n  '))
        print(f'VIOLATION property={prop} replay={p}' + ('' if v['kind'] == 'input' else ' no-failing-input-found'))
        code = 1
    summary(prop, contracts, sym, con, time.time() - t0, notes)
    return code


def summary(prop, contracts, sym, con, wall, notes):
    tot = ok = 0
    for name in contracts:
        s = sym.get(name)
        if not s:
            print(f'  {name}: bounded, {con[name]["runs"]} runs on the real code')
            continue
        n = len(s['obligations'])
        d = sum(o['status'] == 'proved' for o in s['obligations'])
        tot, ok = tot + n, ok + d
        x = ''
        if s['unsupported']:
            x += f'; not followed: {collections.Counter(s["unsupported"]).most_common(2)}'
        if s['crashes']:
            x += f'; unexpected exception: {s["crashes"][0]["error"][:200]}'
        print(f'  {name}: {d}/{n} obligations, {s["paths"]} paths, {s["seconds"]:.1f}s, {con[name]["runs"]} runs on the real code{x[:700]}')
    for x in notes:
        print('  note: ' + x)
    print(f'{prop}: {ok}/{tot} obligations discharged, {wall:.1f}s')


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d.get('kind') != 'input':
        print('no failing input was recorded; obligation and verifier output are in the file')
        return 0
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        r = run_con([dict(prop=d['property'], contract=d['contract'], seeds=[d['seed']], override=d.get('override'))], tmp, 300)[0]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if r.get('failure'):
        print(f"{d['contract']}: {r['failure']['label']}\n{r['failure']['detail']}")
        print(f'VIOLATION property={d["property"]} replay={path}')
        return 1
    print('the recorded input satisfies the contract')
    return 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return decide(prop, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
