"""evidence files"""
import collections
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    'contracts assumed for dependencies: the stand-ins under engine/fakes (torch, numpy, scikit-learn, scipy, cvxpy, cvxopt, '
    'prodigyopt, mechanic) state what each library function does; the code of those libraries is not verified',
    'machine arithmetic is treated as exact real arithmetic, machine integers as unbounded; infinities and not-a-number are '
    'tracked where the code produces them as constants or through division, logarithm and powers',
    'CPython executes the repository code; builtins range, len, isinstance, int, float, bool, min, max, sum, all, any and the '
    'modules math and random are replaced by versions that also accept symbolic values, print prints nothing, and list '
    'comprehensions over a range become a call that also accepts a symbolic range',
    'the term normaliser, the path explorer (engine/terms.py, engine/symexec.py, engine/prover.py), z3 and cvc5',
    'automatic differentiation returns the derivative of the value expression (torch.autograd is not verified)',
]


def write(prop, tier, seed, contracts, sym, con, viols, notes, wall, known=()):
    # contracts of known findings are reported apart
    apart = {n: dict(collections.Counter(o['status'] for o in sym[n]['obligations'])) for n in known if n in sym}
    viols = [v for v in viols if v['contract'] not in known]
    sym = {n: s for n, s in sym.items() if n not in known}
    obls = [(n, o) for n, s in sym.items() for o in s['obligations']]
    per = collections.OrderedDict()
    for n, o in obls:
        d = per.setdefault(f'{n}: {o["label"]}', collections.Counter())
        d[o['status']] += 1
    back = collections.Counter(o['backend'] for _, o in obls if o['status'] == 'proved')
    funcs = sorted({f for s in sym.values() for f in s['functions']})
    not_proved = {n: {'not_followed': sorted(set(s['unsupported']))[:5], 'exceptions': [c['error'] for c in s['crashes']][:3]}
                  for n, s in sym.items() if s['unsupported'] or s['crashes']}
    nobl = len(obls) + sum(1 for n in not_proved)
    cov = {
        'obligations': nobl,
        'discharged': sum(o['status'] == 'proved' for _, o in obls),
        'checker_cmd': f'python3 /verif/check.py {prop}',
        'trusted_base': TRUSTED,
        'named_obligations': {k: dict(v) for k, v in per.items()},
        'discharged_by': dict(back),
        'functions_under_contract': funcs,
        'paths': sum(s['paths'] for s in sym.values()),
        'solver_seconds': round(sum(s['solver_seconds'] for s in sym.values()), 3),
        'solver_calls': sum(s['solver_calls'] for s in sym.values()),
        'symbolic_seconds': round(sum(s['seconds'] for s in sym.values()), 3),
        'parts_not_proved': not_proved,
        'bounded_only': {n: {'runs': con[n]['runs'], 'checks': con[n]['labels']} for n, c in contracts.items() if c.opts.get('bounded')},
        'run_time_cross_checks': {n: con[n]['runs'] for n, c in contracts.items() if not c.opts.get('bounded')},
        'known_findings': apart,
        'notes': notes,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': TRUSTED,
          'violations': len(viols), 'wall_s': round(wall, 2)}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
