"""run contracts on the real code:
/opt/venv/bin/python -m engine.concrun JOB OUT   (JOB: json list of {prop, contract, seeds, override})"""
import json
import os
import sys
import time
import traceback
import warnings


def setup():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path[:0] = [repo, here]
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)


def fresh_modules():
    for k in [k for k in sys.modules if k == 'skwdro' or k.startswith('skwdro.')]:
        del sys.modules[k]


def one(c, seed, override=None, tier='quick'):
    """None | {'label', 'detail', 'inputs'} ; raises Skip"""
    import contextlib
    import io
    import torch
    from engine.api import Fail, Skip
    from engine.conback import ConB
    torch.set_default_dtype(torch.float64)
    torch.set_grad_enabled(True)
    if c.opts.get('fresh'):
        fresh_modules()
    B = ConB(f'{c.prop}/{c.name}/{seed}', c.opts, override, tier)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            c.fn(B)
    except Fail as f:
        return B, {'label': f.label, 'detail': str(f.detail)[:2000], 'inputs': B.used}
    except Skip:
        raise
    except Exception as e:
        return B, {'label': 'no unexpected exception', 'detail': (f'{type(e).__name__}: {e}\n' + traceback.format_exc())[-3000:],
                   'inputs': B.used}
    finally:
        torch.set_grad_enabled(True)
    return B, None


def run_job(job):
    from engine import api
    from engine.api import Skip
    c = api.load(job['prop'])[job['contract']]
    t0 = time.time()
    res = {'contract': c.name, 'runs': 0, 'skipped': 0, 'failure': None, 'labels': {}}
    for seed in job['seeds']:
        if time.time() - t0 > job.get('seconds', 60):
            res['stopped_by_time'] = True
            break
        try:
            B, f = one(c, seed, job.get('override'), job.get('tier', 'quick'))
        except Skip:
            res['skipped'] += 1
            continue
        res['runs'] += 1
        for k, v in B.labels.items():
            res['labels'][k] = res['labels'].get(k, 0) + v
        if f is not None:
            f['seed'] = seed
            f['override'] = job.get('override')
            res['failure'] = f
            break
    res['seconds'] = time.time() - t0
    return res


def main(jobfile, out):
    setup()
    with open(jobfile) as f:
        jobs = json.load(f)
    res = []
    for j in jobs:
        try:
            res.append(run_job(j))
        except BaseException as e:
            res.append({'contract': j['contract'], 'runs': 0, 'failure': None, 'error': traceback.format_exc()[-3000:]})
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f, default=str)
        os.replace(out + '.tmp', out)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
