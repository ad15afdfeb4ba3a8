"""symbolic run of contracts: python3-vt -m engine.symrun PROP CONTRACT OUT"""
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings


def main(prop, name, out, seconds):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [os.path.join(here, 'engine', 'fakes'), here]
    sys.setrecursionlimit(20000)
    from engine import api, loader, symexec as SE, prover
    import z3
    from engine.symback import SymB
    from engine.loops import transform
    loader.install(transform=transform)
    warnings.simplefilter("ignore")
    c = api.load(prop)[name]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ex = SE.Explorer(max_paths=c.opts.get('paths', 600), max_seconds=seconds, seed=seed)
    crashes = []

    def one(r):
        B = SymB(r, c.opts)
        try:
            c.fn(B)
        except (SE.PathEnd, SE.Unsupported, SE.Budget):
            raise
        except RecursionError:
            raise
        except (MemoryError, z3.Z3Exception) as e:
            raise SE.Budget(f'memory: {e}')
        except Exception as e:
            if not B.feasible_now():
                raise SE.PathEnd('infeasible')
            tb = traceback.format_exc()
            if os.environ.get('VTRACE'):
                traceback.print_exc()
            crashes.append({'error': f'{type(e).__name__}: {e}', 'trace': tb[-3000:], 'choices': r.ghost.get('choices', {})})
    import random
    st = random.getstate()

    def late(*a):
        raise SE.Budget('time')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(seconds) + 15)
    # a run that needs more memory than this is undecided, not a danger to others
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        ex.explore(one)
    except SE.Budget:
        ex.unsupported.append('out of time')
    except MemoryError:
        ex.unsupported.append('budget: memory')
    signal.alarm(0)
    res = {'contract': name, 'paths': ex.paths, 'unsupported': ex.unsupported, 'crashes': crashes,
           'obligations': [o.asdict() for o in ex.obls], 'seconds': time.time() - t0,
           'solver_seconds': ex.prover.z3_time, 'solver_calls': ex.prover.calls, 'slowest': ex.prover.slowest,
           'functions': sorted(f'{a}:{b}' for a, b in loader.EXECUTED)}
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f, default=str)
    os.replace(tmp, out)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4]) if len(sys.argv) > 4 else 240.0)
