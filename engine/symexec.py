"""Path exploration of the real code on symbolic values."""
import math
import time
from fractions import Fraction as Q
import z3
from . import terms as T
from .prover import Prover, TR, solve_equalities
from .evalnum import falsify
from . import instances

unprime = T.unprime


class Unsupported(BaseException):
    """the engine cannot follow the code here (never a verdict by itself)"""


class PathEnd(BaseException):
    """this path is complete (loop body cut, infeasible assumption, ...)"""


class Budget(BaseException):
    pass


CUR = None      # current Run


def run():
    if CUR is None:
        raise Unsupported('no symbolic run active')
    return CUR


class Obligation:
    __slots__ = ('label', 'status', 'backend', 'detail', 'cex', 'path')

    def __init__(self, label, status, backend='', detail='', cex=None, path=0):
        self.label, self.status, self.backend = label, status, backend
        self.detail, self.cex, self.path = detail, cex, path

    def asdict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Run:
    """one execution path"""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.decisions = []       # (value, forced)
        self.hyps = []
        self.ensured = []         # labels
        self.fresh = {}
        self.reset_ghost()
        self.solver = z3.Solver()
        self.solver.set('timeout', 3000)
        self.seen_facts = set()
        self.decided = {}

    def reset_ghost(self):
        self.ghost = {}

    def name(self, base):
        k = self.fresh.get(base, 0)
        self.fresh[base] = k + 1
        return base if k == 0 else f'{base}~{k}'

    # -- hypotheses -----------------------------------------------------
    def _assert(self, b, raw=None):
        for h in (raw, b) if raw is not None and raw is not b else (b,):
            self.hyps.extend(h.args if h.kind == 'and' else (h,))
        facts = self.ex.prover.context([b], 4, [])
        self.solver.add(TR.boolean(b), *facts)

    def assume(self, b):
        if b is T.TRUE:
            return
        if b is T.FALSE:
            raise PathEnd('assumed false')
        raw, b = b, unprime(b)
        if b is T.TRUE:
            return
        if b is T.FALSE:
            raise PathEnd('assumed false')
        self._assert(b, raw)
        self.decided[b] = True

    def feasible(self, b):
        b = unprime(b)
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        facts = self.ex.prover.context([b], 4, [])
        self.solver.push()
        try:
            self.solver.add(TR.boolean(b), *facts)
            return self.solver.check() != z3.unsat
        finally:
            self.solver.pop()

    def valid(self, b):
        """quick validity of b on this path (no forking)"""
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        return not self.feasible(T.b_not(b))

    def decide(self, b):
        raw, b = b, unprime(b)
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        if b in self.decided:
            return self.decided[b]
        nb = T.b_not(b)
        if nb in self.decided:
            return not self.decided[nb]
        self.ex.check_budget()
        i = len(self.decisions)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            self.decisions.append((v, forced))
            if not forced:
                self._assert(b if v else nb, raw if v else T.b_not(raw))
            self.decided[b] = v
            return v
        ft = self.feasible(b)
        ff = self.feasible(nb) if ft else True
        if not ft:
            v, forced = False, True
        elif not ff:
            v, forced = True, True
        else:
            v, forced = True, False
            self.ex.push(self.decisions + [(False, False)])
        self.decisions.append((v, forced))
        if not forced:
            self._assert(b if v else nb, raw if v else T.b_not(raw))
        self.decided[b] = v
        return v

    def choose(self, n, tag):
        """ghost non-deterministic choice among n alternatives"""
        for k in range(n - 1):
            if self.decide(T.bvar(self.name(f'choice!{tag}'))):
                return k
        return n - 1

    # -- obligations ------------------------------------------------------
    def check(self, label, goal, extra_hyps=(), soft=False):
        self.ensured.append(label)
        self.ex.obligation(self, label, goal, list(extra_hyps), soft)


class Explorer:
    def __init__(self, max_paths=400, max_seconds=300, prover=None, seed=0):
        self.prover = prover or Prover()
        self.stack = []
        self.obls = []
        self.paths = 0
        self.max_paths = max_paths
        self.deadline = time.time() + max_seconds
        self.unsupported = []
        self.labels_sat = {}
        self.outcomes = {}
        self.seed = seed
        self.prefix_case = ''
        self.search_left = 60.      # seconds for small instances of failed obligations
        self.searched = {}
        self.failed = self.refuted = 0
        self.lost = 0.      # seconds spent on failed obligations
        self.prover.first = lambda hyps, goal: None if by_derivative(hyps, goal) else falsify(hyps, goal, tries=16, seed=self.seed)[0]

    def check_budget(self):
        if time.time() > self.deadline:
            raise Budget('time')

    def push(self, prefix):
        self.stack.append(prefix)

    def obligation(self, r, label, goal, extra, soft=False):
        self.check_budget()
        hyps = r.hyps + extra
        t0 = time.time()
        st, info = self.prover.prove(hyps, goal)
        if st == 'proved':
            self.prover.stats[info] = self.prover.stats.get(info, 0) + 1
            self.obls.append(Obligation(label, 'proved', info, path=self.paths))
            return
        self.failed += 1
        try:
            self.failure(r, label, goal, hyps, soft, st, info)
        finally:
            self.lost += time.time() - t0

    def failure(self, r, label, goal, hyps, soft, st, info):
        if soft:
            # a shape of the argument, not a requirement: failing it leaves the question to the run-time check
            self.obls.append(Obligation(label, 'unknown', st, detail=f'not in the expected form: {goal!r}'[:2000], path=self.paths))
            return
        fixed = model_values(info) if st == 'sat' else {}
        env, valid = falsify(hyps, goal, tries=16 if st == 'falsified' else 400, seed=self.seed, fixed=fixed)
        if env is None and st == 'falsified':
            env = info
        if env is None and st == 'sat' and fixed:
            env, v2 = falsify(hyps, goal, seed=self.seed + 1, fixed={k: v for k, v in fixed.items() if not isinstance(k, tuple)})
            valid += v2
        if env is None and self.search_left > 0 and self.searched.get(label, 0) < 12:
            t1 = time.time()
            self.searched[label] = self.searched.get(label, 0) + 1
            env = instances.search(hyps, goal, min(6., self.search_left), self.seed)
            self.search_left -= time.time() - t1
        if env is not None and by_derivative(hyps, goal):
            env = None
        if env is not None:
            self.refuted += 1
            cex = {'scalars': {k: (v if isinstance(v, (int, float, bool)) else float(v)) for k, v in env.used.items()},
                   'entries': [[list(k), v if isinstance(v, (int, bool)) else float(v)] for k, v in env.entries.items()],
                   'choices': dict(r.ghost.get('choices', {}))}
            self.obls.append(Obligation(label, 'refuted', st, detail=f'{goal!r}'[:2000], cex=cex, path=self.paths))
        else:
            det = f'{goal!r}'[:2000]
            self.obls.append(Obligation(label, 'unknown', st, detail=f'valid samples {valid}; hyps {r.hyps!r}'[:1500] + '; goal ' + det, path=self.paths))

    def explore(self, fn):
        """fn(run) executes the harness once"""
        global CUR
        self.stack = [[]]
        while self.stack:
            if self.refuted >= 8 or self.failed >= 60 or self.lost > 90:
                break       # refused already
            if self.paths >= self.max_paths or time.time() > self.deadline:
                self.unsupported.append('path budget exhausted')
                break
            prefix = self.stack.pop()
            r = Run(self, prefix)
            CUR = r
            self.paths += 1
            try:
                fn(r)
            except PathEnd:
                pass
            except Unsupported as e:
                import traceback, os
                if os.environ.get("VTRACE"): traceback.print_exc()
                self.unsupported.append(str(e) or repr(e))
            except Budget as e:
                self.unsupported.append('budget: ' + str(e))
                break
            except RecursionError as e:
                self.unsupported.append('recursion')
            finally:
                CUR = None
            for l in set(r.ensured):
                self.labels_sat[l] = self.labels_sat.get(l, 0) + 1


def by_derivative(hyps, goal):
    """derivatives are uninterpreted: an assignment to them is no counterexample"""
    return any(a.kind == 'red' and str(a.args[0]).startswith('row:grad') for h in [goal] + list(hyps) for a in T.atoms_of(h))


def model_values(model):
    out = {}
    try:
        for d in model.decls():
            if d.arity() == 0:
                v = model[d]
                if z3.is_int_value(v):
                    n = v.as_long()
                    if abs(n) < 10 ** 9:
                        out[d.name()] = n
                elif z3.is_rational_value(v):
                    out[d.name()] = float(v.as_fraction())
                elif z3.is_algebraic_value(v):
                    out[d.name()] = float(v.approx(12).as_fraction())
                elif z3.is_true(v) or z3.is_false(v):
                    out[(d.name(),)] = z3.is_true(v)
    except Exception:
        pass
    return out
