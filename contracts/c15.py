"""C15: solver outputs keep their meaning."""
from engine.api import contract

MEANING = {1: ['coef'], 2: ['coef', 'dual_var'], 3: ['coef', 'intercept', 'dual_var'], 4: ['coef', 'intercept', 'dual_var', 'robust_loss']}
FIELDS = MEANING[4]


class Item:
    """any object; nothing may be read from it"""
    __slots__ = ()

    def __bool__(self):
        raise AssertionError('truth value of an item read')


def item(B, name):
    return B.choice('item ' + name, [lambda: Item(), lambda: B.tensor(name, (B.dim('size of ' + name),)), lambda: None, lambda: [1]] if not B.symbolic
                    else [lambda: Item(), lambda: None])()


def solver(B, value):
    R = B.repo('skwdro.solvers.result')

    @R.wrap_solver_result
    def solve(*a, **k):
        solve_args.append((a, k))
        return value
    solve_args = []
    return solve, solve_args


def fields(B, res, want, order, label=''):
    for f in FIELDS:
        B.ensure(f'{label}field {f}', getattr(res, f) is want.get(f))
    got = list(res)
    B.ensure(label + 'as many items', len(got) == len(order))
    B.ensure(label + 'items in their order', all(a is b for a, b in zip(got, order)))
    B.ensure(label + 'again', all(a is b for a, b in zip(list(res), order)) and len(list(res)) == len(order))


def legacy(B, kind, tag=''):
    """a return value, the fields it stands for, its items in order"""
    if kind == 'tuple':
        n = B.choice('length' + tag, [1, 2, 3, 4])
        v = tuple(item(B, f'{k}{tag}') for k in range(n))
        return v, dict(zip(MEANING[n], v)), list(v)
    names = B.choice('keys' + tag, [['coef'], ['dual_var', 'coef'], ['intercept', 'dual_var', 'coef'], ['robust_loss', 'coef', 'intercept', 'dual_var'],
                                    ['coef', 'extra', 'robust_loss'], ['other'], []])
    v = {k: item(B, k + tag) for k in names}
    return v, dict(v), list(v.values())


@contract('C15', paths=4000)
def tuples(B):
    v, want, order = legacy(B, 'tuple')
    s, args = solver(B, v)
    a, b = Item(), Item()
    res = s(a, key=b)
    B.ensure('arguments handed on', args[0][0][0] is a and args[0][1]['key'] is b)
    fields(B, res, want, order)


@contract('C15', paths=4000)
def mappings(B):
    v, want, order = legacy(B, 'mapping')
    s, _ = solver(B, v)
    res = s()
    for k, x in want.items():
        B.ensure('named item', getattr(res, k) is x)
    fields(B, res, want, order)


@contract('C15', paths=4000)
def results(B):
    """a result object stays what it is"""
    R = B.repo('skwdro.solvers.result')
    want = {f: item(B, f) for f in FIELDS}
    extra = item(B, 'extra')
    r = R.SolverResult(**want, extra=extra)
    s, _ = solver(B, r)
    res = s()
    fields(B, res, want, [want['coef'], want['intercept'], want['dual_var']])
    B.ensure('further fields', res.extra is extra)
    empty = R.SolverResult()
    fields(B, empty, {}, [None] * 3, 'empty: ')


@contract('C15')
def anything_else(B):
    v = B.choice('value', [None, 3, 2.5, 'abc', [1, 2, 3], (), (1, 2, 3, 4, 5), tuple(range(9)), {1, 2}, object(), B.pt.zeros(3), True, b'x', iter([1])])
    s, _ = solver(B, v)
    B.ensure('refused', B.raises(s) is not None)


@contract('C15', paths=4000)
def sequences(B):
    """several results; changing one, or what the solver returned, leaves the others alone"""
    R = B.repo('skwdro.solvers.result')
    how = [B.choice(f'result {k}', ['tuple', 'mapping', 'object']) for k in range(2)]
    made = []
    for k, h in enumerate(how):
        if h == 'object':
            a, b, c = Item(), Item(), Item()
            r = R.SolverResult(a, b, c)
            made.append((r, dict(coef=a, intercept=b, dual_var=c), [a, b, c], None))
        else:
            if h == 'tuple':
                v = (Item(), Item(), Item())
                want, order = dict(zip(MEANING[3], v)), list(v)
            else:
                v = {'dual_var': Item(), 'coef': Item()}
                want, order = dict(v), list(v.values())
            made.append((solver(B, v)[0](), want, order, v))
    same = B.choice('same mapping twice', [False, True]) and how == ['mapping', 'mapping']
    if same:
        r0, want, order, v = made[0]
        v['robust_loss'] = Item()
        made[1] = (solver(B, v)[0](), dict(v), list(v.values()), v)
    r0, _, _, v0 = made[0]
    touch = B.choice('change', ['attribute', 'iteration', 'returned mapping'])
    if touch == 'attribute':
        r0.coef = Item()
        r0.robust_loss = Item()
        k = 1
    elif touch == 'iteration':
        k = 1
        for x in list(vars(r0).values()):
            if isinstance(x, list):
                x.append('robust_loss')
            elif isinstance(x, dict):
                x['robust_loss'] = 'robust_loss'
            elif isinstance(x, set):
                x.add('robust_loss')
    else:
        k = 0
        if isinstance(v0, dict):
            v0['extra'] = Item()
            v0.pop('coef')
    r, want, order, _ = made[k]
    fields(B, r, want, order)
