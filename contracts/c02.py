"""C02: a cost code decodes to the cost it names."""
from engine.api import contract
from contracts.c01 import dist

REFUSED = (ValueError, AssertionError)
BAD_IDS = ['XX', 'nc', 'NCL', 'C', 'N', '', 'NLCC', 'nlc', ' NC']
BAD_ENGINES = ['x', 'T', 'j', 'pt', '', 'tt', 'n']


def same_cost(B, label, cost, id_, power, order, kappa):
    """the cost is the named one, in its attributes and in what it computes"""
    C = B.repo('skwdro.base.costs_torch')
    B.ensure(f'{label}: kind', isinstance(cost, C.NormCost) and isinstance(cost, C.NormLabelCost) == (id_ == 'NLC'))
    B.ensure_eq(f'{label}: power', cost.power, power)
    B.ensure_eq(f'{label}: norm order', cost.p, order)
    if id_ == 'NLC':
        B.ensure_eq(f'{label}: label weight', cost.kappa, kappa)
    m, d, l = B.dim('m'), B.dim('d'), B.dim('l')
    x, z, y, w = B.tensor('x', (m, d)), B.tensor('z', (m, d)), B.tensor('y', (m, l)), B.tensor('w', (m, l))
    s, sl = (m, d), (m, l)

    def spec(i, _):
        dd = dist(B, order, x, z, s, s, d, (i,))
        if id_ == 'NLC':
            dl = dist(B, order, y, w, sl, sl, l, (i,))
            if kappa == B.inf:
                dd = dl
            else:
                dd = B.div(dd + kappa * dl, 1 + kappa)
        return B.pow(dd, power)
    B.ensure_tensor(f'{label}: value', cost(x, z, y, w), (m, 1), spec)


def numbers(B):
    power, pt = B.numeral('power', gt=0, lt=50, usual=['1', '2', '2.0', '1.0'])
    order, ot = B.numeral('order', gt=1, lt=50, usual=['1', '2', '2.0', 'inf'])
    return power, pt, order, ot


@contract('C02')
def direct_decoder(B):
    D = B.repo('skwdro.base.cost_decoder')
    id_ = B.choice('id', ['NC', 'NLC'])
    power, pt, order, ot = numbers(B)
    fields = ['t', id_, pt, ot]
    kappa = 1e8
    if B.choice('kappa given', [False, True]):
        kappa, kt = B.numeral('kappa', lo=0, usual=['0', '0.0', 'inf', '5000.0'])
        fields.append(kt)
    same_cost(B, 'direct', D.cost_from_str('-'.join(fields)), id_, power, order, kappa)


@contract('C02', paths=3000)
def parsed_decoder(B):
    D = B.repo('skwdro.base.cost_decoder')
    id_ = B.choice('id', ['NC', 'NLC'])
    power, pt, order, ot = numbers(B)
    kappa = 1e8
    form = B.choice('form', [3, 4, 5])
    fields = [id_, pt, ot]
    if form >= 4:
        fields.insert(0, 't')
    if form == 5:
        kappa, kt = B.numeral('kappa', lo=0, usual=['0', '0.0', 'inf', '5000.0'])
        fields.append(kt)
    parsed = D.parse_code_torch('-'.join(fields), B.choice('labels', [False, True]))
    B.ensure('parsed identifier', parsed.id == id_)
    B.ensure('parsed engine', parsed.engine == 't')
    B.ensure_eq('parsed power', parsed.power, power)
    B.ensure_eq('parsed norm order', parsed.type, order)
    B.ensure_eq('parsed label weight', parsed.kappa, kappa)
    items = list(parsed)
    B.ensure('parsed order', len(items) == 5 and items[0] == 't' and items[1] == id_)
    for i, v in ((2, power), (3, order), (4, kappa)):
        B.ensure_eq(f'parsed item {i}', items[i], v)
    can = parsed.can_imp_samp()
    B.ensure('importance sampling possible exactly for squared Euclidean costs',
             B.iff(can, B.both(B.eq(power, 2), B.eq(order, 2))))
    same_cost(B, 'parsed', D.cost_from_parse_torch(parsed), id_, power, order, kappa)


@contract('C02')
def default_code(B):
    D = B.repo('skwdro.base.cost_decoder')
    how = B.choice('labels', [None, False, True])
    parsed = D.parse_code_torch(None) if how is None else D.parse_code_torch(None, how)
    B.ensure('default engine', parsed.engine == 't')
    B.ensure('default identifier', parsed.id == ('NLC' if how else 'NC'))
    B.ensure_eq('default power', parsed.power, 2.)
    B.ensure_eq('default norm order', parsed.type, 2.)
    B.ensure_eq('default label weight', parsed.kappa, 1e8)
    same_cost(B, 'default', D.cost_from_parse_torch(parsed), 'NLC' if how else 'NC', 2., 2., 1e8)


@contract('C02', paths=6000)
def unknown_codes_refused(B):
    D = B.repo('skwdro.base.cost_decoder')
    power, pt = B.numeral('power', gt=0, lt=50)
    order, ot = B.numeral('order', gt=1, lt=50, usual=['inf'])
    kappa, kt = B.numeral('kappa', lo=0)
    id_ = B.choice('id', ['NC', 'NLC'])
    what = B.choice('what', ['engine', 'identifier', 'fields'])
    lab = B.choice('labels', [False, True])
    if what == 'engine':
        fields = [B.choice('engine', BAD_ENGINES), id_, pt, ot] + [kt] * B.choice('kappa given', [0, 1])
    elif what == 'identifier':
        fields = ['t', B.choice('bad id', BAD_IDS), pt, ot] + [kt] * B.choice('kappa given', [0, 1])
    else:
        fields = ['t', id_, pt, ot, kt, '1.0', '2.0'][:B.choice('number', [1, 2, 6, 7])]
    code = '-'.join(fields)

    def route():
        return D.cost_from_parse_torch(D.parse_code_torch(code, lab))
    B.ensure(f'direct decoder refuses unknown {what}', B.raises(lambda: D.cost_from_str(code), *REFUSED) is not None)
    B.ensure(f'parse then build refuses unknown {what}', B.raises(route, *REFUSED) is not None)
