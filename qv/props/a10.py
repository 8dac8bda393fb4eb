"""A10: explicit transformations"""
from ..common import *

N_QUICK, N_THOROUGH = 4500, 60000
RULE = ("random programs for operators, states, superoperators, scalars and "
        "traces; the result is sent through random chains (length 1-3) of expand, "
        "simplify_scalar, doit, expand_in_basis, rewrite_with_operator_pm_cc, "
        "expand_commutators_leibniz, get_coeffs (re-summed), rebuild; each "
        "intermediate object is compared with the reference value; "
        "non-trivial: the program has at least 3 nodes; distinct by program "
        "text and chain")
REQUIRED = ['expand', 'simplify_scalar', 'doit', 'expand_in_basis',
            'expand_in_basis hermitian', 'pm_cc', 'leibniz', 'leibniz lazy',
            'get_coeffs', 'rebuild', 'expand changed', 'pm_cc changed',
            'leibniz changed', 'doit changed', 'simplify_scalar changed']


def redundant_scalar(g, rng):
    """scalar that simplify_scalar can shorten"""
    a = g.sym('rp')
    return rng.choice([
        ['nadd', ['npow', ['nsin', a], 2],
         ['npow', ['nsin', ['nadd', a, ['num', 'rat', 1, 2]]], 2]],
        ['nadd', ['nmul', a, g.sym()], ['nmul', ['num', 'int', -1],
                                       ['nmul', a, g.sym()]]],
        ['nmul', ['nadd', a, ['num', 'int', 1]],
         ['npow', ['nadd', a, ['num', 'int', 1]], -1]],
        ['nmul', ['nexp', a], ['nexp', ['nmul', ['num', 'int', 2], a]]],
    ])


def cc_body(g, rng, keys):
    a = g.op(1, keys)
    b = rng.choice([['odag', a], ['odag', a], ['oneg', ['odag', a]]])
    c = g.scalar(1)
    x = rng.random()
    if x < 0.4:
        s = ['oadd', ['oscl', c, a], ['oscl', c, b]]
    elif x < 0.6:
        s = ['osub', ['oscl', c, a], ['oscl', c, b]]
    elif x < 0.8:
        s = ['oadd', a, b]
    else:
        s = ['oadd', ['oscl', c, a], ['odag', ['oscl', c, a]]]
    if rng.random() < 0.6:
        s = ['oplus', s, g.op(1, keys), g.op(0, keys)]
    if rng.random() < 0.3:
        s = ['omul', s, g.op(0, keys)]
    return s


def comm_body(g, rng, keys):
    """commutators of products of symbols, nested"""
    def prod(n):
        return ['otimes'] + [g.op(0, keys) for _ in range(n)]
    r = ['ocomm', prod(rng.randint(1, 3)) if rng.random() < 0.8 else g.op(1),
         prod(rng.randint(1, 3))]
    x = rng.random()
    if x < 0.25:
        r = ['ocomm', r, prod(2)]
    elif x < 0.4:
        r = ['omul', r, g.op(1, keys)]
    elif x < 0.55:
        r = ['oadd', r, g.op(1, keys)]
    elif x < 0.65:
        r = ['oscl', g.scalar(1), r]
    elif x < 0.75:
        r = ['odag', r]
    return r


def run_case(case):
    import sympy as sp
    from qnet import (rewrite_with_operator_pm_cc,
                      expand_commutators_leibniz, Operator, get_coeffs)
    rng = case.rng
    case.phase = 'gen'
    kind = rng.choice(['op', 'op', 'op', 'cc', 'comm', 'state', 'sop',
                       'trace', 'scalar', 'red'])
    ctx = object_ctx(rng, kind in ('sop', 'trace'))
    g = R.Gen(rng, ctx)
    depth = rng.choice([1, 2, 2, 3])
    if kind == 'cc':
        r = cc_body(g, rng, ctx.keys)
    elif kind == 'comm':
        r = comm_body(g, rng, ctx.keys)
    elif kind == 'red':
        r = ['oscl', redundant_scalar(g, rng), g.op(1)]
        x = rng.random()
        if x < 0.3:
            r = ['oadd', r, g.op(1)]
        elif x < 0.6:
            ks = g.pick_spaces()
            r = ['kscl', redundant_scalar(g, rng), g.ket(ks, 1)]
            if rng.random() < 0.5:
                r = ['bradotket', ['bra', g.ket(ks, 1)], r]
    else:
        k, r = random_object(rng, ctx, g, depth, (kind,))
        if kind == 'scalar' and (r[0].startswith('n') or r[0] == 'sym'):
            r = ['sval', r]
    fit(case, ctx, r)
    v = ref_value(case, ctx, r)
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.phase = 'build'
    q = R.build(ctx, r)
    is_op = isinstance(q, Operator)
    finite = all(ctx.spaces[k].finite for k in ctx.keys)
    trans = ['expand', 'simplify_scalar', 'doit', 'rebuild']
    if is_op:
        trans += ['pm_cc', 'leibniz', 'leibniz lazy', 'get_coeffs']
        if finite:
            trans += ['expand_in_basis']
    first = {'cc': 'pm_cc', 'comm': rng.choice(['leibniz', 'leibniz lazy',
                                                'doit']),
             'red': 'simplify_scalar'}.get(kind)
    chain = []
    for i in range(rng.randint(1, 3)):
        t = first if (i == 0 and first and is_op) else rng.choice(trans)
        if t == 'pm_cc' and not is_op:
            continue
        chain.append(t)
        case.info['chain'] = list(chain)
        case.phase = 'run'
        old = q
        if t == 'expand':
            q = q.expand()
        elif t == 'simplify_scalar':
            if rng.random() < 0.3:
                q = q.simplify_scalar(func=sp.expand)
            else:
                q = q.simplify_scalar()
        elif t == 'doit':
            y = rng.random()
            if y < 0.6:
                q = q.doit()
            elif y < 0.8:
                q = q.doit(recursive=False)
            else:
                q = q.doit([R.Commutator, R.OperatorPlusMinusCC])
        elif t == 'rebuild':
            q = q.rebuild()
            if not q == old:
                case.saw('rebuild changed the form')
        elif t == 'pm_cc':
            q = rewrite_with_operator_pm_cc(q)
        elif t == 'leibniz':
            q = expand_commutators_leibniz(q)
        elif t == 'leibniz lazy':
            q = expand_commutators_leibniz(q, expand_expr=False)
        elif t == 'get_coeffs':
            co = get_coeffs(q, expand=rng.random() < 0.5)
            case.phase = 'coeffs'
            if co[R.OperatorSymbol('NotThere', hs=0)] != 0:
                raise Bad("get_coeffs of an absent operator is not zero")
            tot = num.S(0)
            for o, c in co.items():
                if type(o).__name__ == 'OperatorSymbol' and \
                        o.label == 'NotThere':
                    continue
                tot = num.add(ctx.U, tot, num.scale(
                    ctx.den.scalar(c), ctx.den(o)))
            d, sc = num.diff(ctx.U, tot, v)
            if not d <= 1e-7 * (1 + sc):
                raise Bad("sum of get_coeffs differs by %.3g (%.3g)" % (d, sc),
                          coeffs=str(dict(co)))
            case.saw('get_coeffs')
            continue
        elif t == 'expand_in_basis':
            dim = 1
            for k in ctx.keys:
                dim *= ctx.spaces[k].dim
            if dim > 8 or q.space is R.TrivialSpace or \
                    (dim > 4 and 'expand_in_basis' in chain[:-1]):
                continue
            herm = False
            if v.kind == 'O' and rng.random() < 0.5:
                # make it hermitian
                q = q + q.dag()
                v = num.add(ctx.U, v, num.dag(v))
                herm = True
                case.info['hermitian'] = True
                if not isinstance(q, Operator) or \
                        q.space is R.TrivialSpace:
                    continue
            if herm:
                q = q.expand_in_basis(hermitian=True)
                case.saw('expand_in_basis hermitian')
            elif rng.random() < 0.3:
                bs = list(q.space.basis_states)
                rng.shuffle(bs)
                q = q.expand_in_basis(basis_states=bs)
            else:
                q = q.expand_in_basis()
        case.saw(t)
        if q is not old and not q == old:
            case.saw(t.split()[0] + ' changed')
        check_same(case, ctx, q, v, ' -> '.join(chain))
        is_op = isinstance(q, Operator)
        if not is_op:
            trans = ['expand', 'simplify_scalar', 'doit', 'rebuild']
            if not hasattr(q, 'expand'):
                break
    case.key = (ctx.to_json(), r, chain)
    case.nontrivial = R.size(r) >= 3
    case.sample = str((r, chain))[:300]
