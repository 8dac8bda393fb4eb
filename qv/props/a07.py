"""A07: partial traces"""
from ..common import *

N_QUICK, N_THOROUGH = 14000, 150000
RULE = ("random operator programs (sums, products, scaled, adjoint, commutators"
        ", symbols over several spaces, ket-bras, ladder operators sandwiched "
        "by finite-rank operators) over 1-3 local spaces, traced over a "
        "random subset of the spaces (also nested, inside of sums, products "
        "and adjoints, over spaces the operator does not act on, given as "
        "label, space or product space); non-trivial: the program has at least "
        "3 nodes and the result was compared; distinct by program text")
REQUIRED = ['traced a product space', 'traced an absent space',
            'traced a mode', 'partial trace', 'full trace']


def finite_rank(g, rng, key):
    """operator of finite rank on mode `key` (window supported)"""
    x = rng.random()
    if x < 0.35:
        return ['proj', key, rng.randrange(R.W), False]
    if x < 0.7:
        return ['sigma', key, rng.randrange(R.W), rng.randrange(R.W), False]
    if x < 0.85:
        return ['osym', rng.choice('AB'), [key]]
    return ['ketbra', ['kbasis', key, rng.randrange(R.W), False],
            ['ksym', 'Psi', [key]]]


def body(g, rng, ctx, depth, over):
    ops = g.op(depth)
    foc = [k for k in over if not ctx.spaces[k].finite]
    if foc:
        k = foc[0]
        f = finite_rank(g, rng, k)
        x = rng.random()
        if x < 0.3:
            r = ['omul', ops, f]
        elif x < 0.6:
            r = ['omul', f, ops]
        elif x < 0.8:
            r = ['otimes', ops, f, g.op(max(0, depth - 1))]
        else:
            r = ['osct', g.scalar(1), ['omul', ops, f]]
        if rng.random() < 0.3:
            r = ['oplus', r, ['omul', finite_rank(g, rng, k), g.op(1)]]
        return r
    if rng.random() < 0.5:
        # products with factors on several spaces
        return ['otimes'] + [g.op(rng.choice([0, 0, 1]))
                             for _ in range(rng.randint(2, 5))]
    return ops


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = R.random_spaces(rng, fock=rng.random() < 0.4, maxdim=12)
    g = R.Gen(rng, ctx, unitary=False)
    over = g.pick_spaces()
    depth = rng.choice([0, 1, 1, 2, 2])
    r = body(g, rng, ctx, depth, over)
    r = ['otrace', r, over]
    x = rng.random()
    fin = all(ctx.spaces[k].finite for k in ctx.keys)
    if fin:
        if x < 0.15:
            over2 = g.pick_spaces()
            r = ['otrace', r, over2]
            over = over + over2
        elif x < 0.3:
            r = ['otrace', ['omul', r, g.op(1)], g.pick_spaces()]
        elif x < 0.4:
            r = ['otrace', ['oadd', ['odag', r], g.op(1)], g.pick_spaces()]
    if x > 0.9:
        r = ['odag', r]
    elif x > 0.8:
        r = ['omul', r, g.op(1)] if fin else ['oscl', g.scalar(1), r]
    fit(case, ctx, r)
    v = ref_value(case, ctx, r)
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.key = (ctx.to_json(), r)
    case.phase = 'build'
    q = R.build(ctx, r)
    check_same(case, ctx, q, v, 'trace')
    case.phase = 'expand'
    if rng.random() < 0.4:
        check_same(case, ctx, q.expand(), v, 'trace after expand')
    # the unevaluated trace means the same
    if rng.random() < 0.2:
        case.phase = 'raw'
        inner = R.build(ctx, r[1]) if r[0] == 'otrace' else None
        if inner is not None:
            raw = R.OperatorTrace(inner, over_space=ctx.hs(r[2]))
            check_same(case, ctx, raw.rebuild(), v, 'rebuilt trace')
            if hasattr(inner, 'space') and set(raw.space.local_factors) != \
                    set(inner.space.local_factors) - set(
                        ctx.hs(r[2]).local_factors):
                raise Bad("space of the trace is %s" % raw.space)
            case.saw('raw trace')
    case.nontrivial = R.size(r) >= 3
    case.sample = str(r)[:300]
    used = set()
    acting = set()

    def scan(r):
        if r[0] == 'osym':
            acting.update(r[2])
        elif len(r) > 1 and isinstance(r[1], str):
            acting.add(r[1])
        for a in r[1:]:
            if R.is_recipe(a):
                scan(a)
    scan(r)
    if len(over) > 1:
        case.saw('traced a product space')
    if any(k not in acting for k in over):
        case.saw('traced an absent space')
    if any(not ctx.spaces[k].finite for k in over):
        case.saw('traced a mode')
    case.saw('full trace' if set(over) >= acting else 'partial trace')
    for c in classes_in(q):
        case.saw('result contains ' + c)
