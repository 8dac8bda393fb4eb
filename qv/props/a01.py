"""A01: operator construction and automatic simplification"""
from ..common import *

N_QUICK, N_THOROUGH = 12000, 150000
RULE = ("random typed programs (depth 2-4) over 1-3 local spaces (labelled, "
        "unlabelled, spin, one truncated mode) building operators with every "
        "public constructor and Python operator; non-trivial: program has at "
        "least 3 nodes and the result was compared numerically; distinct by "
        "program text")


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = R.random_spaces(rng)
    g = R.Gen(rng, ctx)
    r = g.op(rng.choice([2, 3, 3, 4]))
    fit(case, ctx, r)
    v = ref_value(case, ctx, r)
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.key = (ctx.to_json(), r)
    case.phase = 'build'
    q = R.build(ctx, r)
    check_same(case, ctx, q, v, 'operator program')
    case.nontrivial = R.size(r) >= 3
    case.sample = str(r)[:300]
    for c in classes_in(q):
        case.saw('result contains ' + c)
