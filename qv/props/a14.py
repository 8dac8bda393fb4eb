"""A14: adjoint laws"""
from ..common import *
import numpy as np

N_QUICK, N_THOROUGH = 9000, 100000
RULE = ("random programs for operators, kets, bras, inner products, scalars, "
        "superoperators, traces and matrices; for each result X the values of X.adjoint() "
        "(and X.dag(), Adjoint.create, the adjoint of an unevaluated adjoint, "
        "and laws for sums, products and multiples) are compared with the "
        "conjugate transpose of the reference value of X, and the Hilbert "
        "space of X and its adjoint are compared; non-trivial: the program has "
        "at least 3 nodes; distinct by program text")
REQUIRED = ['adjoint of op', 'adjoint of state', 'adjoint of sop',
            'adjoint of matrix', 'adjoint of trace', 'involution', 'product',
            'sum', 'multiple']


def vdag(ctx, v):
    return num.superadj(ctx.U, v) if v.kind == 'P' else num.dag(v)


def space_of(q):
    return q.space if hasattr(q, 'space') else None


def matrix_case(case, rng, ctx, g):
    from qnet import Matrix
    n, m = rng.randint(1, 3), rng.randint(1, 3)
    ent = [[g.op(1) if rng.random() < 0.6 else g.scalar(0)
            for _ in range(m)] for _ in range(n)]
    flat = ['oplus'] + [e for row in ent for e in row]
    fit(case, ctx, flat)
    vals = [[ref_value(case, ctx, e) for e in row] for row in ent]
    case.info = dict(spaces=ctx.to_json(), recipe=ent)
    case.key = (ctx.to_json(), ent)
    case.phase = 'build'
    M = Matrix([[R.build(ctx, e) for e in row] for row in ent])
    case.phase = 'adjoint'
    how = rng.choice(['adjoint', 'dag'])
    A = getattr(M, how)()
    if A.shape != (m, n):
        raise Bad("shape of the adjoint is %s" % (A.shape,))
    AA = A.adjoint()
    for i in range(n):
        for j in range(m):
            check_same(case, ctx, A.matrix[j, i], num.dag(vals[i][j]),
                       'entry of adjoint matrix')
            check_same(case, ctx, AA.matrix[i, j], vals[i][j],
                       'entry of twice adjoint matrix')
            check_same(case, ctx, M.matrix[i, j], vals[i][j],
                       'entry of matrix after adjoint')
    case.saw('adjoint of matrix')
    case.nontrivial = True


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    kind = rng.choice(['op', 'op', 'op', 'state', 'state', 'sop', 'trace',
                       'matrix', 'scalar'])
    ctx = object_ctx(rng, kind in ('sop', 'trace'))
    g = R.Gen(rng, ctx)
    depth = rng.choice([1, 2, 2, 3])
    if kind == 'matrix':
        return matrix_case(case, rng, ctx, g)
    kind, r = random_object(rng, ctx, g, depth, (kind,))
    if kind == 'scalar' and (r[0].startswith('n') or r[0] == 'sym'):
        r = ['sval', r]
    fit(case, ctx, r)
    v = ref_value(case, ctx, r)
    w = v if kind == 'sop' and v.kind == 'S' else vdag(ctx, v)
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.key = (ctx.to_json(), r)
    case.phase = 'build'
    q = R.build(ctx, r)
    case.phase = 'adjoint'
    q1 = q.adjoint() if rng.random() < 0.5 else q.dag()
    check_same(case, ctx, q1, w, 'adjoint')
    case.saw('adjoint of ' + kind)
    case.phase = 'involution'
    q2 = q1.adjoint()
    check_same(case, ctx, q2, v, 'adjoint of adjoint')
    case.saw('involution')
    if type(q2).__name__ not in ('int', 'float', 'complex'):
        if not q2 == q:
            case.saw('adjoint of adjoint has another form')
    for a in (q1, q2):
        s, t = space_of(q), space_of(a)
        if s is not None and t is not None and s != t:
            # a simplification may only remove factors
            if not (t <= s):
                raise Bad("Hilbert space of the adjoint is %s instead of %s"
                          % (t, s))
            case.saw('smaller space after adjoint')
    # unevaluated adjoint
    case.phase = 'raw'
    if v.kind in 'OS' and isinstance(q, R.qnet.Operator):
        raw = R.Adjoint(q)
        check_same(case, ctx, raw.adjoint(), v, 'adjoint of Adjoint(X)')
        check_same(case, ctx, raw.rebuild(), w, 'Adjoint(X).rebuild()')
        check_same(case, ctx, raw.expand(), w, 'Adjoint(X).expand()')
        case.saw('raw')
    if v.kind == 'P':
        raw = R.SuperAdjoint(q)
        check_same(case, ctx, raw.adjoint(), v, 'adjoint of SuperAdjoint(X)')
        check_same(case, ctx, raw.expand(), w, 'SuperAdjoint(X).expand()')
        case.saw('raw')
    # laws
    case.phase = 'gen'
    x = rng.random()
    if kind in ('op', 'trace'):
        r2 = g.op(1)
    elif kind == 'sop' and v.kind == 'P':
        r2 = g.sop(1)
    else:
        r2 = None
    s = ['sval', g.native(1)]
    ctx2 = ctx
    if r2 is not None:
        law = rng.choice(['product', 'sum', 'multiple'])
    else:
        law = 'multiple'
    full = ['oplus'] + ([r, r2] if r2 else [r])
    if law == 'product':
        full = ['otimes', r, r2]
    if R.uses_unitary(full) or R.weight(full) > 10:
        raise Skip('too large for the laws')
    ctx.fit(R.weight(full), R.uses_unitary(full))
    case.info['recipe2'] = [law, r2, s]
    v = ref_value(case, ctx, r)
    if law == 'multiple':
        c = ref_value(case, ctx, s)
        case.phase = 'law'
        Q = R.build(ctx, s) * q
        V = num.scale(c.a, v)
        if kind == 'sop' and v.kind == 'S':
            W = V
        elif v.kind == 'P':
            W = num.superadj(ctx.U, V)
        else:
            W = num.dag(V)
    else:
        v2 = ref_value(case, ctx, r2)
        case.phase = 'law'
        q2 = R.build(ctx, r2)
        if law == 'product':
            Q = q * q2
            V = num.mul(ctx.U, v, v2)
        else:
            Q = q + q2
            V = num.add(ctx.U, v, v2)
        W = V if kind == 'sop' and V.kind == 'S' else vdag(ctx, V)
    check_same(case, ctx, Q.adjoint(), W, 'adjoint of ' + law)
    if law == 'product':
        check_same(case, ctx, q2.adjoint() * q.adjoint(), W,
                   'reversed product of adjoints')
    case.saw(law)
    case.nontrivial = R.size(r) >= 3
    case.sample = str(r)[:300]
