"""A08: pseudo-inverse and null-space projector"""
from ..common import *
import numpy as np
import sympy
import qnet
from qnet import PseudoInverse, NullSpaceProjector, OperatorSymbol
from qnet.algebra.core.abstract_algebra import Expression
from .. import anyexpr as X
from ..num import T
from . import b02

N_QUICK, N_THOROUGH = 7000, 150000
TIMEOUT = 60
RULE = ("random operator programs (symbols, level-flip operators, spin and "
        "phase operators, products within and across spaces, sums, scalar "
        "multiples, commutators, adjoints, traces, indexed sums, outer "
        "products) X: X.pseudo_inverse(), PseudoInverse.create(X) and "
        "NullSpaceProjector.create(X), their adjoints, repeated "
        "pseudo-inverses, expansions and products with X evaluated on "
        "tensors and compared with the numerical Moore-Penrose inverse and "
        "kernel projector of the program's reference value; the four Penrose "
        "identities checked on the products built by QNET; non-trivial: X is "
        "not a leaf; distinct by program")
REQUIRED = ['pseudo_inverse', 'create', 'null space', 'penrose 1',
            'penrose 2', 'penrose 3', 'penrose 4', 'twice', 'adjoint',
            'expand', 'singular', 'invertible', 'evaluated', 'unevaluated',
            'product on one space', 'product across spaces',
            'scalar multiple', 'sum', 'kernel products', 'infinite space',
            'indexed sum', 'complement']


def chain(rng, g, ctx, n):
    """a product of leaves"""
    rs = []
    for _ in range(n):
        k = rng.choice(ctx.keys)
        spc = ctx.spaces[k]
        if spc.finite:
            rs.append(rng.choice([g.op_leaf([k]), g.op_leaf([k]),
                                  ['osym', rng.choice('ABC'), [k]],
                                  ['sigma', k, *[rng.randrange(spc.dim)
                                                 for _ in 'jk'], False]]))
        else:
            rs.append(rng.choice([
                ['sigma', k, rng.randrange(3), rng.randrange(3), False],
                ['phase', k, g.sym('rp')]]))
        if rng.random() < .2:
            rs[-1] = [rng.choice(['odag', 'opinv']), rs[-1]]
        if rng.random() < .2:
            rs[-1] = ['oscl', g.scalar(0, nonzero=True), rs[-1]]
    r = rs[0]
    for x in rs[1:]:
        r = ['omul', r, x]
    return r


def has(r, names):
    if not isinstance(r, (list, tuple)):
        return False
    return bool(r) and (isinstance(r[0], str) and r[0] in names or
                        any(has(x, names) for x in r))


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    kind = rng.choice(['op', 'op', 'chain', 'chain', 'sum', 'fock', 'scalar',
                       'ixsum', 'mix'])
    if kind == 'ixsum':
        ae = X.any_expr(rng, kinds=['sumop'], fock=False, depth=1)
        ctx, r = ae.ctx, ae.recipe
    elif kind == 'fock':
        ctx = R.Ctx([R.Spc(*s) for s in rng.sample(
            [['f', 'fock', None], ['g', 'fock', None], ['q', 'dim', 2],
             ['s', 'spin', 2]], rng.choice([1, 2]))])
        g = X.XGen(rng, ctx, symargs=.2, unitary=False)
        r = chain(rng, g, ctx, rng.randint(1, 3))
    else:
        ctx = R.random_spaces(rng, fock=False, maxdim=8)
        g = X.XGen(rng, ctx, symargs=.2, unitary=False)
        if kind == 'op':
            r = g.op(rng.choice([0, 1, 2]))
        elif kind == 'chain':
            r = chain(rng, g, ctx, rng.randint(2, 4))
        elif kind == 'sum':
            r = ['oadd', chain(rng, g, ctx, rng.randint(1, 2)),
                 chain(rng, g, ctx, rng.randint(1, 2))]
        elif kind == 'scalar':
            r = rng.choice([
                ['oscl', g.scalar(0), ['oI']],
                ['oscl', g.scalar(1), chain(rng, g, ctx, 1)],
                ['oscl', g.scalar(1), chain(rng, g, ctx, 2)], ['oI'], ['o0']])
        else:
            a, b = g.op(1), g.op(1)
            r = rng.choice([['opmcc', a, rng.choice([1, -1])],
                            ['ocomm', a, b], ['odag', ['omul', a, b]],
                            ['otrace', ['omul', a, b], g.pick_spaces()],
                            ['omul', ['opinv', a], b],
                            ['opinv', ['omul', a, b]], ['onull', a],
                            ['omul', ['onull', a], b]])
    case.info = dict(spaces=ctx.to_json(), recipe=r, kind=kind)
    case.key = (ctx.to_json(), r)
    w = R.weight(r)
    if w > 12:
        raise Skip("too large")
    ctx.fit(w, False)
    if kind == 'ixsum':
        X.set_env(ctx)
    v = ref_value(case, ctx, r)
    if v.kind not in 'OS':
        raise Skip("not an operator")
    v = num.as_op(ctx.U, v)
    a = v.a
    s = np.linalg.svd(a, compute_uv=False)
    if not np.all(np.isfinite(s)) or (len(s) and s[0] > 1e4):
        raise Skip("large")
    if any(1e-11 < x < 1e-3 * max(s[0], 1) for x in s):
        raise Skip("ill-conditioned")
    if len(s) and 0 < s[0] < 1e-3:
        raise Skip("ill-conditioned")
    P = num.pinv(a)
    N = np.eye(a.shape[0]) - P @ a
    sing = bool(s[-1] < 1e-9)
    pinv = T('O', v.spaces, P)
    null = T('O', v.spaces, N)
    case.phase = 'build'
    q = R.build(ctx, r)
    if isinstance(q, (int, float, complex, sympy.Basic, np.number)):
        q = qnet.ScalarValue.create(q)
    isop = isinstance(q, qnet.Operator)
    tol = 1e-6

    def check(e, t, what):
        case.phase = what
        try:
            d, sc = num.diff(ctx.U, as_op(ctx, e), t)
        except num.TypeMismatch as exc:
            raise Bad("%s: wrong kind of object (%s)" % (what, exc),
                      result=str(e)[:400], X=str(q)[:400])
        if not np.isfinite(sc) and kind == 'ixsum':
            raise Skip("coefficient vanishes for the value of the index")
        if not d <= tol * (1 + sc):
            raise Bad("%s: value differs by %.3g (scale %.3g)" % (
                what, d, sc), result=str(e)[:400], X=str(q)[:400])
    if isop:
        case.phase = 'value'
        d, sc = num.diff(ctx.U, as_op(ctx, q), v)
        if not d <= 1e-7 * (1 + sc):
            raise Bad("value of X differs", X=str(q)[:400])
    case.saw('singular' if sing else 'invertible')
    case.nontrivial = bool(isop and isinstance(q, qnet.algebra.core.
                                               abstract_algebra.Operation))
    case.sample = str(q)[:200]
    if isinstance(q, qnet.OperatorTimes):
        n = [f.space for f in q.operands]
        if any(not x.isdisjoint(y) for i, x in enumerate(n)
               for y in n[:i] if x is not qnet.TrivialSpace and
               y is not qnet.TrivialSpace):
            case.saw('product on one space')
        else:
            case.saw('product across spaces')
    elif isinstance(q, qnet.OperatorPlus):
        case.saw('sum')
    elif isinstance(q, qnet.ScalarTimesOperator):
        case.saw('scalar multiple')
    elif isinstance(q, qnet.OperatorIndexedSum):
        case.saw('indexed sum')
    if ctx.fock():
        case.saw('infinite space')
    case.phase = 'run'
    p = None
    if isop:
        dump = b02.dump(q)
        p = q.pseudo_inverse()
        check(p, pinv, 'pseudo_inverse')
        case.saw('pseudo_inverse')
        if b02.dump(q) != dump:
            raise Bad("pseudo_inverse changes the operator")
        case.saw('unevaluated' if isinstance(p, PseudoInverse)
                 else 'evaluated')
    else:
        case.saw('scalar')
        if not s[0] > 1e-9:
            raise Skip("zero scalar")
    case.phase = 'create'
    p2 = PseudoInverse.create(q)
    check(p2, pinv, 'PseudoInverse.create')
    if p is not None and not (p == p2):
        raise Bad("PseudoInverse.create(X) is not X.pseudo_inverse()",
                  X=str(q)[:400], a=str(p)[:300], b=str(p2)[:300])
    case.saw('create')
    p = p2
    case.phase = 'null'
    n = NullSpaceProjector.create(q)
    if not n.space <= ctx.hs(ctx.keys):
        raise Bad("space of the projector", X=str(q)[:300])
    check(n, null, 'NullSpaceProjector')
    case.saw('null space')
    pick = rng.random()
    if isinstance(p, qnet.Operator):
        if pick < .35:
            case.phase = 'twice'
            check(p.pseudo_inverse(), v, 'pseudo-inverse of pseudo-inverse')
            check(PseudoInverse.create(n), null,
                  'pseudo-inverse of the kernel projector')
            case.saw('twice')
        elif pick < .6:
            case.phase = 'adjoint'
            check(p.adjoint(), num.dag(pinv), 'adjoint of pseudo-inverse')
            check(n.adjoint(), null, 'adjoint of the kernel projector')
            if isop:
                check(q.adjoint().pseudo_inverse(), num.dag(pinv),
                      'pseudo-inverse of the adjoint')
                check(PseudoInverse.create(q.adjoint()), num.dag(pinv),
                      'pseudo-inverse of the adjoint')
            case.saw('adjoint')
        else:
            case.phase = 'expand'
            check(p.expand(), pinv, 'expanded pseudo-inverse')
            check(n.expand(), null, 'expanded kernel projector')
            check(p.rebuild(), pinv, 'rebuilt pseudo-inverse')
            check(n.rebuild(), null, 'rebuilt kernel projector')
            case.saw('expand')
    if not isop:
        return
    case.phase = 'products'
    I = T('O', v.spaces, np.eye(a.shape[0]))
    zero = T('O', v.spaces, np.zeros_like(a))
    k = rng.randrange(6)
    if k == 0:
        check(q * p * q, v, 'X X+ X')
        case.saw('penrose 1')
    elif k == 1:
        check(p * q * p, pinv, 'X+ X X+')
        case.saw('penrose 2')
    elif k == 2:
        check((p * q).adjoint() - p * q, zero, '(X+ X)^* - X+ X')
        case.saw('penrose 3')
    elif k == 3:
        check((q * p).adjoint() - q * p, zero, '(X X+)^* - X X+')
        case.saw('penrose 4')
    elif k == 4:
        check(q * n, zero, 'X P_Ker')
        check(n * n, null, 'P_Ker^2')
        case.saw('kernel products')
    else:
        check(p * q + n, I, 'X+ X + P_Ker')
        case.saw('complement')


def as_op(ctx, e):
    return num.as_op(ctx.U, ctx.den(X._wrap(e)))
