"""G01: conversion to QuTiP preserves the represented object"""
import warnings
from ..common import *
import numpy as np
import sympy
import qutip
import qnet
from qnet.convert.to_qutip import convert_to_qutip
from qnet.algebra.core.exceptions import AlgebraError
from .. import conv
from .. import anyexpr as X

N_QUICK, N_THOROUGH = 12000, 400000
TIMEOUT = 100
RULE = ("random operators, kets, bras and superoperators on 1-3 spaces of "
        "finite dimension with numeric coefficients and symbols supplied "
        "through `mapping` (as Qobj or as callable), converted for their own "
        "and for larger Hilbert spaces; data (and dims) of the Qobj are "
        "compared with the tensor computed node by node from the expression "
        "in the order of the factors of the full space; superoperators by "
        "their action on random matrices; non-convertible objects must "
        "raise. non-trivial: at least two nodes; distinct by (spaces, "
        "program, full space)")
REQUIRED = ['op', 'ket', 'bra', 'sop', 'mapping', 'mapping callable',
            'mapped inside larger space', 'own space', 'larger space',
            'three factors', 'dims', 'rejected', 'class:Jz', 'class:Jplus',
            'class:Jminus', 'class:Displace', 'class:Squeeze', 'class:Phase',
            'class:Create', 'class:Destroy', 'class:LocalSigma',
            'class:OperatorTimes', 'class:OperatorPlus', 'class:KetBra',
            'class:ScalarTimesOperator', 'class:Adjoint', 'class:BasisKet',
            'class:CoherentStateKet', 'class:TensorKet', 'class:KetPlus',
            'class:OperatorTimesKet', 'class:ScalarTimesKet', 'class:SPre',
            'class:SPost', 'class:SuperOperatorTimes',
            'class:SuperOperatorPlus', 'class:SuperOperatorTimesOperator',
            'class:PseudoInverse', 'class:NullSpaceProjector', 'spin mixed']

UNSUPPORTED = {'OperatorTrace', 'Commutator', 'OperatorPlusMinusCC',
               'SuperAdjoint', 'ZeroKet', 'TrivialKet'}


class NumGen:
    """numeric coefficients, level numbers below the dimension"""

    def sym(self, kinds='rpc'):
        return self.rng.choice([['num', 'float', .7], ['num', 'rat', 1, 3],
                                ['num', 'int', 2]] + (
            [['num', 'complex', .5, -.25], ['num', 'symI', 1, 1]]
            if 'c' in kinds else []))

    def native(self, depth=1, nonzero=False):
        r = self.number(nonzero)
        if self.rng.random() < .2:
            r = ['nmul', ['nsqrt', ['num', 'int', 2]], r]
        return r

    def scalar(self, depth=1, nonzero=False, qnet_scalar=False):
        r = self.native(depth, nonzero)
        return ['sval', r] if qnet_scalar else r

    def small_amp(self):
        return self.rng.choice([['num', 'float', .25], ['num', 'symI', 0, 1],
                                ['num', 'complex', .5, -.25],
                                ['num', 'rat', 1, 2]])

    def op_leaf(self, keys):
        r = conv.clip(self.ctx, super().op_leaf(keys))
        if r[0] == 'squeeze':
            return ['squeeze', r[1], self.small_amp()]
        return r


class Gen(NumGen, X.XGen):
    pass


def all_classes(e, acc):
    if isinstance(e, (qnet.Operator, qnet.State, qnet.SuperOperator,
                      qnet.Scalar)):
        acc.add(type(e).__name__)
        for a in e.args:
            all_classes(a, acc)
    return acc


def clip_kets(ctx, r):
    if not isinstance(r, (list, tuple)):
        return r
    if len(r) >= 3 and r[0] in ('bket', 'basisket', 'kbasis') and \
            isinstance(r[2], int):
        return [r[0], r[1], r[2] % ctx.dim(r[1])] + list(r[3:])
    return [clip_kets(ctx, x) for x in r]


def dims(ctx, labels):
    return [ctx.dim(k) for k in labels]


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    kind = rng.choice(['op'] * 4 + ['ket', 'ket', 'bra', 'sop', 'sop',
                                    'sopapp', 'special', 'bad'])
    ctx = conv.spaces(rng, maxdim=rng.choice([4, 8]) if kind.startswith('sop')
                      else rng.choice([4, 8, 16]))
    if kind == 'bad':
        return rejected(case, ctx)
    g = Gen(rng, ctx, unitary=True, symargs=.1)
    ks = g.pick_spaces()
    d = rng.choice([0, 1, 2, 2, 3])
    if kind == 'op':
        r = g.op(d, ks)
        if rng.random() < .2:
            r = ['omul', r, ['kettimesbra', g.ket(ks, 1), g.bra(ks, 1)]]
    elif kind == 'special':
        r = rng.choice([['opinv', g.op(1, ks)], ['onull', g.op(1, ks)],
                        ['oadjoint', g.op(1, ks)]])
        kind = 'op'
    elif kind == 'ket':
        r = g.ket(ks, d)
    elif kind == 'bra':
        r = g.bra(ks, d)
    elif kind == 'sop':
        r = g.sop(min(d, 2), ks) if rng.random() < .9 else g.sop(0, ks)
    else:
        r = ['papp', g.sop(min(d, 1), ks), g.op(min(d, 1), ks)]
        kind = 'op'
        r = g.sop_app(1)
    r = clip_kets(ctx, r)
    case.info = dict(spaces=ctx.to_json(), recipe=r, kind=kind)
    case.phase = 'run'
    try:
        e = R.build(ctx, r)
    except ValueError as exc:
        if 'must be < the dimension' in str(exc):
            raise Skip("level outside of the truncated space")
        raise
    if kind == 'op' and isinstance(e, (int, float, complex, sympy.Basic,
                                       qnet.Scalar)):
        e = e * qnet.IdentityOperator
    if not isinstance(e, (qnet.Operator, qnet.State, qnet.SuperOperator)):
        raise Skip("not convertible kind")
    kind = 'op' if isinstance(e, qnet.Operator) else 'sop' if isinstance(
        e, qnet.SuperOperator) else 'bra' if e.isbra else 'ket'
    cl = all_classes(e, set())
    ambiguous = kind != 'op'
    big = e.space is qnet.TrivialSpace or rng.random() < .5
    hs = ctx.hs(tuple(ctx.keys)) if big else e.space
    case.key = (str(ctx.to_json()), r, big)
    case.info['full_space'] = str(hs)
    case.sample = str(e)[:200]
    case.nontrivial = len(cl) > 1
    # symbols
    mapping = {}
    U = ctx.U
    for x in X.subexprs(e):
        nm = type(x).__name__
        if nm not in ('OperatorSymbol', 'KetSymbol', 'SuperOperatorSymbol'):
            continue
        lb = conv.order(x.space)
        dm = dims(ctx, lb)
        t = ctx.den(x)
        if nm == 'SuperOperatorSymbol':
            if x.space != hs:
                raise Skip("superoperator symbol inside a larger space")
            f = conv.full_super(U, t, lb)
            N = int(np.prod(dm))
            cols = []
            for i in range(N * N):
                v = np.zeros(N * N, dtype=complex)
                v[i] = 1
                cols.append(f(v.reshape(N, N).T).T.reshape(-1))
            q = qutip.Qobj(np.array(cols).T, dims=[[dm, dm], [dm, dm]],
                           type='super')
        elif nm == 'KetSymbol':
            q = qutip.Qobj(conv.full(U, t, lb).reshape(-1, 1),
                           dims=[dm, [1] * len(dm)])
        else:
            q = qutip.Qobj(conv.full(U, t, lb), dims=[dm, dm])
        if x.space != hs:
            case.saw('mapped inside larger space')
        if rng.random() < .3:
            def func(expr, x=x, q=q):
                if not expr == x:
                    raise Bad("mapping function called with another "
                              "expression", got=str(expr), want=str(x))
                return q
            mapping[x] = func
            case.saw('mapping callable')
        else:
            mapping[x] = q
            case.saw('mapping')
    abstract = [x for x in cl if x in ('BraKet', 'ScalarPower',
                                       'ScalarIndexedSum')]
    if abstract:
        raise Skip("abstract scalars")
    if big or rng.random() < .5:
        kw = dict(full_space=hs)
    else:
        kw = {}
    if mapping or rng.random() < .2:
        kw['mapping'] = mapping
    if kind in ('ket', 'bra') and hs != e.space and e.space not in (
            qnet.FullSpace, qnet.TrivialSpace) and len(
            e.space.local_factors) > 1:
        case.saw('embedded product state')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            q = convert_to_qutip(e, **kw)
    except (ValueError, NotImplementedError, AlgebraError,
            AssertionError) as exc:
        if cl & UNSUPPORTED:
            case.saw('rejected')
            return
        if 'Cannot represent as QuTiP object' in str(exc):
            case.saw('not expandable')
            return
        raise
    if not isinstance(q, qutip.Qobj):
        raise Bad("result is not a Qobj", got=str(type(q)), expr=str(e))
    case.phase = 'den'
    labels = conv.order(hs)
    dm = dims(ctx, labels)
    N = int(np.prod(dm))
    t = ctx.den(e)
    if kind == 'sop':
        if q.type != 'super' or q.shape != (N * N, N * N):
            raise Bad("not a superoperator on the full space",
                      got=str((q.type, q.shape)), want=N, expr=str(e))
        f = conv.full_super(U, t, labels)
        rs = np.random.RandomState(rng.randrange(2**31))
        m = q.full()
        got, want = [], []
        for _ in range(2):
            x = rs.randn(N, N) + 1j * rs.randn(N, N)
            want.append(f(x))
            got.append((m @ x.T.reshape(-1)).reshape(N, N).T)
        got, want = np.array(got), np.array(want)
        wd = [[dm, dm], [dm, dm]]
    elif kind == 'op':
        got, want = q.full(), conv.full(U, t, labels)
        wd = [dm, dm]
    else:
        if num.is_zero_vec(t):
            raise Skip("zero state")
        sp = list(t.spaces)
        v = np.asarray(t.a).reshape(dims(ctx, sp))
        rest = [k for k in labels if k not in sp]
        nr = int(np.prod(dims(ctx, rest))) if rest else 1
        # ket (x) identity on the other factors
        a = np.multiply.outer(v, np.eye(nr).reshape(dims(ctx, rest) + [nr]))
        a = np.transpose(a, [(sp + rest).index(k) for k in labels] +
                         [len(labels)]).reshape(N, nr)
        want = a
        if kind == 'bra':
            want = a.T          # den of a bra: conjugated entries
        got = q.full()
        wd = None
        if not rest:
            wd = [dm, [1] * len(dm)]
            if kind == 'bra':
                wd = wd[::-1]
    if got.shape != want.shape:
        raise Bad("shape of the Qobj", got=str(got.shape),
                  want=str(want.shape), expr=str(e), full_space=str(hs))
    if wd is not None:
        if q.dims != wd:
            raise Bad("dims of the Qobj", got=str(q.dims), want=str(wd),
                      expr=str(e), full_space=str(hs))
        case.saw('dims')
    dd = np.max(np.abs(got - want))
    if dd > 1e-7 and cl & {'CoherentStateKet', 'Create', 'Destroy',
                           'Displace', 'Squeeze'}:
        # products of non-local operators are expanded, which applies rules
        # (a a^+ = a^+ a + 1, a|alpha> = alpha|alpha>) that do not hold in a
        # truncated space
        case.phase = 'den'
        t2 = ctx.den(e.expand())
        d2, sc = num.diff(U, t2, t)
        if d2 > 1e-9:
            raise Skip("expansion is not exact in the truncated space")
    if not dd <= 1e-7 * (1 + np.max(np.abs(want))):
        raise Bad("%s: the converted object differs by %.3g" % (kind, dd),
                  expr=str(e), full_space=str(hs),
                  got=str(np.round(got, 4))[:600],
                  want=str(np.round(want, 4))[:600])
    case.saw(kind)
    for c in cl:
        case.saw('class:' + c)
    case.saw('larger space' if hs != e.space else 'own space')
    if len(labels) == 3:
        case.saw('three factors')
    if cl & {'Jz', 'Jplus', 'Jminus'} and cl & {'LocalSigma', 'BasisKet'}:
        case.saw('spin mixed')


def rejected(case, ctx):
    rng = case.rng
    key = rng.choice(ctx.keys)
    hs = ctx.hs(key)
    other = qnet.LocalSpace('other', dimension=2)
    A = qnet.OperatorSymbol('A', hs=hs)
    x = sympy.Symbol('x')
    how, f = rng.choice([
        ('space', lambda: convert_to_qutip(qnet.LocalSigma(0, 1, hs=other),
                                           hs)),
        ('symbol', lambda: convert_to_qutip(A + 1)),
        ('trivial', lambda: convert_to_qutip(qnet.IdentityOperator)),
        ('coefficient', lambda: convert_to_qutip(
            x * qnet.LocalSigma(0, 1, hs=hs))),
        ('ket symbol', lambda: convert_to_qutip(
            qnet.KetSymbol('Psi', hs=hs))),
        ('slh', lambda: convert_to_qutip(qnet.SLH([[1]], [A], 0))),
    ])
    case.info = dict(spaces=ctx.to_json(), rejected=how)
    case.key = (str(ctx.to_json()), how)
    case.phase = 'run'
    try:
        f()
    except (ValueError, TypeError, AlgebraError):
        case.saw('rejected')
        return
    raise Bad("object without a matrix is converted (%s)" % how)
