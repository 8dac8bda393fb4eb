"""G02: conversion to SymPy matrices preserves the represented operator"""
from ..common import *
import numpy as np
import sympy
import qnet
from qnet.convert.to_sympy_matrix import convert_to_sympy_matrix
from .. import conv
from ..symeval import eval_sympy
from .. import anyexpr as X

N_QUICK, N_THOROUGH = 8000, 200000
TIMEOUT = 100
RULE = ("random operators (all local operators, spin operators, sums, "
        "products, powers, commutators, ket-bras, adjoints) on 1-3 spaces of "
        "finite dimension, with symbolic and numeric coefficients, converted "
        "for their own and for larger Hilbert spaces; the evaluated matrix "
        "entries are compared with the tensor computed node by node from the "
        "expression in the order of the factors of the full space; "
        "non-convertible objects must raise. non-trivial: at least two "
        "nodes; distinct by (spaces, program, full space)")
REQUIRED = ['compared', 'own space', 'larger space', 'three factors',
            'rejected', 'not in full space', 'identity', 'class:Jz',
            'class:Jplus', 'class:Jminus', 'class:Displace', 'class:Squeeze',
            'class:Phase', 'class:Create', 'class:Destroy',
            'class:LocalSigma', 'class:OperatorTimes', 'class:OperatorPlus',
            'class:ScalarTimesOperator', 'spin mixed']


class Gen(conv.NoSym, X.XGen):
    def small_amp(self):
        return self.rng.choice([['num', 'float', .25], ['num', 'symI', 0, 1],
                                ['num', 'complex', .5, -.25],
                                ['num', 'rat', 1, 2]])

    def op_leaf(self, keys):
        r = super().op_leaf(keys)
        if r[0] == 'squeeze':
            return ['squeeze', r[1], self.small_amp()]
        return r


UNSUPPORTED = {'OperatorSymbol', 'PseudoInverse', 'NullSpaceProjector',
               'OperatorTrace', 'Commutator', 'KetBra',
               'OperatorPlusMinusCC', 'OperatorDerivative',
               'QuantumDerivative', 'OperatorIndexedSum'}


def all_classes(e, acc):
    if isinstance(e, qnet.Operator):
        acc.add(type(e).__name__)
        for a in e.args:
            all_classes(a, acc)
    return acc


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = conv.spaces(rng, maxdim=rng.choice([4, 8, 12]))
    kind = 'bad' if rng.random() < .06 else 'conv'
    if kind == 'bad':
        return rejected(case, ctx)
    g = Gen(rng, ctx, unitary=True, symargs=0)
    ks = g.pick_spaces()
    if rng.random() < .15:
        key = rng.choice(ctx.keys)
        if ctx.spaces[key].kind == 'fock':
            r = [rng.choice(['displace', 'squeeze']), key, g.small_amp()]
            if ctx.dim(key) > 3:
                r = ['phase', key, g.real_native()]
            if rng.random() < .4:
                r = ['omul', r, g.op_leaf(ks)]
            ks = sorted(set(ks) | {key})
        else:
            r = g.op(1, ks)
    else:
        r = g.op(rng.choice([0, 1, 2, 2, 3]), ks)
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.phase = 'val'
    case.phase = 'run'
    e = R.build(ctx, r)
    if not isinstance(e, qnet.Operator):
        if e is None or not isinstance(e, (int, float, complex, sympy.Basic,
                                           qnet.Scalar)):
            raise Skip("not an operator")
        e = e * qnet.IdentityOperator
    big = rng.random() < .5 or e.space is qnet.TrivialSpace
    hs = ctx.hs(tuple(ctx.keys)) if big else e.space
    case.key = (str(ctx.to_json()), r, big)
    case.info['full_space'] = str(hs)
    cl = all_classes(e, set())
    case.nontrivial = len(e.args) > 1 or len(cl) > 1
    case.sample = str(e)[:200]
    bad = cl & UNSUPPORTED
    if any(type(x).__name__ in ('BraKet', 'ScalarIndexedSum')
           for x in X.subexprs(e)):
        raise Skip("abstract scalar coefficients")
    num_amp = cl & {'Displace', 'Squeeze'}
    if num_amp and any(isinstance(x, (qnet.Displace, qnet.Squeeze)) and (
            getattr(x.args[0], 'free_symbols', ()) or x.space.dimension > 3)
            for x in X.subexprs(e)):
        raise Skip("matrix exponential of symbols or of a large matrix")
    try:
        m = convert_to_sympy_matrix(e, hs) if big or rng.random() < .5 else \
            convert_to_sympy_matrix(e)
    except (ValueError, NotImplementedError, AssertionError) as exc:
        if bad:
            case.saw('rejected')
            return
        if 'Cannot represent as sympy matrix' in str(exc):
            # documented: products that do not expand to local factors
            case.saw('not expandable')
            return
        raise
    case.phase = 'den'
    labels = conv.order(hs)
    want = conv.full(ctx.U, ctx.den(e), labels)
    if m == 0 and not isinstance(m, sympy.MatrixBase):
        got = np.zeros_like(want)          # pinned by a test
    else:
        if not isinstance(m, sympy.MatrixBase):
            raise Bad("result is not a SymPy matrix", type=str(type(m)))
        if m.shape != want.shape:
            raise Bad("shape of the matrix", got=str(m.shape),
                      want=str(want.shape), expr=str(e))
        got = np.array([[complex(eval_sympy(sympy.sympify(
            m[i, j]), ctx.den.env)) for j in range(m.shape[1])]
            for i in range(m.shape[0])])
    d = np.max(np.abs(got - want))
    if d > 1e-8 and cl & {'Create', 'Destroy', 'Displace', 'Squeeze'}:
        # (see G01: rules applied on expansion, not valid when truncated)
        t = ctx.den(e)
        d2, sc = num.diff(ctx.U, ctx.den(e.expand()), t)
        if d2 > 1e-9:
            raise Skip("expansion is not exact in the truncated space")
    if not d <= 1e-8 * (1 + np.max(np.abs(want))):
        raise Bad("the matrix differs by %.3g" % d, expr=str(e),
                  full_space=str(hs), got=str(np.round(got, 4)),
                  want=str(np.round(want, 4)))
    case.saw('compared')
    for c in cl:
        case.saw('class:' + c)
    case.saw('larger space' if hs != e.space else 'own space')
    if len(labels) == 3:
        case.saw('three factors')
    if e is qnet.IdentityOperator:
        case.saw('identity')
    if cl & {'Jz', 'Jplus', 'Jminus'} and 'LocalSigma' in cl:
        case.saw('spin mixed')


def rejected(case, ctx):
    """objects outside the space, without matrix, symbols"""
    rng = case.rng
    key = rng.choice(ctx.keys)
    hs = ctx.hs(key)
    other = qnet.LocalSpace('other', dimension=2)
    how = rng.choice(['space', 'symbol', 'pinv', 'null'])
    A = qnet.OperatorSymbol('A', hs=hs)
    case.info = dict(spaces=ctx.to_json(), rejected=how)
    case.key = (str(ctx.to_json()), how)
    case.phase = 'run'
    try:
        if how == 'space':
            convert_to_sympy_matrix(
                qnet.LocalSigma(0, 1, hs=other), hs)
        elif how == 'symbol':
            convert_to_sympy_matrix(A + 1)
        elif how == 'pinv':
            convert_to_sympy_matrix(qnet.PseudoInverse(A))
        else:
            convert_to_sympy_matrix(qnet.NullSpaceProjector(A))
    except (ValueError, NotImplementedError):
        case.saw('not in full space' if how == 'space' else 'rejected')
        return
    raise Bad("object without a matrix is converted (%s)" % how)
