"""A06: liouvillian_normal_form preserves the generator"""
import contextlib
import io
from ..common import *
import numpy as np
import sympy
import qnet
from qnet import liouvillian, OperatorSymbol, Operator
from qnet.algebra.core.super_operator_algebra import (
    commutator, lindblad, liouvillian_normal_form)
from qnet.algebra.core.exceptions import CannotSymbolicallyDiagonalize
from .. import anyexpr as X
from ..num import T

N_QUICK, N_THOROUGH = 400, 12000
TIMEOUT = 60
RULE = ("random Hamiltonians and lists of collapse operators on 1-2 finite "
        "spaces: numeric linear combinations of symbols, level-flip, spin "
        "operators, their products and scalars, linearly dependent, repeated "
        "and vanishing ones, a small fraction with symbolic rates; the "
        "Liouvillian (built by liouvillian, as a sum of Liouvillians, from "
        "commutator and lindblad, expanded) is reduced with "
        "liouvillian_normal_form, and the matrix of the generator computed "
        "from the values of the returned H and Ls is compared with that of "
        "the input; H must be hermitian, the number of non-zero collapse "
        "operators the rank of the input. Non-trivial: two collapse "
        "operators; distinct by program")
REQUIRED = ['generator', 'hermitian', 'dependent operators', 'shifted',
            'several operators', 'no operators', 'rank', 'degenerate',
            'complex coefficients', 'two spaces', 'pieces', 'symbolic',
            'no hamiltonian', 'exact', 'rebuilt']


def number(rng, cplx=True):
    k = rng.choice(['int', 'int', 'rat', 'sqrt', 'float'] +
                   ['cplx', 'phase', 'pycplx'] * cplx)
    a = rng.choice([1, 1, 2, -1, 3])
    if k == 'int':
        return sympy.Integer(a) if rng.random() < .5 else a
    if k == 'rat':
        return sympy.Rational(a, 2)
    if k == 'sqrt':
        return sympy.sqrt(rng.choice([2, 3]))
    if k == 'float':
        return rng.choice([.5, .25, 1.5, 0.3])
    if k == 'cplx':
        return a + rng.choice([1, -1, 2]) * sympy.I
    if k == 'phase':
        return rng.choice([sympy.I, -sympy.I])
    return complex(a, rng.choice([1, -1, .5]))


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = R.random_spaces(rng, n=rng.choice([1, 1, 1, 2]), fock=False,
                          maxdim=6)
    ctx.fit(1, False)
    g = X.XGen(rng, ctx, symargs=0, unitary=False)
    symbolic = rng.random() < .06
    # operators
    pool, seen = [], set()
    for _ in range(rng.choice([1, 2, 2, 3])):
        ks = [rng.choice(ctx.keys)]
        r = g.op_leaf(ks) if rng.random() < .6 else [
            'osym', rng.choice('ABC'), ks]
        if rng.random() < .25:
            r = ['omul', r, g.op_leaf([rng.choice(ctx.keys)])]
        if rng.random() < .2:
            r = ['odag', r]
        if str(r) not in seen:
            seen.add(str(r))
            pool.append(r)
    nL = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if symbolic:
        # SymPy's eigenvectors of symbolic matrices are slow
        pool = pool[:2]
        nL = rng.choice([1, 1, 2])
    coeffs = []
    for _ in range(nL):
        c = [number(rng) if rng.random() < .6 else 0 for _ in pool]
        if symbolic:
            c = [rng.choice([1, 1, -1, 2, sympy.I]) if rng.random() < .5
                 else 0 for _ in pool]
        coeffs.append(c)
    if nL > 1 and rng.random() < .3 and not symbolic:
        f = number(rng)
        coeffs[-1] = [f * x for x in coeffs[0]]
        case.saw('dependent operators')
    if nL > 1 and rng.random() < .15:
        # the same rate for several operators
        coeffs = [[int(i == j) for j in range(len(pool))]
                  for i in range(min(nL, len(pool)))]
        nL = len(coeffs)
        case.saw('degenerate')
    shift = [(1 if symbolic else number(rng)) if rng.random() < .25 else 0
             for _ in range(nL)]
    rates = [1] * nL
    if symbolic:
        kap = [sympy.Symbol('kappa_%d' % i, positive=True) for i in range(4)]
        rates = [sympy.sqrt(kap[i]) if rng.random() < .7 else 1
                 for i in range(nL)]
    h = g.op(rng.choice([0, 1, 1]))
    noH = rng.random() < .1
    case.info = dict(spaces=ctx.to_json(), pool=pool, H=None if noH else h,
                     coeffs=str(coeffs), shift=str(shift), rates=str(rates))
    case.key = str(case.info)
    vp = [num.as_op(ctx.U, ref_value(case, ctx, r)) for r in pool]
    labels = tuple(sorted(ctx.keys))
    D = ctx.U.total(labels)

    def mat(t):
        t = num.as_op(ctx.U, t)
        one = T('O', labels, np.eye(D, dtype=complex))
        return num.mul(ctx.U, t, one).a
    vp = [mat(t) for t in vp]
    vH = np.zeros((D, D)) if noH else mat(ref_value(case, ctx, h))
    vH = vH + vH.conj().T

    def cval(c):
        return complex(ctx.den.scalar(c))
    C = np.array([[cval(r) * cval(x) for x in c]
                  for r, c in zip(rates, coeffs)]).reshape(nL, len(pool))
    sh = [cval(r) * cval(x) for r, x in zip(rates, shift)]
    vL = [sum((x * v for x, v in zip(C[i], vp)), np.zeros((D, D))) +
          sh[i] * np.eye(D) for i in range(nL)]
    # QNET
    case.phase = 'build'
    ops = [R.build(ctx, r) for r in pool]
    H = qnet.ZeroOperator if noH else R.build(ctx, h)
    if not isinstance(H, Operator):
        H = H * qnet.IdentityOperator
    H = H + H.adjoint()
    Ls = []
    for i in range(nL):
        op = sum((x * o for x, o in zip(coeffs[i], ops)), qnet.ZeroOperator)
        Ls.append(rates[i] * (op + shift[i]))
    how = rng.choice(['liouvillian'] * 3 + ['pieces', 'sum', 'expanded'])
    if how == 'pieces' and nL:
        L = -sympy.I * commutator(H) + sum(
            (lindblad(x) for x in Ls), qnet.ZeroSuperOperator)
        case.saw('pieces')
    elif how == 'sum' and nL:
        L = liouvillian(H, Ls[:1]) + liouvillian(qnet.ZeroOperator, Ls[1:])
        case.saw('pieces')
    else:
        L = liouvillian(H, Ls)
        if how == 'expanded':
            L = L.expand()
    case.nontrivial = nL >= 2
    case.sample = str(L)[:300]
    if not nL:
        case.saw('no operators')
    if noH:
        case.saw('no hamiltonian')
    if nL > 1:
        case.saw('several operators')
    if any(shift):
        case.saw('shifted')
    if np.abs(C.imag).max(initial=0) > 0:
        case.saw('complex coefficients')
    if len(ctx.keys) > 1:
        case.saw('two spaces')
    case.phase = 'normal form'
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            res = liouvillian_normal_form(L)
        except CannotSymbolicallyDiagonalize:
            if not symbolic:
                raise
            raise Skip("cannot diagonalize symbolically")
    if symbolic and any(r != 1 for r in rates):
        case.saw('symbolic')
    if not (isinstance(res, tuple) and len(res) == 2):
        raise Bad("result is not a tuple (H, Ls)")
    H2, Ls2 = res
    case.phase = 'value'
    wH = value(ctx, H2, mat)
    wL = [value(ctx, x, mat) for x in Ls2]
    info = dict(L=str(L)[:600], H=str(H2)[:400], Ls=str(list(Ls2))[:600])
    if not all(np.all(np.isfinite(m)) for m in [wH] + wL):
        raise Bad("result is not finite", **info)
    scale = 1 + max([abs(vH).max(initial=0)] +
                    [abs(m).max() ** 2 for m in vL] + [abs(wH).max()])
    d = abs(wH - wH.conj().T).max()
    if not d <= 1e-7 * scale:
        raise Bad("the Hamiltonian is not hermitian (%.3g)" % d, **info)
    case.saw('hermitian')
    want = generator(vH, vL, D)
    got = generator(wH, wL, D)
    d = abs(want - got).max()
    if not d <= 1e-6 * scale:
        raise Bad("the generator differs by %.3g (scale %.3g)" % (d, scale),
                  **info)
    case.saw('generator')
    # minimality
    vecs = [np.eye(D).ravel()] + [m.ravel() for m in vp]
    s = np.linalg.svd(np.array(vecs), compute_uv=False)
    n2 = sum(abs(m).max() > 1e-7 for m in wL)
    if n2 > max(nL, 0):
        raise Bad("%d collapse operators, but %d were given" % (n2, nL),
                  **info)
    if len(vecs) <= D * D and s[-1] > 1e-6 and nL:
        rank = np.linalg.matrix_rank(C, tol=1e-7)
        if n2 != rank:
            raise Bad("%d collapse operators, expected %d" % (n2, rank),
                      **info)
        case.saw('rank')
        if rank < nL:
            case.saw('dependent operators')
    # the result is a proper Liouvillian again
    if rng.random() < .3 and not symbolic:
        case.phase = 'again'
        with contextlib.redirect_stdout(buf):
            H3, Ls3 = liouvillian_normal_form(liouvillian(H2, Ls2))
        got = generator(value(ctx, H3, mat),
                        [value(ctx, x, mat) for x in Ls3], D)
        d = abs(want - got).max()
        if not d <= 1e-6 * scale:
            raise Bad("the normal form of the normal form differs by %.3g" %
                      d, **info)
        case.saw('rebuilt')
    if not any(isinstance(x, (float, complex)) for x in sum(coeffs, [])):
        case.saw('exact')


def value(ctx, q, mat):
    return mat(ctx.den(X._wrap(q)))


def generator(H, Ls, D):
    """matrix acting on row-major vectorised density matrices"""
    I = np.eye(D)

    def lr(a, b):
        return np.kron(a, b.T)
    G = -1j * (lr(H, I) - lr(I, H))
    for m in Ls:
        md = m.conj().T
        G = G + lr(m, md) - .5 * (lr(md @ m, I) + lr(I, md @ m))
    return G
