"""D01: SLH composition follows the Gough-James rules"""
from ..common import *
from .. import slh as M
from .d02 import same, small_ctx, reference
from qnet.algebra.core.exceptions import AlgebraError
from qnet.algebra.core import circuit_algebra as ca
from qnet import Matrix
import numpy as np

N_QUICK, N_THOROUGH = 1500, 40000
RULE = ("random SLH triples (operator-valued unitary or arbitrary S, "
        "arbitrary L, Hermitian H, 1-4 channels) combined by series, "
        "concatenation, feedback of every port pair, series inverse, expand, "
        "simplify_scalar and substitution; S, L and H are compared entry by "
        "entry with the Gough-James formulas on matrices; unitarity of S and "
        "hermiticity of H are monitored; non-trivial: at least two operations; "
        "distinct by program")
REQUIRED = ['compared', 'series', 'concatenation', 'feedback', 'inverse',
            'expand', 'simplify_scalar', 'substitute', 'unitary', 'hermitian',
            'operator-valued S', 'feedback through operator rejected',
            'component access', 'singular rejected']
TIMEOUT = 40


def monitors(case, v, s, what):
    """structural monitors on the numeric value of an SLH"""
    n = v.n
    U = M.opmul(v.S, M.opdag(v.S))
    if n and abs(U - M.identity(n, v.D).S).max() > 1e-7:
        raise Bad("%s: S is not unitary" % what, result=str(s)[:300])
    case.saw('unitary')
    if abs(v.H - v.H.conj().T).max() > 1e-7 * (1 + abs(v.H).max()):
        raise Bad("%s: H is not Hermitian" % what, result=str(s)[:300])
    case.saw('hermitian')


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = small_ctx(rng)
    ctx.fit(1, False)
    g = R.Gen(rng, ctx, unitary=False)
    unit = rng.random() < .7
    simple = rng.random() < .6
    cg = M.CGen(rng, g, symbols=False, components=False, unitary=unit,
                simple=simple)

    def leaf(n):
        x = rng.random()
        if x < .12:
            return cg.leaf(n)
        if x < .2 and n == 1:
            return ['drive', cg.amp()] if rng.random() < .5 else [
                'phase', cg.real()]
        return cg.slh_leaf(n)

    op = rng.choice(['series', 'series', 'concat', 'fb', 'fb', 'inv',
                     'deep', 'deep'])
    n = rng.choice([1, 2, 2, 3])
    if op == 'deep':
        # (the series product is associative only for unitary S)
        unit = cg.unitary = True
    if op == 'series':
        r = ['series', leaf(n), leaf(n)]
    elif op == 'concat':
        r = ['plus', leaf(n), leaf(rng.choice([1, 2]))]
    elif op == 'fb':
        r = ['slhfb', leaf(n + 1), rng.randint(0, n), rng.randint(0, n)]
    elif op == 'inv':
        r = ['inv', leaf(n), 'method']
    else:
        cg.simple = True
        k = rng.choice(['sf', 'fp', 'ps', 'ss', 'si'])
        n = min(n, 2)
        if k == 'sf':
            r = ['series', leaf(n), ['slhfb', leaf(n + 1), rng.randint(0, n),
                                     rng.randint(0, n)]]
        elif k == 'fp':
            r = ['slhfb', ['plus', leaf(n), leaf(1)], rng.randint(0, n),
                 rng.randint(0, n)]
        elif k == 'ps':
            r = ['plus', ['series', leaf(n), leaf(n)], leaf(1)]
        elif k == 'ss':
            r = ['seriesn', leaf(n), leaf(n), leaf(n)]
        else:
            r = ['series', leaf(n), ['inv', leaf(n), 'create']]
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.key = (ctx.to_json(), r)
    if r[0] == 'slhfb':
        # exactly singular feedback must not give a result
        case.phase = 'val'
        w = M.ref(ctx, r[1])
        X = np.eye(w.D) - w.S[r[2], r[3]]
        if abs(X).max() < 1e-14:
            case.phase = 'build'
            try:
                q = M.build(ctx, r)
            except AlgebraError:
                case.saw('singular rejected')
                return
            raise Bad("feedback of a closed loop gives %s" % q)
    v = reference(case, ctx, r)
    case.phase = 'build'
    opS = "'proj'" in str(r)
    try:
        q = M.build(ctx, r).toSLH()
    except AlgebraError as e:
        if 'Inversion not implemented' in str(e):
            w = M.ref(ctx, r)
            if not opS and unit:
                raise Bad("feedback rejected for numeric S: %s" % e)
            case.saw('feedback through operator rejected')
            return
        raise
    case.nontrivial = True
    case.sample = str(q)[:200]
    case.saw({'series': 'series', 'concat': 'concatenation', 'fb': 'feedback',
              'inv': 'inverse', 'deep': 'deep'}[op])
    if opS:
        case.saw('operator-valued S')
    case.phase = 'value'
    if not isinstance(q, ca.SLH) or not isinstance(q.S, Matrix) \
            or not isinstance(q.L, Matrix):
        raise Bad("result is not an SLH: %r" % q)
    same(case, M.of_slh(ctx, q), v, op, q)
    if unit:
        # S is unitary for unitary input (all leaves have Hermitian H)
        monitors(case, M.of_slh(ctx, q), q, op)
    case.phase = 'access'
    S, L, H = q
    if S is not q.S or L is not q.L or H is not q.H or q.args != (S, L, H):
        raise Bad("iteration over the SLH")
    if len(q.Ls) != v.n or any(a != b for a, b in zip(
            q.Ls, L.matrix.ravel())):
        raise Bad("Ls differs from L")
    sp = set(q.space.local_factors)
    for x in list(S.matrix.ravel()) + list(L.matrix.ravel()) + [H]:
        if not set(x.space.local_factors) <= sp:
            raise Bad("space %s does not contain %s" % (q.space, x.space))
    if not set(H.free_symbols) | set(S.free_symbols) | set(
            L.free_symbols) == set(q.free_symbols):
        raise Bad("free symbols")
    case.saw('component access')
    big = len(str(q)) > 3000
    case.phase = 'expand'
    if not big:
        e = q.expand()
        same(case, M.of_slh(ctx, e), v, 'expand', e)
        case.saw('expand')
    case.phase = 'simplify_scalar'
    if len(str(q)) < 500 and rng.random() < .5:
        e = q.simplify_scalar()
        same(case, M.of_slh(ctx, e), v, 'simplify_scalar', e)
        case.saw('simplify_scalar')
    case.phase = 'substitute'
    fs = sorted(q.free_symbols, key=str)
    if fs:
        s = rng.choice(fs)
        val = sympy.Rational(3, 4)
        e = q.substitute({s: val})
        old = ctx.den.env.get(s)
        ctx.den.env[s] = complex(val)
        try:
            w = M.of_slh(ctx, q)
        finally:
            if old is None:
                del ctx.den.env[s]
            else:
                ctx.den.env[s] = old
        same(case, M.of_slh(ctx, e), w, 'substitute', e)
        case.saw('substitute')
    # composition with itself via the methods
    case.phase = 'methods'
    if v.n and not big and rng.random() < .4:
        p = cg.slh_leaf(v.n)
        case.info['other'] = p
        w = reference(case, ctx, p)
        case.phase = 'methods'
        o = M.build(ctx, p)
        e = q.series_with_slh(o)
        same(case, M.of_slh(ctx, e), M.series(v, w), 'series_with_slh', e)
        e = o.series_with_slh(q)
        same(case, M.of_slh(ctx, e), M.series(w, v), 'series_with_slh', e)
        e = q.concatenate_slh(o)
        same(case, M.of_slh(ctx, e), M.concat(v, w), 'concatenate_slh', e)
