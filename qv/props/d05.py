"""D05: equations of motion and coherent drives of SLH models"""
from ..common import *
import numpy as np
import qnet
from .. import slh as M
from .d02 import same, small_ctx
from qnet.algebra.core import circuit_algebra as ca
from qnet.algebra.core.exceptions import AlgebraError

N_QUICK, N_THOROUGH = 1500, 40000
RULE = ("random SLH triples (numeric, symbolic and operator-valued S, "
        "inhomogeneous L); symbolic_liouvillian, symbolic_master_equation and "
        "symbolic_heisenberg_eom (with and without noise operators) are "
        "applied to random density-like operators and observables and "
        "compared with the matrix formulas, trace conservation and duality "
        "are monitored; coherent_input and move_drive_to_H are compared with "
        "the displaced models and the invariance of the master equation; "
        "non-trivial: L not zero; distinct by model and observable")
REQUIRED = ['compared', 'heisenberg', 'noises', 'master', 'liouvillian',
            'trace conserved', 'duality', 'coherent_input', 'wrong cdim',
            'move_drive_to_H', 'which', 'no drive', 'operator S with noises',
            'default rho', 'default X', 'commuting observable']
TIMEOUT = 40


def close(case, a, b, what, q=None):
    case.saw('compared')
    if not np.abs(a - b).max() <= 1e-7 * (1 + np.abs(b).max()):
        raise Bad("%s differs by %.3g" % (what, np.abs(a - b).max()),
                  result=str(q)[:400])


def dg(x):
    return x.conj().T


def master(v, rho):
    out = -1j * (v.H @ rho - rho @ v.H)
    for L in v.L:
        P = dg(L) @ L
        out = out + L @ rho @ dg(L) - (P @ rho + rho @ P) / 2
    return out


def heisenberg(v, X, dA=None):
    out = 1j * (v.H @ X - X @ v.H)
    for L in v.L:
        P = dg(L) @ L
        out = out + dg(L) @ X @ L - (P @ X + X @ P) / 2
    if dA is not None:
        n = v.n
        Sd = M.opdag(v.S)
        for j in range(n):
            for k in range(n):
                # dA_j^+ (S^+)_jk [X, L_k]
                out = out + dg(dA[j]) @ Sd[j, k] @ (
                    X @ v.L[k] - v.L[k] @ X)
                # [L_j^+, X] S_jk dA_k
                out = out + (dg(v.L[j]) @ X - X @ dg(v.L[j])) @ \
                    v.S[j, k] @ dA[k]
                # (S^+ X S - X)_jk dA_j^+ dA_k
                c = sum(Sd[j, m] @ X @ v.S[m, k] for m in range(n))
                if j == k:
                    c = c - X
                out = out + c @ dg(dA[j]) @ dA[k]
    return out


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    kind = rng.choice(['heis', 'noise', 'noise', 'master', 'liouv', 'cin',
                       'drive', 'drive'])
    noise = kind == 'noise'
    ctx = R.random_spaces(rng, n=2 if noise else rng.choice([1, 1, 2]),
                          fock=False, maxdim=6)
    while noise and len(ctx.keys) < 2:
        ctx = R.random_spaces(rng, n=2, fock=False, maxdim=6)
    ctx.fit(1, False)
    g = R.Gen(rng, ctx, unitary=False)
    gs = g
    if noise:
        sysk = ctx.keys[:1]
        gs = R.Gen(rng, R.Ctx([ctx.spaces[k] for k in sysk]), unitary=False)
    cg = M.CGen(rng, gs, symbols=False, components=False,
                simple=rng.random() < .6, unitary=rng.random() < .9)
    n = rng.choice([1, 1, 2, 2, 3]) if not noise else rng.choice([1, 2, 2])
    r = cg.slh_leaf(n)
    case.info = dict(kind=kind, spaces=ctx.to_json(), slh=r)
    if kind == 'drive':
        # explicit inhomogeneities
        alphas = [cg.amp() if rng.random() < .7 else ['num', 'int', 0]
                  for _ in range(n)]
        ops = []
        for _ in range(n):
            x = gs.op_leaf(gs.ctx.keys)
            while x[0] in ('oI', 'ophase') or 'num' in str(x) and \
                    x[0] == 'oscl':
                x = gs.op_leaf(gs.ctx.keys)
            ops.append(x if rng.random() < .9 else ['o0'])
        r[2] = [['oadd', ['oscl', a, ['oI']], o]
                for a, o in zip(alphas, ops)]
        case.info['alphas'] = alphas
    X = gs.op(1)
    case.info['X'] = X
    case.key = (kind, ctx.to_json(), r, X)
    case.nontrivial = any(x != ['num', 'int', 0] for x in r[2])
    case.sample = '%s %s' % (kind, r)
    case.phase = 'val'
    v = M.ref(ctx, r)
    x = M.full(ctx, R.val(ctx, X))

    def den(q):
        return M.full(ctx, ctx.den(q))
    case.phase = 'build'
    s = M.build(ctx, r)
    qX = R.build(ctx, X)
    if 'proj' in str(r[1]) and noise:
        case.saw('operator S with noises')
    case.phase = kind
    if kind == 'heis':
        es = rng.random() < .5
        q = s.symbolic_heisenberg_eom(qX, expand_simplify=es)
        close(case, den(q), heisenberg(v, x), 'Heisenberg equation', q)
        case.saw('heisenberg')
        case.phase = 'default'
        if s.space.dimension and s.L.space.local_factors:
            q = s.symbolic_heisenberg_eom(expand_simplify=False)
            x = den(qnet.OperatorSymbol(
                'X', hs=s.L.space * s.H.space))
            close(case, den(q), heisenberg(v, x),
                  'Heisenberg equation of default operator', q)
            case.saw('default X')
    elif noise:
        nk = ctx.keys[1]
        sym = [qnet.OperatorSymbol('dA_%d' % k, hs=ctx.hs(nk))
               for k in range(n)]
        dA = [den(o) for o in sym]
        es = rng.random() < .5
        how = rng.choice(['list', 'column', 'matrix'])
        arg = {'list': lambda: sym, 'column': lambda: [[o] for o in sym],
               'matrix': lambda: qnet.Matrix([[o] for o in sym])}[how]()
        q = s.symbolic_heisenberg_eom(qX, noises=arg, expand_simplify=es)
        close(case, den(q), heisenberg(v, x, dA),
              'Heisenberg equation with noises', q)
        case.saw('noises')
        if not (s.S.space & qX.space).local_factors:
            case.saw('commuting observable')
    elif kind == 'master':
        q = s.symbolic_master_equation(qX)
        want = master(v, x)
        close(case, den(q), want, 'master equation', q)
        case.saw('master')
        if abs(np.trace(den(q))) > 1e-7 * (1 + abs(want).max()):
            raise Bad("master equation does not conserve the trace")
        case.saw('trace conserved')
        Y = gs.op(1)
        case.info['Y'] = Y
        qY = R.build(ctx, Y)
        y = M.full(ctx, R.val(ctx, Y))
        h = den(s.symbolic_heisenberg_eom(qY, expand_simplify=False))
        a, b = np.trace(y @ den(q)), np.trace(h @ x)
        if abs(a - b) > 1e-6 * (1 + abs(a) + abs(want).max()):
            raise Bad("Heisenberg equation and master equation are not dual: "
                      "%s, %s" % (a, b))
        case.saw('duality')
        case.phase = 'default'
        if s.space.local_factors:
            q = s.symbolic_master_equation()
            rho = den(qnet.OperatorSymbol('rho', hs=s.space))
            close(case, den(q), master(v, rho), 'master equation of rho', q)
            case.saw('default rho')
    elif kind == 'liouv':
        q = s.symbolic_liouvillian()
        close(case, den(q * qX), master(v, x), 'Liouvillian', q)
        case.saw('liouvillian')
        if rng.random() < .5:
            q = q.expand()
            close(case, den(q * qX), master(v, x), 'expanded Liouvillian', q)
        q = qnet.liouvillian(s.H, list(s.Ls))
        close(case, den(q * qX), master(v, x), 'liouvillian()', q)
    elif kind == 'cin':
        amps = [cg.amp() for _ in range(n)]
        case.info['amps'] = amps
        qa = [R.build(ctx, a) for a in amps]
        va = [complex(R.val(ctx, a).a) for a in amps]
        for bad in (qa + [1], qa[:-1]):
            try:
                s.coherent_input(*bad)
            except ca.WrongCDimError:
                case.saw('wrong cdim')
            else:
                raise Bad("coherent_input accepts %d amplitudes for %d "
                          "channels" % (len(bad), n))
        q = s.coherent_input(*qa)
        if not isinstance(q, ca.SLH):
            raise Bad("coherent_input of an SLH gives %s" % type(q))
        want = M.series(v, M.drive(va, v.D))
        case.saw('compared')
        same(case, M.of_slh(ctx, q), want, 'coherent_input', q)
        case.saw('coherent_input')
        # via circuit expressions
        c = qnet.CircuitSymbol('C', cdim=n)
        q = c.coherent_input(*qa).substitute({c: s})
        same(case, M.Circ(ctx)(q), want, 'coherent_input of symbol', q)
    elif kind == 'drive':
        which = rng.choice([None, None, 'sub'])
        if which:
            which = sorted(rng.sample(range(n), rng.randint(1, n)))
            case.info['which'] = which
        es = rng.random() < .5
        q = ca.move_drive_to_H(s, which=which, expand_simplify=es)
        va = [complex(R.val(ctx, a).a) for a in alphas]
        w = which if which is not None else range(n)
        want = M.N(v.S, v.L.copy(), v.H)
        H = v.H
        for k in w:
            want.L[k] = v.L[k] - va[k] * np.eye(v.D)
            H = H + (va[k] * dg(want.L[k]) -
                     np.conj(va[k]) * want.L[k]) / 2j
        want.H = H
        same(case, M.of_slh(ctx, q), want, 'move_drive_to_H', q)
        close(case, master(M.of_slh(ctx, q), x), master(v, x),
              'Liouvillian after move_drive_to_H', q)
        case.saw('move_drive_to_H')
        if which:
            case.saw('which')
        if not any(va):
            case.saw('no drive')
            if q is not s and q != s:
                raise Bad("SLH without drive is changed")
