"""G03: SLH_to_qutip preserves H and L including time dependence"""
import warnings
from ..common import *
import numpy as np
import qutip
import sympy
import qnet
from qnet.convert.to_qutip import SLH_to_qutip
from qnet.algebra.core.exceptions import AlgebraError
from .. import conv

N_QUICK, N_THOROUGH = 1400, 40000
TIMEOUT = 100
RULE = ("random SLH models with 1-3 channels on 1-3 spaces of finite "
        "dimension, H and L being sums of products of local operators with "
        "constant, time-dependent (polynomial, harmonic, Gaussian, complex) "
        "and parametrized coefficients and coherent drives, converted with "
        "and without time symbol, in the formats pyfunc and str, for the own "
        "and for larger spaces; at several times the returned H(t), L(t) are "
        "compared with matrices computed from the construction (drives moved "
        "to H), and the resulting generators with that of the SLH model. "
        "non-trivial: time-dependent or more than one channel; distinct by "
        "(spaces, model, format)")
REQUIRED = ['static', 'pyfunc', 'str', 'parameters', 'time-dependent L',
            'time-dependent drive', 'drive', 'larger space', 'single term',
            'zero L', 'rejected', 'args by name', 'QobjEvo', 'generator', 'three channels']


def fun(rng, t, par, real=False):
    """(expression, uses parameters)"""
    w, g, o = (sympy.Symbol('omega', real=True),
               sympy.Symbol('g', positive=True),
               sympy.Symbol('E_I', real=True))
    I = sympy.I
    q = sympy.Rational
    opts = [t, t**2, 1 + t, sympy.sin(t), sympy.cos(2 * t), 3 * t - 1,
            sympy.exp(-t**2), sympy.exp(-t), sympy.sqrt(2) * t, t / 3,
            q(1, 2) * sympy.cos(t)**2, sympy.pi * t, .25 * t]
    if not real:
        opts += [I * t, sympy.exp(I * t), (1 + 2 * I) * t,
                 sympy.exp(-I * t / 2) * sympy.sin(t), I * sympy.cos(t),
                 t - I]
    if par:
        opts = [g * t, sympy.cos(w * t), w * sympy.exp(-t), g + t,
                o * sympy.sin(t), sympy.exp(-g * t**2), w * t + o,
                sympy.sqrt(g) * t, g**2 * t]
        if not real:
            opts += [sympy.exp(I * w * t), I * g * t, o * I * t,
                     sympy.exp(-I * o * t) * g]
    return rng.choice(opts)


CONST = [1, 2, -1, .5, sympy.Rational(1, 3), sympy.I, 1 + sympy.I, -2.5,
         sympy.sqrt(2), .3 - .2j]


def leaf(rng, ctx, k):
    s = ctx.spaces[k]
    hs, n = ctx.hs(k), ctx.dim(k)
    if s.kind == 'spin':
        x = rng.choice([qnet.Jz, qnet.Jplus, qnet.Jminus, None])
        if x is not None:
            return x(hs=hs)
        a, b = rng.sample(list(hs.basis_labels), 2)
        return qnet.LocalSigma(a, b, hs=hs)
    a, b = rng.randrange(n), rng.randrange(n)
    if s.kind == 'fock':
        x = rng.choice(['a', 'ad', 'n', 'sig', 'phase', 'disp'])
        if x == 'a':
            return qnet.Destroy(hs=hs)
        if x == 'ad':
            return qnet.Create(hs=hs)
        if x == 'n':
            return qnet.Create(hs=hs) * qnet.Destroy(hs=hs)
        if x == 'phase':
            return qnet.Phase(rng.choice([.5, sympy.pi / 3]), hs=hs)
        if x == 'disp':
            return qnet.Displace(rng.choice([.25, .1 - .3j]), hs=hs)
    return qnet.LocalSigma(a, b, hs=hs)


def fmt(x):
    return str(x)[:700]


def evaluate(case, q, N, t, tv, par, how, names=False):
    """numerical value of a (nested list) object at the time `tv`"""
    if isinstance(q, qutip.Qobj):
        return q.full()
    if not isinstance(q, list) or not q:
        raise Bad("neither a Qobj nor a list", got=fmt(q))

    def coeff(c):
        if how == 'pyfunc':
            if not callable(c):
                raise Bad("coefficient is not callable", got=fmt(c))
            r = c(tv, {str(k) if names else k: v for k, v in par.items()})
            if names and par:
                case.saw('args by name')
        else:
            if not isinstance(c, str):
                raise Bad("coefficient is not a string", got=fmt(c))
            env = dict(exp=np.exp, sin=np.sin, cos=np.cos, sqrt=np.sqrt,
                       pi=np.pi, conjugate=np.conj, abs=abs)
            env.update({str(k): v for k, v in par.items()})
            env[str(t)] = tv
            r = eval(c, {'__builtins__': {}}, env)
        return complex(r)
    if len(q) == 2 and isinstance(q[0], qutip.Qobj) and \
            not isinstance(q[1], (list, qutip.Qobj)):
        case.saw('single term')
        return coeff(q[1]) * q[0].full()
    out = np.zeros((N, N), dtype=complex)
    for x in q:
        if isinstance(x, qutip.Qobj):
            out = out + x.full()
        else:
            if not (isinstance(x, list) and len(x) == 2):
                raise Bad("wrong structure of the nested list", got=fmt(q))
            out = out + coeff(x[1]) * x[0].full()
    return out


def generator(H, Ls, X):
    out = -1j * (H @ X - X @ H)
    for L in Ls:
        d = L.conj().T
        out = out + L @ X @ d - .5 * (d @ L @ X + X @ d @ L)
    return out


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = conv.spaces(rng, maxdim=rng.choice([4, 8, 12]))
    if rng.random() < .05:
        return rejected(case, ctx)
    td = rng.random() < .75
    how = rng.choice(['pyfunc', 'str']) if td else 'pyfunc'
    par = td and rng.random() < .5
    t = rng.choice([sympy.Symbol('t', real=True),
                    sympy.Symbol('tau', positive=True),
                    sympy.Symbol('t', real=True)])
    ptd = rng.choice([.3, .7, 1]) if td else 0

    def co(real=False):
        if rng.random() < ptd:
            return fun(rng, t, par and rng.random() < .6, real)
        c = rng.choice(CONST)
        return c

    def product():
        ks = rng.sample(list(ctx.keys),
                        min(len(ctx.keys), rng.choice([1, 1, 2])))
        return [leaf(rng, ctx, k) for k in ks]

    n = rng.choice([1, 1, 2, 3])
    case.phase = 'gen'
    terms = [(co(), product()) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    lterms = [[(co(), product()) for _ in range(rng.choice([0, 1, 1, 2]))]
              for _ in range(n)]
    drive = [co() if rng.random() < .35 else 0 for _ in range(n)]
    single = rng.random() < .15
    case.info = dict(spaces=ctx.to_json(), H=fmt(terms), L=fmt(lterms),
                     drive=fmt(drive), time=str(t) if td else None, how=how)
    case.key = (str(ctx.to_json()), fmt(terms), fmt(lterms), fmt(drive), how)
    case.sample = 'H: %s; L: %s; drives: %s' % (
        fmt(terms)[:150], fmt(lterms)[:150], fmt(drive)[:80])
    case.nontrivial = td or n > 1

    def prod(ops):
        q = ops[0]
        for o in ops[1:]:
            q = q * o
        return q

    case.phase = 'run'
    H = qnet.ZeroOperator
    herm = not single
    for c, ops in terms:
        x = c * prod(ops)
        H = H + x
        if herm:
            H = H + x.adjoint()
    Ls = []
    for ts, a in zip(lterms, drive):
        L = qnet.ZeroOperator
        for c, ops in ts:
            L = L + c * prod(ops)
        if a != 0:
            L = L + a * qnet.IdentityOperator
        Ls.append(L)
    S = qnet.identity_matrix(n)
    if rng.random() < .3 and n == 2:
        S = qnet.Matrix([[0, 1], [1, 0]])
    slh = qnet.SLH(S, Ls, H)
    used = qnet.TrivialSpace
    for _, ops in terms + sum(lterms, []):
        used = used * prod(ops).space
    # (terms may have cancelled)
    big = rng.random() < .5 or slh.space is qnet.TrivialSpace or \
        slh.space != used
    hs = ctx.hs(tuple(ctx.keys)) if big else slh.space
    labels = conv.order(hs)
    dims = [ctx.dim(k) for k in labels]
    N = int(np.prod(dims))
    kw = {}
    if big or rng.random() < .3:
        kw['full_space'] = hs
    if td:
        kw['time_symbol'] = t
        if how != 'pyfunc' or rng.random() < .5:
            kw['convert_as'] = how
    before = (repr(slh), hash(slh))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = SLH_to_qutip(slh, **kw)
    if (repr(slh), hash(slh)) != before:
        raise Bad("SLH_to_qutip changes the SLH")
    if not (isinstance(res, tuple) and len(res) == 2 and
            isinstance(res[1], list)):
        raise Bad("result is not (H, [L1, ...])", got=fmt(res))
    case.phase = 'den'
    pv = {sympy.Symbol('omega', real=True): 1.3,
          sympy.Symbol('g', positive=True): .7,
          sympy.Symbol('E_I', real=True): -.4} if par else {}
    mats = {}

    def mat(ops):
        key = id(ops)
        if key not in mats:
            m = np.eye(N, dtype=complex)
            for o in ops:
                m = m @ conv.full(ctx.U, ctx.den(o), labels)
            mats[key] = m
        return mats[key]
    dg = lambda a: a.conj().T
    names = rng.random() < .5
    times = [0.37, 1.21, 2.8] if td else [None]
    if td and not pv and rng.random() < .5:
        times.append(0.)
    for tv in times:
        def num_(c):
            c = sympy.sympify(c)
            if tv is not None:
                c = c.subs(t, tv)
            return complex(c.subs(pv))
        h = np.zeros((N, N), dtype=complex)
        for c, ops in terms:
            x = num_(c) * mat(ops)
            h = h + x + (dg(x) if herm else 0)
        al = [num_(a) for a in drive]
        ls = []
        for ts in lterms:
            m = np.zeros((N, N), dtype=complex)
            for c, ops in ts:
                m = m + num_(c) * mat(ops)
            ls.append(m)
        full = [l + a * np.eye(N) for l, a in zip(ls, al)]
        hm = h
        for a, l in zip(al, ls):
            hm = hm + (a * dg(l) - np.conj(a) * l) / 2j
        gH = evaluate(case, res[0], N, t, tv, pv, how, names)
        gL = [evaluate(case, x, N, t, tv, pv, how, names) for x in res[1]]
        if gH.shape != (N, N) or any(x.shape != (N, N) for x in gL):
            raise Bad("shape", got=str(gH.shape), want=N)
        wl = ls
        if not td:
            wl = [x for x in ls if abs(x).max() > 0]
            gL = [x for x in gL if abs(x).max() > 0]
            if len(wl) < len(ls):
                case.saw('zero L')
        if len(gL) != len(wl):
            raise Bad("number of Lindblad operators", got=len(gL),
                      want=len(wl))
        for name, got, want in [('H', gH, hm)] + [
                ('L%d' % k, a, b) for k, (a, b) in enumerate(zip(gL, wl))]:
            d = abs(got - want).max()
            if not d <= 1e-7 * (1 + abs(want).max()):
                raise Bad("%s differs by %.3g" % (name, d), time=tv,
                          got=fmt(np.round(got, 4)),
                          want=fmt(np.round(want, 4)), slh=fmt(slh),
                          result=fmt(res))
        rs = np.random.RandomState(rng.randrange(2**31))
        x = rs.randn(N, N) + 1j * rs.randn(N, N)
        a, b = generator(gH, gL, x), generator(h, full, x)
        if not abs(a - b).max() <= 1e-6 * (1 + abs(b).max()):
            raise Bad("the generator differs by %.3g" % abs(a - b).max(),
                      time=tv)
        case.saw('generator')
    for q in [res[0]] + res[1]:
        obj = q if isinstance(q, qutip.Qobj) else None
        if obj is not None and obj.dims != [dims, dims]:
            raise Bad("dims", got=str(obj.dims), want=str(dims))
    if td and how == 'pyfunc' and rng.random() < .3:
        for q in [res[0]] + res[1]:
            if isinstance(q, list):
                a = qutip.QobjEvo(q, args={
                    str(k): v for k, v in pv.items()})(.37).full()
                b = evaluate(case, q, N, t, .37, pv, how)
                if abs(a - b).max() > 1e-8 * (1 + abs(b).max()):
                    raise Bad("QobjEvo has another value", got=fmt(a),
                              want=fmt(b))
                case.saw('QobjEvo')
    case.saw(how if td else 'static')
    if pv:
        case.saw('parameters')
    if any(a != 0 for a in drive):
        case.saw('drive')
        if any(t in sympy.sympify(a).free_symbols for a in drive):
            case.saw('time-dependent drive')
    if any(t in sympy.sympify(c).free_symbols for x in lterms for c, _ in x):
        case.saw('time-dependent L')
    if hs != slh.space:
        case.saw('larger space')
    if n == 3:
        case.saw('three channels')


def rejected(case, ctx):
    rng = case.rng
    k = rng.choice(ctx.keys)
    hs = ctx.hs(k)
    A = leaf(rng, ctx, k)
    t = sympy.Symbol('t', real=True)
    x = sympy.Symbol('x', real=True)
    other = qnet.LocalSpace('other', dimension=2)
    I1 = qnet.identity_matrix(1)
    how, f = rng.choice([
        ('trivial', lambda: SLH_to_qutip(qnet.SLH(I1, [0], 0))),
        ('space', lambda: SLH_to_qutip(qnet.SLH(I1, [A], 0),
                                       full_space=other)),
        ('no time symbol', lambda: SLH_to_qutip(qnet.SLH(
            I1, [t * A], 0))),
        ('coefficient', lambda: SLH_to_qutip(qnet.SLH(I1, [x * A], 0))),
        ('format', lambda: SLH_to_qutip(
            qnet.SLH(I1, [t * A], 0), time_symbol=t, convert_as='other')),
        ('argument', lambda: SLH_to_qutip(
            qnet.SLH(I1, [qnet.Phase(t, hs=qnet.LocalSpace(
                'f', dimension=3))], 0), time_symbol=t)),
    ])
    case.info = dict(spaces=ctx.to_json(), rejected=how)
    case.key = (str(ctx.to_json()), how)
    case.phase = 'run'
    try:
        r = f()
    except (ValueError, TypeError, AlgebraError):
        case.saw('rejected')
        return
    raise Bad("object that cannot be converted is accepted (%s)" % how,
              got=fmt(r))
