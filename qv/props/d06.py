"""D06: getABCD returns the state-space model of linear SLH systems"""
from ..common import *
import numpy as np
import sympy
import qnet
from qnet import Destroy, Create, IdentityOperator, SLH, LocalSpace
from qnet.algebra.core.circuit_algebra import getABCD
from ..symeval import eval_sympy

N_QUICK, N_THOROUGH = 200, 5000
TIMEOUT = 100
RULE = ("random linear SLH systems (passive, squeezing, displaced, series "
        "products, concatenations, coherent inputs, Kerr terms for the "
        "linearization) with 1-3 modes and 1-3 channels, numeric and "
        "symbolic coefficients, in arbitrary association; A, B, C, D, a, c "
        "in single and doubled-up form are compared with the matrices "
        "computed from the coefficients of the construction by the "
        "Heisenberg-Langevin equations. non-trivial: more than one mode or "
        "channel, or squeezing; distinct by (coefficients, form)")
REQUIRED = ['doubled-up', 'single', 'passive', 'squeezing', 'displacement',
            'drive', 'series', 'coherent input', 'symbolic', 'two modes',
            'three modes', 'three channels', 'kerr', 'scattering',
            'unexpanded']

SYMS = {sympy.Symbol('kappa', positive=True): 1.7,
        sympy.Symbol('Delta', real=True): -.6,
        sympy.Symbol('epsilon'): .4 - .9j,
        sympy.Symbol('g', real=True): .35}
KAPPA, DELTA, EPS, G = SYMS


class Lin:
    """S, L = Cm a + Cp a^+ + c, H: effect on a: Om a + Op a^+ + be"""

    def __init__(self, m, n):
        z = lambda *s: np.zeros(s, dtype=complex)
        self.S = np.eye(n, dtype=complex)
        self.Cm, self.Cp, self.c = z(n, m), z(n, m), z(n)
        self.Om, self.Op, self.be = z(m, m), z(m, m), z(m)
        self.kerr = z(m)


def series(b, a):
    """b << a"""
    m, n = a.Cm.shape[1], a.S.shape[0]
    o = Lin(m, n)
    o.S = b.S @ a.S
    M = Lin(m, n)
    M.Cm, M.Cp, M.c = b.S @ a.Cm, b.S @ a.Cp, b.S @ a.c
    o.Cm, o.Cp, o.c = b.Cm + M.Cm, b.Cp + M.Cp, b.c + M.c
    # h = L_b^+ S_b L_a;  H += (h - h^+)/2i
    cj = np.conj
    P = cj(b.Cm).T @ M.Cm + (cj(b.Cp).T @ M.Cp).T
    Q = cj(b.Cm).T @ M.Cp
    Rr = cj(b.Cp).T @ M.Cm
    be = cj(b.Cm).T @ M.c + M.Cp.T @ cj(b.c)
    ga = cj(b.Cp).T @ M.c + M.Cm.T @ cj(b.c)
    o.Om = a.Om + b.Om + (P - cj(P).T) / 2j
    W = (Q - cj(Rr).T) / 2j
    o.Op = a.Op + b.Op + W + W.T
    o.be = a.be + b.be + (be - cj(ga)) / 2j
    o.kerr = a.kerr + b.kerr
    return o


def abcd(l, al):
    """A-, A+, B-, B+, C-, C+, D, a, c of the model displaced by `al`"""
    cj = np.conj
    al = np.array(al, dtype=complex)
    # the Hamiltonian 1/2 chi a^+2 a^2 gives  -i chi a^+ a a
    Am = -1j * l.Om + .5 * (l.Cp.T @ cj(l.Cp) - cj(l.Cm).T @ l.Cm)
    Ap = -1j * l.Op + .5 * (l.Cp.T @ cj(l.Cm) - cj(l.Cm).T @ l.Cp)
    a = -1j * l.be + .5 * (l.Cp.T @ cj(l.c) - cj(l.Cm).T @ l.c)
    a = a + Am @ al + Ap @ cj(al)
    a = a - 1j * l.kerr * abs(al)**2 * al
    Am = Am + np.diag(-2j * l.kerr * abs(al)**2)
    Ap = Ap + np.diag(-1j * l.kerr * al**2)
    Bm = -cj(l.Cm).T @ l.S
    Bp = l.Cp.T @ cj(l.S)
    c = l.c + l.Cm @ al + l.Cp @ cj(al)
    return Am, Ap, Bm, Bp, l.Cm, l.Cp, l.S, a, c


class Build:
    def __init__(self, rng, case, modes, n, sym):
        self.rng, self.case, self.sym = rng, case, sym
        self.modes, self.n = modes, n
        self.log = []

    def coeff(self, real=False):
        r = self.rng
        if self.sym and r.random() < .5:
            self.case.saw('symbolic')
            x = r.choice([KAPPA, DELTA, G, 2 * DELTA, sympy.sqrt(KAPPA),
                          KAPPA * G] + ([] if real else
                                        [EPS, sympy.I * G,
                                         sympy.exp(sympy.I * DELTA),
                                         EPS.conjugate()]))
        else:
            x = r.choice([1, 2, -1, sympy.Rational(1, 2), .75, -1.5] + (
                [] if real else [sympy.I, 1 + 2 * sympy.I, .5 - .25j, 1j]))
        self.log.append(str(x))
        return x, complex(sympy.sympify(x).subs(SYMS))

    def herm(self, x):
        """x + x^+, in some association"""
        return x + x.dag() if self.rng.random() < .5 else x.dag() + x

    def system(self, passive, simple=False):
        r, m, n = self.rng, len(self.modes), self.n
        l = Lin(m, n)
        S = qnet.identity_matrix(n)
        if n == 2 and r.random() < .5:
            how = r.choice(['bs', 'perm', 'phase', 'sym'])
            q = sympy.Rational
            mat = {'bs': [[q(3, 5), q(-4, 5)], [q(4, 5), q(3, 5)]],
                   'perm': [[0, 1], [1, 0]],
                   'phase': [[sympy.I, 0], [0, -1]],
                   'sym': [[sympy.cos(DELTA), -sympy.sin(DELTA)],
                           [sympy.sin(DELTA), sympy.cos(DELTA)]]}[how]
            S = qnet.Matrix(mat)
            l.S = np.array([[complex(sympy.sympify(x).subs(SYMS))
                             for x in row] for row in mat])
            self.log.append(how)
            self.case.saw('scattering')
        elif n == 1 and r.random() < .4:
            mat, v = r.choice([(-1, -1), (sympy.I, 1j),
                               (sympy.exp(sympy.I * DELTA),
                                np.exp(-.6j))])
            S = qnet.Matrix([[mat]])
            l.S = np.array([[v]], dtype=complex)
            self.log.append(str(mat))
            self.case.saw('scattering')
        Ls = []
        for i in range(n):
            L = qnet.ZeroOperator
            for j in range(m):
                if r.random() < (.7 if m * n < 3 else .4):
                    x, v = self.coeff()
                    l.Cm[i, j] += v
                    L = L + x * self.modes[j]
                if not passive and r.random() < (.4 if m * n < 3 else .15):
                    x, v = self.coeff()
                    l.Cp[i, j] += v
                    L = L + x * self.modes[j].dag()
                self.log.append('|')
            if r.random() < .3:
                x, v = self.coeff()
                l.c[i] += v
                L = L + x * IdentityOperator
                self.log.append('d')
                self.case.saw('drive')
            if r.random() < .25 and L != qnet.ZeroOperator:
                x, v = self.coeff()
                l.Cm[i] *= v
                l.Cp[i] *= v
                l.c[i] *= v
                L = x * L
                self.case.saw('unexpanded')
                self.log.append('*')
            Ls.append(L)
        H = qnet.ZeroOperator
        a = self.modes
        for j in range(m):
            if r.random() < .6:
                x, v = self.coeff(real=True)
                l.Om[j, j] += v
                H = H + x * (a[j].dag() * a[j])
            for k in range(j):
                if r.random() < (.4 if m < 3 else .25):
                    x, v = self.coeff()
                    l.Om[j, k] += v
                    l.Om[k, j] += np.conj(v)
                    H = H + self.herm(x * (a[j].dag() * a[k]))
            if not passive:
                for k in range(j + 1):
                    if r.random() < (.4 if m < 3 else .15):
                        x, v = self.coeff()
                        l.Op[j, k] += v
                        l.Op[k, j] += v
                        H = H + self.herm(x * (a[j].dag() * a[k].dag()))
            if r.random() < .25:
                x, v = self.coeff()
                l.be[j] += v
                H = H + self.herm(x * a[j].dag())
            self.log.append(';')
        return SLH(S, Ls, H), l


def values(m):
    m = sympy.Matrix(m)
    return np.array([[complex(eval_sympy(sympy.sympify(m[i, j]), {
        **SYMS})) for j in range(m.shape[1])] for i in range(m.shape[0])])


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    m = rng.choice([1, 1, 2, 2, 3])
    n = rng.choice([1, 1, 2, 3] if m == 1 or rng.random() < .1 else
                   [1, 1, 2])
    labels = rng.choice([['1', '2', '3'], ['c', 'a', 'b'], [10, 9, 2],
                         ['q1', 'q0', 'x']])[:m]
    passive = rng.random() < .4
    b = Build(rng, case, [Destroy(hs=LocalSpace(x)) for x in labels], n,
              m * n <= 2 and rng.random() < .5)
    case.phase = 'build'
    slh, lin = b.system(passive)
    how = rng.choice(['plain', 'plain', 'series', 'coherent'])
    if how == 'series' and m * n <= 2 and not b.sym:
        slh2, lin2 = b.system(passive)
        slh = slh2.series_with_slh(slh) if rng.random() < .5 else \
            (slh2 << slh)
        if not isinstance(slh, SLH):
            slh = slh.toSLH()
        lin = series(lin2, lin)
        case.saw('series')
    elif how == 'coherent':
        amps = [b.coeff() for _ in range(n)]
        slh = slh.coherent_input(*[x for x, _ in amps])
        d = Lin(m, n)
        d.c = np.array([v for _, v in amps])
        lin = series(lin, d)
        case.saw('coherent input')
    a0, al = {}, np.zeros(m, dtype=complex)
    if rng.random() < .35:
        for j in range(m):
            if rng.random() < .7:
                x, v = b.coeff()
                a0[b.modes[j]] = sympy.sympify(x) if rng.random() < .5 \
                    else x
                al[j] = v
        case.saw('displacement')
    if rng.random() < .2 and a0:
        j = rng.randrange(m)
        x, v = b.coeff(real=True)
        a = b.modes[j]
        slh = SLH(slh.S, slh.L, slh.H + x / 2 * a.dag()**2 * a**2
                  if not isinstance(x, float) else
                  slh.H + (x / 2) * (a.dag()**2 * a**2))
        lin.kerr[j] += v
        case.saw('kerr')
    doubled = not passive or lin.kerr.any() or rng.random() < .5
    case.info = dict(modes=labels, channels=n, passive=passive, how=how,
                     doubled_up=doubled, slh=str(slh)[:800], a0=str(a0))
    case.key = (str(labels), str(b.log), how, doubled, str(a0))
    case.sample = str(slh)[:300]
    case.nontrivial = m > 1 or n > 1 or not passive
    full = (slh.S.space * slh.L.space * slh.H.space)
    present = [x for x in b.modes if x.space.is_tensor_factor_of(full)]
    if not present:
        raise Skip("no mode")
    case.phase = 'run'
    before = repr(slh)
    kw = {}
    if a0 or rng.random() < .3:
        kw['a0'] = a0
    if not doubled or rng.random() < .5:
        kw['doubled_up'] = doubled
    a0c = dict(a0)
    res = tuple(getABCD(slh, **kw))
    if repr(slh) != before or a0 != a0c:
        raise Bad("getABCD changes its arguments")
    if len(res) != 6:
        raise Bad("number of matrices", got=len(res))
    order = [str(s.label) for s in sorted(full.local_factors)]
    if order != sorted(order):
        case.saw('numeric order')
    ix = [[str(x.space.label) for x in b.modes].index(k) for k in order]
    case.phase = 'compare'
    Am, Ap, Bm, Bp, Cm, Cp, D, a, c = abcd(lin, al)
    Am, Ap = Am[np.ix_(ix, ix)], Ap[np.ix_(ix, ix)]
    Bm, Bp, a = Bm[ix], Bp[ix], a[ix]
    Cm, Cp = Cm[:, ix], Cp[:, ix]
    cj = np.conj
    if doubled:
        du = lambda x, y: np.block([[x, y], [cj(y), cj(x)]])
        want = (du(Am, Ap), du(Bm, Bp), du(Cm, Cp), du(D, 0 * D),
                np.r_[a, cj(a)][:, None], np.r_[c, cj(c)][:, None])
    else:
        want = (Am, Bm, Cm, D, a[:, None], c[:, None])
    for name, q, w in zip('ABCDac', res, want):
        g = values(q)
        if g.shape != w.shape:
            raise Bad("shape of %s" % name, got=str(g.shape),
                      want=str(w.shape))
        d = abs(g - w).max() if w.size else 0
        if not d <= 1e-8 * (1 + abs(w).max()):
            raise Bad("%s differs by %.3g" % (name, d),
                      got=str(np.round(g, 4)), want=str(np.round(w, 4)),
                      matrix=str(q)[:500])
    case.saw('doubled-up' if doubled else 'single')
    case.saw('passive' if passive else 'squeezing')
    if len(present) == 2:
        case.saw('two modes')
    if len(present) == 3:
        case.saw('three modes')
    if n == 3:
        case.saw('three channels')
