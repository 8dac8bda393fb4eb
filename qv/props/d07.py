"""D07: adiabatic elimination matches the matrix formula"""
from ..common import *
import numpy as np
import sympy
from scipy.linalg import expm
import qnet
from qnet import (
    LocalSigma, LocalProjector, SLH, Destroy, ZeroOperator, IdentityOperator)
from qnet.algebra.core import circuit_algebra as ca
from qnet.algebra.core.exceptions import CannotEliminateAutomatically
from .. import slh as M

N_QUICK, N_THOROUGH = 100, 4000
TIMEOUT = 120
RULE = ("random SLH models with 1-2 channels, L = k L1 + L0, H = k^2 H2 + k "
        "H1 + H0 on a space with 2-4 levels or a mode to be eliminated and a "
        "spectator system (operator symbols and ladder operators), obeying "
        "the structural conditions; the output of prepare_adiabatic_limit, "
        "eval_adiabatic_limit and try_adiabatic_elimination is compared with "
        "the Bouten-Silberfarb formula evaluated on matrices; moreover the "
        "propagators of the scaled model, also with a coherent drive, must "
        "converge to those of the limit on the slow subspace. non-trivial: "
        "coupling of order k between slow and fast states; distinct by model")
REQUIRED = ['prepare', 'eval', 'try', 'try fock', 'sub_P0', 'unitary',
            'dynamics', 'driven dynamics', 'spectator', 'two channels',
            'rank 2', 'off-diagonal Y', 'rejected', 'default k', 'scattering',
            'symbolic']

KA = sympy.Symbol('kappa', positive=True)
DE = sympy.Symbol('Delta', real=True)
VALS = {KA: 1.7, DE: -.6}
dg = lambda a: np.conj(a).swapaxes(-1, -2)


class Model:
    def __init__(self, rng, case, diag):
        self.rng, self.case = rng, case
        self.log = []
        self.fock = diag and rng.random() < .4
        n = rng.choice([2, 3, 3, 3, 4])
        f = R.Spc('f', 'fock', None) if self.fock else \
            R.Spc('f', *rng.choice([('dim', n), ('basis', [
                'g', 'e', 'h', 'd'][:n])]))
        self.ctx = R.Ctx([f, R.Spc('s', 'dim', 2)])
        self.ctx.fit(4, False)
        self.f, self.s = self.ctx.hs('f'), self.ctx.hs('s')
        self.n = n
        self.spec = rng.random() < .7
        if self.fock:
            self.P, self.E = [0], [1]
        else:
            lv = list(range(n))
            rng.shuffle(lv)
            r = 2 if n > 2 and rng.random() < .4 else 1
            self.P, self.E = sorted(lv[:r]), sorted(lv[r:])
        self.log.append((str(f.to_json()) if hasattr(f, 'to_json') else n,
                         str(self.P)))

    def label(self, i):
        return self.f.basis_labels[i] if not self.fock else i

    def sig(self, i, j):
        return LocalSigma(self.label(i), self.label(j), hs=self.f)

    def c(self, real=False):
        r = self.rng
        if r.random() < .2:
            self.case.saw('symbolic')
            x = r.choice([sympy.sqrt(KA), DE, KA] + (
                [] if real else [sympy.I * DE]))
        else:
            q = sympy.Rational
            x = r.choice([1, 2, -1, q(1, 2), .75, -1.5] + (
                [] if real else [sympy.I, 1 + sympy.I, .5 - .25j]))
        self.log.append(str(x))
        return x

    def sp(self):
        """spectator operator"""
        r = self.rng
        if not self.spec or r.random() < .3:
            return IdentityOperator
        self.case.saw('spectator')
        x = r.choice(['sym', 'sm', 'sp', 'z', 'p'])
        self.log.append(x)
        if x == 'sym':
            return qnet.OperatorSymbol('X', hs=self.s)
        return {'sm': lambda: LocalSigma(0, 1, hs=self.s),
                'sp': lambda: LocalSigma(1, 0, hs=self.s),
                'z': lambda: LocalProjector(0, hs=self.s) -
                LocalProjector(1, hs=self.s),
                'p': lambda: LocalProjector(1, hs=self.s)}[x]()

    def build(self, diag):
        r = self.rng
        m = self.m = r.choice([1, 1, 2])
        a = Destroy(hs=self.f) if self.fock else None
        L1 = [ZeroOperator] * m
        L0 = [ZeroOperator] * m
        H2 = H1 = H0 = ZeroOperator
        if self.fock:
            L1[0] = self.c() * a
            if r.random() < .6:
                H2 = self.c(True) * a.dag() * a
            x = self.c() * self.sp() * a
            H1 = x + x.dag()
            if r.random() < .4:
                H0 = H0 + self.c(True) * a.dag() * a
            if r.random() < .4:
                L0[-1] = L0[-1] + self.c() * a
        else:
            tg = {}
            for e in self.E:
                if r.random() < .75:
                    i = r.randrange(m)
                    t = r.choice(self.P)
                    if diag and tg.get((i, t)):
                        continue
                    tg[i, t] = 1
                    L1[i] = L1[i] + self.c() * self.sig(t, e)
            for e in self.E:
                if r.random() < .8:
                    H2 = H2 + self.c(True) * self.sig(e, e)
                if not diag:
                    for e2 in self.E:
                        if e2 < e and r.random() < .5:
                            x = self.c() * self.sig(e, e2)
                            H2 = H2 + x + x.dag()
            for e in self.E:
                for p in self.P:
                    if r.random() < .55:
                        x = self.c() * self.sig(p, e) * self.sp()
                        H1 = H1 + x + x.dag()
                if r.random() < .3:
                    H1 = H1 + self.c(True) * self.sig(e, e)
            for i in range(m):
                if r.random() < .6:
                    # (slow states must not be mapped to fast states)
                    k = r.randrange(self.n)
                    j = r.choice(self.P if k in self.P else
                                 self.P + self.E)
                    L0[i] = L0[i] + self.c() * self.sig(j, k)
            if r.random() < .5:
                j, k = r.randrange(self.n), r.randrange(self.n)
                x = self.c() * self.sig(j, k) * self.sp()
                H0 = H0 + x + x.dag()
        if r.random() < .6:
            i = r.randrange(m)
            L0[i] = L0[i] + self.c() * self.sp()
        if r.random() < .6:
            x = self.c() * self.sp()
            H0 = H0 + x + x.dag()
        S = [[1 if i == j else 0 for i in range(m)] for j in range(m)]
        if r.random() < .5:
            q = sympy.Rational
            S = [[r.choice([-1, sympy.I])]] if m == 1 else r.choice([
                [[0, 1], [1, 0]], [[q(3, 5), q(-4, 5)], [q(4, 5), q(3, 5)]],
                [[1, 0], [0, sympy.I]]])
            self.case.saw('scattering')
            self.log.append(str(S))
        self.log.append(str((L1, L0, H2, H1, H0)))
        self.parts = L1, L0, H2, H1, H0, S
        return self.parts

    def slh(self, k):
        L1, L0, H2, H1, H0, S = self.parts
        how = self.rng.random() < .5
        Ls = [k * x + y if how else y + x * k for x, y in zip(L1, L0)]
        H = H0 + k * H1 + k**2 * H2 if how else k * (k * H2 + H1) + H0
        return SLH(qnet.Matrix(S), Ls, H)

    def den(self, q):
        return M.full(self.ctx, self.ctx.den(q))


def close(got, want, what, scale=None, tol=1e-8, **kw):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Bad("%s: shape" % what, got=str(got.shape),
                  want=str(want.shape), **kw)
    d = np.max(np.abs(got - want)) if want.size else 0
    s = np.max(np.abs(want)) if want.size else 0
    if not d <= tol * (1 + s + (scale or 0)):
        raise Bad("%s differs by %.3g" % (what, d),
                  got=str(np.round(got, 4))[:600],
                  want=str(np.round(want, 4))[:600], **kw)


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    how = rng.choice(['eval', 'eval', 'try', 'try', 'reject'])
    diag = how != 'eval'
    md = Model(rng, case, diag)
    case.phase = 'build'
    if how == 'reject':
        return rejected(case, md)
    L1, L0, H2, H1, H0, S = md.build(diag)
    den, m = md.den, md.m
    k = sympy.Symbol('k', positive=True)
    kw = {}
    if rng.random() < .5:
        k = rng.choice([k, sympy.Symbol('lambda', positive=True)])
        kw['k'] = k
    slh = md.slh(k)
    case.info = dict(how=how, slh=str(slh)[:900], P=str(md.P))
    case.key = (how, str(md.log))
    case.sample = str(slh)[:300]
    case.nontrivial = H1 != ZeroOperator
    md.ctx.den.env.update(VALS)
    # reference
    l1, l0 = [den(x) for x in L1], [den(x) for x in L0]
    h2, h1, h0 = den(H2), den(H1), den(H0)
    D = h2.shape[0]
    sm = np.array([[complex(sympy.sympify(x)) for x in row] for row in S])
    Y = -.5 * sum(dg(x) @ x for x in l1) + 1j * h2
    A = -.5 * sum(dg(x) @ y + dg(y) @ x for x, y in zip(l1, l0)) + 1j * h1
    B = -.5 * sum(dg(y) @ y for y in l0) + 1j * h0
    F, G = [dg(x) for x in l1], [dg(x) for x in l0]
    p0 = den(sum((md.sig(i, i) for i in md.P), ZeroOperator))
    fast = den(sum((md.sig(i, i) for i in md.E), ZeroOperator))
    yt = fast @ np.linalg.pinv(fast @ Y @ fast, rcond=1e-10) @ fast
    if np.abs(Y @ yt - fast)[:, fast.any(0)].max() > 1e-8 and not md.fock:
        raise Skip("Y is not invertible on the fast subspace")
    if np.abs(p0 @ A @ p0).max() > 1e-9:
        raise Skip("structural condition")
    case.phase = 'run'
    before = repr(slh)
    ops = ca.prepare_adiabatic_limit(slh, **kw)
    if 'k' not in kw:
        case.saw('default k')
    for name, q, w in zip('YAB', ops[:3], (Y, A, B)):
        close(sub(md, den(q), md.fock), sub(md, w, md.fock), name,
              expr=str(q)[:500])
    for name, q, w in zip('FG', ops[3:5], (F, G)):
        if q.shape != (1, m):
            raise Bad("shape of %s" % name, got=str(q.shape))
        for j in range(m):
            close(den(q[0, j]), w[j], name, expr=str(q)[:500])
    nn = ops[5]
    for i in range(m):
        for j in range(m):
            close(den(nn[i, j]), np.conj(sm[j, i]) * np.eye(D), 'N')
    case.saw('prepare')
    # the limit
    N = np.conj(sm.T)
    Klim = p0 @ (B - A @ yt @ A) @ p0
    Hl = (Klim - dg(Klim)) / 2j
    Ldl = [p0 @ (G[j] - A @ yt @ F[j]) @ p0 for j in range(m)]
    e = lambda i, j: np.eye(D) * (i == j)
    Nl = [[p0 @ sum(N[i, l] * (e(l, j) + dg(F[l]) @ yt @ F[j])
                    for l in range(m)) @ p0 for j in range(m)]
          for i in range(m)]
    Sl = [[dg(Nl[j][i]) for j in range(m)] for i in range(m)]
    Ll = [dg(x) for x in Ldl]
    sc = max(np.abs(Klim).max(), max(np.abs(x).max() for x in Ll))
    if how == 'eval':
        Yq = sum((complex(yt_el(md, yt, i, j)) * md.sig(i, j)
                  for i in md.E for j in md.E
                  if abs(yt_el(md, yt, i, j)) > 0), ZeroOperator)
        P0q = sum((md.sig(i, i) for i in md.P), ZeroOperator)
        lim = ca.eval_adiabatic_limit(ops, Yq, P0q)
        proj = False
        case.saw('eval')
    else:
        kw2 = dict(kw)
        sub_P0 = len(md.P) == 1 and rng.random() < .6
        if not sub_P0 or rng.random() < .5:
            kw2['sub_P0'] = sub_P0
        if md.fock and rng.random() < .5:
            kw2['fock_trunc'] = rng.choice([4, 5])
        sub_P0 = kw2.get('sub_P0', True)
        try:
            lim = ca.try_adiabatic_elimination(slh, **kw2)
        except CannotEliminateAutomatically as exc:
            if H2 == ZeroOperator and not any(
                    x != ZeroOperator for x in L1):
                raise Skip("nothing to eliminate")
            raise
        proj = sub_P0
        case.saw('try fock' if md.fock else 'try')
        if sub_P0:
            case.saw('sub_P0')
    if repr(slh) != before:
        raise Bad("the SLH model is changed")
    case.phase = 'compare'
    if not isinstance(lim, SLH) or lim.cdim != m:
        raise Bad("result is not an SLH with %d channels" % m,
                  got=str(lim)[:300])
    pr = (lambda x: p0 @ x @ p0) if proj else (lambda x: x)
    for i in range(m):
        for j in range(m):
            close(pr(den(lim.S[i, j])), Sl[i][j], 'S of the limit', sc,
                  lim=str(lim)[:500])
        close(pr(den(lim.Ls[i])), Ll[i], 'L of the limit', sc,
              lim=str(lim)[:500])
    close(pr(den(lim.H)), Hl, 'H of the limit', sc, lim=str(lim)[:500])
    if proj and any('f' in [str(s.label) for s in x.space.local_factors]
                    for x in [lim.S, lim.L, lim.H]
                    if x.space is not qnet.FullSpace):
        raise Bad("the eliminated space is still present",
                  lim=str(lim)[:500])
    # independent of the formula: unitarity and dynamics of the limit
    if md.fock:
        return
    case.phase = 'dynamics'
    for i in range(m):
        for j in range(m):
            x = sum(dg(Sl[q][i]) @ Sl[q][j] for q in range(m))
            close(x, p0 * (i == j), 'S^+ S of the limit')
    close(Klim, 1j * Hl - .5 * sum(dg(x) @ x for x in Ll), 'K of the limit',
          sc)
    case.saw('unitary')
    al = [0] * m
    if rng.random() < .6:
        al = [rng.choice([.3, -.2j, .4 + .1j]) for _ in range(m)]

    def gen(Sx, Lx, Hx, one):
        sa = [sum(Sx[i][j] * al[j] for j in range(m)) for i in range(m)]
        h = Hx + sum(dg(x) @ s - dg(s) @ x for x, s in zip(Lx, sa)) / 2j
        lx = [x + s for x, s in zip(Lx, sa)]
        return 1j * h - .5 * sum(dg(x) @ x for x in lx)
    one = np.eye(D)
    Sf = [[sm[i, j] * one for j in range(m)] for i in range(m)]
    t = .3
    want = expm(t * gen(Sl, Ll, Hl, p0)) @ p0
    err = []
    for kv in (200., 1600.):
        K = gen(Sf, [kv * x + y for x, y in zip(l1, l0)],
                kv**2 * h2 + kv * h1 + h0, one)
        err.append(np.abs(expm(t * K) @ p0 - want).max())
    if not (err[1] < .35 * err[0] or err[1] < .01):
        raise Bad("the propagator does not converge to that of the limit: "
                  "%s" % err, drive=str(al))
    case.saw('driven dynamics' if any(al) else 'dynamics')
    if m == 2:
        case.saw('two channels')
    if len(md.P) == 2:
        case.saw('rank 2')
    if np.abs(fast @ Y @ fast - np.diag(np.diag(Y))).max() > 1e-9:
        case.saw('off-diagonal Y')


def yt_el(md, yt, i, j):
    # spaces sorted: f, s
    return yt.reshape(md.n, 2, md.n, 2)[i, 0, j, 0]


def sub(md, a, fock):
    """without the levels affected by the truncation of the mode"""
    if not fock:
        return a
    n = a.shape[0] // 2
    w = n - 4
    return a.reshape(n, 2, n, 2)[:w, :, :w, :]


def rejected(case, md):
    rng = case.rng
    k = sympy.Symbol('k', positive=True)
    how = rng.choice(['off', 'two', 'empty'])
    one = qnet.identity_matrix(1)
    f, s = md.f, md.s
    if md.fock:
        x, p = Destroy(hs=f), LocalProjector(1, hs=f)
        off = LocalSigma(1, 2, hs=f)
    else:
        x, p = md.sig(0, 1), md.sig(1, 1)
        off = md.sig(0, 1)
    if how == 'off':
        slh = SLH(one, [ZeroOperator], k**2 * (off + off.dag()))
    elif how == 'two':
        slh = SLH(one, [k * x], k**2 * p * LocalProjector(0, hs=s))
    else:
        if md.fock:
            H = x.dag() * x + IdentityOperator
        else:
            H = sum((md.sig(i, i) for i in range(md.n)), ZeroOperator)
        slh = SLH(one, [ZeroOperator], k**2 * H)
    case.info = dict(rejected=how, slh=str(slh))
    case.key = (how, str(slh))
    case.phase = 'run'
    try:
        r = ca.try_adiabatic_elimination(slh, k)
    except CannotEliminateAutomatically:
        case.saw('rejected')
        return
    raise Bad("elimination of an unsuitable model (%s)" % how,
              got=str(r)[:300], slh=str(slh))
