"""Numeric reference model of SLH circuits

`N(S, L, H)`: S has shape (n, n, D, D), L (n, D, D), H (D, D), all operators on
the same finite space of dimension D.  The composition rules are those of
Gough and James, written with numpy only.
"""
import cmath
import hashlib
import numpy as np
import sympy

from . import num
from . import recipes as R
from .num import T


class IllPosed(Exception):
    pass


class N:
    def __init__(self, S, L, H):
        self.S, self.L, self.H = S, L, H
        self.n = S.shape[0]
        self.D = H.shape[0]

    def dag(self):
        return N(opdag(self.S), self.L, self.H)


def opmul(A, B):
    """product of matrices of operators"""
    return np.einsum('ijab,jkbc->ikac', A, B)


def opdag(A):
    return np.conj(np.transpose(A, (1, 0, 3, 2)))


def scal(M, D):
    """matrix of numbers -> matrix of operators"""
    return np.einsum('ij,ab->ijab', np.asarray(M, dtype=complex), np.eye(D))


def im(X):
    return (X - X.conj().T) / 2j


def identity(n, D):
    return N(scal(np.eye(n), D), np.zeros((n, D, D), complex),
             np.zeros((D, D), complex))


def permutation(perm, D):
    n = len(perm)
    M = np.zeros((n, n))
    for j, p in enumerate(perm):
        M[p, j] = 1
    r = identity(n, D)
    r.S = scal(M, D)
    return r


def series(a, b):
    """`a` after `b`"""
    S = opmul(a.S, b.S)
    SL = np.einsum('ijab,jbc->iac', a.S, b.L)
    X = np.einsum('iba,ibc->ac', a.L.conj(), SL)
    return N(S, a.L + SL, a.H + b.H + im(X))


def concat(a, b):
    D = a.D
    n = a.n + b.n
    S = np.zeros((n, n, D, D), complex)
    S[:a.n, :a.n] = a.S
    S[a.n:, a.n:] = b.S
    return N(S, np.concatenate([a.L, b.L]), a.H + b.H)


def inverse(a):
    Sd = opdag(a.S)
    return N(Sd, -np.einsum('ijab,jbc->iac', Sd, a.L), -a.H)


def feedback(a, out_port, in_port):
    n = a.n
    o = [i for i in range(n) if i != out_port]
    p = [i for i in range(n) if i != in_port]
    M = np.eye(a.D) - a.S[out_port, in_port]
    if np.linalg.cond(M) > 1e7 or np.abs(np.linalg.det(M)) < 1e-7:
        raise IllPosed
    W = np.linalg.inv(M)
    col = a.S[:, in_port]                   # (n, D, D)
    row = a.S[out_port]
    S = np.stack([np.stack([
        a.S[i, j] + col[i] @ W @ row[j] for j in p]) for i in o]) \
        if n > 1 else np.zeros((0, 0, a.D, a.D), complex)
    WL = W @ a.L[out_port]
    L = np.stack([a.L[i] + col[i] @ WL for i in o])
    X = sum(a.L[i].conj().T @ col[i] @ WL for i in range(n))
    return N(S, L, a.H + im(X))


def diff(a, b):
    """largest absolute difference of two models, and a scale"""
    if a.n != b.n:
        return float('inf'), 1
    d, s = 0.0, 1.0
    for x, y in ((a.S, b.S), (a.L, b.L), (a.H, b.H)):
        if x.size:
            d = max(d, np.abs(x - y).max())
            s = max(s, np.abs(x).max())
    return d, s


def which(a, b):
    if a.n != b.n:
        return 'cdim %d vs %d' % (a.n, b.n)
    return ', '.join('%s: %.3g' % (nm, np.abs(x - y).max() if x.size else 0)
                     for nm, x, y in (('S', a.S, b.S), ('L', a.L, b.L),
                                      ('H', a.H, b.H)))


# -- evaluation of QNET objects ---------------------------------------------

def full(ctx, t):
    """T -> matrix on all spaces of the context"""
    return num.embed(ctx.U, t, tuple(sorted(ctx.keys)))


def of_matrix(ctx, M):
    """qnet Matrix -> (rows, cols, D, D)"""
    r, c = M.shape
    D = ctx.U.total(tuple(ctx.keys))
    out = np.zeros((r, c, D, D), complex)
    for i in range(r):
        for j in range(c):
            out[i, j] = full(ctx, ctx.den(M.matrix[i, j]))
    return out


def of_slh(ctx, slh):
    S = of_matrix(ctx, slh.S)
    L = of_matrix(ctx, slh.L)
    if S.shape[0] != S.shape[1] or L.shape[:2] != (S.shape[0], 1):
        raise ValueError("shapes of S, L: %s %s" % (
            slh.S.shape, slh.L.shape))
    return N(S, L[:, 0], full(ctx, ctx.den(slh.H)))


_SYM = {}


def symbol(ctx, label, n):
    """random unitary SLH model of a CircuitSymbol"""
    keys = tuple(sorted(ctx.keys))
    D = ctx.U.total(keys)
    k = (label, n, D)
    if k not in _SYM:
        h = int.from_bytes(hashlib.md5(repr(k).encode()).digest()[:4], 'big')
        g = np.random.RandomState(h)
        A = g.normal(size=(n * D, n * D)) + 1j * g.normal(size=(n * D, n * D))
        Q, Rr = np.linalg.qr(A)
        Q = Q * (np.diag(Rr) / np.abs(np.diag(Rr)))
        S = Q.reshape(n, D, n, D).transpose(0, 2, 1, 3)
        L = .5 * (g.normal(size=(n, D, D)) + 1j * g.normal(size=(n, D, D)))
        H = g.normal(size=(D, D)) + 1j * g.normal(size=(D, D))
        _SYM[k] = (S, L, (H + H.conj().T) / 2)
    return N(*_SYM[k])


class Circ:
    """Structural evaluator of circuit expressions (independent of toSLH)"""

    def __init__(self, ctx, symbols=None):
        self.ctx = ctx
        self.D = ctx.U.total(tuple(ctx.keys))
        self.symbols = symbols or {}
        self.seen = {}

    def __call__(self, c):
        import qnet
        from qnet.algebra.core import circuit_algebra as ca
        cls = type(c).__name__
        self.seen[cls] = self.seen.get(cls, 0) + 1
        if c is qnet.CircuitZero:
            return identity(0, self.D)
        if c is qnet.CIdentity:
            return identity(1, self.D)
        if isinstance(c, ca.SLH):
            return of_slh(self.ctx, c)
        if isinstance(c, ca.CPermutation):
            return permutation(c.permutation, self.D)
        if isinstance(c, ca.SeriesProduct):
            r = None
            for o in c.operands:
                v = self(o)
                if r is not None and v.n != r.n:
                    raise ValueError("cdim mismatch in %s" % c)
                r = v if r is None else series(r, v)
            return r
        if isinstance(c, ca.Concatenation):
            r = None
            for o in c.operands:
                v = self(o)
                r = v if r is None else concat(r, v)
            return r
        if isinstance(c, ca.Feedback):
            return feedback(self(c.operand), c.out_port, c.in_port)
        if isinstance(c, ca.SeriesInverse):
            return inverse(self(c.operand))
        if isinstance(c, qnet.CoherentDriveCC):
            return drive([self.scalar(c.displacement)], self.D)
        if isinstance(c, qnet.PhaseCC):
            return phase(self.scalar(c.phase), self.D)
        if isinstance(c, qnet.Beamsplitter):
            return beamsplitter(self.scalar(c.mixing_angle), self.D)
        if isinstance(c, ca.Component):
            return c._ref_model(self)
        if isinstance(c, ca.CircuitSymbol):
            return symbol(self.ctx, sym_key(c, self.ctx), c.cdim)
        raise TypeError("unknown circuit %r" % c)

    def scalar(self, x):
        return complex(self.ctx.den.scalar(x))


BY_VALUE = False    # symbols with arguments: functions of the values


def sym_key(c, ctx):
    if BY_VALUE:
        v = [complex(ctx.den.scalar(x)) for x in c.sym_args]
        return '%s|%s' % (c.label, [
            '%.9f %.9f' % (x.real + 0., x.imag + 0.) for x in v])
    return '%s|%s' % (c.label, c.sym_args)


def drive(amps, D):
    r = identity(len(amps), D)
    r.L = np.stack([a * np.eye(D, dtype=complex) for a in amps]) \
        if amps else r.L
    return r


def phase(x, D):
    r = identity(1, D)
    r.S = scal([[cmath.exp(1j * x)]], D)
    return r


def beamsplitter(t, D):
    r = identity(2, D)
    r.S = scal([[cmath.cos(t), -cmath.sin(t)],
                [cmath.sin(t), cmath.cos(t)]], D)
    return r


# -- random circuit programs --------------------------------------------------
# recipes are lists: [kind, ...]; scalars and operators inside SLH leaves are
# recipes of `recipes.py`

def build(ctx, r):
    import qnet
    from qnet.algebra.core.circuit_algebra import (
        SeriesProduct, Concatenation, Feedback, SeriesInverse, SLH,
        map_channels, pad_with_identity, extract_channel, FB)
    k, a = r[0], r[1:]
    b = lambda x: build(ctx, x)          # noqa
    if k == 'sym':
        return qnet.CircuitSymbol(a[0], *[R.build(ctx, x) for x in a[2:]],
                                  cdim=a[1])
    if k == 'id':
        return qnet.circuit_identity(a[0])
    if k == 'perm':
        return qnet.CPermutation.create(tuple(a[0]))
    if k == 'map':
        return map_channels({int(x): y for x, y in a[0]}, a[1])
    if k == 'extract':
        return extract_channel(a[0], a[1])
    if k == 'drive':
        return qnet.CoherentDriveCC(displacement=R.build(ctx, a[0]))
    if k == 'phase':
        return qnet.PhaseCC(phase=R.build(ctx, a[0]))
    if k == 'bs':
        if a[0] is None:
            return qnet.Beamsplitter()
        return qnet.Beamsplitter(mixing_angle=R.build(ctx, a[0]))
    if k == 'slh':
        S = [[R.build(ctx, x) for x in row] for row in a[0]]
        L = [R.build(ctx, x) for x in a[1]]
        H = R.build(ctx, a[2])
        M = qnet.Matrix
        how = a[3]
        if how == 'list':
            return SLH(S, [[x] for x in L], H)
        if how == 'flat':
            return SLH(M(S), L, H)
        return SLH.create(M(S), M([[x] for x in L]), H)
    if k == 'series':
        return b(a[0]) << b(a[1])
    if k == 'seriesn':
        return SeriesProduct.create(*[b(x) for x in a])
    if k == 'plus':
        return b(a[0]) + b(a[1])
    if k == 'plusn':
        return Concatenation.create(*[b(x) for x in a])
    if k == 'fb':
        c, o, i, how = a
        c = b(c)
        if how == 'method':
            return c.feedback(out_port=o, in_port=i)
        if how == 'FB':
            return FB(c, out_port=o, in_port=i)
        if how == 'default':
            return c.feedback()
        return Feedback.create(c, out_port=o, in_port=i)
    if k == 'inv':
        if a[1] == 'method':
            return b(a[0]).series_inverse()
        return SeriesInverse.create(b(a[0]))
    if k == 'pad':
        return pad_with_identity(b(a[0]), a[1], a[2])
    if k == 'slhfb':
        return b(a[0]).toSLH().feedback(out_port=a[1], in_port=a[2])
    if k == 'cin':
        return b(a[0]).coherent_input(*[R.build(ctx, x) for x in a[1]])
    if k == 'toslh':
        return b(a[0]).toSLH()
    raise ValueError(k)


def map_perm(mapping, n):
    mapping = {int(x): y for x, y in mapping}
    free = [x for x in range(n) if x not in mapping.values()]
    return [mapping[k] if k in mapping else free.pop(0) for k in range(n)]


def ref(ctx, r):
    D = ctx.U.total(tuple(ctx.keys))
    k, a = r[0], r[1:]
    f = lambda x: ref(ctx, x)          # noqa

    def sc(x):
        return complex(R.val(ctx, x).a)
    if k == 'sym':
        import qnet
        q = build(ctx, r)
        return symbol(ctx, sym_key(q, ctx), a[1])
    if k == 'id':
        return identity(a[0], D)
    if k == 'perm':
        return permutation(a[0], D)
    if k == 'map':
        return permutation(map_perm(a[0], a[1]), D)
    if k == 'extract':
        # channel k -> last, the others keep their order
        return permutation([
            a[1] - 1 if j == a[0] else j - (j > a[0]) for j in range(a[1])], D)
    if k == 'drive':
        return drive([sc(a[0])], D)
    if k == 'phase':
        return phase(sc(a[0]), D)
    if k == 'bs':
        return beamsplitter(cmath.pi / 4 if a[0] is None else sc(a[0]), D)
    if k == 'slh':
        n = len(a[1])
        S = np.zeros((n, n, D, D), complex)
        for i in range(n):
            for j in range(n):
                S[i, j] = full(ctx, R.val(ctx, a[0][i][j]))
        L = np.stack([full(ctx, R.val(ctx, x)) for x in a[1]])
        return N(S, L, full(ctx, R.val(ctx, a[2])))
    if k in ('series', 'seriesn'):
        v = f(a[0])
        for x in a[1:]:
            v = series(v, f(x))
        return v
    if k in ('plus', 'plusn'):
        v = f(a[0])
        for x in a[1:]:
            v = concat(v, f(x))
        return v
    if k == 'fb':
        return feedback(f(a[0]), a[1], a[2])
    if k == 'slhfb':
        return feedback(f(a[0]), a[1], a[2])
    if k == 'inv':
        return inverse(f(a[0]))
    if k == 'pad':
        v = f(a[0])
        n, m = v.n, a[2]
        pos = list(range(a[1])) + list(range(a[1] + m, n + m))
        out = identity(n + m, D)
        for i in range(n):
            for j in range(n):
                out.S[pos[i], pos[j]] = v.S[i, j]
            out.L[pos[i]] = v.L[i]
        out.H = v.H
        return out
    if k == 'cin':
        return series(f(a[0]), drive([sc(x) for x in a[1]], D))
    if k == 'toslh':
        return f(a[0])
    raise ValueError(k)


def cdim(r):
    k, a = r[0], r[1:]
    if k == 'sym':
        return a[1]
    if k == 'id':
        return a[0]
    if k == 'perm':
        return len(a[0])
    if k in ('map', 'extract'):
        return a[1]
    if k in ('drive', 'phase'):
        return 1
    if k == 'bs':
        return 2
    if k == 'slh':
        return len(a[1])
    if k in ('fb', 'slhfb'):
        return cdim(a[0]) - 1
    if k in ('plus', 'plusn'):
        return sum(map(cdim, a))
    if k == 'pad':
        return cdim(a[0]) + a[2]
    return cdim(a[0])


class CGen:
    """random circuit programs"""

    def __init__(self, rng, g, symbols=True, slh=True, op_S=True,
                 components=True, maxn=4, unitary=True, simple=False):
        self.rng, self.g = rng, g
        self.symbols, self.slh, self.op_S = symbols, slh, op_S
        self.components, self.maxn = components, maxn
        self.unitary = unitary
        self.simple = simple
        self.nslh = 0

    def real(self):
        r = self.rng
        if self.simple and r.random() < .8:
            return ['num', 'float', r.choice([0.3, -0.7, 1.1, 2.3])]
        return r.choice([
            ['num', 'float', r.choice([0.3, -0.7, 1.1, 2.3])],
            ['num', 'rat', 1, 3], ['sym', 'phi', 'r'], ['sym', 'g', 'r'],
            ['nmul', ['num', 'int', 2], ['sym', 'phi', 'r']],
            ['nadd', ['sym', 'phi', 'r'], ['sym', 'g', 'r']]])

    def amp(self):
        if self.simple and self.rng.random() < .8:
            return ['num', 'complex', self.rng.choice([.5, 1., -2.]),
                    self.rng.choice([0., -0.25])]
        return self.rng.choice([
            ['sym', 'alpha', 'c'], ['num', 'int', 2], ['num', 'float', 0.5],
            ['num', 'complex', 0.5, -0.25], ['num', 'symI', 0, 1],
            ['nmul', ['num', 'int', 2], ['sym', 'alpha', 'c']],
            ['nmul', ['num', 'symI', 0, 1], ['sym', 'g', 'r']]])

    def unitary_entries(self, n):
        """exact unitary scattering matrix as recipes of scalars"""
        r = self.rng
        one, zero = ['num', 'int', 1], ['num', 'int', 0]
        x = r.random()
        if self.simple and n > 1:
            # plain floats: exact numbers grow too much in large networks
            g = np.random.RandomState(r.randrange(10**6))
            Q = np.linalg.qr(g.normal(size=(n, n)))[0]
            j = r.choice([None, None, 0, 1])   # one column times I
            return [[['nmul', ['num', 'float', float(z)],
                      ['num', 'symI', 0, 1]] if k == j else
                     ['num', 'float', float(z)]
                     for k, z in enumerate(row)] for row in Q]
        if n == 1:
            return [[r.choice([['num', 'int', -1], ['num', 'symI', 0, 1],
                               ['num', 'int', 1],
                               ['nexp', self.sym_r()]])]]
        if x < 0.2:
            p = list(range(n))
            r.shuffle(p)
            return [[r.choice([one, ['num', 'int', -1]]) if p[j] == i else zero
                     for j in range(n)] for i in range(n)]
        M = np.empty((n, n), dtype=object)
        M[:] = sympy.Integer(0)
        for i in range(n):
            M[i, i] = sympy.Integer(1)
        for _ in range(r.randint(1, n)):
            i, j = r.sample(range(n), 2)
            G = np.empty((n, n), dtype=object)
            G[:] = sympy.Integer(0)
            for q in range(n):
                G[q, q] = sympy.Integer(1)
            c, s = r.choice([(3, 4), (4, 3), (-3, 4)])
            ph = r.choice([1, 1, -1, sympy.I])
            G[i, i] = sympy.Rational(c, 5)
            G[i, j] = -ph * sympy.Rational(s, 5)
            G[j, i] = sympy.conjugate(ph) * sympy.Rational(s, 5)
            G[j, j] = sympy.Rational(c, 5)
            M = G.dot(M)
        out = []
        for i in range(n):
            row = []
            for j in range(n):
                z = sympy.expand(M[i, j])
                re, imm = z.as_real_imag()
                a = ['num', 'rat', int(re.p), int(re.q)]
                if imm != 0:
                    b = ['nmul', ['num', 'rat', int(imm.p), int(imm.q)],
                         ['num', 'symI', 0, 1]]
                    a = b if re == 0 else ['nadd', a, b]
                row.append(a)
            out.append(row)
        return out

    def sym_r(self):
        return self.rng.choice([['sym', 'phi', 'r'], ['sym', 'g', 'r']])

    def op_unitary(self, n):
        """operator-valued unitary: signs and permutations of 1 - 2 P"""
        r = self.rng
        one = ['num', 'int', 1]
        E = self.unitary_entries(n)

        def refl():
            k = r.choice(self.g.ctx.keys)
            j = r.randrange(self.g.ctx.dim(k))
            return ['osub', ['oI'],
                    ['oscl', ['num', 'int', 2], ['proj', k, j, False]]]
        U = [refl() if r.random() < .6 else ['oI'] for _ in range(n)]
        return [[['omul', U[i], ['oscl', E[i][j], ['oI']]] for j in range(n)]
                for i in range(n)]

    def slh_leaf(self, n):
        r = self.rng
        self.nslh += 1
        if self.op_S and r.random() < 0.25:
            S = self.op_unitary(n)
        elif not self.unitary and r.random() < 0.3:
            S = [[self.g.op(0) for _ in range(n)] for _ in range(n)]
        else:
            S = self.unitary_entries(n)
        L = []
        for _ in range(n):
            x = r.random()
            if x < (0.5 if self.simple else 0.2):
                L.append(['num', 'int', 0])
            elif x < (0.6 if self.simple else 0.4):
                L.append(self.amp())
            elif x < 0.7 or self.simple:
                L.append(['oscl', r.choice([['num', 'float', 1.5], self.amp()])
                          if self.simple else
                          r.choice([['sym', 'kappa', 'p'], self.amp()]),
                          self.g.op_leaf(self.g.ctx.keys)])
            else:
                L.append(self.g.op(1))
        if r.random() < 0.3:
            H = ['num', 'int', 0]
        else:
            A = self.g.op_leaf(self.g.ctx.keys) if self.simple or \
                r.random() < .6 else self.g.op(1)
            H = r.choice([
                ['oscl', self.real(), ['oadd', A, ['odag', A]]],
                ['omul', ['odag', A], A]])
        return ['slh', S, L, H, r.choice(['list', 'flat', 'create'])]

    def leaf(self, n):
        r = self.rng
        kinds = ['perm', 'id'] if n > 1 else ['id']
        if self.symbols:
            kinds += ['sym'] * 5
        if self.slh:
            kinds += ['slh'] * (2 if self.symbols else 5) * (self.nslh < 3)
        if self.components:
            if n == 1:
                kinds += ['drive', 'phase', 'phase']
            if n == 2:
                kinds += ['bs', 'bs']
        if n > 1:
            kinds += ['map', 'perm', 'split', 'split']
            if r.random() < .3:
                kinds += ['extract']
        k = r.choice(kinds)
        if k == 'sym':
            if r.random() < 0.15:
                return ['sym', r.choice('PQ'), n, self.sym_r()]
            return ['sym', r.choice('ABC') + '_%d' % n, n]
        if k == 'slh':
            return self.slh_leaf(n)
        if k == 'id':
            return ['id', n]
        if k == 'perm':
            p = list(range(n))
            r.shuffle(p)
            return ['perm', p]
        if k == 'map':
            m = r.randint(1, min(n, 2))
            a, b = r.sample(range(n), m), r.sample(range(n), m)
            return ['map', [[str(x), y] for x, y in zip(a, b)], n]
        if k == 'extract':
            return ['extract', r.randrange(n), n]
        if k == 'drive':
            return ['drive', self.amp()]
        if k == 'phase':
            return ['phase', self.real()]
        if k == 'bs':
            return ['bs', r.choice([None, self.real(), self.real()])]
        m = r.randint(1, n - 1)
        return ['plus', self.leaf(m), self.leaf(n - m)]

    def circ(self, n, depth):
        r = self.rng
        if depth <= 0 or r.random() < 0.1:
            return self.leaf(n)
        x = r.random()
        if x < 0.36:
            if r.random() < .7:
                return ['series', self.circ(n, depth - 1),
                        self.circ(n, depth - 1)]
            return ['seriesn'] + [self.circ(n, depth - 1)
                                  for _ in range(r.randint(2, 4))]
        if x < 0.58 and n > 1:
            m = r.randint(1, n - 1)
            if n > 2 and r.random() < .25:
                return ['plusn', self.circ(1, depth - 1),
                        self.circ(n - 2, depth - 1), self.circ(1, depth - 1)]
            return ['plus', self.circ(m, depth - 1),
                    self.circ(n - m, depth - 1)]
        if x < 0.84 and n < self.maxn and n >= 1:
            o, i = r.randint(0, n), r.randint(0, n)
            how = r.choice(['method', 'FB', 'create'])
            c = self.circ(n + 1, depth - 1)
            if r.random() < .15:
                how, o, i = 'default', n, n
            return ['fb', c, o, i, how]
        if x < 0.92:
            return ['inv', self.circ(n, depth - 1),
                    r.choice(['method', 'create'])]
        if x < 0.96 and n > 1:
            m = r.randint(1, n - 1)
            return ['pad', self.circ(n - m, depth - 1), r.randint(0, n - m), m]
        if x < 0.98 and self.components:
            return ['cin', self.circ(n, depth - 1), [
                self.amp() for _ in range(n)]]
        return ['series', self.leaf(n), self.circ(n, depth - 1)]


def symbols_in(r, acc=None):
    acc = {} if acc is None else acc
    if isinstance(r, list):
        if r and r[0] == 'sym' and len(r) > 2 and isinstance(r[2], int):
            acc[str(r)] = r
        else:
            for x in r:
                symbols_in(x, acc)
    return acc


def csize(r):
    if not isinstance(r, list) or not r:
        return 0
    return (isinstance(r[0], str)) + sum(csize(x) for x in r[1:])
