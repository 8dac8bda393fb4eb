"""Random typed programs with two interpretations.

A recipe is a JSON-able nested list ``[node, arg, ...]``.  Every node has a
`build` (run it on QNET, through the public API) and a `val` (run it on plain
numpy tensors) interpretation; `weight` bounds how many quanta a program can
add to a bosonic mode (it determines the truncation of the reference model).
"""
import cmath
import math
import numpy as np
import sympy
if not hasattr(np, "asscalar"):
    # sympy 1.1.1 needs this numpy function when it meets a numpy scalar
    np.asscalar = lambda a: a.item()
import qnet
from qnet import (
    LocalSpace, SpinSpace, ProductSpace, TrivialSpace, symbols, IdxSym,
    OperatorSymbol, IdentityOperator, ZeroOperator, LocalSigma,
    LocalProjector, OperatorPlus, OperatorTimes, ScalarTimesOperator,
    Commutator, OperatorTrace, Adjoint, OperatorPlusMinusCC, PseudoInverse,
    NullSpaceProjector, KetSymbol, ZeroKet, TrivialKet, BasisKet,
    CoherentStateKet, KetPlus, TensorKet, ScalarTimesKet, OperatorTimesKet,
    Bra, BraKet, KetBra, SuperOperatorSymbol, IdentitySuperOperator,
    ZeroSuperOperator, SuperOperatorPlus, SuperOperatorTimes,
    ScalarTimesSuperOperator, SuperAdjoint, SPre, SPost,
    SuperOperatorTimesOperator, commutator, anti_commutator, lindblad,
    liouvillian, Destroy, Create, Phase, Displace, Squeeze, Jz, Jplus,
    Jminus, PauliX, PauliY, PauliZ, ScalarValue, Zero, One, ScalarPlus,
    ScalarTimes, ScalarPower, SpinBasisKet)
from qnet.algebra.core.scalar_algebra import sqrt as qsqrt

from . import num
from .num import T, S
from .den import Den, spin_label
from .symeval import symbol_value

W = 4   # comparison window of infinite modes


class Spc:
    """A local space: key, kind, build parameters"""

    def __init__(self, label, kind, arg=None):
        self.label = label
        self.kind = kind
        self.arg = arg

    def to_json(self):
        return [self.label, self.kind, self.arg]

    def build(self):
        if self.kind == 'basis':
            return LocalSpace(self.label, basis=tuple(self.arg))
        if self.kind == 'dim':
            return LocalSpace(self.label, dimension=self.arg)
        if self.kind == 'fock':
            return LocalSpace(self.label)
        if self.kind == 'spin':
            return SpinSpace(self.label, spin=sympy.Rational(self.arg, 2))
        if self.kind == 'spinb':
            return SpinSpace(self.label, spin=(len(self.arg) - 1, 2),
                             basis=tuple(self.arg))
        raise ValueError(self.kind)

    @property
    def finite(self):
        return self.kind != 'fock'

    @property
    def dim(self):
        if self.kind in ('basis', 'spinb'):
            return len(self.arg)
        if self.kind == 'dim':
            return self.arg
        if self.kind == 'spin':
            return self.arg + 1
        return None

    @property
    def labels(self):
        if self.kind in ('basis', 'spinb'):
            return list(self.arg)
        if self.kind == 'dim':
            return [str(i) for i in range(self.arg)]
        if self.kind == 'spin':
            return [spin_label(-self.arg / 2 + i)
                    for i in range(self.arg + 1)]
        return []

    def spec(self, trunc):
        if self.kind == 'fock':
            return dict(dim=trunc, window=W, labels=[], kind='fock')
        return dict(dim=self.dim, window=None, labels=self.labels,
                    kind=self.kind)


class Ctx:
    """Interpretation context: the spaces of one case"""

    def __init__(self, spaces):
        self.spaces = {str(s.label): s for s in spaces}
        self.keys = sorted(self.spaces)
        self._built = {}
        self.U = None
        self.den = None
        self.set_truncation(W + 4)

    def set_truncation(self, n, env=None):
        self.U = num.Universe(
            {k: s.spec(n) for k, s in self.spaces.items()})
        self.den = Den(self.U, env)

    def fit(self, weight, unitary=False):
        self.set_truncation(W + weight + 3 + (20 if unitary else 0))

    def to_json(self):
        return [self.spaces[k].to_json() for k in self.keys]

    def hs(self, key):
        if isinstance(key, (list, tuple)):
            if len(key) == 0:
                return TrivialSpace
            if len(key) == 1:
                return self.hs(key[0])
            return ProductSpace.create(*[self.hs(k) for k in key])
        if key not in self._built:
            self._built[key] = self.spaces[key].build()
        return self._built[key]

    def dim(self, key):
        return self.U.dim(key)

    def finite(self):
        return [k for k in self.keys if self.spaces[k].finite]

    def fock(self):
        return [k for k in self.keys if not self.spaces[k].finite]


def ctx_from_json(js):
    return Ctx([Spc(a, b, c) for a, b, c in js])


NODES = {}


class Node:
    def __init__(self, build, val, weight):
        self.build, self.val, self.weight = build, val, weight


def _wsum(*w):
    return sum(w)


def _wmax(*w):
    return max(w) if w else 0


def node(name, build, val, weight=_wsum):
    NODES[name] = Node(build, val, weight)


def is_recipe(x):
    return isinstance(x, (list, tuple)) and len(x) > 0 and \
        isinstance(x[0], str) and x[0] in NODES


def build(ctx, r):
    args = [build(ctx, a) if is_recipe(a) else a for a in r[1:]]
    return NODES[r[0]].build(ctx, *args)


# nodes whose `val` gets its recipe arguments unevaluated
LAZY = set()


def val(ctx, r):
    if r[0] in LAZY:
        return NODES[r[0]].val(ctx, *r[1:])
    args = [val(ctx, a) if is_recipe(a) else a for a in r[1:]]
    return NODES[r[0]].val(ctx, *args)


def weight(r):
    ws = [weight(a) for a in r[1:] if is_recipe(a)]
    w = NODES[r[0]].weight
    if r[0] in ('opow', 'spow', 'ppow'):
        return ws[0] * max(r[2], 1)
    return w(*ws) if not isinstance(w, int) else w + sum(ws)


def size(r):
    return 1 + sum(size(a) for a in r[1:] if is_recipe(a))


def nodes_used(r, acc=None):
    acc = set() if acc is None else acc
    acc.add(r[0])
    for a in r[1:]:
        if is_recipe(a):
            nodes_used(a, acc)
    return acc


def uses_unitary(r):
    return bool(nodes_used(r) & {'displace', 'squeeze', 'coherent'})


def shrink_candidates(r):
    """Sub-recipes (for shrinking a failing case)"""
    for a in r[1:]:
        if is_recipe(a):
            yield a


# -- scalars -----------------------------------------------------------------
# 'n*' nodes are native/sympy scalars, built without QNET

def _sym(name, kind):
    kw = {'r': dict(real=True), 'p': dict(positive=True), 'c': {}}[kind]
    return sympy.Symbol(name, **kw)


def _num(kind, a, b=0):
    if kind == 'int':
        return int(a)
    if kind == 'float':
        return float(a)
    if kind == 'complex':
        return complex(a, b)
    if kind == 'rat':
        return sympy.Rational(int(a), int(b))
    if kind == 'np':
        return np.float64(a)
    if kind == 'npc':
        return np.complex128(complex(a, b))
    if kind == 'npi':
        return np.int64(int(a))
    if kind == 'symI':
        return sympy.Integer(int(a)) + sympy.I * int(b)
    raise ValueError(kind)


def _numv(kind, a, b=0):
    if kind == 'rat':
        return complex(a / b)
    if kind in ('complex', 'npc', 'symI'):
        return complex(a, b)
    return complex(a)


def _env(ctx, sym):
    return ctx.den.env.get(sym, None)


def _symval(ctx, name, kind):
    s = _sym(name, kind)
    v = ctx.den.env.get(s)
    return complex(symbol_value(s) if v is None else v)


node('num', lambda c, *a: _num(*a), lambda c, *a: S(_numv(*a)), 0)
node('sym', lambda c, n, k: _sym(n, k), lambda c, n, k: S(_symval(c, n, k)), 0)
node('nadd', lambda c, a, b: sympy.sympify(a) + b,
     lambda c, a, b: S(a.a + b.a), 0)
node('nmul', lambda c, a, b: sympy.sympify(a) * b,
     lambda c, a, b: S(a.a * b.a), 0)
node('npow', lambda c, a, n: sympy.sympify(a) ** n,
     lambda c, a, n: S(a.a ** n), 0)
node('nexp', lambda c, a: sympy.exp(sympy.I * a),
     lambda c, a: S(cmath.exp(1j * a.a)), 0)
node('nsin', lambda c, a: sympy.sin(a), lambda c, a: S(cmath.sin(a.a)), 0)
node('nsqrt', lambda c, a: sympy.sqrt(a), lambda c, a: S(cmath.sqrt(a.a)), 0)
node('nconj', lambda c, a: sympy.conjugate(a),
     lambda c, a: S(a.a.conjugate()), 0)

# wrapping / QNET scalars
node('sval', lambda c, a: ScalarValue.create(a), lambda c, a: a)
node('Zero', lambda c: Zero, lambda c: S(0))
node('One', lambda c: One, lambda c: S(1))
node('sadd', lambda c, a, b: a + b, lambda c, a, b: S(a.a + b.a))
node('ssub', lambda c, a, b: a - b, lambda c, a, b: S(a.a - b.a))
node('smul', lambda c, a, b: a * b, lambda c, a, b: S(a.a * b.a))
node('sdiv', lambda c, a, b: a / b, lambda c, a, b: S(a.a / b.a))
node('sneg', lambda c, a: -a, lambda c, a: S(-a.a))
node('spow', lambda c, a, n: a ** n, lambda c, a, n: S(a.a ** n))
node('sconj', lambda c, a: a.conjugate(), lambda c, a: S(np.conj(a.a)))
node('splus', lambda c, *a: ScalarPlus.create(*[_qs(x) for x in a]),
     lambda c, *a: S(sum(x.a for x in a)))
node('stimes', lambda c, *a: ScalarTimes.create(*[_qs(x) for x in a]),
     lambda c, *a: S(np.prod([x.a for x in a])))
node('braket', lambda c, b, k: BraKet.create(b, k),
     lambda c, b, k: num.mul(c.U, num.dag(b), k))
node('bradotket', lambda c, b, k: b * k, lambda c, b, k: num.mul(c.U, b, k))
node('strace', lambda c, a: a, lambda c, a: a)


def _qs(x):
    return ScalarValue.create(x) if not isinstance(
        x, qnet.Scalar) else x


# -- operators ---------------------------------------------------------------

node('osym', lambda c, l, ks, *args: OperatorSymbol(l, *args, hs=c.hs(ks)),
     lambda c, l, ks, *args: c.den.symbol_value(
         'O', l, tuple(sorted(ks)), [a.a for a in args]))
node('oI', lambda c: IdentityOperator, lambda c: S(1))
node('o0', lambda c: ZeroOperator, lambda c: S(0))


def _basis_op(ctx, key, j, k):
    n = ctx.dim(key)
    a = np.zeros((n, n), dtype=complex)
    a[j, k] = 1
    return T('O', (key,), a)


def _lab(ctx, key, i, as_label):
    """QNET label for basis index i: integer or string"""
    spc = ctx.spaces[key]
    if spc.finite and (
            as_label or spc.kind in ('spin', 'spinb')):
        return spc.labels[i]
    return i


node('sigma', lambda c, k, i, j, lab: LocalSigma.create(
        _lab(c, k, i, lab), _lab(c, k, j, lab), hs=c.hs(k)),
     lambda c, k, i, j, lab: _basis_op(c, k, i, j), 0)
node('proj', lambda c, k, i, lab: LocalProjector(
        _lab(c, k, i, lab), hs=c.hs(k)),
     lambda c, k, i, lab: _basis_op(c, k, i, i), 0)


def _local(ctx, key, f):
    return T('O', (key,), f(ctx.dim(key)))


node('destroy', lambda c, k: Destroy(hs=c.hs(k)),
     lambda c, k: _local(c, k, num.destroy), 1)
node('create', lambda c, k: Create(hs=c.hs(k)),
     lambda c, k: _local(c, k, lambda n: num.destroy(n).conj().T), 1)
node('phase', lambda c, k, a: Phase.create(a, hs=c.hs(k)),
     lambda c, k, a: _local(
         c, k, lambda n: np.diag(np.exp(1j * a.a * np.arange(n)))), 0)
node('displace', lambda c, k, a: Displace.create(a, hs=c.hs(k)),
     lambda c, k, a: _local(c, k, lambda n: num.displace_mat(n, a.a)), 0)
node('squeeze', lambda c, k, a: Squeeze.create(a, hs=c.hs(k)),
     lambda c, k, a: _local(c, k, lambda n: num.squeeze_mat(n, a.a)), 0)
for _i, (_n, _cls) in enumerate((('jz', Jz), ('jp', Jplus), ('jm', Jminus))):
    node(_n, (lambda cls: lambda c, k: cls(hs=c.hs(k)))(_cls),
         (lambda i: lambda c, k: _local(
             c, k, lambda n: num.spin_mats(n)[i]))(_i), 0)


def _pauli(which, a, b):
    def f(ctx, key, *st):
        i, j = st if st else (0, 1)
        n = ctx.dim(key)
        m = np.zeros((n, n), dtype=complex)
        if which == 'x':
            m[i, j] = m[j, i] = 1
        elif which == 'y':
            m[i, j], m[j, i] = -1j, 1j
        else:
            m[i, i], m[j, j] = 1, -1
        return T('O', (key,), m)
    return f


for _n, _f in (('x', PauliX), ('y', PauliY), ('z', PauliZ)):
    node('pauli' + _n,
         (lambda f: lambda c, k, *st: f(c.hs(k), states=tuple(st))
          if st else f(c.hs(k)))(_f), _pauli(_n, 0, 1), 0)

node('oadd', lambda c, a, b: a + b, lambda c, a, b: num.add(c.U, a, b), _wmax)
node('osub', lambda c, a, b: a - b, lambda c, a, b: num.sub(c.U, a, b), _wmax)
node('oneg', lambda c, a: -a, lambda c, a: num.neg(a))
node('omul', lambda c, a, b: a * b, lambda c, a, b: num.mul(c.U, a, b))
node('oscl', lambda c, s, a: s * a, lambda c, s, a: num.scale(s.a, a))
node('oscr', lambda c, a, s: a * s, lambda c, a, s: num.scale(s.a, a))
node('osct', lambda c, s, a: ScalarTimesOperator.create(s, a),
     lambda c, s, a: num.scale(s.a, a))
node('odiv', lambda c, a, s: a / s, lambda c, a, s: num.scale(1 / s.a, a))


def _opow(c, a, n):
    if a.kind == 'S':
        return S(a.a ** n)
    return T('O', a.spaces, np.linalg.matrix_power(a.a, n))


node('opow', lambda c, a, n: a ** n, _opow)
node('odag', lambda c, a: a.dag(), lambda c, a: num.dag(a))
node('oadjoint', lambda c, a: Adjoint.create(a), lambda c, a: num.dag(a))
node('oplus', lambda c, *a: OperatorPlus.create(*a),
     lambda c, *a: _fold(c, num.add, a), _wmax)
node('otimes', lambda c, *a: OperatorTimes.create(*a),
     lambda c, *a: _fold(c, num.mul, a))


def _fold(c, f, ops):
    r = ops[0]
    for o in ops[1:]:
        r = f(c.U, r, o)
    return r


def _comm(c, a, b):
    return num.sub(c.U, num.mul(c.U, a, b), num.mul(c.U, b, a))


node('ocomm', lambda c, a, b: Commutator.create(a, b), _comm)
node('opmcc', lambda c, a, s: OperatorPlusMinusCC(a, sign=s),
     lambda c, a, s: num.add(c.U, a, num.scale(s, num.dag(a))))
node('ketbra', lambda c, k, b: KetBra.create(k, b),
     lambda c, k, b: num.mul(c.U, k, num.dag(b)))
node('kettimesbra', lambda c, k, b: k * b, lambda c, k, b: num.mul(c.U, k, b))
node('otrace', lambda c, a, ks: OperatorTrace.create(a, over_space=c.hs(ks)),
     lambda c, a, ks: num.ptrace(c.U, a, tuple(ks)))
node('opinv', lambda c, a: a.pseudo_inverse(),
     lambda c, a: T('O', num.as_op(c.U, a).spaces,
                    num.pinv(num.as_op(c.U, a).a)))


def _nullproj(c, a):
    a = num.as_op(c.U, a)
    return T('O', a.spaces, np.eye(a.a.shape[0])
             - num.pinv(a.a) @ a.a)


node('onull', lambda c, a: NullSpaceProjector.create(a), _nullproj)

# -- states ------------------------------------------------------------------

node('ksym', lambda c, l, ks, *args: KetSymbol(l, *args, hs=c.hs(ks)),
     lambda c, l, ks, *args: c.den.symbol_value(
         'K', l, tuple(sorted(ks)), [a.a for a in args]))
node('k0', lambda c: ZeroKet, lambda c: num.ZERO_KET)
node('ktriv', lambda c: TrivialKet,
     lambda c: T('K', (), np.ones(1, dtype=complex)))


def _kvec(c, key, i):
    v = np.zeros(c.dim(key), dtype=complex)
    if i < len(v):
        v[i] = 1
    return T('K', (key,), v)


node('kbasis', lambda c, k, i, lab: BasisKet.create(
        _lab(c, k, i, lab), hs=c.hs(k)),
     lambda c, k, i, lab: _kvec(c, k, i), 0)
node('coherent', lambda c, k, a: CoherentStateKet(a, hs=c.hs(k)),
     lambda c, k, a: T('K', (k,), num.coherent_vec(c.dim(k), a.a)), 0)
node('kadd', lambda c, a, b: a + b, lambda c, a, b: num.add(c.U, a, b), _wmax)
node('ksub', lambda c, a, b: a - b, lambda c, a, b: num.sub(c.U, a, b), _wmax)
node('kneg', lambda c, a: -a, lambda c, a: num.neg(a))
node('kplus', lambda c, *a: KetPlus.create(*a),
     lambda c, *a: _fold(c, num.add, a), _wmax)
node('kscl', lambda c, s, a: s * a, lambda c, s, a: num.scale(s.a, a))
node('kscr', lambda c, a, s: a * s, lambda c, a, s: num.scale(s.a, a))
node('kdiv', lambda c, a, s: a / s, lambda c, a, s: num.scale(1 / s.a, a))
node('ksct', lambda c, s, a: ScalarTimesKet.create(s, a),
     lambda c, s, a: num.scale(s.a, a))
node('kmul', lambda c, a, b: a * b, lambda c, a, b: num.mul(c.U, a, b))
node('ktensor', lambda c, *a: TensorKet.create(*a),
     lambda c, *a: _fold(c, num.mul, a))
node('kapp', lambda c, o, k: o * k, lambda c, o, k: num.mul(c.U, o, k))
node('kappc', lambda c, o, k: OperatorTimesKet.create(o, k),
     lambda c, o, k: num.mul(c.U, o, k))
node('bra', lambda c, k: k.dag(), lambda c, k: num.dag(k))
node('brac', lambda c, k: Bra.create(k), lambda c, k: num.dag(k))
node('ket', lambda c, b: b.dag(), lambda c, b: num.dag(b))
node('badd', lambda c, a, b: a + b, lambda c, a, b: num.add(c.U, a, b), _wmax)
node('bsub', lambda c, a, b: a - b, lambda c, a, b: num.sub(c.U, a, b), _wmax)
node('bscl', lambda c, s, a: s * a, lambda c, s, a: num.scale(s.a, a))
node('bscr', lambda c, a, s: a * s, lambda c, a, s: num.scale(s.a, a))
node('bdiv', lambda c, a, s: a / s, lambda c, a, s: num.scale(1 / s.a, a))
node('bmul', lambda c, a, b: a * b, lambda c, a, b: num.mul(c.U, a, b))
node('bapp', lambda c, b, o: b * o, lambda c, b, o: num.mul(c.U, b, o))

# -- superoperators ----------------------------------------------------------

node('psym', lambda c, l, ks, *args: SuperOperatorSymbol(
        l, *args, hs=c.hs(ks)),
     lambda c, l, ks, *args: c.den.symbol_value(
         'P', l, tuple(sorted(ks)), [a.a for a in args]))
node('pI', lambda c: IdentitySuperOperator, lambda c: S(1))
node('p0', lambda c: ZeroSuperOperator, lambda c: S(0))


def _spre(c, a):
    return num.spre(c.U, a)


def _spost(c, a):
    return num.spost(c.U, a)


def _padd(c, *a):
    r = a[0]
    for x in a[1:]:
        r = num.add(c.U, r, x)
    return r


def _pmul(c, a, b):
    return num.mul(c.U, a, b)


def _lindblad(c, L):
    L = num.as_op(c.U, L)
    Ld = num.dag(L)
    LdL = num.mul(c.U, Ld, L)
    return _padd(c, num.mul(c.U, _spre(c, L), _spost(c, Ld)),
                 num.scale(-0.5, _spre(c, LdL)),
                 num.scale(-0.5, _spost(c, LdL)))


def _liouv(c, H, *Ls):
    r = num.sub(c.U, num.scale(-1j, _spre(c, H)), num.scale(-1j, _spost(c, H)))
    for L in Ls:
        r = num.add(c.U, r, _lindblad(c, L))
    return r


node('spre', lambda c, a: SPre.create(a), _spre)
node('spost', lambda c, a: SPost.create(a), _spost)
node('padd', lambda c, a, b: a + b, lambda c, a, b: _padd(c, a, b))
node('psub', lambda c, a, b: a - b, lambda c, a, b: _padd(c, a, num.neg(b)))
node('pneg', lambda c, a: -a, lambda c, a: num.neg(a))
node('pmul', lambda c, a, b: a * b, _pmul)
node('pscl', lambda c, s, a: s * a, lambda c, s, a: num.scale(s.a, a))
node('pscr', lambda c, a, s: a * s, lambda c, a, s: num.scale(s.a, a))
node('pdiv', lambda c, a, s: a / s, lambda c, a, s: num.scale(1 / s.a, a))
node('psct', lambda c, s, a: ScalarTimesSuperOperator.create(s, a),
     lambda c, s, a: num.scale(s.a, a))


def _ppow(c, a, n):
    if a.kind == 'S':
        return S(a.a ** n)
    return T('P', a.spaces, np.linalg.matrix_power(a.a, n))


node('ppow', lambda c, a, n: a ** n, _ppow)
node('pplus', lambda c, *a: SuperOperatorPlus.create(*a), _padd)
node('ptimes', lambda c, *a: SuperOperatorTimes.create(*a),
     lambda c, *a: _fold(c, num.mul, a))
node('padj', lambda c, a: a.adjoint(),
     lambda c, a: a if a.kind == 'S' else num.superadj(c.U, a))
node('pcomm', lambda c, a: commutator(a),
     lambda c, a: num.sub(c.U, _spre(c, a), _spost(c, a)))
node('panti', lambda c, a: anti_commutator(a),
     lambda c, a: num.add(c.U, _spre(c, a), _spost(c, a)))
node('plind', lambda c, a: lindblad(a), _lindblad)
node('pliou', lambda c, h, *ls: liouvillian(h, list(ls)), _liouv)
node('papp', lambda c, p, o: p * o, lambda c, p, o: num.mul(
    c.U, p, num.as_op(c.U, o) if p.kind == 'P' else o))
node('pappc', lambda c, p, o: SuperOperatorTimesOperator.create(p, o),
     lambda c, p, o: num.mul(
         c.U, p, num.as_op(c.U, o) if p.kind == 'P' else o))
node('comm2', lambda c, a, b: commutator(a, b), _comm)
node('anti2', lambda c, a, b: anti_commutator(a, b),
     lambda c, a, b: num.add(c.U, num.mul(c.U, a, b), num.mul(c.U, b, a)))


# ----------------------------------------------------------------------------
# Generators
# ----------------------------------------------------------------------------

_LABELS = ['q1', 'a', 'B', 'sys', 0, 1, 2, 10, 'tls', 'x1']


def random_spaces(rng, n=None, kinds=None, maxdim=12, fock=True, ctx=True):
    n = n or rng.choice([1, 2, 2, 3])
    labels = rng.sample(_LABELS, n)
    out = []
    tot = 1
    nf = 0
    for lb in labels:
        ks = kinds or ['basis', 'dim', 'spin', 'fock', 'fock']
        kind = rng.choice(ks)
        if kind == 'fock' and (not fock or nf):
            kind = 'dim'
        if kind == 'fock':
            nf += 1
            s = Spc(lb, 'fock')
            tot *= 4
        elif kind == 'basis':
            s = Spc(lb, 'basis', rng.choice(
                [['g', 'e'], ['e', 'g'], ['d', 'u'], ['0', '1'],
                 ['a', 'b', 'c']]))
            tot *= len(s.arg)
        elif kind == 'dim':
            s = Spc(lb, 'dim', rng.choice([2, 2, 3]))
            tot *= s.arg
        else:
            s = Spc(lb, 'spin', rng.choice([1, 1, 2, 3]))
            tot *= s.arg + 1
        if tot > maxdim and out:
            tot //= (s.dim or 4)
            if s.kind == 'fock':
                nf -= 1
            continue
        out.append(s)
    return Ctx(out)


class Gen:
    """Random recipe generator"""

    def __init__(self, rng, ctx, symargs=0.12, unitary=True,
                 opsyms=('A', 'B', 'C'), maxpow=3, pinv=False,
                 scal_syms=None, dagger_forms=True, squeeze=True):
        self.rng = rng
        self.ctx = ctx
        self.p_symargs = symargs
        self.unitary = unitary
        self.opsyms = opsyms
        self.scal_syms = scal_syms or [
            ('x', 'r'), ('y', 'r'), ('p', 'p'), ('kappa', 'p'),
            ('alpha', 'c'), ('beta', 'c')]
        self.maxpow = maxpow
        self.squeeze = squeeze

    # scalars
    def number(self, nonzero=False):
        r = self.rng
        k = r.choice(['int', 'int', 'int', 'float', 'complex', 'rat', 'symI',
                      'np', 'npc', 'npi'])
        a = r.choice([-2, -1, 0, 1, 2, 3]) if k in (
            'int', 'npi') else r.choice([-1.5, -0.5, 0.25, 0.5, 2.0])
        if k in ('int', 'npi'):
            if nonzero and a == 0:
                a = 2
            return ['num', k, a]
        if k == 'rat':
            return ['num', k, r.choice([-3, -1, 1, 2, 3]), r.choice([2, 4])]
        if k == 'symI':
            return ['num', k, r.choice([0, 1, -1, 2]), r.choice([1, -1, 2])]
        if k in ('complex', 'npc'):
            return ['num', k, a, r.choice([-1.0, 0.5, 1.0])]
        return ['num', k, a]

    def sym(self, kinds='rpc'):
        cands = [s for s in self.scal_syms if s[1] in kinds]
        return ['sym'] + list(self.rng.choice(cands))

    def native(self, depth=1, nonzero=False):
        """native number or sympy expression"""
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.35:
            return self.number(nonzero) if r.random() < 0.5 else self.sym()
        if x < 0.55:
            return ['nmul', self.native(depth-1, nonzero),
                    self.native(depth-1, nonzero)]
        if x < 0.65 and not nonzero:
            return ['nadd', self.native(depth-1), self.native(depth-1)]
        if x < 0.72:
            return ['npow', self.sym(), r.choice([2, 3, -1])]
        if x < 0.80:
            return ['nexp', self.sym('rp')]
        if x < 0.86:
            return ['nsqrt', self.sym('p')]
        if x < 0.93:
            return ['nconj', self.sym()]
        return self.sym() if nonzero else ['nsin', self.sym('rp')]

    def scalar(self, depth=1, nonzero=False, qnet_scalar=False):
        r = self.rng
        x = r.random()
        if qnet_scalar or x < 0.25:
            return ['sval', self.native(depth, nonzero)]
        if x < 0.35 and not nonzero and depth > 0 and self.ctx.keys:
            ks = self.pick_spaces(1)
            return ['braket', self.ket(ks, depth - 1), self.ket(ks, depth-1)]
        return self.native(depth, nonzero)

    def small_amp(self):
        """amplitude for displacement (small, possibly symbolic)"""
        r = self.rng
        return r.choice([
            ['num', 'float', r.choice([0.1, -0.2, 0.3])],
            ['num', 'complex', 0.1, 0.2],
            ['nmul', ['num', 'float', 0.25], self.sym()],
            ['nmul', ['num', 'symI', 0, 1],
             ['nmul', ['num', 'float', 0.2], self.sym('rp')]],
            ['num', 'rat', 1, 4],
        ])

    # spaces
    def pick_spaces(self, n=None, keys=None):
        keys = keys or self.ctx.keys
        n = n or self.rng.randint(1, len(keys))
        return sorted(self.rng.sample(keys, min(n, len(keys))))

    # operators
    def op_leaf(self, keys):
        r = self.rng
        x = r.random()
        if x < 0.06:
            return ['oI']
        if x < 0.08:
            return ['o0']
        if x < 0.38:
            ks = self.pick_spaces(
                r.choice([1, 1, 1, 2]), keys)
            args = []
            if r.random() < self.p_symargs:
                args = [self.native(0) for _ in range(r.choice([1, 1, 2]))]
            return ['osym', r.choice(self.opsyms), ks] + args
        key = r.choice(keys)
        spc = self.ctx.spaces[key]
        if spc.kind == 'fock':
            y = r.random()
            if y < 0.3:
                return ['destroy', key]
            if y < 0.6:
                return ['create', key]
            if y < 0.72:
                return ['phase', key, self.real_native()]
            if y < 0.80 and self.unitary:
                return ['displace', key, self.small_amp()]
            if y < 0.83 and self.unitary and self.squeeze:
                return ['squeeze', key, ['nmul', ['num', 'float', 0.1],
                                         self.sym()]]
            if y < 0.9:
                i = r.randrange(W)
                return ['proj', key, i, False]
            return ['sigma', key, r.randrange(W), r.randrange(W), False]
        n = spc.dim
        lab = r.random() < 0.5
        if spc.kind in ('spin', 'spinb') and r.random() < 0.55:
            return [r.choice(['jz', 'jp', 'jm']), key]
        y = r.random()
        if y < 0.25 and spc.kind not in ('spin', 'spinb'):
            w = r.choice(['paulix', 'pauliy', 'pauliz'])
            if n > 2 and r.random() < 0.5:
                return [w, key] + r.sample(range(n), 2)
            if n == 2 or r.random() < 0.5:
                return [w, key]
        if y < 0.4:
            return ['proj', key, r.randrange(n), lab]
        if y < 0.5 and spc.kind in ('basis', 'dim'):
            return ['phase', key, self.real_native()]
        return ['sigma', key, r.randrange(n), r.randrange(n), lab]

    def real_native(self):
        r = self.rng
        return r.choice([self.sym('rp'), ['num', 'float', 0.7],
                         ['nmul', ['num', 'int', 2], self.sym('rp')],
                         ['num', 'rat', 1, 2]])

    def op(self, depth, keys=None, states=True):
        r = self.rng
        keys = keys or self.ctx.keys
        if depth <= 0 or r.random() < 0.12:
            return self.op_leaf(keys)
        x = r.random()
        d = depth - 1
        if x < 0.16:
            return [r.choice(['oadd', 'oadd', 'osub']), self.op(d, keys),
                    self.op(d, keys)]
        if x < 0.24:
            return ['oplus'] + [self.op(d, keys)
                                for _ in range(r.randint(2, 4))]
        if x < 0.48:
            return ['omul', self.op(d, keys), self.op(d, keys)]
        if x < 0.56:
            return ['otimes'] + [self.op(d - 1, keys)
                                 for _ in range(r.randint(2, 4))]
        if x < 0.70:
            f = r.choice(['oscl', 'oscr', 'osct', 'odiv', 'oneg'])
            if f == 'oneg':
                return ['oneg', self.op(d, keys)]
            if f in ('oscl', 'osct'):
                return [f, self.scalar(1), self.op(d, keys)]
            return [f, self.op(d, keys), self.scalar(1, nonzero=f == 'odiv')]
        if x < 0.75:
            return ['opow', self.op(min(d, 1), keys),
                    r.randint(0, self.maxpow)]
        if x < 0.82:
            return [r.choice(['odag', 'odag', 'oadjoint']), self.op(d, keys)]
        if x < 0.90:
            return ['ocomm', self.op(d, keys), self.op(d, keys)]
        if x < 0.92:
            return ['opmcc', self.op(d, keys), r.choice([1, -1])]
        if states:
            ks = self.pick_spaces(None, keys)
            if r.random() < 0.5:
                return ['ketbra', self.ket(ks, d), self.ket(ks, d)]
            return ['kettimesbra', self.ket(ks, d), self.bra(ks, d)]
        return self.op_leaf(keys)

    # states
    def ket_leaf(self, ks):
        r = self.rng
        if len(ks) == 0:
            return ['ktriv']
        if len(ks) > 1:
            if r.random() < 0.35:
                return ['ksym', r.choice(['Psi', 'Phi', 'Chi']), list(ks)]
            return ['ktensor'] + [self.ket_leaf([k])
                                  for k in r.sample(list(ks), len(ks))]
        key = ks[0]
        spc = self.ctx.spaces[key]
        x = r.random()
        if x < 0.35:
            args = []
            if r.random() < self.p_symargs:
                args = [self.native(0)]
            return ['ksym', r.choice(['Psi', 'Phi', 'Chi']), [key]] + args
        if spc.kind == 'fock':
            if x < 0.5 and self.unitary:
                return ['coherent', key, self.small_amp()]
            return ['kbasis', key, r.randrange(W), False]
        return ['kbasis', key, r.randrange(spc.dim), r.random() < 0.5]

    def ket(self, ks, depth):
        r = self.rng
        ks = list(ks)
        if depth <= 0 or r.random() < 0.15:
            return self.ket_leaf(ks)
        d = depth - 1
        x = r.random()
        if x < 0.04:
            return ['kadd', ['k0'], self.ket(ks, d)]
        if x < 0.06:
            return ['kmul', ['ktriv'], self.ket(ks, d)]
        if x < 0.22:
            return [r.choice(['kadd', 'ksub']), self.ket(ks, d),
                    self.ket(ks, d)]
        if x < 0.30:
            return ['kplus'] + [self.ket(ks, d)
                                for _ in range(r.randint(2, 3))]
        if x < 0.48:
            f = r.choice(['kscl', 'kscr', 'kdiv', 'ksct', 'kneg'])
            if f == 'kneg':
                return [f, self.ket(ks, d)]
            if f in ('kscl', 'ksct'):
                return [f, self.scalar(1), self.ket(ks, d)]
            return [f, self.ket(ks, d), self.scalar(1, nonzero=f == 'kdiv')]
        if x < 0.72 and len(ks) > 1:
            n = r.randint(1, len(ks) - 1)
            a = sorted(r.sample(ks, n))
            b = [k for k in ks if k not in a]
            return ['kmul', self.ket(a, d), self.ket(b, d)]
        if x < 0.96:
            return [r.choice(['kapp', 'kapp', 'kappc']),
                    self.op(d, ks), self.ket(ks, d)]
        return ['ket', self.bra(ks, d)]

    def bra(self, ks, depth):
        r = self.rng
        ks = list(ks)
        if depth <= 0 or r.random() < 0.4:
            return [r.choice(['bra', 'bra', 'brac']), self.ket(ks, depth)]
        d = depth - 1
        x = r.random()
        if x < 0.3:
            return [r.choice(['badd', 'bsub']), self.bra(ks, d),
                    self.bra(ks, d)]
        if x < 0.55:
            f = r.choice(['bscl', 'bscr', 'bdiv'])
            if f == 'bscl':
                return [f, self.scalar(1), self.bra(ks, d)]
            return [f, self.bra(ks, d), self.scalar(1, nonzero=f == 'bdiv')]
        if x < 0.75 and len(ks) > 1:
            n = r.randint(1, len(ks) - 1)
            a = sorted(r.sample(ks, n))
            b = [k for k in ks if k not in a]
            return ['bmul', self.bra(a, d), self.bra(b, d)]
        return ['bapp', self.bra(ks, d), self.op(d, ks)]

    # superoperators
    def sop(self, depth, keys=None):
        r = self.rng
        keys = keys or self.ctx.keys
        if depth <= 0 or r.random() < 0.1:
            x = r.random()
            if x < 0.05:
                return ['pI']
            if x < 0.07:
                return ['p0']
            if x < 0.3:
                args = []
                if r.random() < self.p_symargs:
                    args = [self.native(0)]
                return ['psym', r.choice(['L', 'M']),
                        self.pick_spaces(r.choice([1, 1, 2]), keys)] + args
            return [r.choice(['spre', 'spost']), self.op(1, keys)]
        d = depth - 1
        x = r.random()
        if x < 0.2:
            return [r.choice(['padd', 'psub']), self.sop(d, keys),
                    self.sop(d, keys)]
        if x < 0.26:
            return ['pplus'] + [self.sop(d, keys)
                                for _ in range(r.randint(2, 4))]
        if x < 0.46:
            return ['pmul', self.sop(d, keys), self.sop(d, keys)]
        if x < 0.52:
            return ['ptimes'] + [self.sop(d - 1, keys)
                                 for _ in range(r.randint(2, 4))]
        if x < 0.66:
            f = r.choice(['pscl', 'pscr', 'pdiv', 'psct', 'pneg'])
            if f == 'pneg':
                return [f, self.sop(d, keys)]
            if f in ('pscl', 'psct'):
                return [f, self.scalar(1), self.sop(d, keys)]
            return [f, self.sop(d, keys), self.scalar(1, nonzero=f == 'pdiv')]
        if x < 0.70:
            return ['ppow', self.sop(min(d, 1), keys), r.randint(0, 3)]
        if x < 0.76:
            return ['padj', self.sop(d, keys)]
        if x < 0.82:
            return [r.choice(['pcomm', 'panti']), self.op(d, keys)]
        if x < 0.90:
            return ['plind', self.op(min(d, 1), keys)]
        if x < 0.96:
            return ['pliou', self.op(min(d, 1), keys)] + [
                self.op(1, keys) for _ in range(r.randint(0, 2))]
        return [r.choice(['spre', 'spost']), self.op(d, keys)]

    def sop_app(self, depth, keys=None):
        return [self.rng.choice(['papp', 'papp', 'pappc']),
                self.sop(depth, keys), self.op(depth, keys)]

    def ket_or_bra_or_braket(self, depth):
        r = self.rng
        ks = self.pick_spaces()
        x = r.random()
        if x < 0.5:
            return self.ket(ks, depth)
        if x < 0.65:
            return self.bra(ks, depth)
        if x < 0.75:
            return ['braket', self.ket(ks, depth - 1), self.ket(ks, depth-1)]
        if x < 0.9:
            return ['bradotket', self.bra(ks, depth-1),
                    self.ket(ks, depth-1)]
        if x < 0.95:
            return ['kettimesbra', self.ket(ks, depth-1),
                    self.bra(ks, depth-1)]
        return ['ketbra', self.ket(ks, depth-1), self.ket(ks, depth-1)]

    def sop_or_app(self, depth):
        if self.rng.random() < 0.5:
            return self.sop(depth)
        return self.sop_app(depth)
