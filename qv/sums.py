"""Random programs with indexed sums (used by A09 and others)"""
import cmath
import numpy as np
import sympy

from qnet import (
    IdxSym, FockIndex, FockLabel, IntIndex, SpinIndex, StrLabel, Sum,
    IndexOverList, IndexOverRange, IndexOverFockSpace, BasisKet, LocalSigma,
    OperatorSymbol, KetSymbol)
from qnet.algebra.core.indexed_operations import IndexedSum
from qnet.algebra.core.scalar_algebra import ScalarIndexedSum

from . import recipes as R
from . import num
from .num import T, S
from .symeval import indexed_value, index_name

class _Capture:
    """Notices when ScalarIndexedSum multiplies a scalar that has a free index
    of the name of the sum's own index (known finding A09-scalar-sum-capture:
    the product's ranges bind the wrong index)"""

    def __init__(self):
        self.seen = 0
        for name in ('__mul__', '__rmul__'):
            self.wrap(name)

    def wrap(self, name):
        orig = getattr(ScalarIndexedSum, name)

        def method(s, other):
            free = getattr(other, 'free_symbols', ())
            if set(s.variables) & set(free):
                self.seen += 1
            return orig(s, other)
        setattr(ScalarIndexedSum, name, method)


capture = _Capture()
NAMES = ['i', 'j', 'k', 'l', 'n']
FREE_VALUE = 1


def sym(name):
    return IdxSym(name)


def set_env(ctx):
    for n in NAMES:
        ctx.den.env[sym(n)] = FREE_VALUE


def _ix(ctx, name):
    return int(ctx.den.env[sym(name)])


def range_vals(ctx, r):
    name, kind = r[0], r[1]
    if kind == 'list':
        return list(r[2])
    if kind == 'range':
        a, b, s = r[2:]
        return list(range(a, b + (1 if s > 0 else -1), s))
    return list(range(ctx.dim(r[2])))


def range_obj(ctx, r):
    name, kind = r[0], r[1]
    if kind == 'list':
        return IndexOverList(sym(name), tuple(r[2]))
    if kind == 'range':
        return IndexOverRange(sym(name), r[2], r[3], r[4])
    return IndexOverFockSpace(sym(name), ctx.hs(r[2]))


def _sum_build(ctx, ranges, how, body):
    if how == 'create':
        b = body
        if isinstance(b, sympy.Basic) or isinstance(
                b, (int, float, complex, np.number)):
            b = R.ScalarValue.create(b)
        return b._indexed_sum_cls.create(
            b, *[range_obj(ctx, r) for r in ranges])
    for r in reversed(ranges):
        name, kind = r[0], r[1]
        if kind == 'list':
            s = Sum(sym(name), list(r[2]) if how == 'Sum' else tuple(r[2]))
        elif kind == 'range':
            if r[4] == 1:
                s = Sum(sym(name), r[2], r[3])
            else:
                s = Sum(sym(name), r[2], r[3], step=r[4])
        else:
            s = Sum(sym(name), hs=ctx.hs(r[2]))
        body = s(body)
    return body


def _sum_val(ctx, ranges, how, body):
    """lazy: `body` is still a recipe"""
    env = ctx.den.env
    acc = [None]

    def rec(k):
        if k == len(ranges):
            v = R.val(ctx, body) if R.is_recipe(body) else S(body)
            acc[0] = v if acc[0] is None else num.add(ctx.U, acc[0], v)
            return
        s = sym(ranges[k][0])
        saved = env.get(s)
        for x in range_vals(ctx, ranges[k]):
            env[s] = x
            rec(k + 1)
        env[s] = saved
    rec(0)
    return acc[0]


R.node('xsum', _sum_build, _sum_val, 0)
R.LAZY.add('xsum')


# -- indexed leaves ----------------------------------------------------------
# index expression: [name, shift]

def _e(ix):
    return sym(ix[0]) + ix[1]


def _v(ctx, ix):
    return _ix(ctx, ix[0]) + ix[1]


def _label(ctx, key, ix, how):
    spc = ctx.spaces[key]
    e = _e(ix)
    if spc.kind == 'spin':
        return SpinIndex(e - sympy.Rational(spc.arg, 2), ctx.hs(key))
    if how == 'label' and spc.finite:
        return FockLabel(e, hs=ctx.hs(key))
    return FockIndex(e)


def _kvec(ctx, key, i):
    import numpy as np
    v = np.zeros(ctx.dim(key), dtype=complex)
    if 0 <= i < len(v):
        v[i] = 1
    return T('K', (key,), v)


R.node('ikb', lambda c, k, ix, how: BasisKet.create(
        _label(c, k, ix, how), hs=c.hs(k)),
       lambda c, k, ix, how: _kvec(c, k, _v(c, ix)), 0)
# one symbolic, one fixed label
R.node('isg', lambda c, k, ix, jx, how: LocalSigma.create(
        *[_label(c, k, x, how) if isinstance(x, list) else
          R._lab(c, k, x, how == 'label') for x in (ix, jx)], hs=c.hs(k)),
       lambda c, k, ix, jx, how: _isg(c, k, ix, jx), 0)


def _isg(c, k, ix, jx):
    a, b = [_v(c, x) if isinstance(x, list) else x for x in (ix, jx)]
    x, y = _kvec(c, k, a), _kvec(c, k, b)
    return num.mul(c.U, x, num.dag(y))


def _slabel(name, ixs):
    return StrLabel(sympy.IndexedBase(name)[tuple(_e(x) for x in ixs)])


def _sname(c, name, ixs):
    return index_name(name, [_v(c, x) for x in ixs])


R.node('iosy', lambda c, name, ks, *ixs: OperatorSymbol(
        _slabel(name, ixs), hs=c.hs(ks)),
       lambda c, name, ks, *ixs: c.den.symbol_value(
           'O', _sname(c, name, ixs), tuple(sorted(ks))))
R.node('iksy', lambda c, name, ks, *ixs: KetSymbol(
        _slabel(name, ixs), hs=c.hs(ks)),
       lambda c, name, ks, *ixs: c.den.symbol_value(
           'K', _sname(c, name, ixs), tuple(sorted(ks))))
R.node('ialp', lambda c, name, *ixs: sympy.IndexedBase(name)[
        tuple(_e(x) for x in ixs)],
       lambda c, name, *ixs: S(indexed_value(
           name, [_v(c, x) for x in ixs])))
R.node('idx', lambda c, ix: _e(ix), lambda c, ix: S(_v(c, ix)), 0)
R.node('ipow', lambda c, a, ix: sympy.sympify(a) ** _e(ix),
       lambda c, a, ix: S(a.a ** _v(c, ix)), 0)
R.node('isqrt', lambda c, ix: sympy.sqrt(_e(ix) + 1),
       lambda c, ix: S(cmath.sqrt(_v(c, ix) + 1)), 0)
R.node('idel', lambda c, ix, jx: sympy.KroneckerDelta(
        *[_e(x) if isinstance(x, list) else x for x in (ix, jx)]),
       lambda c, ix, jx: S(1.0 if (
           _v(c, ix) == (_v(c, jx) if isinstance(jx, list) else jx))
           else 0.0), 0)


def sum_ctx(rng, fock=True, finite=True):
    """spaces for sums: all spaces have the same dimension"""
    x = rng.random()
    if fock and (x < 0.25 or not finite):
        return R.random_spaces(rng, n=1, kinds=['fock'])
    labels = rng.sample(R._LABELS, rng.choice([1, 1, 2]))
    if fock and x < 0.35 and len(labels) == 2:
        return R.Ctx([R.Spc(labels[0], 'fock'), R.Spc(labels[1], 'spin', 3)])
    n = rng.choice([2, 2, 3]) if len(labels) == 2 else rng.choice([2, 3, 4])
    out = []
    for lb in labels:
        k = rng.choice(['basis', 'dim', 'spin'])
        if k == 'basis':
            s = R.Spc(lb, k, rng.choice({
                2: [['g', 'e'], ['0', '1'], ['d', 'u']], 3: [['a', 'b', 'c']],
                4: [['a', 'b', 'c', 'd']]}[n]))
        elif k == 'dim':
            s = R.Spc(lb, k, n)
        else:
            s = R.Spc(lb, k, n - 1)
        out.append(s)
    return R.Ctx(out)


class SumGen(R.Gen):
    """Generator of programs with indexed sums.

    All indices of one program run over the same values (QNET resolves
    Kronecker deltas under that assumption).
    """

    def __init__(self, rng, ctx, shift=False, ranges=None, psum=0.25,
                 pleaf=0.6, deltas=True, **kw):
        super().__init__(rng, ctx, unitary=False, **kw)
        self.shift = shift
        self.psum = psum
        self.pleaf = pleaf
        self.deltas = deltas
        self.scope = []
        self.nsums = 0
        finite = ctx.finite()
        self.base = finite[0] if finite else ctx.keys[0]
        m = self.mind = ctx.spaces[self.base].dim or R.W
        # all indices must run over all basis states that can occur
        if ctx.fock():
            self.kind = ranges or rng.choice(['list', 'range'] + (
                [] if finite else 3 * ['fock']))
            self.base = ctx.fock()[0]
        else:
            self.kind = ranges or rng.choice(['list', 'range', 'fock', 'fock'])
        # no definite basis states, no ladder operators
        self.plain = bool(ctx.fock()) and self.kind != 'fock'
        if self.kind == 'list':
            self.rvals = list(range(m))
            rng.shuffle(self.rvals)
        else:
            self.rvals = rng.choice([(0, m - 1, 1), (0, m - 1, 1),
                                     (m - 1, 0, -1)])
        if self.plain and rng.random() < .5:
            if self.kind == 'list':
                self.rvals = rng.choice([[1], [1, 0], [2, 1, 0]])
            else:
                self.rvals = rng.choice([(0, 2, 1), (1, 1, 1), (1, 3, 2),
                                         (2, 0, -1), (3, 1, -2)])

    def a_range(self, name):
        if self.kind == 'fock':
            return [name, 'fock', self.base if self.ctx.fock() else
                    self.rng.choice(self.ctx.keys)]
        if self.kind == 'list':
            return [name, 'list', list(self.rvals)]
        return [name, 'range'] + list(self.rvals)

    def index(self, shift=None):
        r = self.rng
        if self.scope and r.random() < 0.75:
            n = r.choice(self.scope)
        else:
            n = r.choice(NAMES[:3])
        s = 0
        if (self.shift if shift is None else shift) and r.random() < 0.3:
            s = 1
        return [n, s]

    def summed(self, gen):
        """a sum over what `gen()` generates"""
        r = self.rng
        n = r.choice([1, 1, 1, 2])
        names = r.sample(NAMES[:3], n)
        if r.random() < 0.12:
            names[-1] = NAMES[3]
        ranges = [self.a_range(x) for x in names]
        self.scope.extend(names)
        self.nsums += 1
        body = gen()
        del self.scope[-len(names):]
        how = r.choice(['Sum', 'Sum', 'Sumt', 'create'])
        return ['xsum', ranges, how, body]

    def want_sum(self):
        return self.nsums < 3 and self.rng.random() < self.psum

    # scalars
    def native(self, depth=1, nonzero=False):
        r = self.rng
        if self.scope and r.random() < self.pleaf and not nonzero:
            return self.index_scalar()
        if nonzero:
            return super().number(True)
        return super().native(min(depth, 1), nonzero)

    def index_scalar(self):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return ['ialp', r.choice(['c', 'd']), self.index(True)]
        if x < 0.5:
            return ['ialp', 'c', self.index(False), self.index(False)]
        if x < 0.6:
            return ['idx', self.index(True)]
        if x < 0.7:
            return ['isqrt', self.index(False)]
        if x < 0.8:
            return ['ipow', self.sym(), self.index(False)]
        if x < 0.92 and self.deltas:
            if r.random() < 0.15 and not self.plain:
                return ['idel', self.index(False), FREE_VALUE]
            return ['idel', self.index(False), self.index(False)]
        return ['nmul', ['ialp', 'c', self.index(False)], self.sym()]

    def scalar(self, depth=1, nonzero=False, qnet_scalar=False):
        if not nonzero and depth >= 0 and self.want_sum():
            return self.summed(lambda: super(SumGen, self).scalar(
                max(depth, 1)))
        return super().scalar(depth, nonzero, qnet_scalar)

    def s_sum(self, depth):
        return self.summed(lambda: self.scal(depth))

    def scal(self, depth):
        """QNET scalar (with sums, products, brakets)"""
        r = self.rng
        if self.want_sum():
            return self.summed(lambda: self.scal(depth - 1))
        if depth <= 0 or r.random() < 0.2:
            return ['sval', self.native(1)]
        x = r.random()
        if x < 0.3:
            return ['stimes', self.scal(depth - 1), self.scal(depth - 1)]
        if x < 0.45:
            return ['smul', self.scal(depth - 1), self.scal(depth - 1)]
        if x < 0.6:
            return [r.choice(['sadd', 'splus']), self.scal(depth - 1),
                    self.scal(depth - 1)]
        if x < 0.7:
            return ['sconj', self.scal(depth - 1)]
        if x < 0.75:
            return ['spow', self.scal(depth - 1), 2]
        ks = self.pick_spaces()
        if x < 0.88:
            return ['braket', self.ket(ks, depth - 1), self.ket(ks, depth-1)]
        return ['bradotket', self.bra(ks, depth - 1), self.ket(ks, depth - 1)]

    # operators
    def op_leaf(self, keys):
        r = self.rng
        if r.random() < (self.pleaf if self.scope else 0.15):
            key = r.choice(list(keys))
            x = r.random()
            if x < 0.35:
                n = r.choice([1, 1, 2])
                return ['iosy', r.choice(['A', 'F']), self.pick_spaces(
                    r.choice([1, 1, 2]), keys)] + [
                        self.index(True) for _ in range(n)]
            how = r.choice(['index', 'label'])
            if x < 0.6:
                sh = self.shift and self.ctx.spaces[key].kind == 'fock'
                return ['isg', key, self.index(sh), self.index(sh), how]
            if x < 0.7 and not self.plain:
                fixed = r.randrange(self.mind)
                pr = [self.index(False), fixed]
                r.shuffle(pr)
                return ['isg', key] + pr + [how]
            return ['ketbra', self.ikb([key]), self.ikb([key])]
        for _ in range(20):
            x = super().op_leaf(keys)
            if not self.plain or x[0] == 'osym':
                break
        else:
            x = ['osym', 'A', self.pick_spaces(1, keys)]
        return x

    def ikb(self, ks):
        return ['ikb', ks[0], self.index(
            self.shift and self.ctx.spaces[ks[0]].kind == 'fock'),
            self.rng.choice(['index', 'label'])]

    def op(self, depth, keys=None, states=True):
        keys = keys or self.ctx.keys
        if self.want_sum():
            return self.summed(lambda: super(SumGen, self).op(
                depth, keys, states))
        return super().op(depth, keys, states)

    def ket_leaf(self, ks):
        r = self.rng
        if ks and r.random() < (self.pleaf if self.scope else 0.15):
            if len(ks) == 1 and r.random() < 0.7:
                return self.ikb(list(ks))
            return ['iksy', r.choice(['Psi', 'Chi']), list(ks),
                    self.index(True)]
        if self.plain and ks:
            return ['ksym', r.choice(['Psi', 'Phi']), list(ks)]
        return super().ket_leaf(ks)

    def ket(self, ks, depth):
        if ks and self.want_sum():
            return self.summed(lambda: super(SumGen, self).ket(ks, depth))
        return super().ket(ks, depth)

    def bra(self, ks, depth):
        if ks and self.want_sum() and self.rng.random() < .5:
            return self.summed(lambda: super(SumGen, self).bra(ks, depth))
        return super().bra(ks, depth)


def sums_in(q, acc=None):
    """all IndexedSum objects in the expression q"""
    acc = [] if acc is None else acc
    if isinstance(q, IndexedSum):
        acc.append(q)
    for a in getattr(q, 'args', ()):
        if hasattr(a, 'args') and not isinstance(a, sympy.Basic):
            sums_in(a, acc)
    return acc
