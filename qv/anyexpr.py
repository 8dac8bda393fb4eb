"""Random expressions of every algebra"""
import numpy as np
import sympy
import qnet
from qnet import Matrix, QuantumDerivative
from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.exceptions import AlgebraError

from . import recipes as R
from . import num
from . import slh
from .num import S
from .sums import SumGen, set_env, sum_ctx, sym as idxsym
from .runner import Skip

KINDS = ('op', 'op', 'ket', 'bra', 'braket', 'sop', 'sopapp', 'scalar',
         'trace', 'sumop', 'sumstate', 'sumscal', 'circuit', 'circuit',
         'matrix', 'deriv', 'space', 'commcc')
TENSOR = ('op', 'ket', 'bra', 'braket', 'sop', 'sopapp', 'scalar', 'trace',
          'sumop', 'sumstate', 'sumscal', 'deriv', 'commcc')


class NoFloat:
    """mixin: exact numbers only"""

    def number(self, nonzero=False):
        r = self.rng
        k = r.choice(['int', 'int', 'int', 'rat', 'symI', 'npi'][
            :getattr(self, 'nkinds', 6)])
        a = r.choice([-2, -1, 0, 1, 2, 3])
        if k in ('int', 'npi'):
            if nonzero and a == 0:
                a = 2
            return ['num', k, a]
        if k == 'rat':
            return ['num', k, r.choice([-3, -1, 1, 2, 3]), r.choice([2, 4])]
        return ['num', k, r.choice([0, 1, -1, 2]), r.choice([1, -1, 2])]

    def small_amp(self):
        return self.rng.choice([
            ['num', 'rat', 1, 4], ['nmul', ['num', 'rat', 1, 4], self.sym()],
            ['nmul', ['num', 'rat', 1, 2], ['num', 'symI', 0, 1]], self.sym()])

    def real_native(self):
        return self.rng.choice([
            self.sym('rp'), ['nmul', ['num', 'int', 2], self.sym('rp')],
            ['num', 'rat', 1, 2]])


class XGen(NoFloat, R.Gen):
    pass


class XSumGen(NoFloat, SumGen):
    pass


class XCGen(slh.CGen):
    def real(self):
        r = self.rng
        return r.choice([['num', 'rat', 1, 3], ['sym', 'phi', 'r'],
                         ['sym', 'g', 'r'], ['num', 'int', 2],
                         ['nmul', ['num', 'int', 2], ['sym', 'phi', 'r']],
                         ['nadd', ['sym', 'phi', 'r'], ['sym', 'g', 'r']]])

    def amp(self):
        return self.rng.choice([
            ['sym', 'alpha', 'c'], ['num', 'int', 2], ['num', 'symI', 0, 1],
            ['nmul', ['num', 'int', 2], ['sym', 'alpha', 'c']]])


class AnyExpr:
    def __init__(self, kind, ctx, recipe, build, ref=None):
        self.kind, self.ctx, self.recipe = kind, ctx, recipe
        self._build, self._ref = build, ref
        self.has_ref = ref is not None
        self.symbol = None

    def build(self):
        """a fresh evaluation of the program"""
        return self._build()

    def ref(self):
        return self._ref()

    def info(self):
        return dict(kind=self.kind, spaces=self.ctx.to_json() if self.ctx
                    else None, recipe=self.recipe)


def _wrap(q):
    """native numbers are not expressions"""
    if isinstance(q, Expression) or isinstance(q, Matrix) or \
            isinstance(q, qnet.HilbertSpace if hasattr(qnet, 'HilbertSpace')
                       else ()):
        return q
    if isinstance(q, (int, float, complex, np.number, sympy.Basic)):
        return qnet.ScalarValue.create(q)
    return q


def any_expr(rng, kinds=KINDS, depth=None, exact=True, maxdim=6, fock=True,
             unitary=True, symargs=0.2, opsyms=('A', 'B', 'C'), nkinds=6):
    kind = rng.choice(kinds)
    d = depth if depth is not None else rng.choice([0, 1, 1, 2, 2, 3])
    G = XGen if exact else R.Gen
    kw = dict(symargs=symargs, unitary=unitary, opsyms=opsyms)
    if kind in ('sumop', 'sumstate', 'sumscal'):
        ctx = sum_ctx(rng, fock=fock)
        set_env(ctx)
        g = (XSumGen if exact else SumGen)(rng, ctx)
        g.nkinds = nkinds
        for _ in range(6):
            g.nsums = 0
            if kind == 'sumop':
                r = g.op(min(d, 2))
            elif kind == 'sumstate':
                ks = g.pick_spaces()
                r = (g.ket if rng.random() < .7 else
                     lambda k, d: g.bra(k, d))(ks, min(d, 2))
            else:
                r = g.scal(min(d, 2))
            if g.nsums:
                break
        else:
            if kind == 'sumop':
                r = g.summed(lambda: g.op(min(d, 2)))
        return _tensor(kind, ctx, r)
    if kind == 'circuit':
        ctx = R.random_spaces(rng, n=rng.choice([1, 1, 2]), fock=False,
                              maxdim=4)
        ctx.fit(1, False)
        g = G(rng, ctx, **dict(kw, unitary=False))
        g.nkinds = nkinds
        cg = (XCGen if exact else slh.CGen)(
            rng, g, slh=rng.random() < .35, components=rng.random() < .5)
        r = cg.circ(rng.choice([1, 2, 2, 3, 3]), min(d, 3))

        def build():
            try:
                return slh.build(ctx, r)
            except AlgebraError as e:
                if 'Inversion not implemented' in str(e):
                    raise Skip("feedback through an operator")
                raise
        return AnyExpr(kind, ctx, r, build)
    if kind == 'space':
        from .props import c01
        labels = ['a', 'b', 'q1', 'tls']
        n = rng.randint(1, 3)
        sp = [c01.spec(rng, labels) for _ in range(n)]
        seen = {}
        for lb, k in sp:
            seen.setdefault(lb, k)

        def build():
            return qnet.ProductSpace.create(
                *[c01.mk(lb, k) for lb, k in seen.items()])
        return AnyExpr(kind, None, list(seen.items()), build)
    ctx = R.random_spaces(rng, fock=fock and kind not in (
        'sop', 'sopapp', 'trace'), maxdim=maxdim)
    g = G(rng, ctx, **kw)
    g.nkinds = nkinds
    if kind == 'op':
        r = g.op(d)
    elif kind == 'ket':
        r = g.ket(g.pick_spaces(), d)
    elif kind == 'bra':
        r = g.bra(g.pick_spaces(), d)
    elif kind == 'braket':
        ks = g.pick_spaces()
        r = rng.choice(['braket', 'bradotket'])
        r = [r, g.ket(ks, d - 1) if r == 'braket' else g.bra(ks, d - 1),
             g.ket(ks, d - 1)]
        if rng.random() < .3:
            r = ['spow', r, rng.choice([2, 3])]
        if rng.random() < .3:
            r = [rng.choice(['sadd', 'smul']), r, g.scalar(1)]
        if rng.random() < .2:
            r = ['oscl', r, g.op(min(d, 1))]
    elif kind == 'sop':
        r = g.sop(max(d - 1, 0))
    elif kind == 'sopapp':
        r = g.sop_app(max(d - 1, 0))
    elif kind == 'scalar':
        r = g.scalar(d, qnet_scalar=rng.random() < .3)
        for _ in range(rng.choice([0, 0, 1, 2])):
            r = [rng.choice(['sadd', 'smul', 'ssub']), ['sval', r]
                 if r[0] in ('num', 'sym') or (
                     r[0].startswith('n') and len(r[0]) > 2) else r,
                 g.scalar(min(d, 1))]
    elif kind == 'trace':
        r = ['otrace', g.op(d), g.pick_spaces()]
    elif kind == 'commcc':
        ks = g.pick_spaces()
        x = rng.random()
        if x < .5:
            r = ['ocomm', g.op(min(d, 1), ks), g.op(min(d, 1), ks)]
        elif x < .75:
            r = ['opmcc', ['oscl', g.scalar(1), g.op(min(d, 1), ks)],
                 rng.choice([1, -1])]
        else:
            r = ['onull', g.op(min(d, 1), ks)]
    elif kind == 'matrix':
        n, m = rng.randint(1, 3), rng.randint(1, 3)
        r = ['mat', [[(g.op(min(d, 2)) if rng.random() < .6 else
                       g.scalar(1)) for _ in range(m)] for _ in range(n)]]
        return AnyExpr(kind, ctx, r, lambda: Matrix(
            [[R.build(ctx, e) for e in row] for row in r[1]]))
    elif kind == 'deriv':
        from .props import a12
        k = rng.choice(['op', 'op', 'ket', 'sop', 'scalar'])
        if k == 'sop':
            ctx = R.random_spaces(rng, fock=False, maxdim=6)
        xr = a12.choose_x(rng)
        g = G(rng, ctx, symargs=.5, unitary=unitary)
        g.nkinds = nkinds
        d = min(d, 2)
        if k == 'op':
            r = g.op(d)
        elif k == 'ket':
            r = g.ket(g.pick_spaces(), d)
        elif k == 'sop':
            r = g.sop_app(max(d - 1, 0))
        else:
            r = ['sval', g.scalar(d)]
        r = a12.put(rng, r, xr, g)
        n = rng.choice([1, 1, 2])
        x = R._sym(xr[1], xr[2])
        how = rng.choice(['diff', 'create', 'vals'])
        v0 = rng.choice([0, 1, sympy.Rational(1, 2), sympy.Symbol('x_0')])

        def build():
            q = _wrap(R.build(ctx, r))
            cls = getattr(q, '_derivative_cls', None)
            if how == 'diff' or k == 'sop' or cls is None:
                return q.diff(x, n)
            if how == 'create' or x not in q.free_symbols:
                return cls.create(q, derivs={x: n})
            try:
                return cls.create(q, derivs={x: n}, vals={x: v0})
            except ValueError as e:
                if 'Invalid value' in str(e):
                    raise Skip("derivative at a pole")
                raise
        return AnyExpr(kind, ctx, ['deriv', how, xr, n, str(v0), r], build)
    else:
        raise ValueError(kind)
    return _tensor(kind, ctx, r)


def _tensor(kind, ctx, r):
    def ref():
        return R.val(ctx, r)
    return AnyExpr(kind, ctx, r, lambda: _wrap(R.build(ctx, r)), ref)


def fits(case, ae, maxw=10):
    """adapt the truncated model to the program; Skip if too large"""
    if ae.kind not in TENSOR or ae.ctx is None:
        return False
    r = ae.recipe[-1] if ae.kind == 'deriv' else ae.recipe
    w = R.weight(r)
    u = R.uses_unitary(r)
    if w > (4 if u else maxw):
        return False
    ae.ctx.fit(w, u)
    if ae.kind.startswith('sum'):
        set_env(ae.ctx)
    return True


def subexprs(e, acc=None, seen=None):
    """all subexpressions (each once), including those in kwargs and in
    the entries of SLH matrices"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(e, Matrix):
        for x in e.matrix.ravel():
            subexprs(x, acc, seen)
        return acc
    if isinstance(e, (tuple, list)):
        for x in e:
            subexprs(x, acc, seen)
        return acc
    if isinstance(e, dict):
        for k, v in e.items():
            subexprs(v, acc, seen)
        return acc
    if not isinstance(e, Expression):
        return acc
    if id(e) in seen:
        return acc
    seen.add(id(e))
    acc.append(e)
    for a in e.args:
        subexprs(a, acc, seen)
    for v in e.kwargs.values():
        subexprs(v, acc, seen)
    return acc
