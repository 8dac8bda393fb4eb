"""A13: series expansion"""
from ..common import *
from .a12 import XGen, has, put, deriv
import math
import numpy as np

N_QUICK, N_THOROUGH = 3500, 40000
TIMEOUT = 60
RULE = ("random programs for operators, kets, bras, inner products, "
        "superoperators and their applications, partial traces, scalars and "
        "matrices depending on a real symbol x through symbol arguments and "
        "coefficients (polynomials, exp(i x), sin); .series_expand(x, about, "
        "order) for about in {0, numbers, another symbol} and order 0..3 is "
        "compared with the Taylor coefficients obtained by an 11-point "
        "finite-difference of the reference value; number and type of the "
        "items are checked; non-trivial: a coefficient beyond the first is "
        "not zero; distinct by program text, point and order")
REQUIRED = ['series of op', 'series of state', 'series of sop',
            'series of trace', 'series of scalar', 'series of matrix',
            'about 0', 'about number', 'about symbol', 'order 0', 'order 1',
            'order 2', 'order 3', 'higher coefficient']


class SGen(XGen):
    """scalars that are analytic in x everywhere"""

    def native(self, depth=1, nonzero=False):
        r = self.rng
        if depth <= 0 or r.random() < 0.3:
            return self.sym('rp') if r.random() < 0.6 else \
                self.number(nonzero)
        y = r.random()
        if nonzero:
            return self.number(True)
        if y < 0.3:
            return ['nadd', self.native(depth - 1), self.native(depth - 1)]
        if y < 0.6:
            return ['nmul', self.native(depth - 1), self.native(depth - 1)]
        if y < 0.75:
            return ['npow', self.native(depth - 1), r.randint(1, 3)]
        return [r.choice(['nexp', 'nsin']),
                self.sym('rp')]

    def scalar(self, depth=1, nonzero=False, qnet_scalar=False):
        r = self.rng
        if nonzero:
            x = self.number(True)
            return ['sval', x] if qnet_scalar or r.random() < 0.4 else x
        if not qnet_scalar and r.random() < 0.5:
            return self.native(depth)
        x = r.random()
        d = depth - 1
        if depth <= 0 or x < 0.35:
            return ['sval', self.native(1)]
        a = self.scalar(d, qnet_scalar=True)
        if x < 0.55:
            return [r.choice(['sadd', 'ssub']), a, self.scalar(d)]
        if x < 0.75:
            return ['smul', a, self.scalar(d)]
        if x < 0.85:
            return ['spow', a, r.randint(1, 3)]
        if x < 0.95:
            ks = self.pick_spaces()
            return ['braket', self.ket(ks, d), self.ket(ks, d)]
        return ['sneg', a]


DIV = {'odiv', 'kdiv', 'bdiv', 'pdiv', 'sdiv'}


def singular(r):
    """division by something that depends on x"""
    if r[0] in DIV and has(r[2], ['sym', 'x', 'r']):
        return True
    return any(singular(a) for a in r[1:] if R.is_recipe(a))


def rationalize(r):
    """no floats: the series generator of sympy 1.1.1 hangs for exponentials
    of floating point numbers"""
    if r[0] == 'num' and r[1] in ('float', 'np'):
        return ['num', 'rat', int(round(r[2] * 20)), 20]
    return [r[0]] + [rationalize(a) if R.is_recipe(a) else a for a in r[1:]]


def run_case(case):
    import sympy as sp
    from qnet import Matrix
    rng = case.rng
    case.phase = 'gen'
    kind = rng.choice(['op', 'op', 'op', 'state', 'state', 'sop', 'trace',
                       'scalar', 'matrix'])
    ctx = object_ctx(rng, kind in ('sop', 'trace'), maxdim=6)
    xr = ['sym', 'x', 'r']
    x = R._sym('x', 'r')
    g = SGen(rng, ctx, xr, symargs=0.35, unitary=False)
    depth = rng.choice([0, 1, 1, 2])
    ent = None
    if kind == 'matrix':
        n, m = rng.randint(1, 2), rng.randint(1, 2)
        ent = [[g.op(1) if rng.random() < 0.6 else g.scalar(0)
                for _ in range(m)] for _ in range(n)]
        r = ['oplus'] + [e for row in ent for e in row]
    else:
        kind, r = random_object(rng, ctx, g, depth, (kind,))
        if kind == 'scalar' and (r[0].startswith('n') or r[0] == 'sym'):
            r = ['sval', r]
        if not has(r, xr):
            r = put(rng, r, xr, g)
    if R.nodes_used(r) & {'phase', 'nexp', 'nsin'}:
        r = rationalize(r)
        ent = ent and [[rationalize(e) for e in row] for row in ent]
    if singular(r):
        raise Skip('division by a function of x')
    order = rng.choice([0, 1, 1, 2, 2, 2, 3])
    what = rng.choice(['zero', 'number', 'symbol'])
    if what == 'zero':
        about, x0 = rng.choice([0, 0, 0.0, sp.Integer(0)]), 0.0
    elif what == 'number':
        about = rng.choice([1, sp.Rational(1, 2), -1, 2, sp.Rational(1, 2)
                            if R.nodes_used(r) & {'phase', 'nexp', 'nsin'}
                            else 0.5])
        x0 = float(about)
    else:
        about = R._sym(*rng.choice([('y', 'r'), ('x_0', 'r'), ('p', 'p')]))
        x0 = ctx.den.scalar(about).real
    fit(case, ctx, r, maxw=8)
    case.info = dict(spaces=ctx.to_json(), recipe=ent or r, about=str(about),
                     order=order)
    case.key = (ctx.to_json(), r, str(about), order)
    case.phase = 'val'

    def coeffs(rr):
        old = ctx.den.env.get(x)
        ctx.den.env[x] = x0
        try:
            f = lambda: R.val(ctx, rr)
            out = [f()]
            for n in range(1, order + 1):
                out.append(num.scale(1 / math.factorial(n),
                                     ctx.den.derivative(f, x, n, h=0.02)))
        finally:
            if old is None:
                ctx.den.env.pop(x, None)
            else:
                ctx.den.env[x] = old
        return out

    def compare(items, vs, what):
        if len(items) != order + 1:
            raise Bad("%d items in a series of order %d" % (
                len(items), order))
        for n, (it, v) in enumerate(zip(items, vs)):
            if x in getattr(it, 'free_symbols', ()) and about is not x:
                raise Bad("coefficient %d depends on the parameter: %s"
                          % (n, it))
            d = ctx.den(it)
            try:
                dd, sc = num.diff(ctx.U, d, v)
            except num.TypeMismatch as e:
                if d is num.ZERO_KET and abs(v.a).max() < 1e-5:
                    continue
                raise Bad("%s: coefficient %d: wrong kind of object (%s)"
                          % (what, n, e), result=str(it))
            tol = [1e-7, 1e-5, 1e-4, 1e-3][n]
            if not dd <= tol * (1 + sc):
                raise Bad("%s: coefficient %d differs by %.3g (scale %.3g)"
                          % (what, n, dd, sc), result=str(it))
            case.saw('coefficient')
            if n and sc > 1e-6:
                case.saw('higher coefficient')
                case.nontrivial = True

    ref_value(case, ctx, r)
    if kind == 'matrix':
        vs = [[coeffs(e) for e in row] for row in ent]
        case.phase = 'build'
        M = Matrix([[R.build(ctx, e) for e in row] for row in ent])
        case.phase = 'series'
        res = M.series_expand(x, about, order)
        for i in range(M.shape[0]):
            for j in range(M.shape[1]):
                compare([m.matrix[i, j] for m in res], vs[i][j],
                        'entry of matrix')
    else:
        v = coeffs(r)
        if any(np.max(np.abs(t.a)) > 1e5 for t in v if np.asarray(t.a).size):
            raise Skip('large')
        case.phase = 'build'
        q = R.build(ctx, r)
        if not hasattr(q, 'series_expand'):
            raise Skip('native')
        case.phase = 'series'
        res = q.series_expand(x, about, order)
        if not isinstance(res, tuple):
            raise Bad("series_expand returns %s" % type(res))
        for it in res:
            if not isinstance(it, type(q)._base_cls):
                raise Bad("series of %s contains %s" % (
                    type(q).__name__, type(it).__name__))
        compare(res, v, 'series')
    case.saw('series of ' + kind)
    case.saw('about ' + {'zero': '0'}.get(what, what))
    case.saw('order %d' % order)
    case.sample = str((r, str(about), order))[:300]
