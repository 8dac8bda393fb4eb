"""A12: differentiation"""
from ..common import *

N_QUICK, N_THOROUGH = 5000, 60000
RULE = ("random programs for operators, kets, bras, inner products, "
        "superoperators and their applications, partial traces, scalars and "
        "matrices in which symbol arguments, coefficients, phases and "
        "amplitudes depend on up to three symbols; .diff(x, n) for a real or "
        "positive symbol x and n = 1..3 (also diff twice, mixed derivatives, "
        "n via repeated calls, with and without expand_simplify) is compared "
        "with an 11-point finite-difference derivative of the reference "
        "value; non-trivial: the derivative is not zero; distinct by program "
        "text, symbol and order")
REQUIRED = ['derivative of op', 'derivative of state', 'derivative of sop',
            'derivative of trace', 'derivative of scalar', 'order 1',
            'order 2', 'order 3', 'nonzero', 'mixed', 'independent',
            'unevaluated derivative', 'adjoint of derivative',
            'derivative of matrix', 'derivative evaluated']
H = 0.02


class XGen(R.Gen):
    """generator whose scalars often depend on the differentiation symbol"""

    def __init__(self, rng, ctx, x, **kw):
        super().__init__(rng, ctx, **kw)
        self.x = x

    def sym(self, kinds='rpc'):
        if self.rng.random() < 0.55:
            return self.x
        return super().sym(kinds)


def has(r, x):
    return list(r) == x or any(has(a, x) for a in r if isinstance(a, list))


def put(rng, r, xr, g):
    """copy of recipe `r` in which one symbol or number depends on x"""
    spots = []

    def scan(r, path):
        if r[0] in ('osym', 'ksym', 'psym') and g.unitary is not None:
            spots.append((path, 'arg'))
        if r[0] in ('num', 'sym'):
            spots.append((path, 'num'))
        for i, a in enumerate(r):
            if R.is_recipe(a):
                scan(a, path + [i])
    scan(r, [])
    if not spots:
        return r
    path, what = rng.choice(spots)

    def rebuild(r, path):
        if path:
            r = list(r)
            r[path[0]] = rebuild(r[path[0]], path[1:])
            return r
        if what == 'arg':
            return list(r) + [rng.choice([xr, ['nmul', xr, g.native(0)]])]
        return rng.choice([xr, ['nmul', xr, r], ['nadd', r, xr]])
    return rebuild(r, path)


def choose_x(rng):
    return rng.choice([['sym', 'x', 'r'], ['sym', 'x', 'r'],
                       ['sym', 'gamma', 'p']])


def deriv(ctx, r, x, n, h=H):
    return ctx.den.derivative(lambda: R.val(ctx, r), x, n, h=h)


def close(ctx, q, v, what, scale, rtol=1e-5):
    d = ctx.den(q)
    try:
        dd, sc = num.diff(ctx.U, d, v)
    except num.TypeMismatch as e:
        if d is num.ZERO_KET and float(abs(v.a).max()) <= rtol * (1 + scale):
            # the derivative of a constant bra is the zero state
            return 0.0
        raise Bad("%s: wrong kind of object (%s)" % (what, e), result=str(q))
    if not dd <= rtol * (1 + sc + scale):
        raise Bad("%s: value differs by %.3g (scale %.3g)" % (what, dd, sc),
                  result=str(q))
    return sc


def run_case(case):
    from qnet import Matrix
    rng = case.rng
    case.phase = 'gen'
    kind = rng.choice(['op', 'op', 'op', 'state', 'state', 'sop', 'trace',
                       'scalar', 'matrix', 'special'])
    ctx = object_ctx(rng, kind in ('sop', 'trace'), maxdim=8)
    xr = choose_x(rng)
    x = R._sym(xr[1], xr[2])
    g = XGen(rng, ctx, xr, symargs=0.4, unitary=rng.random() < 0.3)
    depth = rng.choice([0, 1, 1, 2, 2])
    if kind == 'special':
        # the leaf rules
        keys = ctx.keys
        k = rng.choice(keys)
        y = rng.random()
        body = g.op_leaf([k])
        fock = ctx.fock()
        if fock and y < 0.35:
            r = ['coherent', rng.choice(fock),
                 ['nmul', ['num', 'complex', rng.choice([0, 0.3]), 0.4],
                  rng.choice([xr, ['nexp', xr], ['npow', xr, 2]])]]
            if rng.random() < 0.3:
                r = ['bra', r]
            kind = 'state'
        elif fock and y < 0.6:
            k = rng.choice(fock)
            r = rng.choice([['phase', k, xr],
                            ['displace', k, ['nmul', ['num', 'float', 0.3],
                                             rng.choice([xr, ['nexp', xr]])]]
                            ])
            kind = 'op'
        elif y < 0.8:
            r = ['opmcc', ['oscl', g.scalar(1), body], rng.choice([1, -1])]
            kind = 'op'
        else:
            r = ['ocomm', ['osym', 'A', [k], xr], ['osym', 'B', [k], xr]]
            kind = 'op'
    elif kind == 'matrix':
        n, m = rng.randint(1, 2), rng.randint(1, 3)
        ent = [[g.op(1) if rng.random() < 0.6 else g.scalar(0)
                for _ in range(m)] for _ in range(n)]
        r = ['oplus'] + [e for row in ent for e in row]
    else:
        kind, r = random_object(rng, ctx, g, depth, (kind,))
        if kind == 'scalar' and (r[0].startswith('n') or r[0] == 'sym'):
            r = ['sval', r]
    if kind not in ('matrix', 'special') and not has(r, xr) and \
            rng.random() < 0.9:
        r = put(rng, r, xr, g)
    n = rng.choice([1, 1, 1, 2, 2, 3])
    fit(case, ctx, r, maxw=8)
    v0 = ref_value(case, ctx, r)
    case.info = dict(spaces=ctx.to_json(), recipe=r, x=xr, n=n)
    case.key = (ctx.to_json(), r, xr, n)
    case.phase = 'build'
    import numpy as np
    scale = float(np.max(np.abs(v0.a))) if np.asarray(v0.a).size else 0
    if kind == 'matrix':
        M = Matrix([[R.build(ctx, e) for e in row] for row in ent])
        case.phase = 'diff'
        D = M.element_wise(lambda e: e.diff(x, n) if hasattr(e, 'diff') else 0)
        for i in range(D.shape[0]):
            for j in range(D.shape[1]):
                v = deriv(ctx, ent[i][j], x, n)
                close(ctx, D.matrix[i, j], v, 'entry of the derivative', scale)
        case.saw('derivative of matrix')
        return
    q = R.build(ctx, r)
    if not hasattr(q, 'diff'):
        raise Skip('native result')
    case.phase = 'val'
    mode = rng.choice(['plain', 'plain', 'raw', 'mixed', 'repeat', 'adjoint',
                       'at'])
    case.info['mode'] = mode
    w = None
    if mode == 'mixed':
        yname = rng.choice([y for y in ('x', 'y', 'gamma')
                            if y != xr[1]] + ['alpha'])
        yk = {'x': 'r', 'y': 'r', 'gamma': 'p', 'alpha': None}[yname]
        if yk is None:
            mode = 'plain'
        else:
            ys = R._sym(yname, yk)
            n = 1
            v = ctx.den.derivative(lambda: deriv(ctx, r, x, 1, 0.04), ys, 1,
                                   h=0.04)
    if mode != 'mixed':
        v = deriv(ctx, r, x, n)
    case.phase = 'diff'
    if mode == 'plain':
        d = q.diff(x, n) if n > 1 or rng.random() < 0.5 else q.diff(x)
    elif mode == 'raw':
        d = q.diff(x, n, expand_simplify=False)
    elif mode == 'repeat':
        d = q
        for _ in range(n):
            d = d.diff(x)
    elif mode == 'mixed':
        d = q.diff(x).diff(ys)
        case.saw('mixed')
    elif mode == 'adjoint':
        if kind == 'sop':
            d = q.diff(x, n)
        else:
            d = q.adjoint().diff(x, n)
            v = num.dag(v)
            case.saw('adjoint of derivative')
    elif mode == 'at':
        # derivative evaluated at a point, through the documented `vals`
        x0 = 0.65
        case.phase = 'val'
        old = ctx.den.env.get(x)
        ctx.den.env[x] = x0
        v = deriv(ctx, r, x, n)
        if old is None:
            del ctx.den.env[x]
        else:
            ctx.den.env[x] = old
        case.phase = 'diff'
        cls = getattr(type(q), '_derivative_cls', None)
        if cls is None or cls is True:
            d = q.diff(x, n).substitute({x: x0})
        else:
            d = cls.create(q, derivs={x: n}, vals={x: x0})
        case.saw('derivative evaluated')
    case.phase = 'den'
    sc = close(ctx, d, v, 'derivative of order %d' % n, scale,
               1e-4 if mode == 'mixed' else 1e-3 if n == 3 else 1e-5)
    if sc > 1e-6 and type(d).__name__.endswith(('Derivative',)):
        case.saw('unevaluated derivative')
    base = type(q)._base_cls if hasattr(type(q), '_base_cls') else None
    if base is not None and not isinstance(d, base):
        raise Bad("derivative of %s is %s" % (type(q), type(d)))
    case.saw('derivative of ' + kind)
    case.saw('order %d' % n)
    if sc > 1e-6:
        case.saw('nonzero')
        case.nontrivial = True
    else:
        case.saw('independent')
        if x not in q.free_symbols and not d.is_zero:
            raise Bad("derivative of an independent object is %s" % d)
    # the original object is unchanged
    if rng.random() < 0.2:
        check_same(case, ctx, q, v0, 'object after diff')
    case.sample = str((r, n, mode))[:300]
