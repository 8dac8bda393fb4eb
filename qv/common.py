"""Pieces shared by the property modules"""
from . import recipes as R
from . import num
from .den import Den, DenError
from .runner import Skip, Bad

import sympy  # noqa


def check_same(case, ctx, q, v, what, rtol=1e-7, den=None):
    """Monitor: the QNET object `q` denotes the tensor `v`"""
    case.phase = 'den'
    d = (den or ctx.den)(q)
    try:
        dd, sc = num.diff(ctx.U, d, v)
    except num.TypeMismatch as e:
        raise Bad("%s: wrong kind of object (%s)" % (what, e), result=str(q),
                  res_type=type(q).__name__)
    case.saw('compared')
    if not dd <= rtol * (1 + sc):
        raise Bad("%s: value differs by %.3g (scale %.3g)" % (what, dd, sc),
                  result=str(q), srepr=repr(q))
    return d, dd, sc


def fit(case, ctx, r, maxw=12):
    w = R.weight(r)
    u = R.uses_unitary(r)
    if w > (5 if u else maxw):
        raise Skip("too many ladder operators for the truncated model")
    ctx.fit(w, u)


def ref_value(case, ctx, r, maxscale=1e6):
    import numpy as np
    case.phase = 'val'
    v = R.val(ctx, r)
    a = np.asarray(v.a)
    if not np.all(np.isfinite(a)) or (a.size and np.max(np.abs(a)) > maxscale):
        raise Skip("reference value out of numeric range")
    return v


def classes_in(expr, acc=None):
    """names of all expression classes in `expr`"""
    acc = set() if acc is None else acc
    acc.add(type(expr).__name__)
    for a in getattr(expr, 'args', ()):
        if hasattr(a, 'args') and not isinstance(a, sympy.Basic):
            classes_in(a, acc)
    return acc


def is_op_like(r):
    return True


def random_object(rng, ctx, g, depth, kinds=('op', 'op', 'state', 'sop')):
    """(kind, recipe) of a random operator/ket/bra/scalar/superoperator"""
    k = rng.choice(kinds)
    if k == 'op':
        return k, g.op(depth)
    if k == 'state':
        return k, g.ket_or_bra_or_braket(depth)
    if k == 'sop':
        return k, g.sop_or_app(max(1, depth - 1))
    if k == 'trace':
        return k, ['otrace', g.op(depth), g.pick_spaces()]
    if k == 'scalar':
        return k, g.scalar(depth, qnet_scalar=rng.random() < 0.5)
    raise ValueError(k)


def object_ctx(rng, kind_has_sop, maxdim=12, fock=True):
    if kind_has_sop:
        return R.random_spaces(rng, fock=False, maxdim=6)
    return R.random_spaces(rng, fock=fock, maxdim=maxdim)
