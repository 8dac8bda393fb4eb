"""Truncated matrix models for the conversion properties

The reference evaluates the QNET expression itself, node by node, with the
matrices of the *truncated* ladder operators (the conversion is defined on
spaces of finite dimension).
"""
import numpy as np
from scipy.linalg import expm

from . import num
from . import recipes as R
from .den import Den
from .num import T
from qnet import LocalSpace


class TSpc(R.Spc):
    """a mode truncated to a finite number of levels"""

    def __init__(self, label, n):
        super().__init__(label, 'fock', n)

    def build(self):
        return LocalSpace(self.label, dimension=self.arg)

    def spec(self, trunc):
        return dict(dim=self.arg, window=None,
                    labels=[str(i) for i in range(self.arg)], kind='fock')

    @property
    def labels(self):
        return [str(i) for i in range(self.arg)]


class TDen(Den):
    def d_Displace(self, e):
        sp, n = self._local(e)
        a = self.scalar(e.args[0])
        d = num.destroy(n)
        return T('O', sp, expm(a * d.conj().T - np.conj(a) * d))

    def d_Squeeze(self, e):
        sp, n = self._local(e)
        a = self.scalar(e.args[0])
        d = num.destroy(n)
        dd = d.conj().T
        return T('O', sp, expm(a / 2 * dd @ dd - np.conj(a) / 2 * d @ d))

    def d_CoherentStateKet(self, e):
        sp, n = self._local(e)
        a = self.scalar(e.args[0])
        d = num.destroy(n)
        return T('K', sp, expm(a * d.conj().T - np.conj(a) * d)[:, 0])


class TCtx(R.Ctx):
    def set_truncation(self, n, env=None):
        self.U = num.Universe({k: s.spec(n) for k, s in self.spaces.items()})
        self.den = TDen(self.U, env)


def spaces(rng, n=None, maxdim=8, mode=.5):
    n = n or rng.choice([1, 1, 2, 2, 3])
    out, tot = [], 1
    for lb in rng.sample(R._LABELS, n):
        kind = 'tfock' if rng.random() < mode else \
            rng.choice(['basis', 'spin', 'spin', 'dim'])
        if kind == 'tfock':
            m = rng.choice([2, 3, 3, 4])
            s = TSpc(lb, m)
        elif kind == 'basis':
            s = R.Spc(lb, 'basis', rng.choice(
                [['g', 'e'], ['e', 'g'], ['d', 'u'], ['a', 'b', 'c']]))
            m = len(s.arg)
        elif kind == 'spin':
            s = R.Spc(lb, 'spin', rng.choice([1, 1, 2, 3]))
            m = s.arg + 1
        else:
            m = rng.choice([2, 3])
            s = R.Spc(lb, 'dim', m)
        if out and tot * m > maxdim:
            continue
        tot *= m
        out.append(s)
    return TCtx(out)


class NoSym:
    """no operator symbols"""

    def op_leaf(self, keys):
        for _ in range(30):
            r = super().op_leaf(keys)
            if r[0] != 'osym':
                return clip(self.ctx, r)
        return ['oI']


def clip(ctx, r):
    """level numbers below the dimension"""
    if r[0] == 'proj' and isinstance(r[2], int):
        return ['proj', r[1], r[2] % ctx.dim(r[1])] + r[3:]
    if r[0] == 'sigma':
        n = ctx.dim(r[1])
        return ['sigma', r[1], r[2] % n, r[3] % n] + r[4:]
    return r


def order(hs):
    """labels of the factors of a space, in QNET's order"""
    return [str(f.label) for f in hs.local_factors]


def full(U, t, labels):
    """matrix of an operator / vector of a ket in the given factor order"""
    key = tuple(sorted(labels))
    dims = [U.dim(k) for k in key]
    perm = [key.index(k) for k in labels]
    n = len(key)
    N = int(np.prod(dims)) if dims else 1
    if t.kind in 'OS':
        a = num.embed(U, t, key).reshape(dims + dims)
        return np.transpose(a, perm + [n + p for p in perm]).reshape(N, N)
    if t.kind in 'KB':
        assert t.spaces == key, (t.spaces, key)
        return np.transpose(np.asarray(t.a).reshape(dims), perm).reshape(N)
    raise AssertionError(t.kind)


def full_super(U, t, labels):
    """function applying a superoperator to matrices in the given order"""
    key = tuple(sorted(labels))
    dims = [U.dim(k) for k in key]
    perm = [key.index(k) for k in labels]
    inv = [labels.index(k) for k in key]
    n = len(key)
    N = int(np.prod(dims)) if dims else 1
    a = num.embed_super(U, t, key)

    def f(x):
        od = [dims[p] for p in perm]
        y = x.reshape(od + od)
        y = np.transpose(y, inv + [n + p for p in inv]).reshape(N * N)
        z = (a @ y).reshape(dims + dims)
        return np.transpose(z, perm + [n + p for p in perm]).reshape(N, N)
    return f
