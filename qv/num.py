"""Labelled numeric tensors: the reference semantics used by every monitor.

A `T` is one of

* ``'S'``  complex number
* ``'K'``  ket on an ordered tuple of local spaces (flat vector)
* ``'B'``  bra (flat row vector)
* ``'O'``  operator (matrix)
* ``'P'``  superoperator (matrix acting on row-major vec(M))

Spaces are identified by (string) labels; the `Universe` says how large each of
them is.  Tensor factors are kept sorted by label.  Only numpy is used here,
nothing of QNET.
"""
import numpy as np
from scipy.linalg import expm


class Universe:
    """Numeric model of a family of local Hilbert spaces.

    ``spec[label] = dict(dim=..., window=None|int, labels=[...], kind=...)``
    `window`: for truncated (infinite) modes, only matrix elements with all
    indices below `window` are compared.
    """

    def __init__(self, spec):
        self.spec = spec

    def dim(self, label):
        return self.spec[label]['dim']

    def total(self, spaces):
        n = 1
        for s in spaces:
            n *= self.dim(s)
        return n

    def window(self, label):
        w = self.spec[label].get('window')
        return self.dim(label) if w is None else w


class TypeMismatch(Exception):
    pass


class T:
    __slots__ = ('kind', 'spaces', 'a')

    def __init__(self, kind, spaces, a):
        self.kind = kind
        self.spaces = tuple(spaces)
        self.a = a

    def __repr__(self):
        return "T(%s, %s, %s)" % (self.kind, self.spaces, np.shape(self.a))


def S(x):
    return T('S', (), complex(x))


def union(*spaces):
    out = set()
    for s in spaces:
        out.update(s)
    return tuple(sorted(out))


def _perm_tensor(a, dims, order):
    """reshape flat to dims, transpose and flatten"""
    return np.transpose(a.reshape(dims), order).reshape(-1)


def embed(U, t, spaces):
    """Return array of operator/superop `t` embedded into (sorted) `spaces`"""
    spaces = tuple(spaces)
    if t.kind == 'S':
        n = U.total(spaces)
        return t.a * np.eye(n, dtype=complex)
    assert t.kind == 'O', t.kind
    if t.spaces == spaces:
        return t.a
    missing = [s for s in spaces if s not in t.spaces]
    if any(s not in spaces for s in t.spaces):
        raise TypeMismatch("cannot embed %s in %s" % (t.spaces, spaces))
    cur = list(t.spaces) + missing
    a = t.a
    for m in missing:
        a = np.kron(a, np.eye(U.dim(m)))
    dims = [U.dim(s) for s in cur]
    n = len(cur)
    order = [cur.index(s) for s in spaces]
    a = a.reshape(dims + dims)
    a = np.transpose(a, order + [n + o for o in order])
    N = U.total(spaces)
    return a.reshape(N, N)


def embed_super(U, t, spaces):
    spaces = tuple(spaces)
    N = U.total(spaces)
    if t.kind == 'S':
        return t.a * np.eye(N * N, dtype=complex)
    assert t.kind == 'P'
    if t.spaces == spaces:
        return t.a
    missing = [s for s in spaces if s not in t.spaces]
    if any(s not in spaces for s in t.spaces):
        raise TypeMismatch("cannot embed %s in %s" % (t.spaces, spaces))
    n0 = len(t.spaces)
    d0 = [U.dim(s) for s in t.spaces]
    dm = U.total(missing)
    # t.a : (out_i, out_j, in_i, in_j)  -> add identities on missing
    D0 = U.total(t.spaces)
    a = t.a.reshape(D0, D0, D0, D0)
    e = np.einsum('ik,jl->ijkl', np.eye(dm), np.eye(dm))
    a = np.einsum('abcd,ijkl->aibjckdl', a, e)
    cur = list(t.spaces) + missing
    dims = d0 + [U.dim(s) for s in missing]
    a = a.reshape(dims * 4)
    n = len(cur)
    order = [cur.index(s) for s in spaces]
    a = np.transpose(a, [k * n + o for k in range(4) for o in order])
    return a.reshape(N * N, N * N)


def reorder_vec(U, vec, cur, spaces):
    dims = [U.dim(s) for s in cur]
    order = [list(cur).index(s) for s in spaces]
    return np.transpose(vec.reshape(dims), order).reshape(-1)


ZERO_KET = T('K', ('*',), np.zeros(1))
ZERO_BRA = T('B', ('*',), np.zeros(1))


def is_zero_vec(t):
    return t.kind in 'KB' and t.spaces == ('*',)


def as_op(U, t):
    if t.kind == 'S':
        return T('O', (), np.array([[t.a]]))
    return t


def add(U, x, y):
    if x.kind == 'S' and y.kind == 'S':
        return S(x.a + y.a)
    if {x.kind, y.kind} <= {'S', 'O'}:
        sp = union(x.spaces, y.spaces)
        return T('O', sp, embed(U, as_op(U, x), sp) + embed(U, as_op(U, y), sp))
    if {x.kind, y.kind} <= {'S', 'P'}:
        sp = union(x.spaces, y.spaces)
        return T('P', sp, embed_super(U, x, sp) + embed_super(U, y, sp))
    if x.kind == y.kind and x.kind in 'KB':
        if is_zero_vec(x):
            return y
        if is_zero_vec(y):
            return x
        if x.spaces != y.spaces:
            raise TypeMismatch("sum of kets on %s and %s" % (x.spaces, y.spaces))
        return T(x.kind, x.spaces, x.a + y.a)
    raise TypeMismatch("%s + %s" % (x, y))


def scale(c, x):
    return T(x.kind, x.spaces, complex(c) * x.a)


def neg(x):
    return scale(-1, x)


def sub(U, x, y):
    return add(U, x, neg(y))


def mul(U, x, y):
    """The product denoted by ``x * y`` in QNET"""
    k = x.kind + y.kind
    if x.kind == 'S':
        return scale(x.a, y) if y.kind != 'S' else S(x.a * y.a)
    if y.kind == 'S':
        return scale(y.a, x)
    if k == 'OO':
        sp = union(x.spaces, y.spaces)
        return T('O', sp, embed(U, x, sp) @ embed(U, y, sp))
    if k == 'PP':
        sp = union(x.spaces, y.spaces)
        return T('P', sp, embed_super(U, x, sp) @ embed_super(U, y, sp))
    if k == 'PO':
        sp = union(x.spaces, y.spaces)
        N = U.total(sp)
        return T('O', sp, (embed_super(U, x, sp)
                           @ embed(U, y, sp).reshape(-1)).reshape(N, N))
    if k == 'OK':
        if is_zero_vec(y):
            return y
        if any(s not in y.spaces for s in x.spaces):
            raise TypeMismatch("op on %s applied to ket on %s"
                               % (x.spaces, y.spaces))
        return T('K', y.spaces, embed(U, x, y.spaces) @ y.a)
    if k == 'BO':
        if is_zero_vec(x):
            return x
        if any(s not in x.spaces for s in y.spaces):
            raise TypeMismatch("bra on %s times op on %s"
                               % (x.spaces, y.spaces))
        return T('B', x.spaces, x.a @ embed(U, y, x.spaces))
    if k == 'BK':
        if is_zero_vec(x) or is_zero_vec(y):
            return S(0)
        if x.spaces != y.spaces:
            raise TypeMismatch("braket %s %s" % (x.spaces, y.spaces))
        return S(x.a @ y.a)
    if k == 'KB':
        if is_zero_vec(x) or is_zero_vec(y):
            return S(0)
        return ketbra(U, x, y)
    if k in ('KK', 'BB'):
        if is_zero_vec(x):
            return x
        if is_zero_vec(y):
            return y
        if set(x.spaces) & set(y.spaces):
            raise TypeMismatch("tensor of overlapping kets")
        cur = x.spaces + y.spaces
        sp = union(cur)
        return T(x.kind, sp, reorder_vec(U, np.kron(x.a, y.a), cur, sp))
    raise TypeMismatch("%s * %s" % (x, y))


def ketbra(U, ket, bra):
    """|ket><bra|, kets on possibly different spaces are not supported"""
    if ket.spaces != bra.spaces:
        raise TypeMismatch("ketbra on different spaces")
    return T('O', ket.spaces, np.outer(ket.a, bra.a))


def dag(x):
    if x.kind == 'S':
        return S(np.conj(x.a))
    if x.kind == 'K':
        return T('B', x.spaces, np.conj(x.a))
    if x.kind == 'B':
        return T('K', x.spaces, np.conj(x.a))
    if x.kind == 'O':
        return T('O', x.spaces, np.conj(x.a).T)
    raise TypeMismatch("dag of %s" % x)


def superadj(U, x):
    """The map L* with Tr[M (L N)] = Tr[(L* M) N]"""
    assert x.kind == 'P'
    N = U.total(x.spaces)
    # L[(i,j),(k,l)]: (L N)_ij = sum L_ijkl N_kl;
    # Tr[M L N] = sum M_ji L_ijkl N_kl = sum (L*M)_lk N_kl
    # => (L*M)_lk = sum_ij L_ijkl M_ji  => L*[(l,k),(j,i)] = L_ijkl
    L = x.a.reshape(N, N, N, N)
    return T('P', x.spaces, np.transpose(L, (3, 2, 1, 0)).reshape(N*N, N*N))


def spre(U, x):
    x = as_op(U, x)
    N = U.total(x.spaces)
    return T('P', x.spaces, np.kron(x.a, np.eye(N)))


def spost(U, x):
    x = as_op(U, x)
    N = U.total(x.spaces)
    return T('P', x.spaces, np.kron(np.eye(N), x.a.T))


def ptrace(U, x, over):
    """Partial trace over the set of labels `over`"""
    x = as_op(U, x)
    factor = 1
    for s in over:
        if s not in x.spaces:
            factor *= U.dim(s)
    keep = tuple(s for s in x.spaces if s not in over)
    dims = [U.dim(s) for s in x.spaces]
    n = len(dims)
    a = x.a.reshape(dims + dims) if n else x.a
    idx_in = list(range(n))
    idx_out = [n + i for i in range(n)]
    for i, s in enumerate(x.spaces):
        if s in over:
            idx_out[i] = idx_in[i]
    keep_idx = ([idx_in[i] for i, s in enumerate(x.spaces) if s in keep]
                + [idx_out[i] for i, s in enumerate(x.spaces) if s in keep])
    N = U.total(keep)
    if n:
        a = np.einsum(a, idx_in + idx_out, keep_idx).reshape(N, N)
    return T('O', keep, factor * a)


def _window_index(U, spaces):
    idx = np.zeros(1, dtype=int)
    for s in spaces:
        d, w = U.dim(s), min(U.window(s), U.dim(s))
        idx = (idx[:, None] * d + np.arange(w)[None, :]).reshape(-1)
    return idx


def windowed(U, t):
    if t.kind == 'S' or is_zero_vec(t):
        return t.a
    idx = _window_index(U, t.spaces)
    if t.kind in 'KB':
        return t.a[idx]
    if t.kind == 'O':
        return t.a[np.ix_(idx, idx)]
    if t.kind == 'P':
        return t.a
    raise AssertionError


def diff(U, x, y):
    """Return (max abs difference, scale) of the two objects, or raise
    TypeMismatch if they are not comparable"""
    if {x.kind, y.kind} == {'S'}:
        d = abs(x.a - y.a)
        return d, max(abs(x.a), abs(y.a))
    if {x.kind, y.kind} <= {'S', 'O'}:
        sp = union(x.spaces, y.spaces)
        X = T('O', sp, embed(U, as_op(U, x), sp))
        Y = T('O', sp, embed(U, as_op(U, y), sp))
    elif {x.kind, y.kind} <= {'S', 'P'}:
        sp = union(x.spaces, y.spaces)
        X = T('P', sp, embed_super(U, x, sp))
        Y = T('P', sp, embed_super(U, y, sp))
    elif x.kind == y.kind and x.kind in 'KB':
        if is_zero_vec(x) or is_zero_vec(y):
            a = 0 if is_zero_vec(x) else windowed(U, x)
            b = 0 if is_zero_vec(y) else windowed(U, y)
            m = max(np.max(np.abs(a)), np.max(np.abs(b)))
            return m, m
        if x.spaces != y.spaces:
            raise TypeMismatch("%s vs %s" % (x.spaces, y.spaces))
        X, Y = x, y
    else:
        raise TypeMismatch("%r vs %r" % (x, y))
    a, b = windowed(U, X), windowed(U, Y)
    if a.size == 0:
        return 0.0, 0.0
    return float(np.max(np.abs(a - b))), float(
        max(np.max(np.abs(a)), np.max(np.abs(b))))


def same(U, x, y, rtol=1e-7):
    d, s = diff(U, x, y)
    return bool(d <= rtol * (1 + s))


# -- standard operators ------------------------------------------------------

def destroy(n):
    return np.diag(np.sqrt(np.arange(1, n)), 1).astype(complex)


def displace_mat(n, alpha):
    m = n + 40
    a = destroy(m)
    return expm(alpha * a.conj().T - np.conj(alpha) * a)[:n, :n]


def squeeze_mat(n, eta):
    m = n + 40
    a = destroy(m)
    ad = a.conj().T
    return expm(eta / 2 * ad @ ad - np.conj(eta) / 2 * a @ a)[:n, :n]


def coherent_vec(n, alpha):
    from math import lgamma
    k = np.arange(n)
    logf = np.array([lgamma(i + 1) for i in k])
    amp = np.array([complex(alpha) ** int(i) for i in k])
    return np.exp(-abs(alpha) ** 2 / 2) * amp / np.exp(0.5 * logf)


def spin_mats(n):
    """(Jz, Jplus, Jminus) in the basis m = -s, ..., s"""
    s = (n - 1) / 2
    m = np.arange(n) - s
    jz = np.diag(m).astype(complex)
    jp = np.zeros((n, n), dtype=complex)
    for i in range(n - 1):
        jp[i + 1, i] = np.sqrt(s * (s + 1) - m[i] * (m[i] + 1))
    return jz, jp, jp.conj().T


def pinv(a):
    """Moore-Penrose inverse; rounding errors count as zero"""
    u, s, vh = np.linalg.svd(a, full_matrices=False)
    cut = max(1e-10 * s[0] if len(s) else 0, 1e-10)
    with np.errstate(divide='ignore'):
        inv = np.where(s > cut, 1 / np.where(s > cut, s, 1), 0)
    return (vh.conj().T * inv) @ u.conj().T
