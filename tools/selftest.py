#!/usr/bin/env python3
"""Fast sanity test of the reference model itself (no QNET involved)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from qv import num
from qv.num import T, S

U = num.Universe({
    'a': dict(dim=2, window=None, labels=['0', '1'], kind='dim'),
    'b': dict(dim=3, window=None, labels=['0', '1', '2'], kind='dim')})
rng = np.random.RandomState(0)


def rm(n):
    return rng.rand(n, n) + 1j * rng.rand(n, n)


A, B = T('O', ('a',), rm(2)), T('O', ('b',), rm(3))
C = T('O', ('a', 'b'), rm(6))
# products on different spaces commute, embedding is the Kronecker product
assert num.same(U, num.mul(U, A, B), num.mul(U, B, A))
assert np.allclose(num.mul(U, A, B).a, np.kron(A.a, B.a))
# (XY)^dag = Y^dag X^dag
assert num.same(U, num.dag(num.mul(U, A, C)),
                num.mul(U, num.dag(C), num.dag(A)))
# traces: Tr_a Tr_b = Tr, cyclicity on the full space
t = num.ptrace(U, num.ptrace(U, C, ('a',)), ('b',))
assert np.allclose(t.a, np.trace(C.a))
# spre/spost act from the left/right
X = num.mul(U, num.spre(U, C), C)
assert np.allclose(X.a, C.a @ C.a)
# super adjoint: Tr[M L N] = Tr[(L* M) N]
L = T('P', ('a',), rng.rand(4, 4) + 0j)
M, N = rm(2), rm(2)
LN = num.mul(U, L, T('O', ('a',), N)).a
LM = num.mul(U, num.superadj(U, L), T('O', ('a',), M)).a
assert np.allclose(np.trace(M @ LN), np.trace(LM @ N))
# spin algebra
for n in range(2, 8):
    jz, jp, jm = num.spin_mats(n)
    assert np.allclose(jp @ jm - jm @ jp, 2 * jz)
    assert np.allclose(jz @ jp - jp @ jz, jp)
# displacement and coherent states
D = num.displace_mat(10, 0.3 + 0.2j)
assert np.allclose(D[:, 0], num.coherent_vec(10, 0.3 + 0.2j))
print('reference model self test ok')
