"""A02: spin algebra"""
from fractions import Fraction

import numpy as np
import sympy

from ..common import *
from ..den import spin_label
from qnet import (SpinSpace, SpinBasisKet, Jz, Jplus, Jminus, BasisKet,
                  LocalSigma, IdxSym, ZeroKet)
from qnet.utils.indices import SpinIndex

N_QUICK, N_THOROUGH = 9000, 120000
RULE = ("60% random operator/state programs over 1-2 spin spaces (s=1/2..3, "
        "default and custom basis labels); 20% ladder products acting on "
        "concrete or symbolically indexed basis kets and sigmas; 20% "
        "interface histories on SpinSpace/SpinBasisKet; distinct by case text")
REQUIRED = ('compared', 'labels', 'symbolic ket compared')


def spaces(rng, n=None):
    out = []
    tot = 1
    for lb in rng.sample(R._LABELS, n or rng.choice([1, 1, 2])):
        two_s = rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
        if tot * (two_s + 1) > 24:
            two_s = 1
        tot *= two_s + 1
        if rng.random() < 0.25:
            labs = ['down', 'up'] if two_s == 1 else \
                rng.sample('abcdefgh', two_s + 1)
            out.append(R.Spc(lb, 'spinb', labs))
        else:
            out.append(R.Spc(lb, 'spin', two_s))
    return R.Ctx(out)


def run_case(case):
    x = case.rng.random()
    if x < 0.6:
        program(case)
    elif x < 0.8:
        ladder(case)
    else:
        interface(case)


def program(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = spaces(rng)
    g = R.Gen(rng, ctx, symargs=0.05)
    if rng.random() < 0.55:
        r = g.op(rng.choice([2, 3, 3]))
    else:
        r = g.ket_or_bra_or_braket(rng.choice([2, 3]))
    v = ref_value(case, ctx, r)
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.key = (ctx.to_json(), r)
    case.phase = 'build'
    q = R.build(ctx, r)
    check_same(case, ctx, q, v, 'spin program')
    case.nontrivial = R.size(r) >= 3
    case.sample = str(r)[:300]


def ladder(case):
    """J-words acting on concrete or symbolic basis kets / sigmas"""
    rng = case.rng
    case.phase = 'gen'
    ctx = spaces(rng, 1)
    key = ctx.keys[0]
    spc = ctx.spaces[key]
    hs = ctx.hs(key)
    n = ctx.dim(key)
    s = Fraction(n - 1, 2)
    word = [rng.choice('z+-') for _ in range(rng.randint(1, 5))]
    symbolic = rng.random() < 0.5
    j, k = rng.randrange(n), rng.randrange(n)
    mode = rng.choice(['ket', 'bra', 'sigma', 'sigma_right'])
    case.info = dict(space=spc.to_json(), word=word, symbolic=symbolic,
                     j=j, k=k, mode=mode)
    case.key = str(case.info)
    case.phase = 'build'
    cls = {'z': Jz, '+': Jplus, '-': Jminus}
    idx = {'z': 0, '+': 1, '-': 2}
    i1, i2 = IdxSym('i', integer=False), IdxSym('j', integer=False)

    def lab(ind, sym):
        if symbolic and spc.kind == 'spin':
            return SpinIndex(sym, hs=hs)
        return spc.labels[ind]
    mats = num.spin_mats(n)
    ops = [cls[w](hs=hs) for w in word]
    M = [mats[idx[w]] for w in word]
    if mode in ('ket', 'bra'):
        q = BasisKet(lab(j, i1), hs=hs)
        v = np.zeros(n, dtype=complex)
        v[j] = 1
        for o, m in zip(ops, M):
            q = o * q
            v = m @ v
        ref = num.T('K', (key,), v)
        if mode == 'bra':
            q, ref = q.dag(), num.dag(ref)
    else:
        q = LocalSigma(lab(j, i1), lab(k, i2), hs=hs)
        v = np.zeros((n, n), dtype=complex)
        v[j, k] = 1
        for o, m in zip(ops, M):
            if mode == 'sigma':
                q, v = o * q, m @ v
            else:
                q, v = q * o, v @ m
        ref = num.T('O', (key,), v)
    env = {i1: float(j - s), i2: float(k - s)}
    den = Den(ctx.U, env)
    check_same(case, ctx, q, ref, 'ladder word', den=den)
    case.saw('symbolic ket compared' if symbolic and spc.kind == 'spin'
             else 'concrete ket compared')
    case.nontrivial = True
    case.sample = str(case.info)


def interface(case):
    rng = case.rng
    case.phase = 'gen'
    two_s = rng.randint(1, 12)
    s = Fraction(two_s, 2)
    label = rng.choice(R._LABELS)
    form = rng.choice(['tuple', 'rational', 'str', 'int'])
    spin = {'tuple': (two_s, 2), 'rational': sympy.Rational(two_s, 2),
            'str': str(sympy.Rational(two_s, 2)),
            'int': two_s // 2 if two_s % 2 == 0 else sympy.Rational(
                two_s, 2)}[form]
    n = two_s + 1
    custom = rng.random() < 0.3
    basis = None
    labels = [spin_label(-s + i) for i in range(n)]
    if custom:
        labels = ['l%d' % ((i * 7 + 3) % n if n % 7 else i)
                  for i in range(n)]
        basis = tuple(labels)
    case.info = dict(label=label, spin=str(spin), basis=basis)
    case.phase = 'api'
    hs = SpinSpace(label, spin=spin, basis=basis)
    if tuple(hs.basis_labels) != tuple(labels):
        case.bad("basis labels", got=hs.basis_labels, want=labels)
    if hs.dimension != n or hs.multiplicity != n:
        case.bad("dimension", got=(hs.dimension, hs.multiplicity), want=n)
    if sympy.Rational(two_s, 2) != sympy.nsimplify(hs.spin):
        case.bad("spin", got=hs.spin)
    case.saw('labels', n)
    kets = list(hs.basis_states)
    if [k.label for k in kets] != labels:
        case.bad("basis_states", got=[k.label for k in kets], want=labels)
    ctx = R.Ctx([R.Spc(label, 'spinb', labels) if custom
                 else R.Spc(label, 'spin', two_s)])
    hist = []
    for _ in range(rng.randint(3, 10)):
        i = rng.randrange(n)
        d = rng.randint(-n, n)
        as_int = rng.random() < 0.5
        arg = i if as_int else labels[i]
        hist.append((arg, d))
        case.info['hist'] = hist
        want = labels[i + d] if 0 <= i + d < n else IndexError
        try:
            got = hs.next_basis_label_or_index(arg, d)
        except IndexError:
            got = IndexError
        if got != want:
            case.bad("next_basis_label_or_index(%r, %d)" % (arg, d),
                     got=got, want=want)
        case.saw('next label')
        if not custom:
            m = -s + i
            ket = SpinBasisKet(m.numerator, hs=hs) if two_s % 2 == 0 else \
                SpinBasisKet(int(2 * m), 2, hs=hs)
            if ket != kets[i]:
                case.bad("SpinBasisKet", got=str(ket), want=str(kets[i]))
            case.saw('SpinBasisKet')
        # one component of each ladder operator between basis states
        j = rng.randrange(n)
        mats = num.spin_mats(n)
        for cls, mat in zip((Jz, Jplus, Jminus), mats):
            q = kets[j].dag() * (cls(hs=hs) * kets[i])
            got = ctx.den.scalar(q)
            if abs(got - mat[j, i]) > 1e-9:
                case.bad("<%s|%s|%s>" % (labels[j], cls.__name__, labels[i]),
                         got=got, want=mat[j, i])
            case.saw('compared')
    if rng.random() < 0.3:
        # out of range
        for bad in (n, -1):
            m = -s + bad
            try:
                if two_s % 2 == 0:
                    SpinBasisKet(int(m), hs=hs)
                else:
                    SpinBasisKet(int(2 * m), 2, hs=hs)
                case.bad("SpinBasisKet out of range accepted", m=str(m))
            except ValueError:
                case.saw('out of range rejected')
        q = Jplus(hs=hs) * kets[-1]
        p = Jminus(hs=hs) * kets[0]
        if not (q == ZeroKet and p == ZeroKet):
            case.bad("ladder end not annihilated", got=(str(q), str(p)))
    case.key = str(case.info)
    case.nontrivial = True
    case.sample = str(case.info)
