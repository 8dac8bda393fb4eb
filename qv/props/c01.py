"""C01: Hilbert spaces form a consistent lattice"""
from ..common import *
import itertools
import pickle
import sympy
import qnet
from qnet import (LocalSpace, ProductSpace, TrivialSpace, FullSpace,
                  SpinSpace, BasisKet)
from qnet.algebra.core.exceptions import AlgebraError, BasisNotSetError
from qnet.algebra.core.state_algebra import TensorKet

N_QUICK, N_THOROUGH = 6000, 150000
RULE = ("random families of 1-6 local spaces (plain, with basis, dimension, "
        "order_index, local identifiers, spin spaces, equal labels with "
        "different bases) and random programs of products, quotients and "
        "intersections with TrivialSpace and FullSpace; all relations are "
        "compared with a model of finite sets of factors, and basis labels, "
        "states, next labels and dimensions with each other; non-trivial: at "
        "least two factors; distinct by program")
REQUIRED = ['product', 'quotient', 'intersection', 'order', 'disjoint',
            'full', 'trivial', 'factors sorted', 'local basis',
            'product basis', 'no basis', 'next label', 'spin', 'rebuild',
            'lattice laws', 'invalid space', 'order_index', 'same label']

FULL = 'full'


def spec(rng, labels):
    lb = rng.choice(labels)
    kw = {}
    x = rng.random()
    if x < .25:
        kw['basis'] = rng.choice([
            ('g', 'e'), ('e', 'g'), ('0', '1', '2'), ('a', 'b', 'c'),
            ('1', '0'), ('u',)])
    elif x < .5:
        kw['dimension'] = rng.choice([1, 2, 3, 4])
    elif x < .65:
        kw['spin'] = rng.choice(['1/2', '1', '3/2', '2'])
    if rng.random() < .3:
        kw['order_index'] = rng.choice([1, 2, 3])
    if rng.random() < .15:
        kw['local_identifiers'] = rng.choice([{'Destroy': 'b'},
                                              {'Create': 'c', 'Destroy': 'c'},
                                              {'Destroy': 'c', 'Create': 'c'}])
    return lb, kw


def mk(lb, kw):
    kw = dict(kw)
    if 'spin' in kw:
        s = sympy.Rational(kw.pop('spin'))
        return SpinSpace(lb, spin=s, **kw)
    return LocalSpace(lb, **kw)


def ident(lb, kw):
    """what makes up the identity of a local space"""
    if 'spin' in kw:
        s = sympy.Rational(kw['spin'])
        n = int(2 * s) + 1
        b = tuple(spin_label(-s + k) for k in range(n))
    elif 'basis' in kw:
        b = tuple(kw['basis'])
    elif 'dimension' in kw:
        b = tuple(str(k) for k in range(kw['dimension']))
    else:
        b = None
    return ('spin' in kw, str(lb), b, kw.get('order_index', float('inf')),
            tuple(sorted(kw.get('local_identifiers', {}).items())))


def spin_label(m):
    return ('+' if m > 0 else '') + str(m)


def program(rng, n, depth):
    x = rng.random()
    if depth <= 0 or x < .2:
        y = rng.random()
        if y < .06:
            return 'T'
        if y < .1:
            return 'F'
        return rng.randrange(n)
    a, b = program(rng, n, depth - 1), program(rng, n, depth - 1)
    if x < .62:
        return ('*', a, b)
    if x < .68:
        return ('P', a, b, program(rng, n, depth - 2))
    return ('/' if x < .84 else '&', a, b)


class Undefined(Exception):
    pass


def model(p, ids):
    if p == 'T':
        return frozenset()
    if p == 'F':
        return FULL
    if isinstance(p, int):
        return frozenset([ids[p]])
    v = [model(x, ids) for x in p[1:]]
    if p[0] in '*P':
        if FULL in v:
            return FULL
        return frozenset().union(*v)
    a, b = v
    if p[0] == '/':
        if a == FULL:
            raise Undefined
        return frozenset() if b == FULL else a - b
    if a == FULL:
        return b
    return a if b == FULL else a & b


def build(p, sp):
    if p == 'T':
        return TrivialSpace
    if p == 'F':
        return FullSpace
    if isinstance(p, int):
        return sp[p]
    v = [build(x, sp) for x in p[1:]]
    if p[0] == '*':
        return v[0] * v[1]
    if p[0] == 'P':
        return ProductSpace.create(*v)
    if p[0] == '/':
        return v[0] / v[1]
    return v[0] & v[1]


def value(s, idof):
    if s is FullSpace:
        return FULL
    return frozenset(idof[f] for f in s.local_factors)


def raises(exc, f, what):
    try:
        r = f()
    except exc:
        return
    raise Bad("%s gives %s instead of %s" % (what, r, exc))


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    labels = [0, 1, 2, 'a', 'b', 'q_1', 'Q'][:rng.randint(2, 7)]
    specs = []
    for _ in range(rng.randint(1, 6)):
        specs.append(spec(rng, labels))
    p1 = program(rng, len(specs), rng.choice([1, 2, 3]))
    p2 = program(rng, len(specs), rng.choice([1, 2, 3]))
    p3 = program(rng, len(specs), 1)
    case.info = dict(specs=specs, programs=[p1, p2, p3])
    case.key = (specs, p1, p2)
    case.sample = str(case.info)
    case.phase = 'local'
    sp = [mk(*s) for s in specs]
    ids = [ident(*s) for s in specs]
    idof = {}
    for s, i in zip(sp, ids):
        idof[s] = i
    for (s, i), (t, j) in itertools.combinations(zip(sp, ids), 2):
        if (s == t) != (i == j) or (s == t and hash(s) != hash(t)):
            raise Bad("%r == %r is %s" % (s, t, s == t))
        if s != t and s.label == t.label:
            case.saw('same label')
    for s, (lb, kw), i in zip(sp, specs, ids):
        local(case, rng, s, lb, kw, i)
    case.phase = 'programs'
    vals = []
    for p in (p1, p2, p3):
        try:
            m = model(p, ids)
        except Undefined:
            raises(AlgebraError, lambda: build(p, sp), 'quotient of FullSpace')
            case.saw('full')
            return
        s = build(p, sp)
        if value(s, idof) != m:
            raise Bad("%s has factors %s, expected %s" % (p, s, m))
        vals.append((s, m))
        case.saw({'*': 'product', 'P': 'product', '/': 'quotient',
                  '&': 'intersection'}.get(p[0] if isinstance(p, tuple)
                                           else p, 'leaf'))
        one(case, rng, s, m)
    case.nontrivial = len(vals[0][1]) > 1 and len(vals[1][1]) > 0
    for (s, a), (t, b) in itertools.permutations(vals, 2):
        relations(case, s, a, t, b)
    # lattice laws, literally on the objects
    case.phase = 'laws'
    (s, a), (t, b), (u, c) = vals
    laws = [
        (s * t, t * s), (s & t, t & s), ((s * t) * u, s * (t * u)),
        ((s & t) & u, s & (t & u)), (s & (t * u), (s & t) * (s & u)),
        (s * (t & u), (s * t) & (s * u)), (s * s, s), (s & s, s),
        (s * TrivialSpace, s), (s & TrivialSpace, TrivialSpace),
        (s * FullSpace, FullSpace), (s & FullSpace, s),
        (TrivialSpace * s, s), (FullSpace & s, s), (FullSpace * s, FullSpace),
        (s.tensor(t, u), ProductSpace.create(u, t, s)),
        (s * (s & t), s), (s & (s * t), s)]
    if a != FULL:
        laws += [(s / s, TrivialSpace), (s / TrivialSpace, s),
                 ((s / t) * (s & t), s), ((s / t) & t, TrivialSpace),
                 (s / FullSpace, TrivialSpace)]
    for k, (x, y) in enumerate(laws):
        if x != y or hash(x) != hash(y) or str(x) != str(y):
            raise Bad("law %d: %s != %s" % (k, x, y))
    case.saw('lattice laws')


def relations(case, s, a, t, b):
    case.phase = 'relations'

    def sub(x, y):
        if y == FULL:
            return True
        return x != FULL and x <= y
    exp = {'==': a == b, '!=': a != b, '<=': sub(a, b), '>=': sub(b, a),
           '<': sub(a, b) and a != b, '>': sub(b, a) and a != b,
           'is_tensor_factor_of': sub(a, b),
           'is_strict_tensor_factor_of': sub(a, b) and a != b,
           'is_strict_subfactor_of': sub(a, b) and a != b}
    got = {'==': s == t, '!=': s != t, '<=': s <= t, '>=': s >= t, '<': s < t,
           '>': s > t, 'is_tensor_factor_of': s.is_tensor_factor_of(t),
           'is_strict_tensor_factor_of': s.is_strict_tensor_factor_of(t),
           'is_strict_subfactor_of': s.is_strict_subfactor_of(t)}
    for k in exp:
        if got[k] is not exp[k]:
            raise Bad("%s %s %s is %s, expected %s" % (s, k, t, got[k],
                                                       exp[k]))
    case.saw('order')
    d = a != FULL and b != FULL and not (a & b)
    if s.isdisjoint(t) is not d:
        raise Bad("isdisjoint of %s and %s is not %s" % (s, t, d))
    case.saw('disjoint')
    if a == b and (hash(s) != hash(t) or str(s) != str(t)):
        raise Bad("hash or str of equal spaces")


def okey(i):
    return (i[3], i[1])


def one(case, rng, s, m):
    case.phase = 'space'
    if m == FULL:
        case.saw('full')
        if s is not FullSpace or s.has_basis:
            raise Bad("FullSpace")
        raises(AlgebraError, lambda: s.local_factors, 'FullSpace factors')
        raises(BasisNotSetError, lambda: s.dimension, 'FullSpace dimension')
        raises(BasisNotSetError, lambda: s.basis_labels, 'FullSpace basis')
        raises(BasisNotSetError, lambda: s.basis_state(0), 'FullSpace state')
        return
    f = s.local_factors
    if len(f) != len(m) or len(s) != len(m) or not all(
            isinstance(x, LocalSpace) for x in f):
        raise Bad("local factors %s" % (f,))
    if not m:
        case.saw('trivial')
        if s is not TrivialSpace or s.dimension != 1 or not s.has_basis:
            raise Bad("TrivialSpace")
        if list(s.basis_states) != [qnet.TrivialKet] or \
                tuple(s.basis_labels) != ('0',) or \
                s.basis_state(0) is not qnet.TrivialKet or \
                s.basis_state('0') is not qnet.TrivialKet:
            raise Bad("basis of TrivialSpace")
        raises(IndexError, lambda: s.basis_state(1), 'basis_state(1)')
        raises(KeyError, lambda: s.basis_state('1'), "basis_state('1')")
        return
    fi = [ident_of(x) for x in f]
    ks = [okey(i) for i in fi]
    if ks != sorted(ks):
        raise Bad("factors %s are not in order" % (f,))
    case.saw('factors sorted')
    if any(k[0] < float('inf') for k in ks) and len(ks) > 1:
        case.saw('order_index')
    if len(m) == 1:
        if f != (s,):
            raise Bad("local space %r with factors %r" % (s, f))
        return
    if s.rebuild() != s or type(s)(*s.args, **s.kwargs) != s or \
            ProductSpace.create(*reversed(s.operands)) != s:
        raise Bad("rebuild of %s" % s)
    if any(i[2] is None for i in fi):
        case.saw('no basis')
        if s.has_basis:
            raise Bad("has_basis of %s" % s)
        raises(BasisNotSetError, lambda: s.dimension, 'dimension')
        raises(BasisNotSetError, lambda: s.basis_labels, 'basis_labels')
        raises(BasisNotSetError, lambda: list(s.basis_states), 'basis_states')
        lbs = [i[2][0] if i[2] else '3' for i in fi]
        return
    case.phase = 'product basis'
    lab = [','.join(t) for t in itertools.product(*[i[2] for i in fi])]
    if not s.has_basis or s.dimension != len(lab) or list(
            s.basis_labels) != lab:
        raise Bad("basis of %s is %s" % (s, s.basis_labels))
    if len(lab) > 50:
        return
    want = []
    for t in itertools.product(*[i[2] for i in fi]):
        k = None
        for x, l in zip(f, t):
            b = BasisKet(l, hs=x)
            k = b if k is None else k * b
        want.append(k)
    got = list(s.basis_states)
    if got != want:
        raise Bad("basis states of %s" % s)
    for k in rng.sample(range(len(lab)), min(5, len(lab))):
        if s.basis_state(k) != want[k] or s.basis_state(lab[k]) != want[k]:
            raise Bad("basis_state(%r) or (%r) of %s" % (k, lab[k], s))
        if want[k].space != s:
            raise Bad("space of basis state")
    raises(IndexError, lambda: s.basis_state(len(lab)), 'basis_state(dim)')
    raises(IndexError, lambda: s.basis_state(-1), 'basis_state(-1)')
    raises(KeyError, lambda: s.basis_state('nolabel'), 'basis_state(label)')
    raises(KeyError, lambda: s.basis_state(','.join(['??'] * len(f))),
           'basis_state(labels)')
    case.saw('product basis')


def ident_of(s):
    return (isinstance(s, SpinSpace), s.label,
            s.basis_labels if s.has_basis else None,
            s.kwargs['order_index'], s.kwargs['local_identifiers'])


def local(case, rng, s, lb, kw, i):
    case.phase = 'local'
    if ident_of(s) != i or s.label != str(lb) or s.args != (str(lb),):
        raise Bad("attributes of %r: %s, expected %s" % (s, ident_of(s), i))
    for t in (s.rebuild(), type(s)(*s.args, **s.kwargs),
              type(s)(*s.args, **s.minimal_kwargs),
              type(s).create(*s.args, **s.kwargs)):
        if t != s or hash(t) != hash(s) or ident_of(t) != i:
            raise Bad("rebuilt %r from %r" % (t, s))
    case.saw('rebuild')
    b = i[2]
    bad = rng.choice([
        lambda: LocalSpace('a b'), lambda: LocalSpace(''),
        lambda: LocalSpace('_x'), lambda: LocalSpace('x__y'),
        lambda: LocalSpace(0, basis=('a', 'b'), dimension=3),
        lambda: SpinSpace(0, spin='1/3'), lambda: SpinSpace(0, spin=0),
        lambda: SpinSpace(0, spin=-1),
        lambda: SpinSpace(0, spin='1/2', basis=('up', 'down')),
        lambda: SpinSpace(0, spin='1/2', basis=['up', 'down']),
        lambda: SpinSpace(0, spin='1/2', basis=('+', '-')),
        lambda: SpinSpace(0, spin=1, basis=('a', 'b')),
        lambda: ProductSpace(s, s)])
    raises(ValueError, bad, 'invalid space')
    case.saw('invalid space')
    if b is None:
        if s.has_basis:
            raise Bad("has_basis")
        raises(BasisNotSetError, lambda: s.dimension, 'dimension')
        raises(BasisNotSetError, lambda: s.basis_labels, 'basis_labels')
        raises(BasisNotSetError, lambda: list(s.basis_states), 'basis_states')
        k, n = rng.randint(0, 5), rng.randint(-4, 4)
        if s.basis_state(k) != BasisKet(k, hs=s) or \
                BasisKet(k, hs=s).index != k:
            raise Bad("basis_state(%d)" % k)
        raises(IndexError, lambda: s.basis_state(-1), 'basis_state(-1)')
        if k + n < 0:
            raises(IndexError, lambda: s.next_basis_label_or_index(k, n),
                   'next label')
            if BasisKet(k, hs=s).next(n) is not qnet.ZeroKet:
                raise Bad("next")
        else:
            if s.next_basis_label_or_index(k, n) != k + n or \
                    BasisKet(k, hs=s).next(n) != BasisKet(k + n, hs=s):
                raise Bad("next label")
        return
    d = len(b)
    if not s.has_basis or s.dimension != d or s.basis_labels != b:
        raise Bad("basis %s, dimension %s" % (s.basis_labels, s.dimension))
    if i[0]:
        if s.spin != sympy.Rational(kw['spin']) or s.multiplicity != d:
            raise Bad("spin")
        case.saw('spin')
    st = list(s.basis_states)
    if [x.label for x in st] != list(b) or [x.index for x in st] != list(
            range(d)) or any(x.space != s for x in st) or len(set(st)) != d:
        raise Bad("basis states %s" % st)
    for k in range(d):
        x = s.basis_state(b[k])
        if x != st[k]:
            raise Bad("basis_state(%r)" % b[k])
        if not i[0] and (s.basis_state(k) != st[k] or
                         BasisKet(k, hs=s) != st[k]):
            raise Bad("basis_state(%d)" % k)
        n = rng.randint(-3, 3)
        if 0 <= k + n < d:
            if s.next_basis_label_or_index(b[k], n) != b[k + n] or \
                    st[k].next(n) != st[k + n] or \
                    (st[k].prev(-n) != st[k + n]):
                raise Bad("next label of %s by %d" % (b[k], n))
            e = b[k + n] if i[0] else k + n
            if s.next_basis_label_or_index(k, n) != e:
                raise Bad("next index of %d by %d" % (k, n))
        else:
            raises(IndexError, lambda: s.next_basis_label_or_index(b[k], n),
                   'next label')
            raises(IndexError, lambda: s.next_basis_label_or_index(k, n),
                   'next index')
            if st[k].next(n) is not qnet.ZeroKet:
                raise Bad("next of the last label")
        case.saw('next label')
    if not i[0]:
        raises(IndexError, lambda: s.basis_state(d), 'basis_state(dim)')
        raises(IndexError, lambda: s.basis_state(-1), 'basis_state(-1)')
    raises(KeyError, lambda: s.basis_state('nolabel'), 'basis_state')
    case.saw('local basis')
