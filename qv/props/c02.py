"""C02: type-incorrect compositions are rejected, valid ones are not"""
from ..common import *
import numpy as np
import sympy
import qnet
from qnet import *   # noqa
from qnet.algebra.core.exceptions import (
    AlgebraError, BasisNotSetError, UnequalSpaces, OverlappingSpaces,
    SpaceTooLargeError, WrongCDimError, IncompatibleBlockStructures,
    NonSquareMatrix)
from qnet.utils.permutations import BadPermutationError
from qnet.algebra.core.state_algebra import State, KetIndexedSum
from qnet.algebra.core.operator_algebra import (
    Operator, OperatorDerivative, OperatorIndexedSum)
from qnet.algebra.core.super_operator_algebra import SuperOperator
from qnet.algebra.core.scalar_algebra import Scalar
from qnet.algebra.core.circuit_algebra import Feedback, SeriesProduct
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.hilbert_space_algebra import TrivialSpace
from qnet.utils.check_rules import check_rules_dict
from qnet.utils.indices import IndexOverRange, IndexOverList, IndexOverFockSpace
from qnet.algebra.pattern_matching import pattern, pattern_head, wc
from .. import slh as M

N_QUICK, N_THOROUGH = 40000, 600000
RULE = ("binary compositions (+, -, *, / and the explicit constructors) of "
        "random operators, kets, bras, superoperators, scalars and numbers "
        "over all overlaps of operand spaces, basis labels and spin numbers "
        "around the border of their range, circuits around the border of "
        "cdim/port compatibility, matrices of all small shapes, indices, "
        "sums, rules and derivatives; the outcome (value or class of the "
        "exception) is compared with an independent validity predicate; "
        "non-trivial: a rejected or a composite operand; distinct by "
        "programs of the operands")
REQUIRED = ['rejected', 'accepted', 'compose', 'constructor', 'basis label',
            'basis label symbolic', 'spin label', 'hs type', 'label',
            'cdim', 'ports', 'blocks', 'slh shape', 'matrix shape',
            'index', 'sum ranges', 'rules', 'derivative', 'permutation',
            'coherent_input', 'exact exception', 'UnequalSpaces',
            'OverlappingSpaces', 'SpaceTooLargeError', 'power', 'arg count']

ANY = (AlgebraError, TypeError, ValueError)
OKAY = None


def judge(case, what, f, want, **detail):
    """`want`: None (must be accepted) or a tuple of exception classes"""
    case.phase = 'run'
    case.info['what'] = what
    try:
        r = f()
    except Exception as e:
        if want is OKAY:
            raise Bad("%s: a valid composition is rejected with %s: %s"
                      % (what, type(e).__name__, e), **detail)
        if not isinstance(e, want):
            raise Bad("%s: raised %s (%s), documented is %s"
                      % (what, type(e).__name__, e,
                         "/".join(w.__name__ for w in want)), **detail)
        case.saw('rejected')
        case.nontrivial = True
        for w in (UnequalSpaces, OverlappingSpaces, SpaceTooLargeError):
            if isinstance(e, w):
                case.saw(w.__name__)
        return None
    if want is ANY and is_null(r):
        # a product of several factors may vanish before the type error in
        # another factor becomes visible
        return r
    if want is not OKAY:
        raise Bad("%s: accepted (%s), but it is invalid and must raise %s"
                  % (what, type(r).__name__,
                     "/".join(w.__name__ for w in want)),
                  result=str(r), **detail)
    case.saw('accepted')
    return r


# -- compositions -----------------------------------------------------------

def kind(q):
    if isinstance(q, Scalar):
        return 'num'
    if isinstance(q, Operator):
        return 'op'
    if isinstance(q, State):
        return 'ket' if q.isket else 'bra'
    if isinstance(q, SuperOperator):
        return 'sop'
    return 'num'


def is_null(q):
    if kind(q) == 'bra':
        return q.ket is ZeroKet
    try:
        return bool(q == 0) or bool(q.is_zero)
    except AttributeError:
        return False


def facs(q):
    """set of local factors of the space of `q`"""
    sp = getattr(q, 'space', TrivialSpace)
    return frozenset(sp.local_factors)


def valid_add(a, b):
    ka, kb = kind(a), kind(b)
    if is_null(a) or is_null(b):
        if ka == kb and ka != 'bra':
            return OKAY
        return 'skip'
    if ka == kb:
        if ka in ('ket', 'bra'):
            return OKAY if facs(a) == facs(b) else (UnequalSpaces,)
        return OKAY
    ks = {ka, kb}
    if 'num' in ks:
        o = (ks - {'num'}).pop()
        if o in ('op', 'sop'):
            return OKAY
        q = a if ka == o else b
        if not facs(q):
            return 'skip'
        return ANY
    return (TypeError,)


def valid_mul(a, b):
    ka, kb = kind(a), kind(b)
    if 'num' in (ka, kb):
        return OKAY
    if is_null(a) or is_null(b):
        if (ka, kb) in {('op', 'op'), ('op', 'ket'), ('bra', 'op'),
                        ('ket', 'ket'), ('sop', 'sop'), ('sop', 'op')} and (
                            (a is ZeroKet or b is ZeroKet or
                             a is ZeroOperator or b is ZeroOperator or
                             a is ZeroSuperOperator or
                             b is ZeroSuperOperator)):
            return OKAY
        return 'skip'
    fa, fb = facs(a), facs(b)
    if (ka, kb) in {('op', 'op'), ('sop', 'sop')}:
        return OKAY
    if (ka, kb) == ('sop', 'op'):
        return OKAY
    if (ka, kb) == ('op', 'ket'):
        return OKAY if fa <= fb else (SpaceTooLargeError,)
    if (ka, kb) == ('bra', 'op'):
        return OKAY if fb <= fa else (SpaceTooLargeError,)
    if (ka, kb) in {('ket', 'ket'), ('bra', 'bra')}:
        return (OverlappingSpaces,) if fa & fb else OKAY
    if (ka, kb) in {('bra', 'ket'), ('ket', 'bra')}:
        return OKAY if fa == fb else (UnequalSpaces,)
    return (TypeError,)


def rand_obj(case, ctx, g, depth):
    rng = case.rng
    k = rng.choice(['op', 'op', 'ket', 'ket', 'ket', 'bra', 'bra', 'sop',
                    'scalar', 'native'])
    d = rng.choice([0, 0, 1, 2, depth])
    keys = g.pick_spaces()
    if k == 'op':
        r = g.op(d, keys) if rng.random() < .7 else g.op_leaf(keys)
    elif k == 'ket':
        r = g.ket(keys, d)
    elif k == 'bra':
        r = g.bra(keys, d)
    elif k == 'sop':
        r = g.sop(min(d, 2), keys)
    elif k == 'scalar':
        r = g.scalar(d, qnet_scalar=True)
    else:
        r = g.native(1)
    return r, d


def compose(case):
    rng = case.rng
    ctx = R.random_spaces(rng, n=rng.choice([1, 2, 3, 3]), fock=True,
                          maxdim=12)
    g = R.Gen(rng, ctx)
    (ra, da), (rb, db) = rand_obj(case, ctx, g, 3), rand_obj(case, ctx, g, 3)
    case.key = [ra, rb]
    case.info['recipe'] = [ra, rb]
    case.phase = 'build'
    a, b = R.build(ctx, ra), R.build(ctx, rb)
    case.sample = "%s  ?  %s" % (a, b)
    ka, kb = kind(a), kind(b)
    det = dict(a=repr(a), b=repr(b))
    leafs = not (hasattr(a, 'operands') or hasattr(b, 'operands'))
    if kind(a) == 'bra' or kind(b) == 'bra':
        leafs = leafs or (da == 0 and db == 0)

    def loosen(w):
        if w is OKAY or w == 'skip':
            return w
        if leafs:
            case.saw('exact exception')
            return w
        return ANY
    both_native = not (hasattr(a, 'space') or hasattr(b, 'space'))
    w = loosen(valid_add(a, b))
    if w != 'skip' and not both_native:
        judge(case, '%s + %s' % (ka, kb), lambda: a + b, w, **det)
        judge(case, '%s - %s' % (ka, kb), lambda: a - b, w, **det)
        case.saw('compose')
    w = loosen(valid_mul(a, b))
    if w != 'skip' and not both_native:
        judge(case, '%s * %s' % (ka, kb), lambda: a * b, w, **det)
        case.saw('compose')
    # division by anything that is not a scalar
    if kb != 'num':
        judge(case, '%s / %s' % (ka, kb), lambda: a / b, (TypeError,), **det)
        case.saw('compose')
    # explicit constructors
    cls, args, w = None, (a, b), 'skip'
    null = is_null(a) or is_null(b)
    x = rng.random()
    if ka == kb == 'ket' and not null:
        fa, fb = facs(a), facs(b)
        same = OKAY if fa == fb else (UnequalSpaces,)
        disj = (OverlappingSpaces,) if fa & fb else OKAY
        cls, w = rng.choice([
            (KetPlus, same), (TensorKet, disj), (BraKet, same),
            (KetBra, same)])
        if cls is TensorKet and TrivialKet in (a, b):
            w = 'skip'
    elif ka == 'op' and kb == 'ket' and not null:
        cls = OperatorTimesKet
        w = OKAY if facs(a) <= facs(b) else (SpaceTooLargeError,)
    elif 'bra' in (ka, kb) and {ka, kb} <= {'bra', 'ket'}:
        cls = rng.choice([KetPlus, TensorKet, BraKet, KetBra])
        w = (TypeError,)
        if null:
            w = 'skip'
    elif ka in ('op', 'sop', 'num') and kb == 'bra' and not null:
        cls, w = OperatorTimesKet, (TypeError,)
        if ka == 'num':
            w = 'skip'
    elif ka in ('op', 'sop') and kb in ('op', 'ket') and ka != kb:
        cls = rng.choice([KetPlus, TensorKet, BraKet, KetBra])
        w = 'skip' if null else (TypeError,)
    elif ka == 'bra' and x < .5:
        cls, args, w = Bra, (a,), (TypeError,)
    if w != 'skip' and cls is not None:
        case.info['cls'] = cls.__name__
        w2 = w
        if w is not OKAY and not leafs:
            w2 = ANY
        judge(case, '%s(%s)' % (cls.__name__, ', '.join(map(kind, args))),
              lambda: cls(*args), w2 if w is not OKAY else w, **det)
        if w2 is OKAY or 'bra' not in (ka, kb):
            judge(case, '%s.create(%s)' % (
                cls.__name__, ', '.join(map(kind, args))),
                lambda: cls.create(*args), w2 if w is not OKAY else w, **det)
        case.saw('constructor')
    # three kets that overlap only in the last pair
    if ka == 'ket' and kb == 'ket' and not null and not facs(a) & facs(b):
        judge(case, 'ket*ket*ket', lambda: (a * b) * a, ANY if facs(a)
              else OKAY, **det)
    # powers
    if rng.random() < .3 and hasattr(a, 'space') and ka != 'num':
        e = rng.choice([0, 1, 2, 3, -1, -2, 0.5, 'x', None])
        ee = sympy.Symbol('x') if e == 'x' else a if e is None else e
        if ka in ('op', 'sop'):
            w = OKAY if e in (0, 1, 2, 3) else (TypeError,)
            if is_null(a) or a in (IdentityOperator, IdentitySuperOperator):
                w = w if w is OKAY else 'skip'
        else:
            w = OKAY if e in (0, 1) else ANY
            if is_null(a) or not facs(a):
                w = 'skip'
        if w != 'skip':
            judge(case, '%s ** %s' % (ka, e), lambda: a ** ee, w, **det)
            case.saw('power')
    # too few operands
    if rng.random() < .1:
        cls = {'op': rng.choice([OperatorPlus, OperatorTimes]),
               'ket': rng.choice([KetPlus, TensorKet]),
               'sop': rng.choice([SuperOperatorPlus, SuperOperatorTimes]),
               }.get(ka)
        if cls is not None and not null:
            judge(case, '%s of one operand' % cls.__name__, lambda: cls(a),
                  (TypeError,), **det)
            case.saw('constructor')


# -- basis labels ------------------------------------------------------------

def labels(case):
    rng = case.rng
    lb = rng.choice(['q', 0, 'a_1', 7])
    k = rng.choice(['basis', 'dim', 'none', 'spin'])
    kinds = ['BasisKet', 'LocalSigma0', 'LocalSigma1', 'LocalProjector',
             'basis_state', 'BasisKet.create', 'LocalSigma.create']
    what = rng.choice(kinds)
    order = {} if rng.random() < .6 else {'order_index': 3}
    if k == 'basis':
        bs = tuple(rng.sample(['g', 'e', 'r', '0', '1', 'x', '10'],
                              rng.choice([1, 2, 3, 4])))
        hs = LocalSpace(lb, basis=bs, **order)
    elif k == 'dim':
        n = rng.choice([1, 2, 3, 11])
        bs = tuple(map(str, range(n)))
        hs = LocalSpace(lb, dimension=n, **order)
    elif k == 'none':
        bs = None
        hs = LocalSpace(lb, **order)
    else:
        n2 = rng.choice([1, 2, 3, 4, 5])
        s = sympy.Rational(n2, 2)
        hs = SpinSpace(lb, spin=s, **order)
        bs = tuple(R_spin(m, n2) for m in range(-n2, n2 + 1, 2))
    if rng.random() < .45:
        x = rng.randint(-2, (len(bs) if bs else 5) + 1)
    elif rng.random() < .6 and bs:
        x = rng.choice(bs)
    else:
        x = rng.choice(['g', 'e', 'zz', '', '0', '1', '2', '-1', '00', '1.0',
                        '+1', '+1/2', '-1/2', '3/2', '+3/2', '0 ', 'G'])
    if rng.random() < .06:
        x = rng.choice([1.0, 0.5, (0,), b'g'])
    case.key = [what, k, repr(hs), repr(x)]
    case.sample = '%s %r in %r' % (what, x, hs)
    case.saw('spin label' if k == 'spin' else 'basis label')
    if isinstance(x, str):
        if bs is None:
            w = (BasisNotSetError,)
        else:
            w = OKAY if x in bs else (ValueError,)
    elif isinstance(x, int):
        if k == 'spin':
            w = (TypeError,)
        elif x < 0 or (bs is not None and x >= len(bs)):
            w = (ValueError,)
        else:
            w = OKAY
    else:
        w = (TypeError,)
    ok = (bs[0] if bs else 0)
    if what == 'BasisKet':
        r = judge(case, 'BasisKet(%r)' % (x,), lambda: BasisKet(x, hs=hs), w)
        if r is not None:
            idx = bs.index(x) if isinstance(x, str) else x
            if r.index != idx or r.space != hs:
                raise Bad("BasisKet has the wrong index %s" % r.index)
    elif what == 'LocalSigma0':
        judge(case, 'LocalSigma(%r,.)' % (x,),
              lambda: LocalSigma(x, ok, hs=hs), w)
    elif what == 'LocalSigma1':
        judge(case, 'LocalSigma(.,%r)' % (x,),
              lambda: LocalSigma(ok, x, hs=hs), w)
    elif what == 'LocalProjector':
        judge(case, 'LocalProjector(%r)' % (x,),
              lambda: LocalProjector(x, hs=hs), w)
    elif what == 'basis_state':
        if k == 'spin' and isinstance(x, int):
            return
        if bs is None and not isinstance(x, str):
            w = OKAY if isinstance(x, int) and x >= 0 else ANY + (IndexError,)
        elif isinstance(x, str):
            w = w if w is OKAY else (KeyError, BasisNotSetError)
        elif isinstance(x, int):
            w = w if w is OKAY else (IndexError,)
        else:
            w = ANY + (KeyError, IndexError)
        judge(case, 'basis_state(%r)' % (x,), lambda: hs.basis_state(x), w)
    elif what == 'BasisKet.create':
        if k == 'spin' and isinstance(x, int):
            return
        out = (isinstance(x, int) and k != 'spin' and w is not OKAY)
        r = judge(case, 'BasisKet.create(%r)' % (x,),
                  lambda: BasisKet.create(x, hs=hs), OKAY if out else w)
        if out and r is not ZeroKet:
            raise Bad("out of range level gives %s, not ZeroKet" % r)
    else:
        judge(case, 'LocalSigma.create(%r)' % (x,),
              lambda: LocalSigma.create(x, ok, hs=hs), w)


def R_spin(m2, n2):
    if n2 % 2 == 0:
        m = m2 // 2
        return ('+%d' % m) if m > 0 else str(m)
    return ('+%d/2' % m2) if m2 > 0 else '%d/2' % m2


def spin_ket(case):
    rng = case.rng
    n2 = rng.choice([1, 2, 3, 4, 5])
    hs = SpinSpace('s', spin=sympy.Rational(n2, 2))
    if rng.random() < .15:
        hs = LocalSpace('s', basis=('a', 'b'))
        case.key = ['SpinBasisKet no spin']
        judge(case, 'SpinBasisKet without spin space',
              lambda: SpinBasisKet(1, 2, hs=hs), (TypeError,))
        return
    nargs = rng.choice([1, 2, 2, 1, 3, 0])
    args = [rng.randint(-n2 - 2, n2 + 2)][:nargs]
    if nargs > 1:
        args.append(rng.choice([2, 2, 2, 1, 3, 4]))
    if nargs > 2:
        args.append(2)
    case.key = ['SpinBasisKet', n2, args]
    case.sample = 'SpinBasisKet%r in spin %d/2' % (tuple(args), n2)
    case.saw('spin label')
    if n2 % 2 == 0:
        if nargs != 1:
            w = (TypeError,)
        else:
            w = OKAY if abs(args[0]) <= n2 // 2 else (ValueError,)
    else:
        if nargs != 2:
            w = (TypeError,)
        elif args[1] != 2:
            w = (ValueError,)
        elif abs(args[0]) > n2:
            w = (ValueError,)
        elif args[0] % 2 == 0:
            w = (ValueError,)
        else:
            w = OKAY
    r = judge(case, 'SpinBasisKet%r' % (args,),
              lambda: SpinBasisKet(*args, hs=hs), w)
    if r is not None:
        m2 = args[0] * (2 if n2 % 2 == 0 else 1)
        if r.index != (m2 + n2) // 2:
            raise Bad("SpinBasisKet%s has index %s" % (args, r.index))


def symbolic_labels(case):
    rng = case.rng
    i = IdxSym('i')
    n = sympy.Symbol('n', integer=True)
    case.saw('basis label symbolic')
    spin = SpinSpace('s', spin=1)
    fock = LocalSpace('f')
    x, w, hs = rng.choice([
        (FockIndex(i), OKAY, fock), (FockIndex(i + 1), OKAY, fock),
        (FockIndex(i), (TypeError,), spin),
        (SpinIndex(i, hs=spin), OKAY, spin),
        (SpinIndex(i, hs=spin), (TypeError,), fock),
        (FockLabel(i, hs=fock), OKAY, fock),
        (StrLabel(i), (TypeError,), fock),
        (StrLabel(i), OKAY, LocalSpace('b', basis=('a', 'b'))),
        (IntIndex(i), (TypeError,), fock),
        (i, (TypeError,), fock), (n, (TypeError,), fock)])
    if isinstance(x, StrLabel):
        return
    case.key = ['sym', repr(x), repr(hs)]
    case.sample = 'label %r in %r' % (x, hs)
    judge(case, 'BasisKet(%s)' % x, lambda: BasisKet(x, hs=hs), w)
    judge(case, 'LocalSigma(%s)' % x, lambda: LocalSigma(x, x, hs=hs), w)


# -- spaces of operators, labels --------------------------------------------

def hs_types(case):
    rng = case.rng
    h1, h2 = LocalSpace(1), LocalSpace('x', basis=('g', 'e'))
    sp = SpinSpace('s', spin=rng.choice([sympy.Rational(1, 2), 1]))
    hs = rng.choice([h1, h2, sp, h1 * h2, sp * h1, 1, 'k',
                     TrivialSpace, FullSpace])
    cls, args = rng.choice([
        (Destroy, ()), (Create, ()), (Jz, ()), (Jplus, ()), (Jminus, ()),
        (Phase, (0.5,)), (Displace, (0.5,)), (Squeeze, (0.5,)),
        (CoherentStateKet, (0.5,)), (LocalSigma, (0, 0)), (BasisKet, (0,)),
        (KetSymbol, ('P',)), (OperatorSymbol, ('P',)),
        (SuperOperatorSymbol, ('P',))])
    local = isinstance(hs, LocalSpace)
    spinop = cls in (Jz, Jplus, Jminus)
    if cls in (KetSymbol, OperatorSymbol, SuperOperatorSymbol):
        w = OKAY if isinstance(hs, (HilbertSpace, int, str)) else 'skip'
    elif spinop:
        w = OKAY if hs is sp else (TypeError,)
    elif cls in (LocalSigma, BasisKet):
        w = OKAY if (local and hs is not sp) or isinstance(hs, (int, str)) \
            else (TypeError,)
        if hs is h2 or isinstance(hs, (int, str)) or hs is h1:
            w = OKAY
    else:
        w = OKAY if local or isinstance(hs, (int, str)) else (TypeError,)
        if hs is sp:
            w = 'skip'
    if cls in (LocalSigma, BasisKet) and w is not OKAY:
        w = ANY + (AttributeError,)
    case.key = [cls.__name__, repr(hs)]
    case.sample = '%s%r hs=%r' % (cls.__name__, args, hs)
    if w != 'skip':
        case.saw('hs type')
        judge(case, '%s(hs=%r)' % (cls.__name__, hs),
              lambda: cls(*args, hs=hs), w)
        judge(case, '%s.create(hs=%r)' % (cls.__name__, hs),
              lambda: cls.create(*args, hs=hs), w)
    # number of arguments
    cls = rng.choice([Destroy, Create, Jz, Phase, Displace, Squeeze,
                      LocalSigma])
    n = rng.choice([0, 1, 2, 3])
    need = {'Phase': 1, 'Displace': 1, 'Squeeze': 1,
            'LocalSigma': 2}.get(cls.__name__, 0)
    hs = sp if cls is Jz else h1
    args = ([0, 1, 2] if cls is LocalSigma else [0.5, 0.25, 0.1])[:n]
    case.saw('arg count')
    judge(case, '%s%r' % (cls.__name__, tuple(args)),
          lambda: cls(*args, hs=hs), OKAY if n == need else ANY)


def names(case):
    """labels of symbols and spaces"""
    rng = case.rng
    alpha = 'aAzZ19_+-.()=, *^/'
    s = ''.join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 2, 3, 4, 6])))
    if rng.random() < .4:
        s = rng.choice(['A', 'a1', 'rho', 'Psi_1', 'A_a=1', 'A_(1)', 'A_+-',
                        'A__1', 'A_', '1A', '_A', 'A B', 'A_1_2', '',
                        'H_int', 'x.y', 'A_1,2', 'a_i', "a'"])
    case.saw('label')
    case.key = ['name', s]
    case.sample = 'label %r' % s
    an = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
    num_ = set('0123456789')

    def ok(first, headset, extra):
        h, sep, t = s.partition('_')
        if not h or h[0] not in first or set(h) - headset:
            return False
        if sep and (not t or set(t) - (an | num_ | extra)):
            return False
        return True
    q = ok(an, an | num_, set('().+-='))
    if set(s) & set(',/:;<'):
        return      # not clear from the documentation
    w = OKAY if q else (ValueError,)
    judge(case, 'OperatorSymbol(%r)' % s, lambda: OperatorSymbol(s, hs=1), w)
    # ket labels are looser: digits, signs and almost anything afterwards
    if q:
        judge(case, 'KetSymbol(%r)' % s, lambda: KetSymbol(s, hs=1), OKAY)
    elif not s or not s[0] in an | num_ | set('+-'):
        judge(case, 'KetSymbol(%r)' % s, lambda: KetSymbol(s, hs=1),
              (ValueError,))
    judge(case, 'SuperOperatorSymbol(%r)' % s,
          lambda: SuperOperatorSymbol(s, hs=1), w)
    wc_ = OKAY if ok(an, an | num_, set('().+-')) else (ValueError,)
    judge(case, 'CircuitSymbol(%r)' % s, lambda: CircuitSymbol(s, cdim=2), wc_)
    wi = OKAY if ok(an, an, set('().,+-')) else (ValueError,)
    case.saw('index')
    judge(case, 'IdxSym(%r)' % s, lambda: IdxSym(s), wi)


def spaces(case):
    rng = case.rng
    case.key = ['space', rng.random()]
    case.nontrivial = True
    n = rng.choice([0, 1, 2, 3])
    basis = rng.choice([('a', 'b'), ('a', 'b', 'c'), ('0',)])
    judge(case, 'LocalSpace(basis=%r, dimension=%r)' % (basis, n),
          lambda: LocalSpace('x', basis=basis, dimension=n),
          OKAY if n == len(basis) else (ValueError,))
    sv = rng.choice([sympy.Rational(1, 2), sympy.Rational(1, 3), 1, 0, -1,
                     sympy.Rational(-1, 2), sympy.Rational(5, 2), 2,
                     sympy.Rational(3, 4), sympy.Integer(3)])
    good = sv > 0 and 2 * sv == int(2 * sv)
    judge(case, 'SpinSpace(spin=%s)' % sv, lambda: SpinSpace('x', spin=sv),
          OKAY if good else ANY)
    p = rng.choice([-2, -1, 0, 1, 2])
    judge(case, 'IdxSym primed=%d' % p, lambda: IdxSym('i', primed=p),
          OKAY if p >= 0 else (ValueError,))
    i = IdxSym('i')
    x = sympy.Symbol('x')
    e, good = rng.choice([(i, 1), (i + 1, 1), (2 * i, 1), (i + x, 1),
                          (x, 0), (sympy.Integer(1), 0), (x + 1, 0)])
    cls = rng.choice([IntIndex, FockIndex, StrLabel])
    judge(case, '%s(%s)' % (cls.__name__, e), lambda: cls(e),
          OKAY if good else (ValueError,))
    hs, w = rng.choice([(SpinSpace('s', spin=1), OKAY),
                        (LocalSpace('s'), (ValueError,)),
                        (LocalSpace('s', basis=('a', 'b')), (ValueError,))])
    judge(case, 'SpinIndex(i, %r)' % hs, lambda: SpinIndex(i, hs=hs), w)
    case.saw('index')


def sums(case):
    rng = case.rng
    i, j, k = IdxSym('i'), IdxSym('j'), IdxSym('k')
    n = rng.choice([1, 2, 3])
    syms_ = [rng.choice([i, j, k]) for _ in range(n)]
    hs = LocalSpace('a', dimension=3)
    rs = []
    for s in syms_:
        rs.append(rng.choice([IndexOverRange(s, 0, 2),
                              IndexOverList(s, (0, 1)),
                              IndexOverFockSpace(s, hs=hs)]))
    term = rng.choice([
        BasisKet(FockIndex(i), hs=hs),
        LocalSigma(FockIndex(i), FockIndex(j), hs=hs),
        OperatorSymbol('A', hs=hs) * sympy.IndexedBase('a')[i],
        Bra(BasisKet(FockIndex(i), hs=hs))])
    good = len(set(syms_)) == n
    isket = isinstance(term, State)
    cls = KetIndexedSum if isket else OperatorIndexedSum
    case.key = ['sum', repr(term), repr(rs)]
    case.sample = 'sum of %s over %s' % (term, rs)
    case.saw('sum ranges')
    w = OKAY if good else (ValueError,)
    if isinstance(term, Bra):
        judge(case, 'KetIndexedSum(bra)', lambda: cls(term, *rs),
              (TypeError,) if good else ANY)
    else:
        judge(case, 'indexed sum', lambda: cls(term, *rs), w)
    dup = {s for s in syms_ if syms_.count(s) > 1}
    if good or dup & term.free_symbols:
        judge(case, 'indexed sum', lambda: cls.create(term, *rs), w)
    bad = rng.choice([(i, 0, 2), i, 3, [0, 1]])
    judge(case, 'indexed sum with range %r' % (bad,),
          lambda: cls(term, bad), (TypeError,) + (ANY if isinstance(
              term, Bra) else ()))
    other = rng.choice([OperatorSymbol('B', hs=hs), KetSymbol('B', hs=hs),
                        KetSymbol('B', hs=1), OperatorSymbol('B', hs=1)])
    if good:
        s = cls.create(term, *rs)
        w = valid_add(s, other)
        if w != 'skip':
            judge(case, 'sum + %s' % other, lambda: s + other,
                  w if w is OKAY else ANY)
        w = valid_mul(s, other)
        if w != 'skip':
            judge(case, 'sum * %s' % other, lambda: s * other,
                  w if w is OKAY else ANY)
        w = valid_mul(other, s)
        if w != 'skip':
            judge(case, '%s * sum' % other, lambda: other * s,
                  w if w is OKAY else ANY)


# -- derivatives, rules -------------------------------------------------------

def derivs(case):
    rng = case.rng
    x, y = sympy.symbols('x y')
    o = rng.choice([
        OperatorSymbol('A', x, y, hs=1), KetSymbol('P', x, y, hs=1),
        SuperOperatorSymbol('L', x, y, hs=1),
        BraKet.create(KetSymbol('P', x, y, hs=1), KetSymbol('Q', x, y, hs=1))])
    cls = {Operator: qnet.OperatorDerivative, }.get(None)
    cls = (qnet.OperatorDerivative if isinstance(o, Operator) else
           qnet.algebra.core.state_algebra.StateDerivative
           if isinstance(o, State) else
           qnet.algebra.core.super_operator_algebra.SuperOperatorDerivative
           if isinstance(o, SuperOperator) else
           qnet.algebra.core.scalar_algebra.ScalarDerivative)
    ds = {s: rng.choice([-1, 0, 1, 2]) for s in rng.sample([x, y], rng.choice([1, 2]))}
    vs = {s: 1 for s in rng.sample([x, y], rng.choice([0, 1, 2]))}
    case.key = ['deriv', repr(o), repr(ds), repr(vs)]
    case.sample = 'derivative %s of %s at %s' % (ds, o, vs)
    case.saw('derivative')
    w = OKAY
    if any(n <= 0 for n in ds.values()):
        w = (ValueError,)
    elif set(vs) - set(ds):
        w = (ValueError,)
    judge(case, '%s derivs=%s vals=%s' % (cls.__name__, ds, vs),
          lambda: cls(o, derivs=ds, vals=vs or None), w)
    bad = rng.choice(['x', 3, 2.5])
    judge(case, 'diff(%r)' % bad, lambda: o.diff(bad), (TypeError,))
    judge(case, 'derivs {%r: 1}' % bad, lambda: cls(o, derivs={bad: 1}),
          (TypeError,))


def rules(case):
    rng = case.rng
    A_ = wc('A', head=OperatorSymbol)
    B_ = wc('B', head=OperatorSymbol)
    pats = [(pattern_head(A_, B_), {'A', 'B'}, 'ok'),
            (pattern_head(A_), {'A'}, 'ok'),
            (pattern(OperatorTimes, A_, B_), {'A', 'B'}, 'value'),
            (OperatorTimes, set(), 'type')]
    repls = [(lambda A, B: A, {'A', 'B'}), (lambda A: A, {'A'}),
             (lambda: 1, set()), (lambda A, C: A, {'A', 'C'}), (3, None)]
    items, err = [], []
    for _ in range(rng.choice([1, 2, 3])):
        name = rng.choice(['R1', 'R2', 'R3', 7])
        pat, ns, kd = rng.choice(pats)
        rep, an = rng.choice(repls)
        if rng.random() < .6:
            rep, an = {2: repls[0], 1: repls[1], 0: repls[2]}[len(ns)]
        r = (pat, rep)
        if rng.random() < .08:
            r = 3
        items.append((name, r))
    # the first offence decides
    seen = set()
    w = OKAY
    for name, r in items:
        if not isinstance(name, str):
            w = (TypeError,)
        elif name in seen:
            w = (ValueError,)
        elif r == 3:
            w = (TypeError,)
        else:
            pat, rep = r
            kd = [(k_, n_) for p_, n_, k_ in pats if p_ is pat][0]
            an = [a_ for f_, a_ in repls if f_ is rep][0]
            if kd[0] == 'type':
                w = (TypeError,)
            elif kd[0] == 'value' or an is None or an != kd[1]:
                w = (ValueError,)
        seen.add(name)
        if w is not OKAY:
            break
    case.key = ['rules', [(n, r if r == 3 else [
        [p_ is r[0] for p_, _, _ in pats].index(True),
        [f_ is r[1] for f_, _ in repls].index(True)]) for n, r in items]]
    case.sample = 'rules %s' % case.key[1]
    case.saw('rules')
    judge(case, 'check_rules_dict', lambda: check_rules_dict(items), w)
    # add_rule: duplicates, and rejected rules leave no trace
    with temporary_rules(OperatorTimes, clear=rng.random() < .5):
        names_ = list(OperatorTimes.rules())
        have = OrderedSet(names_)
        for name, r in items:
            if r == 3 or not isinstance(name, str):
                continue
            before = list(OperatorTimes.rules())
            pat, rep = r
            kd = [(k_, n_) for p_, n_, k_ in pats if p_ is pat][0]
            an = [a_ for f_, a_ in repls if f_ is rep][0]
            if name in before:
                w = (ValueError,)
            elif kd[0] == 'type':
                w = (TypeError,)
            elif kd[0] == 'value' or an is None or an != kd[1]:
                w = (ValueError,)
            else:
                w = OKAY
            judge(case, 'add_rule(%r)' % name,
                  lambda: OperatorTimes.add_rule(name, pat, rep), w)
            after = list(OperatorTimes.rules())
            want = before + ([name] if w is OKAY else [])
            if after != want:
                raise Bad("rules after add_rule: %s, expected %s"
                          % (after, want))
        nm = rng.choice(['R1', 'R2', 'nope'])
        before = list(OperatorTimes.rules())
        judge(case, 'del_rules(%r)' % nm, lambda: OperatorTimes.del_rules(nm),
              OKAY if nm in before else (KeyError,))


def OrderedSet(x):
    return list(dict.fromkeys(x))


# -- circuits -----------------------------------------------------------------

def circuits(case):
    rng = case.rng
    g = M.CGen(rng, M_ctx(rng))

    def one():
        x = rng.random()
        if x < .35:
            return CircuitSymbol(rng.choice('ABC'), cdim=rng.choice([1, 2, 3]))
        if x < .55:
            return circuit_identity(rng.choice([0, 1, 2, 3]))
        if x < .65:
            n = rng.choice([2, 3, 4])
            p = list(range(n))
            rng.shuffle(p)
            return CPermutation.create(tuple(p))
        if x < .8:
            return rand_slh(rng)
        if x < .9:
            return CircuitSymbol('D', cdim=rng.choice([1, 2])) + \
                rng.choice([CircuitSymbol('E', cdim=1), CIdentity])
        return Beamsplitter()
    a, b = one(), one()
    case.key = ['circuit', repr(a), repr(b)]
    case.sample = '%s, %s' % (a, b)
    n, m = a.cdim, b.cdim
    case.saw('cdim')
    # CircuitZero (cdim 0) is the neutral element of concatenation, not of <<
    w = OKAY if n == m else (ValueError,)
    ok = not (isinstance(a, SLH) and isinstance(b, SLH))
    judge(case, 'a(%d) << b(%d)' % (n, m), lambda: a << b,
          w if w is OKAY else ANY)
    judge(case, 'SeriesProduct.create', lambda: SeriesProduct.create(a, b),
          w if w is OKAY else ANY)
    c = one()
    w3 = OKAY if n == m == c.cdim else ANY
    judge(case, 'SeriesProduct.create(3)',
          lambda: SeriesProduct.create(a, b, c), w3)
    r = judge(case, 'a + b', lambda: a + b, OKAY)
    if r.cdim != n + m:
        raise Bad("cdim %d + %d = %d" % (n, m, r.cdim))
    # ports
    if n > 0:
        o, i = rng.randint(-1, n), rng.randint(-1, n)
        good = n >= 2 and 0 <= o < n and 0 <= i < n
        case.saw('ports')
        if good:
            try:
                a.feedback(out_port=o, in_port=i)
            except Exception as e:
                # a closed loop may be rejected; any other reason is caught
                # by D04
                if isinstance(e, (ValueError, TypeError)) and \
                        'port' in str(e):
                    raise Bad("valid feedback ports %d, %d of cdim %d "
                              "rejected: %s" % (o, i, n, e))
        else:
            judge(case, 'feedback(%d, %d) of cdim %d' % (o, i, n),
                  lambda: a.feedback(out_port=o, in_port=i),
                  ANY + (IndexError,))
        if n == 1:
            judge(case, 'Feedback.create on cdim 1', lambda: Feedback.create(
                a, out_port=0, in_port=0), (ValueError,))
    # blocks
    bs = a.block_structure
    want = [rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([1, 2, 3]))]
    want = tuple(want)
    if rng.random() < .4:
        want = list(bs)
        if len(want) > 1 and rng.random() < .6:
            q = rng.randrange(len(want) - 1)
            want[q:q + 2] = [want[q] + want[q + 1]]
        want = tuple(want)
    cuts = set(np.cumsum(bs).tolist())
    good = sum(want) == n and set(np.cumsum(want).tolist()) <= cuts
    if n > 0:
        case.saw('blocks')
        r = judge(case, 'get_blocks(%s) of %s' % (want, bs),
                  lambda: a.get_blocks(want),
                  OKAY if good else (IncompatibleBlockStructures,
                                     AlgebraError, ValueError))
        if r is not None and tuple(x.cdim for x in r) != want:
            raise Bad("get_blocks(%s) has cdims %s"
                      % (want, [x.cdim for x in r]))
        k = rng.randint(-2, n + 1)
        judge(case, 'index_in_block(%d) of %d' % (k, n),
              lambda: a.index_in_block(k),
              OKAY if 0 <= k < n else (ValueError,))
    # coherent input
    k = rng.choice([n, n, n - 1, n + 1])
    if n > 0 and k > 0:
        case.saw('coherent_input')
        judge(case, 'coherent_input of %d amplitudes' % k,
              lambda: a.coherent_input(*range(1, k + 1)),
              OKAY if k == n else (WrongCDimError,))
    # permutations
    ln = rng.choice([1, 2, 3])
    p = tuple(rng.choice(range(-1, ln + 1)) for _ in range(ln))
    if rng.random() < .4:
        p = list(range(ln))
        rng.shuffle(p)
        p = tuple(p)
    case.saw('permutation')
    judge(case, 'CPermutation.create(%s)' % (p,),
          lambda: CPermutation.create(p),
          OKAY if sorted(p) == list(range(ln)) else (BadPermutationError,))
    # SLH shapes
    sh = (rng.choice([1, 2, 3]), rng.choice([1, 2, 2, 3]))
    lsh = (rng.choice([sh[0], sh[0], 1, 2, 3]), rng.choice([1, 1, 1, 2]))
    if rng.random() < .4:
        sh = (sh[0], sh[0])
    good = sh[0] == sh[1] == lsh[0] and lsh[1] == 1
    case.saw('slh shape')
    judge(case, 'SLH(S%s, L%s)' % (sh, lsh), lambda: SLH(
        Matrix(np.ones(sh, dtype=int)), Matrix(np.ones(lsh, dtype=int)), 0),
        OKAY if good else (ValueError,))


def M_ctx(rng):
    return R.random_spaces(rng, n=1, fock=False, maxdim=2)


def rand_slh(rng):
    n = rng.choice([1, 2, 3])
    return SLH(identity_matrix(n), Matrix(
        [[OperatorSymbol('L_%d' % k, hs=1)] for k in range(n)]),
        OperatorSymbol('H', hs=1))


def matrices(case):
    rng = case.rng
    A = OperatorSymbol('A', hs=1)

    def one(sh=None):
        sh = sh or (rng.choice([1, 2, 3]), rng.choice([1, 2, 3]))
        a = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            a[ix] = rng.choice([A, 0, 1, A + 1, 2 * A, sympy.Symbol('x')])
        return Matrix(a)
    a, b = one(), one()
    s, t = a.shape, b.shape
    case.key = ['matrix', str(a), str(b)]
    case.sample = '%s, %s' % (a, b)
    case.saw('matrix shape')
    case.nontrivial = True
    bro = all(x == y or 1 in (x, y) for x, y in zip(s, t))
    if s == t or not bro:
        w = OKAY if s == t else (ValueError,)
        judge(case, 'matrix %s + %s' % (s, t), lambda: a + b, w)
        judge(case, 'matrix %s - %s' % (s, t), lambda: a - b, w)
    r = judge(case, 'matrix %s * %s' % (s, t), lambda: a * b,
              OKAY if s[1] == t[0] else (ValueError,))
    if r is not None and r.shape != (s[0], t[1]):
        raise Bad("shape of product %s" % (r.shape,))
    judge(case, 'trace of %s' % (s,), lambda: a.trace(),
          OKAY if s[0] == s[1] else (NonSquareMatrix,))
    r = judge(case, 'hstackm', lambda: hstackm((a, b)),
              OKAY if s[0] == t[0] else (ValueError,))
    if r is not None and r.shape != (s[0], s[1] + t[1]):
        raise Bad("shape of hstackm %s" % (r.shape,))
    r = judge(case, 'vstackm', lambda: vstackm((a, b)),
              OKAY if s[1] == t[1] else (ValueError,))
    if r is not None and r.shape != (s[0] + t[0], s[1]):
        raise Bad("shape of vstackm %s" % (r.shape,))
    c, d = one(), one()
    u, v = c.shape, d.shape
    if rng.random() < .6:
        b = one((s[0], t[1]))
        c = one((u[0], s[1]))
        if rng.random() < .5:
            d = one((u[0], t[1]))
        t, u, v = b.shape, c.shape, d.shape
    good = s[0] == t[0] and u[0] == v[0] and s[1] + t[1] == u[1] + v[1]
    if good == (s[1] == u[1] and t[1] == v[1] and good):
        judge(case, 'block_matrix', lambda: block_matrix(a, b, c, d),
              OKAY if good else (ValueError,))
    judge(case, 'three-dimensional matrix',
          lambda: Matrix(np.ones((1, 2, 1), dtype=int)), (ValueError,))
    judge(case, 'SLH(S%s, L%s)' % (s, t), lambda: SLH(a, one(t), 0),
          OKAY if s[0] == s[1] == t[0] and t[1] == 1 else (ValueError,))
    case.saw('slh shape')


KINDS = ([compose] * 10 + [labels] * 4 + [spin_ket, symbolic_labels,
         hs_types, hs_types, names, names, spaces, sums, sums, derivs, rules]
         + [circuits] * 5 + [matrices] * 3)


def run_case(case):
    f = case.rng.choice(KINDS)
    case.info['group'] = f.__name__
    f(case)
