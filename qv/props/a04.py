"""A04: scalar arithmetic"""
import cmath
import math
import operator
from fractions import Fraction

import numpy as np
import sympy

from ..common import *
from ..symeval import eval_sympy
import qnet
from qnet import (
    Scalar, ScalarValue, Zero, One, ScalarPlus, ScalarTimes, ScalarPower,
    ScalarIndexedSum, IdxSym)
from qnet.algebra.core.scalar_algebra import sqrt as qsqrt, is_scalar
from qnet.utils.indices import IndexOverRange, IndexOverList

N_QUICK, N_THOROUGH = 40000, 600000
RULE = ("random scalar programs: every binary/unary/reflected operator applied"
        " to operands drawn from {Zero, One, ScalarValue, BraKet, ScalarPlus, "
        "ScalarTimes, ScalarPower, ScalarIndexedSum, int, float, complex, "
        "numpy scalars, sympy numbers and expressions}; values compared with "
        "exact/complex arithmetic; non-trivial: at least one QNET operand; "
        "distinct by program text")
REQUIRED = ('binary compared', 'conversion compared', 'comparison compared',
            'floor/mod compared', 'function compared', 'zero division')

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '**': operator.pow, '//': operator.floordiv,
       '%': operator.mod}
CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt,
       '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


class V:
    """operand: QNET/native object, complex value, exact real value or None"""

    def __init__(self, obj, val, exact=None, text=None):
        self.obj, self.val, self.exact, self.text = obj, val, exact, text

    @property
    def qnet(self):
        return isinstance(self.obj, Scalar)

    @property
    def expr(self):
        """an expression (not a plain value)?"""
        return self.qnet and not isinstance(self.obj, ScalarValue) and \
            self.obj is not Zero and self.obj is not One


def number(rng, den):
    x = rng.random()
    if x < 0.3:
        n = rng.choice([0, 1, 1, 2, 3, -1, -2, 5, 0])
        k = rng.choice(['int', 'int', 'sym', 'npi'])
        obj = {'int': n, 'sym': sympy.Integer(n), 'npi': np.int64(n)}[k]
        return V(obj, complex(n), Fraction(n), '%s(%d)' % (k, n))
    if x < 0.5:
        n = rng.choice([0.25, -0.5, 1.75, 2.0, 0.0, 1.0, -3.5, 0.125])
        k = rng.choice(['float', 'float', 'np'])
        return V(n if k == 'float' else np.float64(n), complex(n),
                 Fraction(n), '%s(%s)' % (k, n))
    if x < 0.62:
        z = rng.choice([0.5 + 1j, 1j, -1j, 2 - 0.25j, 1 + 0j, 0j])
        k = rng.choice(['complex', 'npc'])
        return V(z if k == 'complex' else np.complex128(z), z, None,
                 '%s(%s)' % (k, z))
    if x < 0.75:
        p, q = rng.choice([(1, 2), (3, 4), (-2, 3), (5, 2), (7, 3)])
        return V(sympy.Rational(p, q), complex(p / q), Fraction(p, q),
                 'Rational(%d,%d)' % (p, q))
    e, t = symexpr(rng)
    return V(e, complex(eval_sympy(e, den.env)), None, t)


def symexpr(rng):
    a = sympy.Symbol('alpha')
    x = sympy.Symbol('x', real=True)
    k = sympy.Symbol('kappa', positive=True)
    I = sympy.I
    e = rng.choice([
        a, x, k, sympy.sqrt(k), a * x, a + 1, I * a, 2 * x, sympy.sqrt(2),
        sympy.exp(I * x), a.conjugate(), a - a.conjugate(), x ** 2, 1 / k,
        I, -I, 1 + I, sympy.pi, I * sympy.sqrt(k) / 2, a / x, -x, a ** 2])
    return e, 'sym(%s)' % e


def operand(rng, ctx, depth=1):
    x = rng.random()
    den = ctx.den
    if x < 0.36:
        v = number(rng, den)
        return v
    if x < 0.62:
        v = number(rng, den)
        if not isinstance(v.obj, (sympy.Basic, int, float, complex, np.int64,
                                  np.float64, np.complex128)):
            return v
        return V(ScalarValue.create(v.obj), v.val, v.exact, 'S(%s)' % v.text)
    if x < 0.66:
        return V(Zero, 0j, Fraction(0), 'Zero')
    if x < 0.70:
        return V(One, 1 + 0j, Fraction(1), 'One')
    if x < 0.80:
        g = R.Gen(rng, ctx, unitary=False)
        ks = g.pick_spaces()
        r = ['braket', g.ket_leaf(ks), g.ket_leaf(ks)]
        obj = R.build(ctx, r)
        return V(obj, complex(R.val(ctx, r).a), None, str(r))
    if x < 0.86:
        return isum(rng, ctx)
    if depth <= 0:
        return braketsym(rng, ctx)
    a, b = operand(rng, ctx, depth - 1), operand(rng, ctx, depth - 1)
    kind = rng.choice(['plus', 'times', 'power', 'plus', 'times'])
    if kind == 'power':
        b0 = braketsym(rng, ctx)
        n = rng.choice([2, 3, -1, -2, sympy.Rational(1, 2), 0.5, 2])
        return V(ScalarPower.create(b0.obj, n),
                 b0.val ** complex(n), None,
                 'Power(%s,%s)' % (b0.text, n))
    cls = {'plus': ScalarPlus, 'times': ScalarTimes}[kind]
    qa, qb = [y.obj if y.qnet else ScalarValue.create(y.obj) for y in (a, b)]
    return V(cls.create(qa, qb),
             a.val + b.val if kind == 'plus' else a.val * b.val, None,
             '%s(%s,%s)' % (kind, a.text, b.text))


def braketsym(rng, ctx):
    l1, l2 = rng.sample(['Psi', 'Phi', 'Chi'], 2)
    key = rng.choice(ctx.keys)
    r = ['braket', ['ksym', l1, [key]], ['ksym', l2, [key]]]
    obj = R.build(ctx, r)
    return V(obj, complex(R.val(ctx, r).a), None, '<%s|%s>_%s' % (
        l1, l2, key))


def isum(rng, ctx):
    i = IdxSym(rng.choice('ij'))
    if rng.random() < 0.5:
        lo = rng.choice([0, 1])
        rg, vals = IndexOverRange(i, lo, lo + rng.choice([1, 2])), None
        vals = list(range(rg.start_from, rg.to + 1))
    else:
        vals = rng.sample([0, 1, 2, 3, 5], rng.choice([2, 3]))
        rg = IndexOverList(i, vals)
    a = sympy.IndexedBase('a')
    term = rng.choice([a[i], i, sympy.I * i, a[i] * sympy.Symbol('alpha'),
                       a[i] ** 2, sympy.exp(sympy.I * i), i ** 2 + 1])
    obj = ScalarIndexedSum.create(ScalarValue.create(term), rg)
    v = sum(complex(eval_sympy(term, {i: n})) for n in vals)
    return V(obj, v, None, 'Sum(%s,%s)' % (term, rg))


def value(ctx, obj):
    return ctx.den.scalar(obj)


def close(a, b):
    return abs(a - b) <= 1e-8 * (1 + abs(a) + abs(b))


def compare(case, ctx, q, want, what):
    case.phase = 'den'
    if not is_scalar(q):
        raise Bad("%s: not a scalar" % what, result=repr(q),
                  type=type(q).__name__)
    got = value(ctx, q)
    if not close(got, want):
        raise Bad("%s: wrong value" % what, got=got, want=want,
                  result=str(q), type=type(q).__name__)
    case.phase = 'run'


def run_case(case):
    try:
        run_case_(case)
    except ValueError as e:
        if 'negative integer powers' in str(e):
            raise Skip("numpy refuses negative powers of integers")
        raise


def run_case_(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = R.random_spaces(rng, fock=False, maxdim=6)
    steps = rng.choice([1, 1, 1, 2, 3])
    cur = operand(rng, ctx)
    text = cur.text
    if cur.qnet or True:
        case.info['program'] = text
    if cur.qnet:
        compare(case, ctx, cur.obj, cur.val, 'operand')
    nq = cur.qnet
    for _ in range(steps):
        kind = rng.choice(['bin'] * 6 + ['un', 'un', 'fd', 'cmp', 'conv',
                                         'zero', 'neutral'])
        if kind == 'bin':
            other = operand(rng, ctx)
            a, b = (cur, other) if rng.random() < 0.5 else (other, cur)
            op = rng.choice(['+', '-', '*', '/', '+', '-', '*', '/', '**'])
            if op == '**':
                b, t = exponent(rng, ctx, cur)
                a = cur
                if not valid_power(a, b):
                    continue
            if op == '/' and abs(b.val) < 1e-9:
                op = '*'
            if op == '/' and b.expr and abs(b.val) < 1e-6:
                continue
            nq = nq or other.qnet
            text = '(%s) %s (%s)' % (a.text, op, b.text)
            case.info['program'] = text
            if op == '**':
                want = power(a.val, b.val)
            else:
                want = OPS[op](a.val, b.val)
            if abs(want) > 1e6:
                break
            case.phase = 'op'
            res = OPS[op](a.obj, b.obj)
            compare(case, ctx, res, want, 'result of %s' % op)
            if (a.qnet or b.qnet) and not isinstance(res, Scalar) and \
                    not isinstance(a.obj, (sympy.Basic, np.generic)):
                case.bad("result of %s is not a QNET Scalar" % op,
                         type=type(res).__name__)
            case.saw('binary compared')
            ex = None
            if a.exact is not None and b.exact is not None and op in '+-*':
                ex = OPS[op](a.exact, b.exact)
            cur = V(res, want, ex, text)
        elif kind == 'un':
            f = rng.choice(['neg', 'conj', 'real', 'imag', 'sqrt', 'dag',
                            'pos2'])
            obj = cur.obj
            if f in ('conj', 'real', 'imag', 'dag') and not cur.qnet:
                continue
            text = '%s(%s)' % (f, cur.text)
            case.info['program'] = text
            case.phase = 'op'
            v = cur.val
            if f == 'neg':
                res, want = -obj, -v
            elif f == 'conj':
                res, want = obj.conjugate(), v.conjugate()
            elif f == 'dag':
                res, want = obj.dag(), v.conjugate()
            elif f == 'real':
                res, want = obj.real, complex(v.real)
            elif f == 'imag':
                res, want = obj.imag, complex(v.imag)
            elif f == 'sqrt':
                if abs(v.imag) < 1e-9 and v.real < 0 and \
                        (cur.expr or not isinstance(cur.exact, Fraction)):
                    continue    # on the branch cut
                if not valid_power(cur, V(None, 0.5, Fraction(1, 2))):
                    continue
                if not cur.qnet and not isinstance(obj, (
                        int, float, complex, np.generic, sympy.Basic)):
                    continue
                res, want = qsqrt(obj), cmath.sqrt(v)
                if not isinstance(res, Scalar):
                    case.bad("sqrt is not a Scalar", type=type(res).__name__)
            else:
                res, want = obj ** 2, v * v
            compare(case, ctx, res, want, f)
            case.saw('function compared')
            cur = V(res, want, None, text)
        elif kind == 'fd':
            floor_mod(case, ctx, rng)
            nq = True
        elif kind == 'cmp':
            comparisons(case, ctx, rng)
            nq = True
        elif kind == 'conv':
            conversions(case, ctx, rng, cur)
        elif kind == 'zero':
            zero_division(case, ctx, rng, cur)
        elif kind == 'neutral':
            neutral(case, ctx, rng, cur)
    case.key = text + kind
    case.nontrivial = bool(nq)
    case.sample = text


def kindname(v):
    return type(v.obj).__name__


def power(a, b):
    if abs(b.imag) < 1e-12:
        r = b.real
        if r == int(r):
            return a ** int(r)
        return a ** r
    return a ** b


def cur_real(v):
    return abs(v.val.imag) < 1e-12


def exponent(rng, ctx, a):
    x = rng.random()
    if x < 0.5:
        n = rng.choice([0, 1, 2, 3, -1, -2])
        k = rng.choice(['int', 'sym', 'S', 'qnet', 'npi', 'float'])
        if k == 'qnet':
            n = rng.choice([0, 1])
        obj = {'int': n, 'sym': sympy.Integer(n),
               'S': ScalarValue.create(n), 'qnet': One if n == 1 else Zero,
               'npi': np.int64(abs(n)), 'float': float(n)}[k]
        if k == 'npi':      # (numpy has no negative integer powers)
            n = abs(n)
        return V(obj, complex(n), Fraction(n), '%s(%d)' % (k, n)), k
    if x < 0.8:
        n = rng.choice([0.5, -0.5, 1.5, 0.25])
        k = rng.choice(['float', 'sym', 'S'])
        if k == 'float' and not cur_real(a):
            k = 'sym'   # sympy 1.1.1 gets (z**2)**0.5 wrong for complex z
        obj = {'float': n, 'sym': sympy.Rational(n),
               'S': ScalarValue.create(sympy.Rational(n))}[k]
        return V(obj, complex(n), Fraction(n), '%s(%s)' % (k, n)), k
    k = sympy.Symbol('kappa', positive=True)
    x = sympy.Symbol('x', real=True)
    e = rng.choice([k, x, -k])
    o = rng.choice([e, ScalarValue.create(e)])
    return V(o, complex(eval_sympy(e, {})), None, 'sym(%s)' % e), 'e'


def valid_power(a, b):
    if b.exact is None or b.exact.denominator != 1:
        o = getattr(a.obj, 'val', a.obj)
        if isinstance(o, sympy.Basic) and o.has(sympy.I) and \
                not o.free_symbols:
            return False    # sympy 1.1.1 gets e.g. sqrt((-2/3-I)**2) wrong
    if abs(a.val) < 1e-6:
        return isinstance(b.exact, Fraction) and b.exact >= 0 and \
            abs(a.val) == 0
    if b.exact is not None and b.exact.denominator == 1:
        return True
    # stay away from the branch cut
    return not (a.val.real < 0 and abs(a.val.imag) < 1e-6)


def real_operand(rng):
    while True:
        v = number(rng, None) if False else None
        x = rng.random()
        if x < 0.4:
            n = rng.choice([0, 1, 2, 3, -1, -2, 5, 7])
            o = rng.choice([n, sympy.Integer(n), np.int64(n)])
            v = V(o, complex(n), Fraction(n), 'int(%d)' % n)
        elif x < 0.75:
            n = rng.choice([0.25, -0.5, 1.75, 2.0, 0.5, 1.0, -3.5, 3.5])
            o = rng.choice([n, np.float64(n)])
            v = V(o, complex(n), Fraction(n), 'float(%s)' % n)
        else:
            p, q = rng.choice([(1, 2), (3, 4), (-2, 3), (5, 2), (7, 3)])
            v = V(sympy.Rational(p, q), complex(p / q), Fraction(p, q),
                  'Rational(%d,%d)' % (p, q))
        y = rng.random()
        if y < 0.5:
            v = V(ScalarValue.create(v.obj), v.val, v.exact, 'S(%s)' % v.text)
        elif y < 0.6:
            v = V(Zero, 0j, Fraction(0), 'Zero')
        elif y < 0.72:
            v = V(One, 1 + 0j, Fraction(1), 'One')
        return v


def mixed(a, b):
    """Fraction-like and float mixed: not exact"""
    def fl(v):
        o = v.obj.val if v.qnet and isinstance(v.obj, ScalarValue) else v.obj
        return isinstance(o, (float, np.floating))
    return (a.exact.denominator % 3 == 0 and fl(b)) or (
        b.exact.denominator % 3 == 0 and fl(a))


def is_sympy(v):
    o = v.obj.val if v.qnet else v.obj
    return isinstance(o, sympy.Basic)


def floor_mod(case, ctx, rng):
    a, b = real_operand(rng), real_operand(rng)
    if not (a.qnet or b.qnet) or b.exact == 0 or mixed(a, b):
        return
    op = rng.choice(['//', '%'])
    if op == '//' and (is_sympy(a) or is_sympy(b)):
        return      # sympy 1.1.1: Integer // Rational converts to int first
    text = '(%s) %s (%s)' % (a.text, op, b.text)
    case.info['program'] = text
    case.phase = 'op'
    fl = a.exact // b.exact
    want = fl if op == '//' else a.exact - b.exact * fl
    res = OPS[op](a.obj, b.obj)
    compare(case, ctx, res, complex(want), 'result of %s' % op)
    case.saw('floor/mod compared')


def comparisons(case, ctx, rng):
    a, b = real_operand(rng), real_operand(rng)
    if not (a.qnet or b.qnet):
        return
    op = rng.choice(list(CMP))
    text = '(%s) %s (%s)' % (a.text, op, b.text)
    case.info['program'] = text
    case.phase = 'op'
    if mixed(a, b) and a.exact == b.exact:
        return
    want = CMP[op](a.exact, b.exact)
    res = CMP[op](a.obj, b.obj)
    if bool(res) != want:
        case.bad("wrong comparison", got=str(res), want=want)
    if op in ('==', '!=') and a.exact == b.exact and a.qnet and b.qnet:
        # (sympy's own Rational and float do not hash alike)
        if not (is_sympy(a) or is_sympy(b)) and hash(a.obj) != hash(b.obj):
            case.bad("equal scalars with different hashes")
    case.saw('comparison compared')


def conversions(case, ctx, rng, cur):
    v = cur if cur.exact is not None and cur.qnet else real_operand(rng)
    if not v.qnet:
        v = V(ScalarValue.create(v.obj), v.val, v.exact, 'S(%s)' % v.text)
    f = rng.choice(['complex', 'float', 'int', 'abs', 'sympify', 'hash',
                    'val', 'bool0'])
    case.info['program'] = '%s(%s)' % (f, v.text)
    case.phase = 'op'
    if f == 'complex':
        got = complex(v.obj)
        ok = close(got, v.val) and isinstance(got, complex)
    elif f == 'float':
        got = float(v.obj)
        ok = close(got, v.val) and isinstance(got, float)
    elif f == 'int':
        got = int(v.obj)
        ok = got == int(v.exact) and isinstance(got, int)
    elif f == 'abs':
        got = abs(v.obj)
        ok = close(ctx.den.scalar(got), abs(v.val)) and isinstance(
            got, Scalar)
    elif f == 'sympify':
        got = sympy.sympify(v.obj)
        ok = isinstance(got, sympy.Basic) and close(
            complex(eval_sympy(got, {})), v.val)
    elif f == 'val':
        got = v.obj.val
        ok = close(complex(got), v.val)
    elif f == 'hash':
        got = hash(v.obj)
        ok = got == hash(v.obj.val)
    else:
        got = (v.obj == 0, v.obj.is_zero)
        ok = bool(got[0]) == bool(got[1]) == (v.exact == 0)
    if not ok:
        case.bad("wrong conversion", got=repr(got), want=str(v.val))
    case.saw('conversion compared')


def zero_division(case, ctx, rng, cur):
    if not cur.qnet:
        return
    z = rng.choice([0, Zero, sympy.Integer(0), 0.0])
    op = rng.choice(['/', '//', '%']) if not cur.expr else '/'
    if cur.exact is None:
        op = '/'
    case.info['program'] = '(%s) %s (%r)' % (cur.text, op, z)
    case.phase = 'op'
    try:
        r = OPS[op](cur.obj, z)
    except ZeroDivisionError:
        case.saw('zero division')
        return
    case.bad("division by zero gave a result", got=repr(r))


def neutral(case, ctx, rng, cur):
    if not cur.qnet:
        return
    s = cur.obj
    case.info['program'] = 'neutral elements with %s' % cur.text
    case.phase = 'op'
    one = rng.choice([One, 1, sympy.Integer(1)])
    zero = rng.choice([Zero, 0, sympy.Integer(0)])
    sp = isinstance(zero, sympy.Basic), isinstance(one, sympy.Basic)
    checks = dict(a=(s + zero, s), b=(s - zero, s), c=(s * one, s),
                  d=(s / one, s), e=(s * zero, Zero), f=(s - s, Zero),
                  g=(s ** one, s), h=(zero + s, s), i=(one * s, s),
                  j=(zero * s, Zero), k=(s ** zero, One), m=(zero - s, -s))
    if abs(cur.val) > 1e-6:
        checks['n'] = (s / s, One)
        checks['l'] = (zero / s, Zero)
    for k, (x, y) in checks.items():
        case.info['check'] = k
        if k in 'hijlm' and isinstance(s, ScalarValue) and any(sp):
            # left-hand sympy number: sympy decides on the type
            if not close(ctx.den.scalar(x), ctx.den.scalar(y)):
                case.bad("neutral element law %s" % k, got=str(x))
            continue
        if k in 'fnhm':
            # a sum or quotient of expressions need not be simplified
            if not close(ctx.den.scalar(x), ctx.den.scalar(y)):
                case.bad("neutral element law %s" % k, got=str(x))
            continue
        if x != y:
            case.bad("neutral element law %s" % k, got=str(x), want=str(y))
        if k in 'ej' and x is not Zero and not isinstance(x, sympy.Basic):
            case.bad("not Zero: law %s" % k, got=repr(x))
        if k == 'k' and x is not One:
            case.bad("not One: law %s" % k, got=repr(x))
        case.saw('neutral law')
    # expressions have no floor division / modulus except by type error
    if cur.expr:
        for op in ('//', '%'):
            for o in (1, One, 3):
                case.info['check'] = '%s %r' % (op, o)
                try:
                    r = OPS[op](s, o)
                except TypeError:
                    case.saw('floor of expression rejected')
                    continue
                case.bad("floor/mod of a symbolic scalar gave a result",
                         got=str(r))


def classify(case, out):
    if str(case.info.get('program')).startswith('complex(') and \
            out.get('detail', {}).get('got') == '1j':
        return 'A04-complex-One'
