"""Denotational evaluator: QNET expression -> numeric tensor.

The evaluator looks at nothing but the public structure of an expression: the
names of its class and base classes, `args`/`operands`, `kwargs` and `space`.
It never calls any QNET routine that computes something.
"""
import cmath
import math
import numpy as np
import sympy

from . import num
from .num import T, S
from .symeval import (
    eval_sympy, seeded, index_name, CannotEvaluate, symbol_value)

_INF = 'inf'


class DenError(Exception):
    """The expression is ill formed (this is a finding, not a harness error)"""


class Unsupported(Exception):
    """The evaluator does not know this kind of object (harness limitation)"""


def mro_names(obj):
    return [c.__name__ for c in type(obj).__mro__]


def rand_matrix(key, n, support=None):
    r = np.random.RandomState(seeded(*key).randrange(2 ** 31))
    m = min(n, support) if support else n
    a = np.zeros((n, n), dtype=complex)
    a[:m, :m] = (r.uniform(-1, 1, (m, m)) + 1j * r.uniform(-1, 1, (m, m))) \
        / math.sqrt(m)
    return a


def rand_vec(key, n, support=None, normalize=True):
    r = np.random.RandomState(seeded(*key).randrange(2 ** 31))
    m = min(n, support) if support else n
    a = np.zeros(n, dtype=complex)
    a[:m] = r.uniform(-1, 1, m) + 1j * r.uniform(-1, 1, m)
    if normalize:
        a = a / np.linalg.norm(a)
    return a


_RAND_CACHE = {}


class Den:
    """Evaluator for a given `num.Universe`

    Args:
        U: the universe of local spaces
        env: values for sympy symbols overriding the default seeded values
        sub: mapping ``name -> T`` overriding the value of operator/ket/
            superoperator symbols (key: ``(kind, label, spaces)``)
    """

    def __init__(self, U, env=None, sub=None):
        self.U = U
        self.env = dict(env or {})
        self.sub = dict(sub or {})
        self.count = 0

    # -- scalars -------------------------------------------------------------

    def scalar(self, x):
        """complex value of anything scalar-like"""
        if isinstance(x, (int, float, complex)):
            return complex(x)
        if isinstance(x, (np.generic,)):
            return complex(x)
        if isinstance(x, sympy.Basic):
            return complex(eval_sympy(x, self.env))
        t = self(x)
        if t.kind == 'S':
            return t.a
        if t.kind == 'O':
            # multiple of the identity?
            a = t.a
            c = a[0, 0]
            if np.allclose(a, c * np.eye(a.shape[0])):
                return complex(c)
        raise DenError("not a scalar: %r" % (x,))

    # -- spaces --------------------------------------------------------------

    def local_labels(self, hs):
        """sorted labels of the local factors of a Hilbert space"""
        names = mro_names(hs)
        if 'LocalSpace' in names:
            lbl = hs.label
            if 'SymbolicLabelBase' in mro_names(lbl):
                lbl = self.render_label(lbl)
            lbl = str(lbl)
            if lbl not in self.U.spec:
                raise DenError("unknown local space %r" % lbl)
            return (lbl,)
        if 'ProductSpace' in names:
            out = []
            for o in hs.operands:
                out.extend(self.local_labels(o))
            if len(set(out)) != len(out):
                raise DenError("product space with repeated factor %r" % hs)
            return tuple(sorted(out))
        if type(hs).__name__ in ('TrivialSpace',) or \
                getattr(hs, '_hash_val', None) == 'TrivialSpace' or \
                str(type(hs)).find('Trivial') >= 0:
            return ()
        raise Unsupported("space %r" % hs)

    def render_label(self, lbl):
        """int or str for a symbolic label, under the current env"""
        names = mro_names(lbl)
        if 'SpinIndex' in names:
            v = complex(eval_sympy(lbl.expr, self.env)).real
            return spin_label(v)
        if 'FockLabel' in names:
            i = int(round(complex(eval_sympy(lbl.expr, self.env)).real))
            key = self.local_labels(lbl.hs)[0]
            return self.U.spec[key]['labels'][i]
        if 'IntIndex' in names:
            v = complex(eval_sympy(lbl.expr, self.env)).real
            if abs(v - round(v)) > 1e-9:
                raise DenError("non-integer index label %r" % lbl)
            return int(round(v))
        if 'StrLabel' in names:
            return self.render_str(lbl.expr)
        raise Unsupported("label %r" % lbl)

    def render_str(self, e):
        name = type(e).__name__
        if name == 'Indexed':
            return index_name(str(e.args[0].label), [
                int(round(complex(eval_sympy(a, self.env)).real))
                for a in e.args[1:]])
        v = e.subs({k: sympy.sympify(x) for k, x in self.env.items()
                    if type(k).__name__ == 'IdxSym'})
        return str(v)

    def basis_index(self, label, hs):
        key = self.local_labels(hs)[0]
        spec = self.U.spec[key]
        names = mro_names(label)
        if 'SpinIndex' in names:
            v = complex(eval_sympy(label.expr, self.env)).real
            i = v + (spec['dim'] - 1) / 2
            if abs(i - round(i)) > 1e-9:
                raise DenError("bad spin label %r" % label)
            i = int(round(i))
        elif 'SymbolicLabelBase' in names:
            i = complex(eval_sympy(label.expr, self.env)).real
            if abs(i - round(i)) > 1e-9:
                raise DenError("bad label %r" % label)
            i = int(round(i))
        elif isinstance(label, (int, np.integer, sympy.Integer)):
            i = int(label)
        elif isinstance(label, str):
            if label not in spec['labels']:
                raise DenError("label %r not in %r" % (label, key))
            i = spec['labels'].index(label)
        else:
            raise DenError("bad basis label %r" % (label,))
        return i

    def inrange(self, i, key):
        return 0 <= i < self.U.dim(key)

    # -- dispatch ------------------------------------------------------------

    def __call__(self, e):
        self.count += 1
        if isinstance(e, (int, float, complex, np.generic, sympy.Basic)):
            return S(self.scalar(e))
        for name in mro_names(e):
            meth = getattr(self, 'd_' + name, None)
            if meth is not None:
                return meth(e)
        raise Unsupported("no denotation for %s" % type(e))

    # scalars

    def d_ScalarValue(self, e):
        return S(self.scalar(e.args[0]))

    def d_Zero(self, e):
        return S(0)

    def d_One(self, e):
        return S(1)

    def _sum(self, ops):
        res = None
        for o in ops:
            v = self(o)
            res = v if res is None else num.add(self.U, res, v)
        return res

    def _prod(self, ops):
        res = None
        for o in ops:
            v = self(o)
            res = v if res is None else num.mul(self.U, res, v)
        return res

    def d_QuantumPlus(self, e):
        return self._sum(e.args)

    def d_QuantumTimes(self, e):
        return self._prod(e.args)

    def d_ScalarPower(self, e):
        b, x = e.args
        return S(_cpow(self.scalar(b), self.scalar(x)))

    def d_BraKet(self, e):
        b, k = e.args
        return num.mul(self.U, num.dag(self(b)), self(k))

    def d_ScalarTimesQuantumExpression(self, e):
        c, t = e.args
        return num.scale(self.scalar(c), self(t))

    # symbols

    def symbol(self, e, kind):
        label = e.args[0]
        if 'SymbolicLabelBase' in mro_names(label):
            label = self.render_label(label)
        sp = self.local_labels(e.kwargs['hs'])
        args = [self.scalar(a) for a in e.args[1:]]
        return self.symbol_value(kind, str(label), sp, args)

    def symbol_value(self, kind, label, sp, args=()):
        key = (kind, label, sp)
        if key in self.sub:
            return self.sub[key]
        n = self.U.total(sp)
        support = None
        idx = None
        if any(self.U.spec[s].get('window') for s in sp):
            idx = num._window_index(self.U, sp)
        m = n if idx is None else len(idx)

        def gen(tag):
            ck = key + (tag, n, m, bool(args))
            a = _RAND_CACHE.get(ck)
            if a is None:
                if len(_RAND_CACHE) > 4000:
                    _RAND_CACHE.clear()
                a = _RAND_CACHE[ck] = gen_(tag)
                if a is not None:
                    a.setflags(write=False)
            return a

        def gen_(tag):
            k = key + (tag,)
            if kind == 'K':
                v = rand_vec(k, m, normalize=not args)
                if idx is not None:
                    full = np.zeros(n, dtype=complex)
                    full[idx] = v
                    v = full
                return v
            if kind == 'O':
                v = rand_matrix(k, m)
                if idx is not None:
                    full = np.zeros((n, n), dtype=complex)
                    full[np.ix_(idx, idx)] = v
                    v = full
                return v
            if kind == 'P':
                return rand_matrix(k, n * n)
        a = gen(0)
        if kind == 'K' and args:
            # every KetSymbol is normalized by convention: rotate between two
            # orthonormal vectors (an entire function of real arguments)
            b = gen(len(args))
            a = a / np.linalg.norm(a)
            b = b - np.vdot(a, b) * a
            b = b / np.linalg.norm(b)
            r = np.random.RandomState(
                seeded(*(key + ('rot',))).randrange(2 ** 31))
            th = ph = 0.0
            for i, x in enumerate(args):
                c = r.uniform(0.3, 0.7, 4)
                th += c[0] * x.real + c[1] * x.imag
                ph += c[2] * x.real + c[3] * x.imag
                if i:
                    th += 0.2 * (x * args[i - 1]).real
            return T(kind, sp, cmath.exp(1j * ph) * (
                math.cos(th) * a + math.sin(th) * b))
        for i, x in enumerate(args):
            a = a + x * gen(('l', i)) + (x * x) * 0.5 * gen(('q', i))
            if i:
                a = a + x * args[i - 1] * 0.7 * gen(('m', i))
        if args:
            # distinguish by number of arguments; add a cubic part
            a = a + args[0] ** 3 * 0.3 * gen(('c', len(args)))
        return T(kind, sp, a)

    def d_OperatorSymbol(self, e):
        return self.symbol(e, 'O')

    def d_SuperOperatorSymbol(self, e):
        return self.symbol(e, 'P')

    def d_BasisKet(self, e):
        key = self.local_labels(e.kwargs['hs'])
        i = self.basis_index(e.args[0], e.kwargs['hs'])
        v = np.zeros(self.U.dim(key[0]), dtype=complex)
        if self.inrange(i, key[0]):
            v[i] = 1
        elif self.U.spec[key[0]].get('window') is None:
            if 'SymbolicLabelBase' not in mro_names(e.args[0]):
                raise DenError("basis ket out of range: %r" % (e.args,))
        return T('K', key, v)

    def d_KetSymbol(self, e):
        return self.symbol(e, 'K')

    # operators

    def d_IdentityOperator(self, e):
        return S(1)

    def d_ZeroOperator(self, e):
        return S(0)

    def _local(self, e):
        sp = self.local_labels(e.kwargs['hs'])
        return sp, self.U.dim(sp[0])

    def _ladder_ok(self, e):
        pass

    def d_LocalSigma(self, e):
        sp, n = self._local(e)
        j = self.basis_index(e.args[0], e.kwargs['hs'])
        k = self.basis_index(e.args[1], e.kwargs['hs'])
        a = np.zeros((n, n), dtype=complex)
        if self.inrange(j, sp[0]) and self.inrange(k, sp[0]):
            a[j, k] = 1
        elif self.U.spec[sp[0]].get('window') is None:
            if not any('SymbolicLabelBase' in mro_names(x) for x in e.args):
                raise DenError("sigma out of range: %r" % (e.args,))
        return T('O', sp, a)

    def d_Destroy(self, e):
        sp, n = self._local(e)
        return T('O', sp, num.destroy(n))

    def d_Create(self, e):
        sp, n = self._local(e)
        return T('O', sp, num.destroy(n).conj().T)

    def d_Phase(self, e):
        sp, n = self._local(e)
        phi = self.scalar(e.args[0])
        return T('O', sp, np.diag(np.exp(1j * phi * np.arange(n))))

    def d_Displace(self, e):
        sp, n = self._local(e)
        return T('O', sp, num.displace_mat(n, self.scalar(e.args[0])))

    def d_Squeeze(self, e):
        sp, n = self._local(e)
        return T('O', sp, num.squeeze_mat(n, self.scalar(e.args[0])))

    def d_Jz(self, e):
        sp, n = self._local(e)
        return T('O', sp, num.spin_mats(n)[0])

    def d_Jplus(self, e):
        sp, n = self._local(e)
        return T('O', sp, num.spin_mats(n)[1])

    def d_Jminus(self, e):
        sp, n = self._local(e)
        return T('O', sp, num.spin_mats(n)[2])

    def d_Commutator(self, e):
        a, b = (num.as_op(self.U, self(x)) for x in e.args)
        return num.sub(self.U, num.mul(self.U, a, b), num.mul(self.U, b, a))

    def d_OperatorTrace(self, e):
        over = e.kwargs['over_space']
        return num.ptrace(self.U, self(e.args[0]), self.local_labels(over))

    def d_Adjoint(self, e):
        return num.dag(self(e.args[0]))

    def d_OperatorPlusMinusCC(self, e):
        a = num.as_op(self.U, self(e.args[0]))
        sign = e.kwargs.get('sign', 1)
        return num.add(self.U, a, num.scale(sign, num.dag(a)))

    def d_PseudoInverse(self, e):
        a = num.as_op(self.U, self(e.args[0]))
        return T('O', a.spaces, num.pinv(a.a))

    def d_NullSpaceProjector(self, e):
        a = num.as_op(self.U, self(e.args[0]))
        p = num.pinv(a.a)
        return T('O', a.spaces, np.eye(a.a.shape[0]) - p @ a.a)

    def d_KetBra(self, e):
        k, b = e.args
        return num.mul(self.U, self(k), num.dag(self(b)))

    # states

    def d_ZeroKet(self, e):
        return num.ZERO_KET

    def d_TrivialKet(self, e):
        return T('K', (), np.ones(1, dtype=complex))

    def d_CoherentStateKet(self, e):
        sp, n = self._local(e)
        return T('K', sp, num.coherent_vec(n, self.scalar(e.args[0])))

    def d_TensorKet(self, e):
        return self._prod(e.args)

    def d_OperatorTimesKet(self, e):
        return num.mul(self.U, self(e.args[0]), self(e.args[1]))

    def d_Bra(self, e):
        return num.dag(self(e.args[0]))

    # superoperators

    def d_IdentitySuperOperator(self, e):
        return S(1)

    def d_ZeroSuperOperator(self, e):
        return S(0)

    def d_SPre(self, e):
        return num.spre(self.U, self(e.args[0]))

    def d_SPost(self, e):
        return num.spost(self.U, self(e.args[0]))

    def d_SuperAdjoint(self, e):
        x = self(e.args[0])
        if x.kind == 'S':
            return x
        return num.superadj(self.U, x)

    def d_SuperOperatorTimesOperator(self, e):
        s, o = self(e.args[0]), self(e.args[1])
        return num.mul(self.U, s, num.as_op(self.U, o)
                       if s.kind != 'S' else o)

    # derivatives

    def d_QuantumDerivative(self, e):
        kw = e.kwargs
        derivs = list(dict(kw['derivs']).items())
        vals = dict(kw.get('vals') or {})
        return self._deriv(e.args[0], derivs, vals)

    def _deriv(self, op, derivs, vals):
        if not derivs:
            return self(op)
        (sym, n), rest = derivs[0], derivs[1:]
        if sym in vals:
            x0 = self.scalar(vals[sym])
        else:
            x0 = self.scalar(sym)
        return self.derivative(
            lambda: self._deriv(op, rest, vals), sym, n, x0)

    def derivative(self, f, sym, n, x0=None, h=0.04):
        """n-th derivative of tensor valued f() w.r.t. env[sym] at x0"""
        if x0 is None:
            x0 = self.scalar(sym)
        pts = np.arange(-5, 6)
        saved = self.env.get(sym)
        had = sym in self.env
        vals = []
        try:
            for p in pts:
                self.env[sym] = x0 + p * h
                vals.append(f())
        finally:
            if had:
                self.env[sym] = saved
            else:
                self.env.pop(sym, None)
        # polynomial interpolation weights for the n-th derivative at 0
        A = np.vander(pts * 1.0, increasing=True).T
        b = np.zeros(len(pts))
        b[n] = math.factorial(n)
        w = np.linalg.solve(A, b) / h ** n
        res = None
        for wi, v in zip(w, vals):
            t = num.scale(wi, v)
            res = t if res is None else num.add(self.U, res, t)
        return res

    # indexed sums

    def d_IndexedSum(self, e):
        ranges = list(e.ranges)
        term = e.args[0]
        acc = []
        n = 1
        for r in ranges:
            n *= max(1, len(self.range_values(r)))
        depth = getattr(self, '_sum_terms', 1)
        if n * depth > 4000:
            raise Unsupported("sum with too many terms")

        def rec(k):
            if k == len(ranges):
                acc.append(self(term))
                return
            r = ranges[k]
            sym = r.index_symbol
            saved, had = self.env.get(sym), sym in self.env
            try:
                for v in self.range_values(r):
                    self.env[sym] = v
                    rec(k + 1)
            finally:
                if had:
                    self.env[sym] = saved
                else:
                    self.env.pop(sym, None)
        self._sum_terms = n * depth
        try:
            rec(0)
        finally:
            self._sum_terms = depth
        if not acc:
            return S(0)
        res = acc[0]
        for a in acc[1:]:
            res = num.add(self.U, res, a)
        return res

    def range_values(self, r):
        names = mro_names(r)
        if 'IndexOverList' in names:
            return [self._listval(v) for v in r.values]
        if 'IndexOverRange' in names:
            a, b, s = r.start_from, r.to, r.step
            out = []
            x = a
            while (x <= b) if s > 0 else (x >= b):
                out.append(x)
                x += s
            return out
        if 'IndexOverFockSpace' in names:
            key = self.local_labels(r.hs)[0]
            return list(range(self.U.dim(key)))
        raise Unsupported("range %r" % r)

    def _listval(self, v):
        if isinstance(v, (int, np.integer)):
            return int(v)
        if isinstance(v, sympy.Basic):
            return eval_sympy(v, self.env)
        raise Unsupported("list index value %r" % (v,))

    # matrices ---------------------------------------------------------------

    def matrix(self, m):
        """nested list of T for a Matrix"""
        arr = m.matrix
        return [[self(arr[i, j]) for j in range(arr.shape[1])]
                for i in range(arr.shape[0])]


def spin_label(v):
    from fractions import Fraction
    f = Fraction(v).limit_denominator(4)
    s = str(f)
    return s if f <= 0 else '+' + s


def _cpow(b, e):
    from .symeval import _pow
    e = complex(e)
    return complex(_pow(b, e))
