"""B01: canonical forms do not depend on the order of construction"""
from ..common import *
from .. import anyexpr as X
from ..anyexpr import subexprs
import functools
import itertools
import re
import operator
import numpy as np
import sympy
import qnet
from qnet import (OperatorPlus, OperatorTimes, KetPlus, TensorKet, ScalarPlus,
                  ScalarTimes, SuperOperatorPlus, SuperOperatorTimes,
                  IdentityOperator, ZeroOperator)
from qnet.printing import ascii, unicode, latex, srepr
from qnet.algebra.toolbox.core import no_instance_caching

N_QUICK, N_THOROUGH = 5000, 120000
TIMEOUT = 40
RULE = ("random families of 2-6 terms (all operator, ket, bra, scalar and "
        "superoperator kinds, also derivatives, traces, indexed sums, equal "
        "terms with other coefficients, terms that differ in one label) are "
        "summed in all/random permutations and associations, with + , - , "
        "sum() and create(), and with coefficients split; factors on disjoint "
        "spaces (operators, superoperators, kets) and scalar factors are "
        "multiplied in all orders in which non-commuting factors keep their "
        "order; all results must be ==, have equal hashes, the same srepr, "
        "ascii and latex text and the same value as the reference; "
        "non-trivial: at least 3 terms; distinct by family of terms")
REQUIRED = ['sum of op', 'sum of ket', 'sum of bra', 'sum of sop',
            'sum of scalar', 'product of op', 'product of ket',
            'product of sop', 'product of scalar', 'split', 'orders',
            'created', 'associated', 'value', 'merged terms', 'compared',
            'sum of derivatives', 'order relation']
ASSUMPTIONS = ["coefficients are exact numbers; factors do not contain "
               "symbolic sums (SymPy does not distribute them consistently)"]


def clear():
    from qnet.algebra.core.abstract_algebra import Expression
    Expression._instances.clear()


def plain(n):
    # (SymPy distributes sums in products only sometimes; no rounding)
    if n[1] == 'symI':
        return ['num', 'rat', 2, 3]
    return n[:2] + [4 if n[2] == 3 and n[1] in ('int', 'npi') else n[2]] + \
        n[3:]


class XS1(X.XSumGen):
    nkinds = 5

    def number(self, nonzero=False):
        return plain(super().number(nonzero))


class G1(X.XGen):
    nkinds = 5
    mono = False

    def number(self, nonzero=False):
        return plain(super().number(nonzero))

    def native(self, depth=1, nonzero=False):
        if not self.mono:
            return super().native(depth, nonzero)
        r = self.rng
        x = r.random()
        if x < .5:
            return self.number(True)
        if x < .8:
            return self.sym()
        return r.choice([['npow', self.sym(), 2], ['nconj', self.sym('c')],
                         ['nexp', self.sym('rp')]])


def check(case, a, b, what):
    case.saw('orders')
    if not (a == b) or not (b == a):
        raise Bad("%s: results are not equal" % what, a=str(a), b=str(b),
                  sa=srepr(a)[:1500], sb=srepr(b)[:1500])
    if hash(a) != hash(b):
        raise Bad("%s: equal with different hash" % what, a=str(a), b=str(b))
    for f in (str, ascii, latex):
        if f(a) != f(b):
            raise Bad("%s: printed forms differ" % what, a=f(a), b=f(b))


def assoc(rng, op, xs):
    """combine xs with a random binary tree"""
    xs = list(xs)
    while len(xs) > 1:
        i = rng.randrange(len(xs) - 1)
        xs[i:i + 2] = [op(xs[i], xs[i + 1])]
    return xs[0]


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    if rng.random() < .08:
        return order_relation(case)
    prod = rng.random() < .4
    kind = rng.choice(['op', 'op', 'ket', 'bra', 'sop', 'scalar', 'sumop',
                       'deriv'] if not prod else
                      ['op', 'op', 'ket', 'sop', 'scalar'])
    if kind == 'sumop':
        ctx = X.sum_ctx(rng, fock=False)
        X.set_env(ctx)
        g = XS1(rng, ctx)
    else:
        ctx = R.random_spaces(
            rng, n=rng.choice([2, 3]) if prod else None,
            fock=kind in ('op', 'ket') and rng.random() < .4,
            maxdim=6 if kind == 'sop' else 12)
        g = G1(rng, ctx, symargs=.15, unitary=rng.random() < .3,
               scal_syms=[('x', 'r'), ('kappa', 'p'), ('alpha', 'c')])
        g.mono = prod
    terms = (factors if prod else summands)(case, rng, ctx, g, kind)
    case.info = dict(spaces=ctx.to_json(), kind=kind, product=prod,
                     recipe=terms)
    case.key = case.info
    case.nontrivial = len(terms) >= 3
    ws = sum if prod else max
    w = ws(R.weight(t) for t in terms)
    u = any(R.uses_unitary(t) for t in terms)
    fits = w <= (4 if u else 10)
    if fits:
        ctx.fit(w, u)
        if kind == 'sumop':
            X.set_env(ctx)
    case.phase = 'val'
    v = None
    if fits and kind != 'deriv':
        try:
            vs = [R.val(ctx, t) for t in terms]
        except ZeroDivisionError as e:
            raise Skip(str(e))
        if prod:
            v = functools.reduce(lambda a, b: num.mul(ctx.U, a, b), vs)
        elif kind == 'bra':
            # a sum of bras is a bra
            v = functools.reduce(lambda a, b: num.add(ctx.U, a, b), vs)
        else:
            v = functools.reduce(lambda a, b: num.add(ctx.U, a, b), vs)
        a = np.asarray(v.a)
        if not np.all(np.isfinite(a)) or (a.size and abs(a).max() > 1e6):
            v = None
    case.phase = 'build'
    if kind == 'deriv':
        x = R._sym('x', 'r')
        try:
            qs = [X._wrap(R.build(ctx, t)) for t in terms]
        except (ZeroDivisionError, ValueError) as e:
            raise Skip("division by zero: %s" % e)
        qs = [q.diff(x) if rng.random() < .7 else q for q in qs]
        case.saw('sum of derivatives')
    else:
        qs = [X._wrap(R.build(ctx, t)) for t in terms]
    case.phase = 'run'
    (products if prod else sums)(case, rng, ctx, kind, qs, v)


# -- sums --------------------------------------------------------------------

def summands(case, rng, ctx, g, kind):
    n = rng.choice([2, 3, 3, 4, 5, 6])
    ks = g.pick_spaces()
    terms = []

    def fresh():
        d = rng.choice([0, 0, 1, 1, 2])
        if kind in ('op', 'sumop', 'deriv'):
            return g.op(d)
        if kind == 'ket':
            return g.ket(ks, d)
        if kind == 'bra':
            return g.bra(ks, d)
        if kind == 'sop':
            return g.sop(max(d - 1, 0))
        return ['sval', g.scalar(d)] if rng.random() < .5 else (
            ['braket', g.ket(ks, d), g.ket(ks, d)])
    scl = {'op': 'oscl', 'sumop': 'oscl', 'deriv': 'oscl', 'ket': 'kscl',
           'bra': 'bscl', 'sop': 'pscl', 'scalar': 'smul'}[kind]
    for _ in range(n):
        x = rng.random()
        if terms and x < .25:
            terms.append([scl, g.native(1), rng.choice(terms)])
        elif terms and x < .35:
            from . import b02
            t = b02.pollute_sym(rng, rng.choice(terms), .3)
            # (symbols with the same name print the same)
            terms.append(t if consistent([t] + terms) else fresh())
        else:
            terms.append(fresh())
    return terms


def syms_of(r, out):
    if isinstance(r, (list, tuple)):
        if len(r) == 3 and r[0] == 'sym':
            out.append((r[1], r[2]))
        else:
            for x in r:
                syms_of(x, out)
    return out


def consistent(r):
    s = set(syms_of(r, []))
    return len(s) == len({n for (n, _) in s})


CLS = {'op': OperatorPlus, 'sumop': OperatorPlus, 'deriv': OperatorPlus,
       'ket': KetPlus, 'bra': KetPlus, 'sop': SuperOperatorPlus,
       'scalar': ScalarPlus}


def orders(rng, qs, n):
    if len(qs) <= 3:
        return [list(p) for p in itertools.permutations(qs)]
    out = [qs[::-1]]
    for _ in range(n):
        p = list(qs)
        rng.shuffle(p)
        out.append(p)
    return out


def sums(case, rng, ctx, kind, qs, v):
    case.saw('sum of ' + kind)
    cls = CLS[kind]
    first = cls.create(*qs)
    if not isinstance(first, cls) or len(first.operands) < len(qs):
        case.saw('merged terms')
    if v is not None:
        check_same(case, ctx, first, v, 'sum')
        case.saw('value')
    # (the position of scalar sums is not normalised: inside the summation or
    # part of a coefficient)
    if kind == 'sumop' and any(isinstance(e, qnet.ScalarIndexedSum)
                               for e in subexprs(first)):
        case.saw('scalar sum')
        return
    for p in orders(rng, qs, 5):
        if rng.random() < .3:
            clear()
        check(case, cls.create(*p), first, 'create in other order')
        case.saw('created')
        check(case, assoc(rng, operator.add, p), first, 'sum by +')
        case.saw('associated')
        if kind in ('op', 'sop', 'scalar', 'sumop', 'deriv'):
            check(case, sum(p), first, 'sum()')
        check(case, assoc(rng, cls.create, p), first, 'nested create')
    # the terms of a sum, summed
    if isinstance(first, cls):
        o = list(first.operands)
        rng.shuffle(o)
        check(case, cls.create(*o), first, 'operands of sum')
    # with a term removed and added again
    i = rng.randrange(len(qs))
    if not isinstance(qs[i], qnet.Bra):
        r = cls.create(*qs, qs[i]) - qs[i]
        if v is not None:
            check_same(case, ctx, r, v, 'term added and subtracted')
        if atomic(qs[i]):
            check(case, r, first, 'term added and subtracted')
    # a split coefficient
    from qnet.algebra.core.scalar_algebra import Scalar
    i = rng.randrange(len(qs))
    m = rng.choice([2, 3, -1])
    if not isinstance(qs[i], qnet.Bra):
        a = m * qs[i]
        b = (1 - m) * qs[i]
        # (a sum with a coefficient may have been expanded)
        p = qs[:i] + [a, b] + qs[i + 1:]
        rng.shuffle(p)
        r = cls.create(*p)
        case.saw('split')
        if v is not None:
            check_same(case, ctx, r, v, 'split')
        if not isinstance(qs[i], (qnet.ScalarTimes,)) and len(
                getattr(qs[i], 'operands', ())) <= 2 and not \
                isinstance(qs[i], cls) and atomic(qs[i]) and \
                not re.search(r'\d\.\d{6}', srepr(first)):  # rounding
            check(case, r, first, 'term split into multiples')


def atomic(q):
    """c*q collects with q"""
    return not any(isinstance(e, (OperatorPlus, KetPlus, SuperOperatorPlus,
                                  ScalarPlus)) for e in [q]) and not \
        isinstance(q, (qnet.ScalarValue, qnet.ScalarTimesOperator,
                       qnet.ScalarTimesKet, qnet.ScalarTimesSuperOperator)) \
        and getattr(q, 'is_zero', False) is False


# -- products ----------------------------------------------------------------

def factors(case, rng, ctx, g, kind):
    n = rng.choice([2, 3, 3, 4, 5])
    terms = []
    if kind == 'ket':
        # disjoint spaces
        keys = list(ctx.keys)
        rng.shuffle(keys)
        while keys:
            m = 1 if rng.random() < .7 else min(2, len(keys))
            terms.append(g.ket(sorted(keys[:m]), rng.choice([0, 1])))
            keys = keys[m:]
        return terms
    free = list(ctx.keys) if rng.random() < .6 else []
    rng.shuffle(free)
    if free and rng.random() < .7:
        n = min(n, len(free))
    for _ in range(n):
        d = rng.choice([0, 0, 1])
        if kind == 'scalar':
            terms.append(['sval', g.native(0)] if rng.random() < .4 else
                         ['braket', g.ket(g.pick_spaces(1), d),
                          ['ksym', rng.choice(['Psi', 'Phi']), None]])
            if terms[-1][0] == 'braket':
                ks = g.pick_spaces(1)
                terms[-1] = ['braket', g.ket(ks, d), g.ket(ks, 0)]
            x = rng.random()
            if len(terms) > 1 and x < .3:
                terms[-1] = rng.choice(terms[:-1])
            elif x < .5:
                terms[-1] = ['spow', terms[-1], rng.choice([2, 2, 3])]
        else:
            ks = [rng.choice(ctx.keys)] if rng.random() < .8 else \
                g.pick_spaces()
            if free and rng.random() < .85:
                ks = [free.pop()]
            terms.append(g.op(d, ks) if kind == 'op' else
                         g.sop(0, ks))
    return terms


def legal_order(rng, qs, kind):
    """random order that only exchanges factors on disjoint spaces"""
    p = list(qs)
    if kind in ('ket', 'scalar'):
        rng.shuffle(p)
        return p
    for _ in range(3 * len(p)):
        i = rng.randrange(len(p) - 1)
        if p[i].space.isdisjoint(p[i + 1].space):
            p[i], p[i + 1] = p[i + 1], p[i]
    return p


PCLS = {'op': OperatorTimes, 'ket': TensorKet, 'sop': SuperOperatorTimes,
        'scalar': ScalarTimes}


def mono(q):
    """a product without sums"""
    return not any(isinstance(e, (OperatorPlus, KetPlus, SuperOperatorPlus,
                                  ScalarPlus)) for e in subexprs(q))


def products(case, rng, ctx, kind, qs, v):
    case.saw('product of ' + kind)
    cls = PCLS[kind]
    if len(qs) < 2:
        raise Skip("a single factor")
    first = cls.create(*qs)
    # (neighbours on the same space may be combined by algebraic rules)
    disj = kind in ('ket', 'scalar') or all(
        a.space.isdisjoint(b.space)
        for (a, b) in itertools.combinations(qs, 2))
    if len(qs) > 1 and kind == 'op' and any(
            q.space is qnet.TrivialSpace for q in qs):
        # (a coefficient -1 may or may not be distributed to a sum)
        disj = False
    if disj:
        case.saw('disjoint factors')
    if v is not None:
        check_same(case, ctx, first, v, 'product')
        case.saw('value')
    for _ in range(6):
        p = legal_order(rng, qs, kind)
        if rng.random() < .3:
            clear()
        r = cls.create(*p)
        check(case, r, first, 'product in other order')
        case.saw('created')
        r = functools.reduce(operator.mul, p)
        if v is not None:
            check_same(case, ctx, r, v, 'product')
        if disj:
            check(case, r, first, 'product by *')
        r = assoc(rng, operator.mul, p)
        if v is not None:
            check_same(case, ctx, r, v, 'product')
        if disj:
            check(case, r, first, 'product by * in other association')
        case.saw('associated')


# -- the order relation ------------------------------------------------------

def order_relation(case):
    """sorting keys form a strict order that does not depend on history"""
    from qnet.utils.ordering import FullCommutativeHSOrder as Key
    rng = case.rng
    ctx = R.random_spaces(rng, fock=True)
    g = G1(rng, ctx, symargs=.3, unitary=True)
    kind = rng.choice(['op', 'ket', 'op'])
    ts = [g.op(rng.choice([0, 1, 2])) if kind == 'op' else
          g.ket(g.pick_spaces(), 1) for _ in range(rng.randint(3, 6))]
    case.info = dict(spaces=ctx.to_json(), recipe=ts, kind='order')
    case.key = case.info
    case.nontrivial = True
    case.phase = 'build'
    qs = []
    for t in ts:
        q = R.build(ctx, t)
        if q not in qs:
            qs.append(q)
    case.phase = 'order'
    lt = {}
    for i, a in enumerate(qs):
        for j, b in enumerate(qs):
            lt[i, j] = bool(Key(a) < Key(b))
    n = len(qs)
    for i in range(n):
        if lt[i, i]:
            raise Bad("order is not irreflexive", a=str(qs[i]))
        for j in range(n):
            if i != j and lt[i, j] == lt[j, i]:
                raise Bad("different expressions are %s" % (
                    "both smaller" if lt[i, j] else "not ordered"),
                    a=srepr(qs[i]), b=srepr(qs[j]),
                    ka=str(Key(qs[i])._op_order), kb=str(Key(qs[j])._op_order))
            for k in range(n):
                if lt[i, j] and lt[j, k] and not lt[i, k]:
                    raise Bad("order is not transitive", a=str(qs[i]),
                              b=str(qs[j]), c=str(qs[k]),
                              ka=str(Key(qs[i])._op_order),
                              kb=str(Key(qs[j])._op_order),
                              kc=str(Key(qs[k])._op_order))
    case.saw('order relation')
