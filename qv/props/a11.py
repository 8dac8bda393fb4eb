"""A11: substitution and symbol sets"""
from ..common import *
import sympy
import numpy as np
import qnet
from qnet import (Matrix, OperatorSymbol, KetSymbol, SuperOperatorSymbol,
                  IdxSym, ScalarValue)
from qnet.algebra.core.abstract_algebra import Expression, substitute
from qnet.algebra.core.abstract_quantum_algebra import QuantumDerivative
from qnet.algebra.core.exceptions import AlgebraError
from qnet.algebra.core.indexed_operations import IndexedSum
from qnet.utils.indices import SymbolicLabelBase
from .. import anyexpr as X
from .. import slh as M
from ..sums import FREE_VALUE
from ..symeval import eval_sympy, symbol_value
from . import b02, b04, b05

N_QUICK, N_THOROUGH = 9000, 200000
TIMEOUT = 60
RULE = ("random expressions of every algebra (sums with ranges, evaluated "
        "and unevaluated derivatives, matrices, circuits included): "
        "(1) simultaneous substitutions of scalar symbols by numbers and "
        "expressions and of free indices: value of the result against the "
        "program's reference value under the substituted assignment; (2) "
        "substitutions of operator, ket, super-operator symbols and "
        "subexpressions: value of the program with replaced leaves; (3) "
        "bound symbols, absent symbols, the empty map, the expression itself; "
        "(4) free, bound and all symbols against an independent structural "
        "walker, and independence of the value from every other symbol. "
        "non-trivial: the substituted symbol occurs; distinct by (program, "
        "substitution)")
REQUIRED = ['sym', 'obj', 'self', 'absent', 'empty', 'bound', 'free set',
            'bound set', 'independent', 'free index', 'index renamed',
            'would capture', 'several symbols', 'kind:deriv', 'kind:matrix',
            'kind:circuit', 'kind:sop', 'kind:sumop', 'kind:trace',
            'derivative evaluated', 'substitute()', 'symbol to symbol',
            'has bound symbols', 'input unchanged', 'subexpression',
            'wrapped']


# -- symbol sets -------------------------------------------------------------

def sets(e):
    """(free, bound) symbols by structure"""
    if isinstance(e, SymbolicLabelBase):
        return sets(e.expr)
    if isinstance(e, sympy.Basic):
        return set(e.free_symbols), set()
    if isinstance(e, np.ndarray):
        return union(e.ravel())
    if isinstance(e, dict):
        return union(list(e.values()))
    if isinstance(e, (list, tuple)):
        return union(e)
    if isinstance(e, Matrix):
        return sets(e.matrix)
    if isinstance(e, IndexedSum):
        f, b = sets(e.term)
        v = set(r.index_symbol for r in e.ranges)
        return f - v, b | v
    if isinstance(e, QuantumDerivative):
        f, b = sets(e.operand)
        keys = set(e.vals)
        f2, b2 = sets(list(e.vals.values()))
        return (f - keys) | f2, b | keys | b2
    if isinstance(e, Expression):
        return union(list(e.args) + list(e.kwargs.values()))
    return set(), set()


def union(xs):
    f, b = set(), set()
    for x in xs:
        u, v = sets(x)
        f |= u
        b |= v
    return f, b


def check_sets(case, e):
    f, b = sets(e)
    for name, got, want in (
            ('free_symbols', e.free_symbols, f),
            ('bound_symbols', e.bound_symbols, b),
            ('all_symbols', e.all_symbols, f | b)):
        if set(got) != want:
            raise Bad("%s is %s, expected %s" % (
                name, sorted(map(str, got)), sorted(map(str, want))),
                expr=str(e)[:600])
    case.saw('free set')
    case.saw('bound set')
    if b:
        case.saw('has bound symbols')
    return f, b


# -- values ------------------------------------------------------------------

class Env:
    """temporary values of symbols"""

    def __init__(self, ctx, vals):
        self.ctx, self.vals = ctx, vals

    def __enter__(self):
        env = self.ctx.den.env
        self.saved = dict(env)
        env.update(self.vals)

    def __exit__(self, *a):
        env = self.ctx.den.env
        env.clear()
        env.update(self.saved)


def value(ctx, q):
    """list of tensors"""
    if getattr(ctx, 'slh_parts', False) and isinstance(q, qnet.SLH):
        return [ctx.den(X._wrap(x)) for x in (
            q.S[0, 0], q.L[0, 0], q.H)]
    if isinstance(q, Matrix):
        return [ctx.den(X._wrap(x)) for x in q.matrix.ravel()]
    if isinstance(q, qnet.Circuit):
        return M.Circ(ctx)(q)
    return ctx.den(X._wrap(q))


def reference(case, ae):
    """value of the program in the current environment"""
    ctx = ae.ctx
    if hasattr(ae, 'inner'):
        return None
    if ae.kind == 'circuit':
        try:
            v = M.ref(ctx, ae.recipe)
        except M.IllPosed:
            raise Skip("ill-posed network")
        if max(abs(v.S).max() if v.S.size else 0,
               abs(v.L).max() if v.L.size else 0, abs(v.H).max()) > 1e5:
            raise Skip("nearly ill-posed network")
        return v
    if ae.kind == 'matrix':
        return [ref_value(case, ctx, r) for row in ae.recipe[1] for r in row]
    if ae.kind == 'deriv':
        return None
    return ref_value(case, ctx, ae.recipe)


def same(case, ctx, got, want, what, tol=1e-7, **kw):
    if isinstance(got, list) or isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            raise Bad("%s: other shape" % what, **kw)
        for a, b in zip(got, want):
            same(case, ctx, a, b, what, tol, **kw)
        return
    if hasattr(got, 'H') and hasattr(got, 'L'):
        d, s = M.diff(got, want)
    else:
        try:
            d, s = num.diff(ctx.U, got, want)
        except num.TypeMismatch as e:
            z = [t for t in (got, want) if t is num.ZERO_KET]
            o = [t for t in (got, want) if t is not num.ZERO_KET]
            if z and o and float(abs(o[0].a).max()) < 1e-7:
                return
            raise Bad("%s: wrong kind of object (%s)" % (what, e), **kw)
    if not np.isfinite(s) or s > 1e6:
        raise Skip("large value")
    if not d <= tol * (1 + s):
        raise Bad("%s: value differs by %.3g (scale %.3g)" % (what, d, s),
                  **kw)


def recipe_of(ae):
    r = ae.recipe
    if ae.kind == 'deriv':
        return r[-1]
    return r


def fit(case, ae):
    ctx = ae.ctx
    if ae.kind == 'circuit':
        return
    r = recipe_of(ae)
    if ae.kind == 'matrix':
        r = ['oplus'] + [x for row in r[1] for x in row]
    w = R.weight(r) + (2 if ae.kind == 'deriv' else 0)
    u = R.uses_unitary(r)
    if w > (4 if u else 8):
        raise Skip("too large")
    ctx.fit(w, u)
    if ae.kind.startswith('sum'):
        X.set_env(ctx)


# -- cases -------------------------------------------------------------------

def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    mode = rng.choice(['sym'] * 5 + ['obj'] * 2 + ['sub', 'trivial',
                                                   'bound', 'bound'])
    kinds = [k for k in X.KINDS if k != 'space']
    if mode == 'bound':
        kinds = ['sumop', 'sumstate', 'sumscal', 'deriv']
    elif mode == 'obj':
        kinds = [k for k in X.TENSOR if k != 'deriv']
    elif rng.random() < .15:
        kinds = ['deriv']
    for _ in range(8):
        ae = X.any_expr(rng, kinds=kinds, symargs=.35)
        if enough(mode, ae):
            break
    if mode in ('sym', 'trivial', 'bound') and ae.kind != 'circuit' and \
            rng.random() < .2:
        ae = wrapped(rng, ae)
    case.info = dict(ae.info(), how=mode)
    case.key = (mode, ae.kind, ae.recipe)
    globals()['do_' + mode](case, ae)


def wrapped(rng, ae):
    """a matrix or an SLH triple containing the expression"""
    slh = ae.kind in ('op', 'sumop', 'commcc', 'trace', 'scalar', 'sumscal') \
        and rng.random() < .5
    ae.ctx.slh_parts = slh

    def mk():
        e = ae.build()
        if isinstance(e, Matrix):
            return Matrix(e)
        if slh:
            return qnet.SLH(Matrix([[1]]), Matrix([[e]]),
                            e + e.adjoint())
        return Matrix([[e, 1], [sympy.Symbol('g', real=True), e]])
    out = X.AnyExpr(ae.kind, ae.ctx, ae.recipe, mk)
    out.inner = ae
    return out


def enough(mode, ae):
    t = str(ae.recipe)
    if mode in ('sym', 'trivial'):
        return "'sym'" in t or ae.kind.startswith('sum') and (
            "'f'" in t or len(t) % 2)
    if mode == 'obj':
        return any(k in t for k in ("'osym'", "'ksym'", "'psym'"))
    if mode == 'bound':
        return "'xsum'" in t or "'vals'" in t
    return True


def setup(seed, tier):
    M.BY_VALUE = True


def build(case, ae):
    case.phase = 'run'
    e = ae.build()
    if not isinstance(e, Expression):
        raise Skip("not an expression")
    case.saw('kind:' + ae.kind)
    return e


def target(rng, x, others):
    """something to substitute for the symbol x"""
    num_ = ['0', '1', '2', '1/2', '1/3']
    y = rng.random()
    new = {'r': sympy.Symbol('u_r', real=True),
           'p': sympy.Symbol('u_p', positive=True),
           'c': sympy.Symbol('u_c')}
    if x.is_positive:
        p = new['p']
        return rng.choice([sympy.Integer(1), sympy.Integer(2), 2, 1,
                           sympy.Rational(1, 2), p, p, 2 * p, p + 1,
                           sympy.sqrt(p)])
    if x.is_real:
        s = rng.choice([new['r'], new['p']])
        return rng.choice([0, 1, -1, sympy.Rational(1, 3), sympy.Integer(2),
                           0, s, s, -s, 2 * s, s + 1, sympy.sin(s),
                           sympy.sqrt(2), sympy.pi / 4])
    s = rng.choice(list(new.values()))
    return rng.choice([0, 1, -1, sympy.I, 2 * sympy.I, 1 + sympy.I,
                       sympy.Rational(1, 3), 0, s, s, sympy.I * s, s + 1,
                       2 * s, s ** 2, sympy.exp(sympy.I * sympy.pi / 4)])


def is_name(x, e):
    """label of an IndexedBase"""
    return any(isinstance(i, sympy.Indexed) and x in i.base.free_symbols
               for i in atoms(e))


def atoms(e):
    out = []

    def walk(e):
        if isinstance(e, SymbolicLabelBase):
            walk(e.expr)
        elif isinstance(e, sympy.Basic):
            out.extend(e.atoms(sympy.Indexed))
        elif isinstance(e, np.ndarray):
            walk(list(e.ravel()))
        elif isinstance(e, (list, tuple)):
            for y in e:
                walk(y)
        elif isinstance(e, Matrix):
            walk(e.matrix)
        elif isinstance(e, Expression):
            walk(list(e.args) + list(e.kwargs.values()))
    walk(e)
    return out


def do_sym(case, ae):
    """scalar symbols and free indices"""
    rng = case.rng
    fit(case, ae)
    ctx = ae.ctx
    e = build(case, ae)
    dump = b02.dump(e)
    free, bound = check_sets(case, e)
    idx = atoms(e)
    cand = sorted((s for s in free if isinstance(s, sympy.Symbol) and
                   not any(s in i.base.free_symbols for i in idx)), key=str)
    if not cand:
        raise Skip("no free symbols")
    pick = rng.sample(cand, min(len(cand), rng.choice([1, 1, 2, 3])))
    table, env = {}, {}
    for x in pick:
        if isinstance(x, IdxSym):
            v = rng.choice([0, 1, 1])
            if rng.random() < .5:
                t = v
            else:
                t = IdxSym(rng.choice(['i', 'j', 'k', 'l', 'n']))
                if t in pick or t == x:
                    t = IdxSym('m')
                if t in bound:
                    case.saw('would capture')
                env[t] = v = FREE_VALUE
            case.saw('free index')
        else:
            t = target(rng, x, cand)
            v = complex(eval_sympy(sympy.sympify(t), ctx.den.env))
            if isinstance(t, sympy.Symbol):
                case.saw('symbol to symbol')
        table[x] = t
        env[x] = v
    if any(isinstance(t, sympy.Basic) and t.free_symbols & set(table)
           for t in table.values()):
        raise Skip("overlapping map")
    case.info['table'] = {str(k): str(t) for k, t in table.items()}
    case.key += (str(case.info['table']),)
    # value under the substituted assignment
    case.phase = 'val'
    clean = {k: v for k, v in env.items()}
    with Env(ctx, clean):
        try:
            want = reference(case, ae)
            if want is None:
                want = value(ctx, e)
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            raise Skip("no value")
    if ae.kind in ('deriv', 'sumscal', 'sumop', 'sumstate'):
        captured(case, ae, e)
    case.phase = 'run'
    f = rng.random()
    try:
        if f < .7:
            out = e.substitute(table)
        else:
            out = substitute(e, table)
            case.saw('substitute()')
    except (ValueError, ZeroDivisionError) as exc:
        if finite(want):
            raise Bad("substitute: %r" % exc, expr=str(e)[:400])
        raise Skip("no value")
    if b02.dump(e) != dump:
        raise Bad("substitute changes the expression")
    case.saw('input unchanged')
    case.sample = '%s  %s  ->  %s' % (str(e)[:300], case.info['table'],
                                      str(out)[:300])
    case.nontrivial = True
    if not finite(want):
        raise Skip("no value")
    if isinstance(e, Matrix) and not isinstance(out, Matrix):
        raise Bad("substitute in a matrix gives %s" % type(out).__name__)
    case.saw('sym')
    if len(table) > 1:
        case.saw('several symbols')
    tol = 1e-5 if ae.kind == 'deriv' else 1e-7
    if ae.kind == 'deriv' and any(
            isinstance(y, QuantumDerivative) and set(y.derivs) & set(table)
            for y in X.subexprs(e)):
        case.saw('derivative evaluated')
    with Env(ctx, {k: v for k, v in env.items() if k not in table}):
        got = value(ctx, out)
    same(case, ctx, got, want, "substitute", tol, expr=str(e)[:600],
         result=str(out)[:600])
    # symbols that were replaced are gone
    if isinstance(out, Expression):
        left = set(table) & set(out.free_symbols)
        if left:
            raise Bad("substituted symbols %s are still free" % sorted(
                map(str, left)), expr=str(e)[:600], result=str(out)[:600])
        check_sets(case, out)
        new = set()
        for t in table.values():
            new |= set(getattr(t, 'free_symbols', ()))
        extra = out.free_symbols - (set(e.free_symbols) | new)
        extra = [s for s in extra if not isinstance(s, sympy.Indexed)]
        if extra:
            raise Bad("substitution introduces the symbols %s" % extra,
                      expr=str(e)[:600], result=str(out)[:600])


def captured(case, ae, e):
    """A09-scalar-sum-capture in the construction"""
    if ae.kind == 'deriv':
        return
    if hasattr(ae, 'inner'):
        case.saw('wrapped')
        ae = ae.inner
        e = ae.build()
    v = reference(case, ae)
    if v is None:
        return
    if not same_q(case, ae.ctx, value(ae.ctx, e), v):
        if b05.sum_coeff(ae.recipe) or \
                'ScalarIndexedSum' in qnet.srepr(e):
            raise Skip("sum with a captured index (A09)")


def same_q(case, ctx, a, b):
    try:
        same(case, ctx, a, b, '')
    except Bad:
        return False
    return True


def finite(v):
    if isinstance(v, list):
        return all(map(finite, v))
    if hasattr(v, 'H') and hasattr(v, 'L'):
        return all(np.all(np.isfinite(x)) for x in (v.S, v.L, v.H))
    return bool(np.all(np.isfinite(v.a)))


def do_obj(case, ae):
    """operator, ket and super-operator symbols"""
    rng = case.rng
    syms = sorted(set(b05.symbols_in(ae.recipe, [])))
    if not syms:
        raise Skip("no symbols")
    pick = rng.sample(syms, min(len(syms), rng.choice([1, 1, 2, 3])))
    table = {}
    for key in pick:
        h, label, ks = key
        table[key] = {
            'osym': lambda: rng.choice([
                ['oadd', ['osym', 'N', ks],
                 ['oscl', ['num', 'int', rng.choice([2, -1])],
                  ['osym', 'P', ks]]],
                ['omul', ['osym', 'N', ks], ['osym', 'P', ks]],
                ['odag', ['osym', 'N', ks]]]),
            'ksym': lambda: ['ksym', 'N', ks],
            'psym': lambda: ['padd', ['psym', 'N', ks], ['psym', 'P', ks]],
        }[h]() if rng.random() < .7 else [h, 'N', ks]
    case.info['table'] = [[list(k), t] for k, t in table.items()]
    case.key += (str(case.info['table']),)
    new = b05.replace_symbols(ae.recipe, table)
    w = R.weight(new)
    if w > 8:
        raise Skip("too large")
    ctx = ae.ctx
    ctx.fit(w, R.uses_unitary(new))
    if ae.kind.startswith('sum'):
        X.set_env(ctx)
    v = ref_value(case, ctx, new)
    e = build(case, ae)
    m = {b05.CLS[h](label, hs=ctx.hs(ks)): R.build(ctx, r)
         for (h, label, ks), r in table.items()}
    out = e.substitute(m)
    case.sample = '%s -> %s' % (str(e)[:300], str(out)[:300])
    case.nontrivial = True
    if ae.kind.startswith('sum'):
        captured(case, ae, e)
    b05.known_capture(ae, e, out, v)
    check_same(case, ctx, out, v, "substitute symbols")
    case.saw('obj')


def do_sub(case, ae):
    """a subexpression, or the expression itself"""
    rng = case.rng
    e = build(case, ae)
    new = rng.choice([e.substitute({}), substitute(e, {})])
    if not b04.eq(new, e):
        b05.not_canonical(ae, e)
        scalar_sum(e)
        raise Bad("the empty substitution changes the expression",
                  expr=str(e)[:400], result=str(new)[:400])
    case.saw('empty')
    t = rng.choice([qnet.ScalarValue(3), 5, sympy.Symbol('q'),
                    OperatorSymbol('N', hs=0)])
    if e.substitute({e: t}) is not t or substitute(e, {e: t}) is not t:
        raise Bad("substituting the expression itself", expr=str(e)[:400])
    case.saw('self')
    # a subexpression by itself: nothing changes; by a fresh symbol: it is
    # gone
    subs = [s for s in X.subexprs(e) if s is not e and isinstance(
        s, (qnet.Operator, qnet.State, qnet.SuperOperator, qnet.Scalar))
        and not b02.is_singleton(s)]
    if not subs:
        return
    case.nontrivial = True
    s = rng.choice(subs)
    new = e.substitute({s: s})
    if sets(s)[0] & sets(e)[1] or ae.kind == 'deriv':
        # (derivatives are evaluated, bound indices may be renamed)
        pass
    elif not b04.eq(new, e):
        b05.not_canonical(ae, e)
        scalar_sum(e)
        raise Bad("substituting a subexpression by itself changes the "
                  "expression", expr=str(e)[:400], sub=str(s)[:300],
                  result=str(new)[:400])
    case.saw('subexpression')
    if not isinstance(s, qnet.Operator) or s.space in (
            qnet.TrivialSpace, qnet.FullSpace):
        return
    if any(isinstance(x, (IndexedSum, QuantumDerivative))
           for x in X.subexprs(e)):
        return
    m = OperatorSymbol('Fresh', hs=s.space)
    try:
        new = e.substitute({s: m})
    except AlgebraError:
        return
    if any(x == s and x is not e and not isinstance(x, qnet.Scalar)
           for x in X.subexprs(new)):
        raise Bad("the replaced subexpression is still there",
                  expr=str(e)[:400], sub=str(s)[:300], result=str(new)[:400])


def scalar_sum(e):
    if 'ScalarIndexedSum' in qnet.srepr(e):
        raise Skip("sum in a coefficient is pulled out")


def do_trivial(case, ae):
    """symbols that do not occur, dependence on symbols"""
    rng = case.rng
    fit(case, ae)
    ctx = ae.ctx
    e = build(case, ae)
    free, bound = check_sets(case, e)
    absent = [s for s in (
        sympy.Symbol('nope'), sympy.Symbol('nope', real=True), IdxSym('zz'),
        sympy.Symbol('x', integer=True, negative=True)) if s not in free]
    m = {a: rng.choice([0, 2, sympy.Symbol('u')])
         for a in rng.sample(absent, rng.choice([1, 2]))}
    out = e.substitute(m)
    if not b04.eq(out, e):
        b05.not_canonical(ae, e)
        scalar_sum(e)
        raise Bad("substituting an absent symbol changes the expression",
                  expr=str(e)[:400], result=str(out)[:400])
    case.saw('absent')
    # the value of the program depends on free symbols only
    if ae.kind in ('space', 'circuit'):
        return
    others = set()

    def walk(r):
        if isinstance(r, (list, tuple)):
            if len(r) == 3 and r[0] == 'sym':
                others.add(R._sym(r[1], r[2]))
            for y in r:
                walk(y)
    walk(ae.recipe)
    dep = [s for s in others | bound if s not in free
           and isinstance(s, sympy.Symbol)]
    try:
        v0 = value(ctx, e)
    except Exception:
        raise
    if ae.kind.startswith('sum'):
        captured(case, ae, e)
    case.nontrivial = True
    dep += [sympy.Symbol('nope')]
    env = {}
    for s in dep:
        env[s] = ctx.den.scalar(s) * 1.5 if not isinstance(s, IdxSym) else 0
    with Env(ctx, env):
        v1 = value(ctx, e)
    tol = 1e-5 if ae.kind == 'deriv' else 1e-7
    same(case, ctx, v1, v0, "the value depends on the symbols %s, which are "
         "not free" % sorted(map(str, dep)), tol, expr=str(e)[:400])
    case.saw('independent')


def do_bound(case, ae):
    """bound symbols are not replaced"""
    rng = case.rng
    fit(case, ae)
    ctx = ae.ctx
    e = build(case, ae)
    free, bound = check_sets(case, e)
    b = sorted(((s for s in bound - free)), key=str)
    if not b:
        raise Skip("no bound symbols")
    x = rng.choice(b)
    if ae.kind.startswith('sum'):
        captured(case, ae, e)
    v0 = value(ctx, e)
    case.nontrivial = True
    if isinstance(x, IdxSym) and rng.random() < .5:
        y = IdxSym(rng.choice(['m', 'i', 'j', 'k', 'p']))
        t = y
    else:
        t = rng.choice([0, 1, 2])
    case.info['table'] = {str(x): str(t)}
    case.key += (str(x), str(t))
    out = e.substitute({x: t})
    same(case, ctx, value(ctx, out), v0, "substituting a bound symbol (%s: "
         "%s)" % (x, t), 1e-5 if ae.kind == 'deriv' else 1e-7,
         expr=str(e)[:400], result=str(out)[:400])
    if isinstance(t, IdxSym):
        case.saw('index renamed')
        if isinstance(out, Expression) and \
                out.free_symbols != e.free_symbols:
            raise Bad("renaming a bound index changes the free symbols",
                      expr=str(e)[:400], result=str(out)[:400])
    elif not b04.eq(out, e):
        if e.substitute({}) != e:
            raise Skip("not in canonical form")
        raise Bad("substituting a bound symbol by a number changes the "
                  "expression", expr=str(e)[:400], result=str(out)[:400])
    case.saw('bound')
