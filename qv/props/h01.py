"""H01: Eq keeps true equations true, and keeps its history"""
from ..common import *
import unicodedata
import numpy as np
import sympy
import qnet
from qnet import Eq, Zero, One
from qnet.algebra.core.abstract_algebra import Expression, substitute
from qnet.printing import ascii, unicode, latex, srepr
from .. import anyexpr as X
from . import b02

N_QUICK, N_THOROUGH = 2500, 60000
TIMEOUT = 60
RULE = ("equations e = f(e), e a random operator/state/scalar/superoperator "
        "expression and f a value-preserving method, transformed by random "
        "chains of Eq operations (apply*, apply_mtd*, substitute, set_tag, "
        "copy, arithmetic with numbers, symbols, expressions and other "
        "equations from either side) next to an own model of an equation "
        "with its history; after each step: sides, tag, printed lines "
        "(str/repr/ascii/unicode/latex) against the model, both sides' tensor "
        "values against the value of the program, and all earlier equations "
        "unchanged. non-trivial: at least 3 operations; distinct by program")
REQUIRED = ['apply', 'apply_to_lhs', 'apply_to_rhs', 'apply_mtd',
            'apply_mtd_to_lhs', 'apply_mtd_to_rhs', 'substitute', 'set_tag',
            'copy', 'add', 'radd', 'sub', 'mul', 'rmul', 'div', 'eq+eq',
            'eq-eq', 'lines', 'latex', 'repr', 'history', 'lhs kept',
            'value lhs', 'value rhs', 'unchanged', 'verify', 'verify func',
            'symbols', 'dict', 'equality', 'mapped value', 'args passed',
            'inequality']


# -- the model ----------------------------------------------------------------

class Model:
    def __init__(self, lhs, rhs, tag, val, prev=()):
        self.l, self.rhs, self.tag, self.val = lhs, rhs, tag, val
        self.prev = tuple(prev)     # (lhs or None, rhs, tag)

    @property
    def lhs(self):
        if self.l is not None:
            return self.l
        for l, _, _ in reversed(self.prev):
            if l is not None:
                return l

    def lines(self):
        return self.prev + ((self.l, self.rhs, self.tag),)

    def next(self, lhs, rhs, tag, cont, val):
        """lhs None: same as before (not shown when continued)"""
        if cont:
            return Model(lhs, rhs, tag, val, self.lines())
        return Model(self.lhs if lhs is None else lhs, rhs, tag, val)


def width(s):
    return sum(1 for c in s if not unicodedata.combining(c))


def render(model, pr):
    rows = []
    for l, r, t in model.lines():
        rows.append(('' if l is None else pr(l), pr(r),
                     None if t is None else pr(t)))
    wl = max(width(r[0]) for r in rows)
    wr = max(width(r[1]) for r in rows)
    out = []
    for l, r, t in rows:
        line = ' ' * (wl - width(l)) + l + ' = ' + r
        if t is not None:
            line += ' ' * (wr - width(r)) + '    (' + t + ')'
        out.append(line.rstrip())
    return '\n'.join(out)


def render_latex(model):
    rows = model.lines()
    many = len(rows) > 1
    txt = []
    for i, (l, r, t) in enumerate(rows):
        s = ('' if l is None else latex(l)) + (' &= ' if many else ' = ') + \
            latex(r)
        if t is not None:
            s += r'\tag{%s}' % t
        txt.append(s)
    env = 'align' if many else 'equation'
    return r'\begin{%s}' % env + (r'\\'.join(txt)) + r'\end{%s}' % env


def squash(s):
    return ''.join(s.split())


def same(a, b):
    """identical expressions (numbers: equal)"""
    if isinstance(a, Expression) and isinstance(b, Expression):
        return a is b or b02.dump(a) == b02.dump(b) or a == b
    return a == b


# -- operations --------------------------------------------------------------

def big(a):
    return np.max(np.abs(np.asarray(a)), initial=0)


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ae = X.any_expr(rng, kinds=('op', 'op', 'op', 'ket', 'bra', 'scalar',
                                'braket', 'sop', 'sumop', 'sopapp'),
                    depth=rng.choice([0, 1, 1, 2]))
    ctx = ae.ctx
    g = X.XGen(rng, ctx, symargs=.3, unitary=False)
    nops = rng.choice([1, 2, 3, 3, 4, 5, 6])
    numeric = X.fits(case, ae, 4) and not R.uses_unitary(ae.recipe)
    if numeric:
        ctx.fit(R.weight(ae.recipe) + 2 * nops, False)
        if ae.kind.startswith('sum'):
            X.set_env(ctx)
    case.info.update(ae.info())
    case.phase = 'build'
    e = ae.build()
    if not isinstance(e, Expression):
        raise Skip("not an expression")
    isop = isinstance(e, qnet.Operator)
    U = ctx.U
    if numeric:
        case.phase = 'val'
        v = ae.ref()
        if not np.all(np.isfinite(np.asarray(v.a))) or \
                big(v.a) > 1e5:
            raise Skip("value out of numeric range")
    else:
        v = None
    PRES = [('expand', {}), ('simplify_scalar', {}), ('rebuild', {}),
            ('simplify_scalar', dict(func=sympy.expand))]

    def preserving():
        mtd, kw = rng.choice(PRES)
        return mtd, kw

    log = []
    case.info['ops'] = log

    def new_eq(e, v):
        mtd, kw = preserving()
        f = getattr(e, mtd)(**kw)
        tag = rng.choice([None, None, 1, '2', '3a', 'main', 0])
        log.append(('Eq', mtd, tag))
        case.phase = 'qnet'
        q = Eq(e, f, tag=tag) if tag is not None or rng.random() < .3 else \
            Eq(e, f)
        return q, Model(e, f, to_tag(tag), v)

    case.phase = 'qnet'
    eq, m = new_eq(e, v)
    pool = [(eq, m)]
    check(case, eq, m, numeric, ctx, 'new equation')

    for step in range(nops):
        eq, m = pool[-1] if rng.random() < .85 else rng.choice(pool)
        case.phase = 'gen'
        if not isinstance(m.lhs, Expression) or \
                not isinstance(m.rhs, Expression):
            raise Skip("side of the equation is a native number")
        choice = rng.choice(OPS)
        r = one_op(case, rng, ctx, g, choice, eq, m, pool, numeric, preserving,
                   log, isop)
        if r is None:
            continue
        neq, nm = r
        check(case, neq, nm, numeric, ctx, 'after ' + repr(log[-1]))
        pool.append((neq, nm))
    case.phase = 'qnet'
    for q, mm in pool:
        compare(q, mm, 'an earlier equation was changed')
    case.saw('unchanged')
    finish(case, rng, pool, ctx, numeric)
    case.nontrivial = len(log) >= 4
    case.key = repr((ae.recipe, log))
    case.sample = "%s: %s" % (log, str(e)[:80])


OPS = ['apply', 'apply_to_lhs', 'apply_to_rhs', 'apply_mtd',
       'apply_mtd_to_lhs', 'apply_mtd_to_rhs', 'apply_to_rhs',
       'apply_mtd_to_rhs', 'substitute', 'set_tag', 'copy',
       'add', 'radd', 'sub', 'mul', 'rmul', 'div', 'eq+eq', 'eq-eq', 'map']


def to_tag(t):
    """numbers, and strings of digits, are integer tags"""
    if isinstance(t, str) and t.isdigit():
        return int(t)
    return t


def one_op(case, rng, ctx, g, op, eq, m, pool, numeric, preserving, log, isop):
    U = ctx.U
    tag = rng.choice([None, None, None, 1, '2', '3a', 'x', 0])
    cont = rng.choice([False, True, True])
    kw = {}
    if cont or rng.random() < .3:
        kw['cont'] = cont
    if tag is not None or rng.random() < .3:
        kw['tag'] = tag
    t = to_tag(tag)
    v = m.val
    case.phase = 'qnet'
    if op in ('apply', 'apply_mtd', 'apply_to_lhs', 'apply_to_rhs',
              'apply_mtd_to_lhs', 'apply_mtd_to_rhs'):
        both = op in ('apply', 'apply_mtd')
        mapped = both and rng.random() < .5 and \
            not isinstance(m.lhs, qnet.Scalar) and \
            not isinstance(m.lhs, qnet.SuperOperator)
        if mapped:
            mtd, mkw, vm = 'adjoint', {}, \
                (lambda x: num.dag(x))
            case.saw('mapped value')
        else:
            (mtd, mkw), vm = preserving(), (lambda x: x)
        log.append((op, mtd, cont, tag))
        left = op != 'apply_to_rhs' and op != 'apply_mtd_to_rhs'
        right = op not in ('apply_to_lhs', 'apply_mtd_to_lhs')
        nl = getattr(m.lhs, mtd)(**mkw) if left else None
        nr = getattr(m.rhs, mtd)(**mkw) if right else m.rhs
        if both and cont and nl == m.lhs:
            nl = None
            case.saw('lhs kept')
        if 'mtd' in op:
            q = getattr(eq, op)(mtd, **dict(kw, **mkw))
        else:
            extra = object()
            got = []

            def func(x, a, b=None, **k2):
                got.append((x, a, b))
                if a is not extra or b != 5 or k2:
                    raise Bad("%s: arguments not passed on" % op,
                              got=repr((a, b, k2)))
                return getattr(x, mtd)(**mkw)
            q = getattr(eq, op)(func, extra, b=5, **kw)
            exp = ([m.lhs] if left else []) + ([m.rhs] if right else [])
            if len(got) != len(exp) or not all(
                    same(x[0], y) for x, y in zip(got, exp)):
                raise Bad("%s called the function for other sides" % op,
                          got=repr([str(x[0]) for x in got]))
            case.saw('args passed')
        if not left and not cont:
            nl = m.lhs
        case.saw(op)
        return q, m.next(nl, nr, t, cont,
                         None if v is None else vm(v))
    if op == 'substitute':
        syms = sorted([s for s in m.lhs.free_symbols | m.rhs.free_symbols
                       if isinstance(s, sympy.Symbol) and
                       type(s) is sympy.Symbol and
                       s.name not in ('F', 'Psi')],
                      key=str)
        if not syms:
            return None
        s = rng.choice(syms)
        s2 = sympy.Symbol('z_' + s.name, **s.assumptions0)
        vm = {s: s2}
        log.append(('substitute', str(s), cont, tag))
        if numeric:
            ctx.den.env[s2] = ctx.den.scalar(s)
        nl, nr = substitute(m.lhs, vm), substitute(m.rhs, vm)
        q = eq.substitute(vm, **kw)
        if cont and nl == m.lhs:
            nl = None
        case.saw(op)
        if 'xsum' in repr(case.info['recipe']):
            v = None    # also the label of an indexed symbol
        return q, m.next(nl, nr, t, cont, v)
    if op == 'set_tag':
        log.append((op, tag))
        case.saw(op)
        return eq.set_tag(tag), Model(m.l, m.rhs, t, v, m.prev)
    if op == 'copy':
        log.append((op,))
        q = eq.copy()
        if q is eq:
            raise Bad("copy() returned the equation itself")
        case.saw(op)
        return q, Model(m.l, m.rhs, m.tag, v, m.prev)
    if op in ('eq+eq', 'eq-eq'):
        q2, m2 = rng.choice(pool)
        try:
            nl = m.lhs + m2.lhs if op == 'eq+eq' else m.lhs - m2.lhs
            nr = m.rhs + m2.rhs if op == 'eq+eq' else m.rhs - m2.rhs
        except (TypeError, qnet.algebra.core.exceptions.AlgebraError):
            return None
        log.append((op,))
        q = eq + q2 if op == 'eq+eq' else eq - q2
        case.saw(op)
        nv = None
        if v is not None and m2.val is not None:
            try:
                nv = (num.add if op == 'eq+eq' else num.sub)(U, v, m2.val)
            except num.TypeMismatch:
                # e.g. a ket and a bra
                raise Skip("sum of different kinds")
        return q, Model(nl, nr, None, nv)
    if op == 'map':
        # the operation is an arbitrary function of one side
        c = rng.choice([2, sympy.Rational(1, 2), sympy.I, -1])
        log.append(('apply *c', str(c), cont, tag))
        nl, nr = c * m.lhs, c * m.rhs
        q = eq.apply(lambda x: c * x, **kw)
        if cont and nl == m.lhs:
            nl = None
        return q, m.next(nl, nr, t, cont,
                         None if v is None else num.scale(complex(c), v))
    # arithmetic
    if op in ('add', 'radd', 'sub'):
        how = 'expr'
        case.phase = 'gen'
        if isinstance(m.lhs, (qnet.Operator, qnet.Scalar)) and \
                rng.random() < .6:
            how = 'number'
        if how == 'number':
            rec = g.number() if rng.random() < .6 else g.sym()
        elif isinstance(m.lhs, qnet.Operator):
            rec = g.op_leaf(g.pick_spaces())
        elif isinstance(m.lhs, qnet.Scalar):
            rec = ['sval', g.sym()]
        else:
            return None
        case.phase = 'qnet'
        o = R.build(ctx, rec)
        log.append((op, rec))
        if isinstance(o, tuple):
            return None
        if op == 'add':
            nl, nr = m.lhs + o, m.rhs + o
            q = eq + o
        elif op == 'radd':
            nl, nr = m.lhs + o, m.rhs + o
            q = o + eq
        else:
            nl, nr = m.lhs - o, m.rhs - o
            q = eq - o
        need_eq(q, op, o, m)
        nv = None
        if v is not None:
            ov = R.val(ctx, rec)
            nv = (num.sub if op == 'sub' else num.add)(
                U, v, ov)
        case.saw(op)
        return q, Model(nl, nr, None, nv)
    # mul, rmul, div
    case.phase = 'gen'
    if op == 'div':
        rec = g.number(nonzero=True) if rng.random() < .7 else g.sym('rp')
        if rec[0] == 'num' and rec[1] == 'symI':
            rec = ['num', 'int', 3]
    elif isinstance(m.lhs, qnet.Operator) and rng.random() < .4:
        rec = g.op_leaf(g.pick_spaces())
    else:
        rec = g.number() if rng.random() < .6 else g.sym()
    case.phase = 'qnet'
    o = R.build(ctx, rec)
    log.append((op, rec))
    if op == 'mul':
        nl, nr, q = m.lhs * o, m.rhs * o, eq * o
    elif op == 'rmul':
        nl, nr, q = o * m.lhs, o * m.rhs, o * eq
    else:
        nl, nr, q = m.lhs / o, m.rhs / o, eq / o
    need_eq(q, op, o, m)
    nv = None
    if v is not None:
        ov = R.val(ctx, rec)
        if op == 'div':
            nv = num.scale(1 / ov.a, v)
        elif ov.kind != 'S':
            nv = num.mul(U, v, ov) if op == 'mul' else num.mul(U, ov, v)
        else:
            nv = num.scale(ov.a, v)
    case.saw(op)
    return q, Model(nl, nr, None, nv)


def need_eq(q, op, o, m):
    if not isinstance(q, Eq):
        known = isinstance(o, qnet.Scalar) and op in ('radd', 'rmul') and (
            m.rhs == 0 or m.rhs == 1)
        raise Bad("%s: the result is not an equation" % op, result=repr(q),
                  known='H01-scalar-left' if known else '')


def classify(case, out):
    return (out.get('detail') or {}).get('known') or None


# -- monitors ----------------------------------------------------------------

def compare(q, m, what):
    if not isinstance(q, Eq):
        raise Bad("%s: not an equation" % what, result=repr(q))
    if not same(q.lhs, m.lhs):
        raise Bad("%s: left side" % what, got=str(q.lhs), want=str(m.lhs))
    if not same(q.rhs, m.rhs):
        raise Bad("%s: right side" % what, got=str(q.rhs), want=str(m.rhs))
    if q.tag != m.tag or type(q.tag) is not type(m.tag):
        raise Bad("%s: tag" % what, got=repr(q.tag), want=repr(m.tag))
    got, want = str(q), render(m, str)
    if got != want:
        raise Bad("%s: printed equation" % what, got=got, want=want)


def check(case, q, m, numeric, ctx, what):
    case.phase = 'monitor'
    compare(q, m, what)
    case.saw('lines')
    if len(m.prev):
        case.saw('history')
    rng = case.rng
    x = rng.random()
    if x < .2:
        for name, got, pr in (('repr', repr(q), repr),
                              ('ascii', ascii(q), ascii),
                              ('unicode', unicode(q), unicode)):
            want = render(m, pr)
            if got != want:
                raise Bad("%s: %s" % (what, name), got=got, want=want)
        case.saw('repr')
    elif x < .4:
        want = render_latex(m)
        for got in (latex(q), q._repr_latex_()):
            if squash(got) != squash(want):
                raise Bad("%s: latex" % what, got=got, want=want)
        case.saw('latex')
    if numeric and m.val is not None:
        if big(m.val.a) > 1e6:
            raise Skip("value out of numeric range")
        check_same(case, ctx, q.lhs, m.val, what + ': left side')
        case.saw('value lhs')
        check_same(case, ctx, q.rhs, m.val, what + ': right side')
        case.saw('value rhs')


def syms(e, name):
    return set(getattr(e, name, ()))


def finish(case, rng, pool, ctx, numeric):
    case.phase = 'qnet'
    q, m = rng.choice(pool)
    for name in ('free_symbols', 'bound_symbols', 'all_symbols'):
        names = [name] if name != 'all_symbols' else [
            'free_symbols', 'bound_symbols']
        want = set().union(*[syms(x, nm) for x in (m.lhs, m.rhs)
                             for nm in names])
        if set(getattr(q, name)) != want:
            raise Bad("Eq.%s" % name, got=str(getattr(q, name)),
                      want=str(want))
    case.saw('symbols')
    d = q.as_dict
    if type(d) is not dict or len(d) != 1 or \
            not same(list(d)[0], m.lhs) or not same(d[m.lhs], m.rhs):
        raise Bad("as_dict", got=repr(d))
    case.saw('dict')
    q2, m2 = rng.choice(pool)
    want = bool(m.lhs == m2.lhs and m.rhs == m2.rhs)
    if (q == q2) != want or (q2 == q) != want or (q != q2) == want:
        raise Bad("equality of equations", a=str(q), b=str(q2), want=want)
    if not q == Eq(m.lhs, m.rhs, tag='other'):
        raise Bad("equality depends on the tag or history")
    case.saw('equality')
    if m.lhs != m.rhs:
        if q == Eq(m.rhs, m.rhs) or q == Eq(m.lhs, m.lhs):
            raise Bad("equation equal to one with another side", eq=str(q))
        case.saw('inequality')
    if isinstance(m.lhs, (qnet.Operator, qnet.SuperOperator)) or (
            isinstance(m.lhs, (qnet.KetSymbol, qnet.KetPlus)) and
            isinstance(m.rhs, (qnet.KetSymbol, qnet.KetPlus))):
        res = q.verify()
        want = m.lhs.expand().simplify_scalar() - \
            m.rhs.expand().simplify_scalar()
        if not same(res, want):
            raise Bad("verify() is not the difference of the sides",
                      got=str(res), want=str(want))
        if numeric and m.val is not None:
            den = ctx.den
            t = den(res)
            z = num.scale(0, m.val)
            dd, sc = num.diff(ctx.U, t, z)
            if not dd <= 1e-7 * (1 + big(m.val.a)):
                raise Bad("verify() of a true equation is not zero",
                          res=str(res))
        case.saw('verify')
        got = []

        def func(r, a, b=1):
            got.append((r, a, b))
            return 'result'
        r = q.verify(func, 7, b=8)
        if r != 'result' or len(got) != 1 or not same(got[0][0], want) or \
                got[0][1:] != (7, 8):
            raise Bad("verify(func)", got=repr(got), result=repr(r))
        case.saw('verify func')
