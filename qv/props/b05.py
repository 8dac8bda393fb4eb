"""B05: applying rules rewrites exactly the matching nodes"""
from collections import OrderedDict
from ..common import *
import sympy
import numpy as np
import qnet
from qnet import (Matrix, OperatorSymbol, KetSymbol, BraKet, KetBra, BasisKet,
                  Commutator, LocalSigma, Create, Destroy, OperatorPlus,
                  OperatorTimes, ScalarTimesOperator, ScalarTimesKet, KetPlus,
                  SuperOperatorSymbol, CircuitSymbol, ScalarValue, Adjoint,
                  OperatorPlusMinusCC, wc, pattern, Zero, One)
from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.exceptions import CannotSimplify, AlgebraError
from qnet.algebra.pattern_matching import Pattern, pattern_head
from .. import anyexpr as X
from . import b02, b04

N_QUICK, N_THOROUGH = 12000, 300000
TIMEOUT = 60
RULE = ("random expressions of every algebra rewritten with apply_rule(s): "
        "(1) value-preserving rules on random subsets of the node types: "
        "tensor value against the reference of the program; (2) rules "
        "replacing named symbols: tensor value / structure against the "
        "program in which the symbols are replaced; (3) rules from random "
        "patterns with marker replacements: result, order and bindings of "
        "all replacement calls against an independent recursive rewriter; "
        "(4) rules that never match, rebuild(), rules raising CannotSimplify: "
        "result equal to the expression; (5) recursive=False. non-trivial: a "
        "rule fired; distinct by (program, rules)")
REQUIRED = ['value', 'replace', 'marker', 'identity', 'rebuild',
            'cannot simplify', 'not recursive', 'dict rules', 'fired',
            'fired inside', 'rename', 'several rules', 'kwargs untouched',
            'calls compared', 'rule:comm', 'rule:sigma', 'rule:basisket',
            'rule:braket', 'rule:pmcc', 'rule:reverse', 'rule:scalar']


# -- value preserving rules --------------------------------------------------

def v_rules(rng, fired):
    def log(name, f):
        def g(**kw):
            fired.append(name)
            return f(**kw)
        return g

    def bket(n, hs):
        if not isinstance(n, (int, np.integer)) or n == 0 or \
                hs.has_basis or isinstance(hs, qnet.SpinSpace):
            raise CannotSimplify()
        return Create(hs=hs) * BasisKet(n - 1, hs=hs) / sympy.sqrt(n)

    def sig(j, k, hs):
        return KetBra.create(BasisKet.create(j, hs=hs),
                             BasisKet.create(k, hs=hs))

    rules = {
        'comm': (pattern(Commutator, wc('A'), wc('B')),
                 lambda A, B: A * B - B * A),
        'sigma': (pattern(LocalSigma, wc('j'), wc('k'), hs=wc('hs')), sig),
        'basisket': (pattern(BasisKet, wc('n'), hs=wc('hs')), bket),
        'braket': (pattern(BraKet, wc('a'), wc('b')),
                   lambda a, b: (b.dag() * a).conjugate()),
        'pmcc': (Pattern(OperatorPlusMinusCC, [wc('A')], {'sign': wc('s')}),
                 lambda A, s: A + s * A.adjoint()),
        'reverse': (pattern(OperatorPlus, wc('a__')),
                    lambda a: sum(a[::-1], qnet.ZeroOperator)),
        'scalar': (Pattern(ScalarTimesOperator, [wc('c'), wc('A')]),
                   lambda c, A: (2 * A) * c - c * A),
        'scalarket': (Pattern(ScalarTimesKet, [wc('c'), wc('A')]),
                      lambda c, A: (2 * A) * c - c * A),
        'adjoint': (Pattern(Adjoint, [wc('A')]), lambda A: A.adjoint()),
        'create': (Pattern(Create, kwargs={'hs': wc('hs')}),
                   lambda hs: Destroy(hs=hs).adjoint()),
        'ketplus': (pattern(KetPlus, wc('a__')),
                    lambda a: sum(a[1:][::-1], a[0])),
    }
    names = rng.sample(sorted(rules), rng.choice([1, 2, 3, 5, len(rules)]))
    return names, {n: (rules[n][0], log(n, rules[n][1])) for n in names}


def form(rng, case, rules):
    """the rules as a dictionary or as a list"""
    if rng.random() < .5:
        case.saw('dict rules')
        return OrderedDict(rules)
    return list(rules.values())


# -- replacing symbols -------------------------------------------------------

def replace_symbols(r, table):
    """the program with leaves replaced"""
    if not isinstance(r, (list, tuple)):
        return r
    if len(r) >= 3 and r[0] in ('osym', 'ksym', 'psym'):
        t = table.get((r[0], r[1], tuple(sorted(r[2]))))
        if t is not None and len(r) == 3:
            return t
    return [replace_symbols(x, table) for x in r]


def symbols_in(r, acc):
    if isinstance(r, (list, tuple)):
        if len(r) == 3 and r[0] in ('osym', 'ksym', 'psym'):
            acc.append((r[0], r[1], tuple(sorted(r[2]))))
        for x in r:
            symbols_in(x, acc)
    return acc


CLS = {'osym': OperatorSymbol, 'ksym': KetSymbol, 'psym': SuperOperatorSymbol}


def rename_recipe(r, table):
    if not isinstance(r, (list, tuple)):
        return r
    out = [rename_recipe(x, table) for x in r]
    if len(r) >= 3 and r[0] in CLS and (r[0], r[1]) in table:
        out[1] = table[(r[0], r[1])]
    return out


# -- reference rewriter ------------------------------------------------------

def rewrite(e, rules):
    if isinstance(e, Expression):
        args = [rewrite(a, rules) for a in e.args]
        kw = {k: rewrite(v, rules) for k, v in e.kwargs.items()}
        e = type(e).create(*args, **kw)
    return once(e, rules)


def once(e, rules):
    for pat, rep in rules:
        ms = b04.ref_match(pat, e)
        if ms:
            try:
                return rep(**ms[0])
            except CannotSimplify:
                pass
    return e


def marker(top):
    if isinstance(top, qnet.Scalar):
        if isinstance(top, (type(Zero), type(One))):
            raise CannotSimplify()
        return ScalarValue.create(sympy.Symbol('m'))
    if isinstance(top, qnet.Operator):
        if top.space in (qnet.TrivialSpace, qnet.FullSpace):
            raise CannotSimplify()
        return OperatorSymbol('M', hs=top.space)
    if isinstance(top, qnet.State):
        if top.space in (qnet.TrivialSpace, qnet.FullSpace):
            raise CannotSimplify()
        k = KetSymbol('M', hs=top.space)
        return k if top.isket else k.dag()
    if isinstance(top, qnet.SuperOperator):
        if top.space in (qnet.TrivialSpace, qnet.FullSpace):
            raise CannotSimplify()
        return SuperOperatorSymbol('M', hs=top.space)
    if isinstance(top, qnet.Circuit):
        return CircuitSymbol('M', cdim=top.cdim)
    if isinstance(top, sympy.Symbol):
        return sympy.Symbol('m')
    raise CannotSimplify()


def nodes(e):
    out = []
    if isinstance(e, Expression):
        for a in list(e.args) + list(e.kwargs.values()):
            out += nodes(a)
    return out + [e]


def short(x):
    return str(x)[:500]


def equal(a, b):
    return type(a) is type(b) and (a is b or b04.eq(a, b))


# -- cases -------------------------------------------------------------------

def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    kind = rng.choice(['value'] * 3 + ['replace'] * 2 + ['marker'] * 3 +
                      ['identity', 'identity', 'rename', 'flat'])
    kinds = X.KINDS
    if kind in ('value', 'replace'):
        kinds = [k for k in X.TENSOR if k != 'deriv']
        if kind == 'value' and rng.random() < .3:
            kinds = ['commcc', 'braket', 'op']
    elif kind == 'rename':
        kinds = [k for k in X.KINDS if k not in ('space',)]
    ae = X.any_expr(rng, kinds=kinds)
    case.info = dict(ae.info(), how=kind)
    case.key = (kind, ae.kind, ae.recipe)
    globals()['do_' + kind](case, ae)


def known_capture(ae, e, out, v):
    """A09-scalar-sum-capture in the construction"""
    if 'ScalarIndexedSum' not in qnet.srepr(e) and not sum_coeff(ae.recipe):
        return
    for x in (e, out):
        d, sc = num.diff(ae.ctx.U, ae.ctx.den(x), v)
        if not d <= 1e-7 * (1 + sc):
            raise Skip("sum with a captured index (A09)")


def sum_coeff(r):
    if not isinstance(r, (list, tuple)):
        return False
    if len(r) == 3 and r[0] in ('kscr', 'kscl', 'oscr', 'oscl', 'smul') and \
            any(isinstance(x, list) and x and x[0] == 'xsum'
                for x in r[1:]):
        return True
    return any(map(sum_coeff, r))


def not_canonical(ae, e):
    """commutator(), lindblad() instantiate SPre(A) without `create`"""
    if ae.kind in ('sop', 'sopapp', 'circuit') and e.rebuild() != e:
        raise Skip("super-operator not instantiated with create")


def do_value(case, ae):
    rng = case.rng
    if not X.fits(case, ae, 8):
        raise Skip("too large")
    v = ref_value(case, ae.ctx, ae.recipe)
    fired = []
    names, rules = v_rules(rng, fired)
    case.info['rules'] = names
    case.key += (tuple(names),)
    case.phase = 'run'
    e = ae.build()
    before = b02.dump(e)
    rec = rng.random() < .85
    out = e.apply_rules(form(rng, case, rules), recursive=rec) \
        if len(rules) > 1 or rng.random() < .5 else \
        e.apply_rule(*list(rules.values())[0], recursive=rec)
    if b02.dump(e) != before:
        raise Bad("apply_rules changes the expression")
    case.sample = '%s --%s--> %s' % (short(e), ','.join(names), short(out))
    if fired:
        case.saw('fired')
        case.nontrivial = True
        for n in fired:
            case.saw('rule:' + n)
    if len(set(fired)) > 1:
        case.saw('several rules')
    if not rec:
        case.saw('not recursive')
    known_capture(ae, e, out, v)
    check_same(case, ae.ctx, out, v, "apply_rules(%s)" % ','.join(names))
    case.saw('value')


def do_replace(case, ae):
    """symbols replaced by expressions"""
    rng = case.rng
    syms = sorted(set(symbols_in(ae.recipe, [])))
    if not syms:
        raise Skip("no symbols")
    pick = rng.sample(syms, min(len(syms), rng.choice([1, 1, 2])))
    g = X.XGen(rng, ae.ctx, unitary=False)
    table, rules = {}, {}
    ae.ctx.fit(1, True)
    for i, key in enumerate(pick):
        h, label, ks = key
        r = {'osym': lambda: ['oadd', ['osym', 'N', ks],
                              ['oscl', ['num', 'int', rng.choice([2, -1])],
                               ['osym', 'P', ks]]],
             # (KetSymbols are normalised, <Psi|Psi> = 1)
            'ksym': lambda: ['ksym', 'N', ks],
             'psym': lambda: ['padd', ['psym', 'N', ks], ['psym', 'P', ks]],
             }[h]() if rng.random() < .6 else [h, 'N', ks]
        table[key] = r
        hs = ae.ctx.hs(ks)
        rules[str(key)] = (
            Pattern(CLS[h], [label], {'hs': hs}),
            lambda r=r: R.build(ae.ctx, r))
    case.info['table'] = [[list(k), t] for k, t in table.items()]
    case.key += (str(case.info['table']),)
    new = replace_symbols(ae.recipe, table)
    w = R.weight(new)
    if w > 8:
        raise Skip("too large")
    ae.ctx.fit(w, R.uses_unitary(new))
    if ae.kind.startswith('sum'):
        X.set_env(ae.ctx)
    v = ref_value(case, ae.ctx, new)
    case.phase = 'run'
    e = ae.build()
    if not isinstance(e, Expression):
        raise Skip("not an expression")
    try:
        out = e.apply_rules(form(rng, case, rules))
    except AlgebraError as exc:
        raise Bad("apply_rules: %r" % exc, expr=short(e))
    case.sample = '%s -> %s' % (short(e), short(out))
    case.nontrivial = len(pick) > 1 or bool(getattr(e, 'args', ()))
    check_same(case, ae.ctx, out, v, "apply_rules replacing symbols")
    case.saw('replace')


def do_rename(case, ae):
    """structure: the same program with other names"""
    rng = case.rng
    if ae.kind in ('circuit', 'matrix', 'deriv'):
        return do_marker(case, ae)
    found = set()

    def walk(r):
        if isinstance(r, (list, tuple)):
            if len(r) >= 3 and r[0] in CLS:
                found.add((r[0], r[1]))
            for x in r:
                walk(x)
    walk(ae.recipe)
    if not found:
        raise Skip("no symbols")
    table = {k: k[1] + '_9' for k in found if rng.random() < .8}
    case.info['table'] = sorted(map(str, table))
    case.key += (str(case.info['table']),)
    case.phase = 'run'
    e = ae.build()
    if not isinstance(e, Expression):
        raise Skip("not an expression")
    rules = []
    for (h, label), new in table.items():
        cls = CLS[h]
        rules.append((
            Pattern(cls, [label, wc('a___')], {'hs': wc('hs')}),
            lambda a, hs, cls=cls, new=new: cls(new, *a, hs=hs)))
    out = e.apply_rules(rules)
    want = R.build(ae.ctx, rename_recipe(ae.recipe, table))
    want = X._wrap(want)
    if not equal(out, want):
        not_canonical(ae, e)
        raise Bad("renaming symbols with rules is different from the program "
                  "with other names", got=short(out), want=short(want),
                  expr=short(e))
    case.nontrivial = len(table) > 1
    case.saw('rename')


def do_marker(case, ae):
    rng = case.rng
    case.phase = 'run'
    e = ae.build()
    if not isinstance(e, Expression) or isinstance(e, Matrix):
        raise Skip("not an expression")
    subs = [x for x in b04.all_sub(e) if isinstance(x, (Expression,
                                                        sympy.Basic))
            and not isinstance(x, qnet.HilbertSpace)] or [e]
    pats = []
    case.phase = 'gen'
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(subs)
        g = b04.PGen(rng, case)
        p = g.pat(t, rng.choice([0, 1, 1, 2]))
        if not isinstance(p, Pattern):
            p = Pattern(type(t), conditions=[lambda x, t=t: b04.eq(x, t)]
                        if rng.random() < .5 else None)
        p = Pattern(p.head, p.args, p.kwargs, wc_name='top',
                    conditions=p.conditions)
        pats.append(p)
    case.info['patterns'] = [b04.describe(p) for p in pats]
    case.key += (str(case.info['patterns']),)
    rec = rng.random() < .85
    refuse = rng.random() < .2
    case.phase = 'run'

    def mk(log):
        n = [0]

        def rep(top, **kw):
            log.append(dict(kw, top=top))
            if refuse and isinstance(top, Expression) and top.args and \
                    len(str(top)) % 2:
                raise CannotSimplify()
            return marker(top)
        return [(p, rep) for p in pats]
    logs, outs = [], []
    for k in range(2):
        log = []
        rules = mk(log)
        try:
            if k == 0:
                if rng.random() < .4:
                    rules = OrderedDict(('rule%d' % i, x)
                                        for i, x in enumerate(rules))
                    case.saw('dict rules')
                out = e.apply_rules(rules, recursive=rec)
            elif rec:
                out = rewrite(e, rules)
            else:
                out = once(type(e).create(*e.args, **e.kwargs), rules)
        except Skip:
            raise
        except Exception as exc:
            out = ('error', type(exc).__name__, str(exc)[:80])
        logs.append(log)
        outs.append(out)
    if len(logs[0]) != len(logs[1]) or not all(
            set(a) == set(b) and all(b04.same(a[k], b[k]) for k in a)
            for a, b in zip(*logs)):
        raise Bad("rules are applied to other nodes than by the reference",
                  got=[short(l) for l in logs[0]][:6],
                  want=[short(l) for l in logs[1]][:6], expr=short(e))
    case.saw('calls compared')
    if not equal(*outs):
        raise Bad("result of apply_rules differs from the reference rewriter",
                  got=short(outs[0]), want=short(outs[1]), expr=short(e))
    if logs[0]:
        case.saw('fired')
        case.nontrivial = True
        if any(not equal(l['top'], e) for l in logs[0]):
            case.saw('fired inside')
    if refuse:
        case.saw('cannot simplify')
    if not rec:
        case.saw('not recursive')
    case.saw('marker')
    case.sample = '%s -> %s' % (short(e), short(outs[0]))


def do_identity(case, ae):
    rng = case.rng
    case.phase = 'run'
    e = ae.build()
    if not isinstance(e, Expression) or isinstance(e, Matrix):
        raise Skip("not an expression")
    seen = []

    def never(**kw):
        seen.append(kw)
        raise CannotSimplify()
    how = rng.choice(['rebuild', 'never', 'refuse', 'same', 'empty'])
    case.key += (how,)
    case.info['identity'] = how
    if how == 'rebuild':
        out = e.rebuild()
        case.saw('rebuild')
    elif how == 'never':
        out = e.apply_rule(pattern(b04.Other), never)
    elif how == 'empty':
        out = e.apply_rules([] if rng.random() < .5 else {})
    elif how == 'refuse':
        out = e.apply_rule(wc('x'), never)
        case.saw('cannot simplify')
    else:
        out = e.apply_rule(wc('x'), lambda x: x)
    if not equal(out, e):
        not_canonical(ae, e)
        raise Bad("%s changes the expression" % how, got=short(out),
                  want=short(e), srepr=qnet.srepr(e)[:800])
    if how == 'refuse':
        a = [d['x'] for d in seen]
        b = nodes(e)
        if len(a) != len(b) or not all(equal(x, y) for x, y in zip(a, b)):
            raise Bad("not every node is visited once", got=short(a),
                      want=short(b))
    if e.kwargs:
        case.saw('kwargs untouched')
    case.nontrivial = len(nodes(e)) > 3
    case.saw('identity')


def do_flat(case, ae):
    do_marker(case, ae)
