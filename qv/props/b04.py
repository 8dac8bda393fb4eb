"""B04: pattern matching is sound and complete"""
from ..common import *
import sympy
import numpy as np
import qnet
from qnet import Matrix
from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.pattern_matching import (
    Pattern, ProtoExpr, MatchDict, match_pattern, pattern, pattern_head, wc)
from .. import anyexpr as X
from . import b02

N_QUICK, N_THOROUGH = 12000, 400000
TIMEOUT = 60
RULE = ("patterns derived from random expressions of every algebra by "
        "replacing random subterms with (named, repeated, conditional, typed) "
        "wildcards of all modes and then mutated (heads, conditions, names, "
        "numbers of arguments, keyword arguments), matched against the "
        "expression, against all its subexpressions, against other "
        "expressions, ProtoExpr objects and SymPy expressions; reference: an "
        "independent recursive matcher which splits the arguments in every "
        "possible way and collects the bindings; findall/finditer against "
        "filtering all subexpressions. non-trivial: pattern with at least 2 "
        "wildcards; distinct by (program, pattern)")
REQUIRED = ['match', 'mismatch', 'multi first', 'multi last', 'zero matches',
            'repeated name', 'repeated name mismatch', 'condition true',
            'condition false', 'kwargs pattern', 'head tuple', 'no arguments',
            'protoexpr', 'sympy', 'exact argument', 'too few', 'too many',
            'findall', 'finditer', 'findall several', 'constructor errors',
            'reason', 'nested multi', 'wc', 'pattern()', 'pattern_head()',
            'equality', 'wc_names']


class NoMatch(Exception):
    pass


def eq(a, b):
    """a == b for anything (including arrays)"""
    r = a == b
    try:
        return bool(r)
    except ValueError:
        return bool(np.all(r))


# -- reference ---------------------------------------------------------------

def merge(a, b):
    """union of two bindings, or None"""
    out = dict(a)
    for k, v in b.items():
        if k in out:
            if type(out[k]) is list or type(v) is list:
                if type(out[k]) is not type(v) or len(out[k]) != len(v) or \
                        not all(eq(x, y) for x, y in zip(out[k], v)):
                    return None
            elif not eq(out[k], v):
                return None
        out[k] = v
    return out


def ref_match(p, e):
    """all bindings with which the pattern matches (a list of dicts)"""
    if not isinstance(p, Pattern):
        return [{}] if eq(p, e) else []
    out = []
    for b in ref_single(p, e):
        if p.wc_name is not None:
            b = merge(b, {p.wc_name: [e] if p.mode > 1 else e})
        if b is not None:
            out.append(b)
    return out


def ref_single(p, e):
    """matches of the expression itself, without binding its name"""
    if p.head is not None:
        heads = tuple(p.head) if isinstance(p.head, (tuple, list)) else \
            (p.head,)
        if not any(isinstance(e, h) for h in heads):
            return []
    if not all(c(e) for c in p.conditions):
        return []
    res = [{}]
    if p.args is not None:
        if not hasattr(e, 'args'):
            return []
        res = ref_args(list(p.args), list(e.args))
    if p.kwargs is not None:
        if not hasattr(e, 'kwargs'):
            return []
        for k, sub in p.kwargs.items():
            if k not in e.kwargs:
                return []
            res = [m for a in res for b in ref_match(sub, e.kwargs[k])
                   for m in [merge(a, b)] if m is not None]
    return res


def ref_args(ps, es):
    if not ps:
        return [{}] if not es else []
    p = ps[0]
    if not isinstance(p, Pattern) or p.mode == 1:
        if not es:
            return []
        return [m for a in ref_match(p, es[0]) for b in ref_args(ps[1:],
                                                                 es[1:])
                for m in [merge(a, b)] if m is not None]
    out = []
    for n in range(0 if p.mode == 3 else 1, len(es) + 1):
        heads = [{}]
        for e in es[:n]:
            heads = [m for a in heads for b in ref_single(p, e)
                     for m in [merge(a, b)] if m is not None]
        if p.wc_name is not None:
            heads = [m for a in heads
                     for m in [merge(a, {p.wc_name: list(es[:n])})]
                     if m is not None]
        if not heads:
            continue
        out += [m for a in heads for b in ref_args(ps[1:], es[n:])
                for m in [merge(a, b)] if m is not None]
    return out


# -- patterns ----------------------------------------------------------------

CONDS = {
    'true': lambda x: True,
    'false': lambda x: False,
    'hasargs': lambda x: hasattr(x, 'args'),
    'long': lambda x: len(getattr(x, 'args', ())) > 1,
    'number': lambda x: isinstance(x, (int, float, complex)),
    'space': lambda x: len(getattr(getattr(x, 'space', None), 'local_factors',
                                   ())) == 1 if not isinstance(
        x, qnet.HilbertSpace) and getattr(x, 'space', None) is not
        qnet.FullSpace else False,
    'str': lambda x: isinstance(x, str),
}


class PGen:
    def __init__(self, rng, case):
        self.rng, self.case = rng, case
        self.n = 0
        self.desc = []
        self.used = {}

    def name(self, e):
        r = self.rng
        if r.random() < .15:
            return None
        # the same subexpression gets the same name with some probability
        for k, v in self.used.items():
            if r.random() < .5 and type(v) is type(e) and eq(v, e):
                self.case.saw('repeated name')
                return k
        if self.used and r.random() < .06:
            self.case.saw('repeated name')
            return r.choice(sorted(self.used))
        self.n += 1
        k = 'abcdefghijklmnopqrstuvwxyz'[self.n % 26] + str(self.n // 26 or
                                                            '')
        self.used[k] = e
        return k

    def head(self, e):
        r = self.rng
        x = r.random()
        mro = [c for c in type(e).__mro__ if c is not object]
        if x < .35:
            return None
        if x < .6:
            return type(e)
        if x < .75:
            return r.choice(mro)
        if x < .9:
            self.case.saw('head tuple')
            t = [r.choice(mro), r.choice([str, qnet.OperatorPlus, int,
                                          qnet.Scalar])]
            r.shuffle(t)
            return tuple(t)
        return r.choice([qnet.OperatorTimes, qnet.Scalar, str, tuple,
                         qnet.Operator, qnet.OperatorSymbol,
                         qnet.algebra.core.abstract_algebra.Operation])

    def conds(self, e):
        r = self.rng
        if r.random() < .75:
            return None
        good = [k for k, f in CONDS.items() if f(e)]
        ks = [r.choice(good)]
        if r.random() < .15:
            ks.append(r.choice(sorted(CONDS)))
        for k in ks:
            self.case.saw('condition true' if CONDS[k](e) else
                          'condition false')
        return [CONDS[k] for k in ks]

    def leaf(self, e, mode=1):
        self.case.saw('wc')
        nm = self.name(e)
        if self.rng.random() < .5 and (nm is None or len(nm) < 3):
            return wc((nm or '') + {1: self.rng.choice(['', '_']), 2: '__',
                                    3: '___'}[mode] if nm or mode > 1 else
                      '_', head=self.head(e), conditions=self.conds(e))
        return Pattern(self.head(e), mode=mode, wc_name=nm,
                       conditions=self.conds(e))

    def pat(self, e, depth):
        r = self.rng
        x = r.random()
        if not hasattr(e, 'args') or isinstance(e, type):
            # (no literal numpy arrays: their == is not a truth value)
            if x < .45 and not hasattr(e, 'dtype'):
                self.case.saw('exact argument')
                return e
            return self.leaf(e)
        if x < .1:
            self.case.saw('exact argument')
            return e
        if depth <= 0 or x < .35:
            return self.leaf(e)
        args = list(e.args)
        kw = None
        if getattr(e, 'kwargs', None) and r.random() < .5:
            ks = [k for k in e.kwargs if r.random() < .6]
            kw = {k: self.pat(e.kwargs[k], depth - 1) for k in ks} or None
            if kw:
                self.case.saw('kwargs pattern')
                if r.random() < .05:
                    kw['nokey'] = wc()
        ps = self.args(args, depth)
        head = type(e) if r.random() < .7 else self.head(e)
        nm = self.name(e) if r.random() < .3 else None
        cond = self.conds(e)
        if r.random() < .4 and ps:
            self.case.saw('pattern()')
            if kw and set(kw) & {'mode', 'wc_name', 'conditions', 'head'}:
                kw = None
            return pattern(head, *ps, wc_name=nm, conditions=cond,
                           **(kw or {}))
        return Pattern(head, ps, kw, wc_name=nm, conditions=cond)

    def args(self, args, depth):
        r = self.rng
        if r.random() < .12:
            return None
        n = len(args)
        x = r.random()
        multi = None
        if x < .45:
            k = r.randint(0, n)       # number of arguments for the wildcard
            mode = r.choice([2, 3, 3]) if k else r.choice([3, 3, 2])
            if k == 0:
                self.case.saw('zero matches')
            ex = args[0] if args else 1
            left = r.random() < .5
            take, rest = (args[:k], args[k:]) if left else \
                (args[n - k:], args[:n - k])
            ex = take[0] if take else ex
            if take and depth > 1 and r.random() < .25 and hasattr(ex,
                                                                   'args'):
                multi = self.pat(ex, depth - 1)
                if isinstance(multi, Pattern):
                    multi.mode = mode
                    self.case.saw('nested multi')
                else:
                    multi = self.leaf(ex, mode)
            else:
                multi = self.leaf(ex, mode)
                if len({type(t) for t in take}) > 1 and r.random() < .6:
                    multi = Pattern(None, mode=mode, wc_name=multi.wc_name)
            out = [self.pat(a, depth - 1) for a in rest]
            self.case.saw('multi first' if left else 'multi last')
            out = [multi] + out if left else out + [multi]
        else:
            out = [self.pat(a, depth - 1) for a in args]
        if r.random() < .06:
            self.case.saw('too many')
            k = 0 if multi is not None and out[-1] is multi else len(out)
            out.insert(k, wc('zz'))
        elif r.random() < .06 and len(out) > 1:
            self.case.saw('too few')
            k = [i for i, q in enumerate(out) if q is not multi]
            if k:
                del out[r.choice(k)]
        if r.random() < .05 and len(out) > 1:
            r.shuffle(out)
            if multi is not None:
                out.sort(key=lambda q: q is multi)
        if not args:
            self.case.saw('no arguments')
        return out


def describe(p):
    if not isinstance(p, Pattern):
        return str(p)[:60]
    d = {}
    if p.head is not None:
        d['head'] = str(p._repr_head())
    if p.args is not None:
        d['args'] = [describe(a) for a in p.args]
    if p.kwargs:
        d['kwargs'] = {k: describe(v) for k, v in p.kwargs.items()}
    if p.mode != 1:
        d['mode'] = p.mode
    if p.wc_name:
        d['name'] = p.wc_name
    if p.conditions:
        d['cond'] = [next((k for k, f in CONDS.items() if f is c), '?')
                     for c in p.conditions]
    return d


def names(p):
    out = []
    if isinstance(p, Pattern):
        if p.wc_name is not None:
            out.append(p.wc_name)
        for a in p.args or ():
            out += names(a)
        for a in (p.kwargs or {}).values():
            out += names(a)
    return out


def same(a, b):
    if type(a) is list or type(b) is list:
        return type(a) is type(b) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    return a is b or eq(a, b)


def compare(case, p, e, how='match'):
    want = ref_match(p, e)
    if how == 'match':
        got = p.match(e) if isinstance(p, Pattern) else match_pattern(p, e)
    else:
        got = match_pattern(p, e)
    if not isinstance(got, MatchDict):
        raise Bad("match does not return a MatchDict", got=str(got))
    if bool(got) != got.success:
        raise Bad("truth value of the MatchDict")
    info = dict(pattern=str(describe(p))[:1500], expr=str(e)[:600])
    if not got:
        case.saw('mismatch')
        if want:
            raise Bad("no match although an assignment exists",
                      assignment=str(want[0])[:600], reason=got.reason[:500],
                      **info)
        if not isinstance(got.reason, str) or not got.reason:
            raise Bad("no reason for a mismatch", **info)
        if 'Double wildcard' in got.reason:
            case.saw('repeated name mismatch')
        case.saw('reason')
        return False
    case.saw('match')
    if not want:
        raise Bad("match although no assignment exists",
                  got=str(dict(got))[:600], **info)
    d = dict(got)
    if len(got) != len(d):
        raise Bad("length of the MatchDict", **info)
    for w in want:
        if set(w) == set(d) and all(same(w[k], d[k]) for k in w):
            return True
    raise Bad("wrong bindings", got=str(d)[:600], want=str(want[0])[:600],
              **info)


def all_sub(e):
    """arguments and keyword arguments, recursively, each occurrence"""
    out = []
    if hasattr(e, 'args') and not isinstance(e, type):
        for a in e.args:
            out += all_sub(a)
        if hasattr(e, 'kwargs'):
            for a in e.kwargs.values():
                out += all_sub(a)
    out.append(e)
    return out


def constructor_errors(case, rng):
    a, b = wc('a__'), wc('b')
    bad = [
        (ValueError, lambda: Pattern(None, [b, a, wc('c')])),
        (ValueError, lambda: Pattern(None, [wc('c__'), b, a])),
        (ValueError, lambda: Pattern(None, [wc('c___'), wc('d___')])),
        (ValueError, lambda: Pattern(None, mode=0)),
        (ValueError, lambda: Pattern(None, mode=4)),
        (TypeError, lambda: Pattern(5)),
        (TypeError, lambda: Pattern((int, 5))),
        (ValueError, lambda: wc('a____')),
        (ValueError, lambda: wc('a b')),
        (ValueError, lambda: wc('a_b')),
        (ValueError, lambda: pattern_head(1, wc_name='a')),
        (KeyError, lambda: match_pattern(b, 1).__delitem__('b')),
        (KeyError, lambda: match_pattern(b, 1).__setitem__('b', 2)),
    ]
    i = rng.randrange(len(bad))
    exc, f = bad[i]
    case.info = dict(kind='constructor error', i=i)
    case.key = ('constructor', i)
    case.phase = 'run'
    try:
        f()
    except exc:
        case.saw('constructor errors')
        return
    raise Bad("invalid pattern is accepted (%d)" % i)


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    if rng.random() < .01:
        return constructor_errors(case, rng)
    ae = X.any_expr(rng)
    case.info = ae.info()
    case.phase = 'val'
    try:
        e = ae.build()
    except Skip:
        raise
    if isinstance(e, Matrix):
        e = e.matrix[0, 0]
        if not isinstance(e, Expression):
            e = qnet.Create(hs='zz') + 2
    # (arrays cannot be compared by ==: the elements of SLHs are left alone)
    kind = rng.choice(['expr'] * 6 + ['sub', 'sub', 'proto', 'sympy'])
    target = e
    if kind == 'sub':
        target = rng.choice(X.subexprs(e))
    elif kind == 'proto':
        target = ProtoExpr.from_expr(e)
        case.saw('protoexpr')
    elif kind == 'sympy':
        sy = [x for x in all_sub(e) if isinstance(x, sympy.Basic)]
        if sy:
            target = rng.choice(sy)
        else:
            x, y = sympy.symbols('x y')
            target = rng.choice([x * y + 2, x**2 * y, sympy.sqrt(x) + y,
                                 sympy.exp(sympy.I * x) * y])
        case.saw('sympy')
    g = PGen(rng, case)
    if kind == 'proto':
        ps = g.args(list(e.args), 3)
        kw = {k: g.pat(v, 2) for k, v in e.kwargs.items()
              if rng.random() < .5 and k not in ('conditions', 'wc_name')}
        conds = None
        if ps:
            p = pattern_head(*ps, conditions=conds, **kw)
            case.saw('pattern_head()')
        else:
            p = Pattern(ProtoExpr, ps, kw or None)
    else:
        p = g.pat(target, rng.choice([1, 2, 2, 3]))
        if not isinstance(p, Pattern):
            p = g.leaf(target)
    case.info = dict(ae.info(), pattern=describe(p), target=kind)
    case.key = (ae.kind, ae.recipe, kind, case.info['pattern'])
    case.nontrivial = len(names(p)) >= 2
    case.sample = str(describe(p))[:200]
    case.phase = 'run'
    before = b02.dump(e)
    compare(case, p, target)
    compare(case, p, target, 'match_pattern')
    if set(names(p)) != p.wc_names:
        raise Bad("wc_names", got=str(p.wc_names), want=str(names(p)))
    case.saw('wc_names')
    # other targets
    subs = all_sub(e)
    for x in rng.sample(subs, min(5, len(subs))):
        compare(case, p, x)
    if rng.random() < .3:
        other = X.any_expr(rng, kinds=(ae.kind,), depth=1).build()
        if isinstance(other, Expression):
            compare(case, p, other)
    # findall
    q = p if rng.random() < .5 else g.leaf(rng.choice(subs))
    if q.mode == 1:
        want = [x for x in subs if ref_match(q, x)]
        got = q.findall(e)
        if len(got) != len(want) or not all(
                a is b or same(a, b) for a, b in zip(got, want)):
            raise Bad("findall", got=str(got)[:600], want=str(want)[:600],
                      pattern=str(describe(q)))
        case.saw('findall')
        if len(want) > 1:
            case.saw('findall several')
        its = list(q.finditer(e))
        if len(its) != len(want):
            raise Bad("finditer: number of matches", got=len(its),
                      want=len(want))
        for m, x in zip(its, want):
            if not m or not any(set(w) == set(m) and all(
                    same(w[k], m[k]) for k in w) for w in ref_match(q, x)):
                raise Bad("finditer: wrong bindings", got=str(dict(m)),
                          expr=str(x))
        case.saw('finditer')
    # equality of patterns
    clone = Pattern(p.head, p.args, p.kwargs, mode=p.mode, wc_name=p.wc_name,
                    conditions=p.conditions)
    if not clone == p or repr(clone) != repr(p):
        raise Bad("equal patterns are not equal", pattern=repr(p))
    case.saw('equality')
    for ch in (dict(mode=2 if p.mode != 2 else 3), dict(wc_name='other'),
               dict(args=[wc('q'), wc('r')] + list(
                   p.args or ()))):
        kw = dict(head=p.head, args=p.args, kwargs=p.kwargs, mode=p.mode,
                  wc_name=p.wc_name, conditions=p.conditions)
        kw.update(ch)
        try:
            o = Pattern(**kw)
        except ValueError:
            continue
        if o == p:
            raise Bad("different patterns are equal", change=str(sorted(ch)))
    if b02.dump(e) != before:
        raise Bad("matching changes the expression")


class Other:
    pass
