"""B02: equality, hashing, immutability, caching"""
from ..common import *
from .. import anyexpr as X
from ..anyexpr import any_expr, subexprs, Expression
import copy
import pickle
import re
import numpy as np
import sympy
import qnet
from qnet import Matrix, LocalSpace, OperatorSymbol, Destroy
from qnet.algebra.core.hilbert_space_algebra import HilbertSpace
from qnet.algebra.core.scalar_algebra import ScalarValue
from qnet.utils.singleton import Singleton
from qnet.algebra.toolbox.core import (
    no_instance_caching, temporary_instance_cache)
from qnet.printing import ascii, unicode, latex, srepr, tex
from qnet.printing import tree
from qnet.printing import dotprint
import qnet.algebra.core.abstract_algebra as AA

N_QUICK, N_THOROUGH = 9000, 200000
TIMEOUT = 40
RULE = ("random expressions of every algebra (operators, states, "
        "superoperators, scalars, indexed sums, traces, derivatives, circuits,"
        " matrices, Hilbert spaces). Every subexpression is rebuilt from its "
        "class, args and kwargs; perturbed in one argument or keyword; "
        "copied, pickled; built with the instance cache on, off, cleared, "
        "temporary and polluted; snapshotted structurally before and after "
        "random sequences of public calls; pools of expressions are checked "
        "pairwise for consistent ==, != and hash, and equal ones for the same "
        "reference value. non-trivial: at least 3 subexpressions; distinct by "
        "program and mode")
REQUIRED = ['reconstructed', 'perturbed arg', 'perturbed kwarg', 'copied',
            'pickled', 'cache off', 'cache temporary', 'cache cleared',
            'cache polluted', 'unchanged', 'pairs', 'equal pairs',
            'equal built differently', 'keywords in another order',
            'mapping in another order', 'local identifiers in another order',
            'symbol sets', 'rebuild', 'singleton']


def dump(e, depth=0):
    """structure of `e`, independent of QNET's own printers and hashes"""
    if isinstance(e, Matrix):
        return ('Matrix', e.matrix.shape,
                tuple(dump(x) for x in e.matrix.ravel()))
    if isinstance(e, ScalarValue):
        # equal to (and interchangeable with) its value
        return dump(e.val)
    if isinstance(e, Expression):
        if isinstance(type(e), Singleton):
            return (type(e).__name__,)
        return (type(e).__name__, tuple(dump(a) for a in e.args),
                tuple(sorted((k, dump(v)) for k, v in e.kwargs.items())))
    if isinstance(e, dict):
        return ('dict', tuple(sorted(((dump(k), dump(v))
                                      for k, v in e.items()), key=str)))
    if isinstance(e, (tuple, list)):
        return (type(e).__name__, tuple(dump(a) for a in e))
    if isinstance(e, sympy.Basic):
        return sympy.srepr(e)
    if isinstance(e, (int, np.integer)):
        # equal expressions with Python and SymPy integers are interchangeable
        return sympy.srepr(sympy.Integer(int(e)))
    if isinstance(e, (int, float, complex, str, np.number, type(None))):
        return (type(e).__name__, repr(e))
    if hasattr(e, '__attrs_attrs__'):
        return (type(e).__name__, tuple(
            (a.name, dump(getattr(e, a.name))) for a in e.__attrs_attrs__))
    return (type(e).__name__, repr(e))


def is_singleton(e):
    return isinstance(type(e), Singleton)


def symbols_of(e):
    return tuple(frozenset(map(str, s)) for s in (
        e.free_symbols, e.bound_symbols, e.all_symbols))


def symbols(x, what):
    f = {'free': 'free_symbols', 'all': 'all_symbols',
         'bound': 'bound_symbols'}[what]
    return frozenset(map(str, getattr(x, f)))


def check_equal(a, b, what, h=True):
    if not (a == b) or not (b == a):
        raise Bad("%s: not equal" % what, left=str(a), right=str(b),
                  dl=str(dump(a))[:600], dr=str(dump(b))[:600])
    if (a != b) or (b != a):
        raise Bad("%s: == and != both True" % what, left=str(a), right=str(b))
    if h and hash(a) != hash(b):
        raise Bad("%s: equal with different hashes" % what, left=str(a),
                  right=str(b))


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    mode = rng.choice(['reconstruct', 'reconstruct', 'perturb', 'perturb',
                       'cache', 'cache', 'immutable', 'immutable', 'immutable',
                       'pool', 'pool', 'copy'])
    if mode == 'pool':
        return pool(case)
    ae = any_expr(rng)
    case.info = dict(ae.info(), mode=mode)
    case.key = (mode, ae.info())
    case.phase = 'build'
    clear_cache()
    q = ae.build()
    subs = subexprs(q)
    case.nontrivial = len(subs) >= 3
    case.sample = "%s: %s" % (mode, str(q)[:200])
    case.phase = mode
    globals()['do_' + mode](case, ae, q, subs)


# -- reconstruction ----------------------------------------------------------

def do_reconstruct(case, ae, q, subs):
    if isinstance(q, Matrix):
        check_equal(Matrix(q.matrix), q, "Matrix from its entries")
        check_equal(Matrix(*q.args, **q.kwargs) if q.args else q, q,
                    "Matrix from args")
    for e in subs:
        if is_singleton(e):
            for c in (type(e)(), type(e).create(), e.rebuild()):
                if c is not e:
                    raise Bad("singleton %s instantiated twice" % e)
            if e() is not e:
                raise Bad("calling singleton %s" % e)
            case.saw('singleton')
            continue
        cls = type(e)
        for what in ('kwargs', 'minimal_kwargs'):
            kw = getattr(e, what)
            c = cls(*e.args, **kw)
            check_equal(c, e, "%s from its args and %s" % (
                cls.__name__, what))
            if type(c) is not cls:
                raise Bad("class changes")
            if dump(c) != dump(e) and not isinstance(e, HilbertSpace):
                raise Bad("%s from its args and %s: structure differs" % (
                    cls.__name__, what), a=str(dump(c))[:500],
                    b=str(dump(e))[:500])
            if c is e:
                raise Bad("direct instantiation returns cached instance")
            if symbols_of(c) != symbols_of(e):
                raise Bad("symbols differ after reconstruction of %s" % e)
        kw = {}
        for k in reversed(list(e.kwargs)):
            v = e.kwargs[k]
            if k in ('derivs', 'vals', 'local_identifiers') and v:
                v = dict(reversed(list(dict(v).items())))
                if len(v) > 1:
                    case.saw('mapping in another order')
            kw[k] = v
        if cls.__name__ == 'LocalSpace' and case.rng.random() < .3:
            ids = [('Create', 'c'), ('Destroy', 'c'), ('LocalSigma', 's')]
            sp = []
            for _ in range(2):
                case.rng.shuffle(ids)
                kw2 = dict(e.kwargs, local_identifiers=dict(ids))
                sp += [cls(*e.args, **kw2), cls.create(*e.args, **kw2)]
            for x in sp[1:]:
                check_equal(x, sp[0], "local_identifiers in another order")
            ops = [c(hs=x) for x in sp for c in (Destroy,)]
            for x in ops[1:]:
                check_equal(x, ops[0], "Destroy on equal spaces")
            if sp[0] == e and not e.kwargs['local_identifiers']:
                raise Bad("local_identifiers are ignored by ==")
            case.saw('local identifiers in another order')
        if e.kwargs:
            check_equal(cls(*e.args, **kw), e,
                        "%s with keywords in another order" % cls.__name__)
            case.saw('keywords in another order')
        if not set(e.minimal_kwargs) <= set(e.kwargs):
            raise Bad("minimal_kwargs not a subset of kwargs")
        if str(c) != str(e):
            raise Bad("%s reconstructed prints differently" % cls.__name__,
                      a=str(c), b=str(e))
        case.saw('reconstructed')
    if isinstance(q, Expression):
        c = q.rebuild()
        case.saw('rebuild')
        if ae.has_ref and X.fits(case, ae):
            check_same(case, ae.ctx, c, ae.ctx.den(q), 'rebuild')
        if c == q:
            check_equal(c, q, 'rebuild')
            case.saw('rebuild equal')


# -- changing a single argument ----------------------------------------------

OTHER_HS = None


def perturb(rng, v, subs, depth=0):
    """some value different from v; None if we do not know one"""
    if isinstance(v, bool) or v is None:
        return None
    if isinstance(v, str):
        return v + 'x'
    if isinstance(v, (int, np.integer)):
        return v + rng.choice([1, 2])
    if isinstance(v, float):
        return v + 0.25
    if isinstance(v, HilbertSpace):
        return v * LocalSpace('zz') if rng.random() < .5 else LocalSpace('zz')
    if isinstance(v, Matrix):
        a = v.matrix.copy()
        ix = rng.choice(list(np.ndindex(*a.shape))) if a.size else None
        if ix is None:
            return None
        a[ix] = a[ix] + 1 if rng.random() < .5 else a[ix] * 2 + 3
        return Matrix(a)
    if isinstance(v, Expression):
        same = [s for s in subs if isinstance(s, type(v).__mro__[
            1 if len(type(v).__mro__) > 1 else 0]) and not s == v]
        if same and rng.random() < .5:
            return rng.choice(same)
        if is_singleton(v):
            return None
        args, kw = list(v.args), dict(v.kwargs)
        if depth > 3:
            return None
        return change_one(rng, type(v), args, kw, subs, depth + 1)[0]
    if isinstance(v, sympy.Basic):
        if isinstance(v, qnet.IdxSym):
            return v.prime if hasattr(v, 'prime') and not callable(
                v.prime) else qnet.IdxSym('zz')
        if v.is_Boolean if hasattr(v, 'is_Boolean') else False:
            return None
        return v + 1
    if isinstance(v, (tuple, list)):
        if not len(v):
            return None
        i = rng.randrange(len(v))
        w = perturb(rng, v[i], subs, depth + 1)
        if w is None:
            return None
        x = list(v)
        x[i] = w
        return type(v)(x)
    if hasattr(v, '__attrs_attrs__'):
        at = [a for a in v.__attrs_attrs__ if a.init]
        a = rng.choice(at)
        w = perturb(rng, getattr(v, a.name), subs, depth + 1)
        if w is None:
            return None
        kw = {b.name: getattr(v, b.name) for b in at}
        kw[a.name] = w
        try:
            return type(v)(**kw)
        except Exception:
            return None
    return None


def change_one(rng, cls, args, kw, subs, depth=0, trace=None):
    spots = [('arg', i) for i in range(len(args))] + [
        ('kwarg', k) for k in kw]
    if not spots:
        return None, None, None
    kind, k = rng.choice(spots)
    old = args[k] if kind == 'arg' else kw[k]
    new = -old if k == 'sign' else perturb(rng, old, subs, depth)
    if new is None:
        return None, None, None
    try:
        if type(new) is type(old) and bool(new == old):
            return None, None, None
    except Exception:
        return None, None, None
    if kind == 'arg':
        args = list(args)
        args[k] = new
    else:
        kw = dict(kw)
        kw[k] = new
    try:
        return cls(*args, **kw), kind, (k, old, new)
    except Exception:
        # the constructor refuses it
        return None, None, None


def do_perturb(case, ae, q, subs):
    rng = case.rng
    for e in subs:
        if is_singleton(e) or type(e).__name__ in ('LocalSpace', 'SpinSpace'):
            # identity of local spaces: C01
            continue
        c, kind, det = change_one(rng, type(e), list(e.args), dict(e.kwargs),
                                  subs)
        if c is None:
            continue
        k, old, new = det
        got = c.args[k] if kind == 'arg' and k < len(c.args) else \
            c.kwargs.get(k, None) if kind == 'kwarg' else None
        case.saw('perturbed ' + kind)
        if c == e or e == c or not (c != e):
            raise Bad("%s with different %s %s is equal to the original"
                      % (type(e).__name__, kind, k), old=str(old),
                      new=str(new), e=str(e), c=str(c))
        if type(got) is type(new) and not bool(got == new):
            raise Bad("%s does not hold the %s %s it was created with" % (
                type(e).__name__, kind, k), got=str(got), new=str(new))
        # the pair is also distinguished as dictionary keys
        d = {e: 1}
        d[c] = 2
        if len(d) != 2 or d[e] != 1:
            raise Bad("dictionary does not distinguish %s and %s" % (e, c))
        # and create() does not mix them up
        try:
            w1 = type(e).create(*e.args, **e.kwargs)
            w2 = type(c).create(*c.args, **c.kwargs)
        except Exception:
            continue
        with no_instance_caching():
            try:
                v1 = type(e).create(*e.args, **e.kwargs)
                v2 = type(c).create(*c.args, **c.kwargs)
            except Exception:
                continue
        check_equal(w1, v1, 'create with and without cache')
        check_equal(w2, v2, 'create with and without cache')


# -- caching -----------------------------------------------------------------

def pollute(rng, r, p=.3):
    """the same program with some numbers of another type"""
    if not isinstance(r, (list, tuple)):
        return r
    if len(r) >= 3 and r[0] == 'num' and r[1] == 'int' and rng.random() < p:
        return rng.choice([['num', 'npi', r[2]], ['num', 'symI', r[2], 0],
                           ['num', 'int', r[2] + 1], ['num', 'int', -r[2]],
                           ['num', 'float', r[2]]])
    if len(r) >= 3 and r[0] == 'sym' and r[2] in ('r', 'p', 'c') and \
            rng.random() < p:
        return ['sym', r[1], rng.choice('rpc')]
    return type(r)(pollute(rng, x, p) for x in r)


def swap(rng, r, p=.15):
    """the same program with other numbers/labels"""
    if not isinstance(r, (list, tuple)):
        return r
    r = type(r)(swap(rng, x, p) for x in r)
    if rng.random() < p and len(r) > 2 and r[0] in (
            'oadd', 'osub', 'omul', 'kadd', 'oplus', 'otimes', 'padd'):
        return [r[0]] + list(r[1:])[::-1]
    return r


def norm(text):
    # basis determines the dimension; 2 == Integer(2)
    text = re.sub(r"\bInteger\((-?\d+)\)", r"\1", text)
    text = re.sub(r"\bScalarValue\((-?\d+)\)", r"\1", text)
    text = re.sub(r"(basis=\([^()]*\)), dimension=\d+", r"\1", text)

    def default(m):
        b = [x.strip(" '") for x in m.group(1).split(',') if x.strip()]
        if b == [str(i) for i in range(len(b))]:
            return 'dimension=%d' % len(b)
        return m.group(0)
    return re.sub(r"basis=\(([^()]*)\)", default, text)


def clear_cache():
    Expression._instances.clear()


def do_cache(case, ae, q, subs):
    rng = case.rng
    ref = dump(q)
    text = norm(srepr(q))
    variants = ['off', 'temporary', 'cleared']
    if ae.has_ref:
        variants.append('polluted')
    rng.shuffle(variants)
    for v in variants:
        if v == 'off':
            with no_instance_caching():
                c = ae.build()
        elif v == 'temporary':
            with temporary_instance_cache(Expression):
                before = len(Expression._instances)
                c = ae.build()
                if before != 0:
                    raise Bad("temporary cache is not empty")
        elif v == 'cleared':
            clear_cache()
            c = ae.build()
            # and from the cache
            c2 = ae.build()
            check_equal(c2, c, 'second evaluation of the same program')
            if dump(c2) != dump(c):
                raise Bad("second evaluation differs in structure",
                          a=str(c), b=str(c2))
        else:
            clear_cache()
            pol = pollute(rng, ae.recipe)
            try:
                R.build(ae.ctx, swap(rng, pol))
                R.build(ae.ctx, swap(rng, ae.recipe))
            except Exception:
                pass
            c = X._wrap(R.build(ae.ctx, ae.recipe))
        case.saw('cache ' + v)
        # sympy 1.1.1: 2.0*x == 2*x with different hashes
        check_equal(c, q, 'cache ' + v, h=v != 'polluted')
        if v != 'polluted':
            if dump(c) != ref:
                raise Bad("cache %s: structure differs" % v, a=str(c),
                          b=str(q), da=str(dump(c))[:6000],
                          db=str(ref)[:6000])
            if norm(srepr(c)) != text:
                raise Bad("cache %s: srepr differs" % v, a=srepr(c), b=text)
            if isinstance(c, Expression) and symbols_of(c) != symbols_of(q):
                raise Bad("cache %s: symbols differ" % v)
    if ae.has_ref and X.fits(case, ae):
        v = ref_value(case, ae.ctx, ae.recipe)
        check_same(case, ae.ctx, c, v, 'program with polluted cache'
                   if variants[-1] == 'polluted' else 'program')
    # a method result does not depend on the cache either
    ops = [o for o in CALLS if rng.random() < .2]
    for name in ops:
        f = CALLS[name]
        try:
            seed = rng.random()
            import random
            a = f(q, random.Random(seed))
            with no_instance_caching():
                b = f(q, random.Random(seed))
            clear_cache()
            d = f(ae.build(), random.Random(seed))
        except Exception:
            continue
        if isinstance(a, (Expression, Matrix)):
            if not (a == b and a == d):
                raise Bad("result of %s depends on the cache" % name,
                          a=str(a), b=str(b), d=str(d))
            case.saw('call with caches')


# -- immutability ------------------------------------------------------------

def _syms(q):
    return sorted((s for s in q.free_symbols if isinstance(s, sympy.Symbol)
                   and not isinstance(s, qnet.IdxSym)), key=str)


def _diff(q, rng):
    s = _syms(q) + [sympy.Symbol('x', real=True)]
    return q.diff(s[0], rng.choice([1, 2]))


def _subst(q, rng):
    s = _syms(q)
    m = {x: rng.choice([sympy.Integer(2), x + 1, sympy.Symbol('w')])
         for x in s[:2]}
    m[OperatorSymbol('A', hs='zz')] = OperatorSymbol('B', hs='zz')
    subs = [x for x in subexprs(q) if isinstance(x, OperatorSymbol)]
    if subs and rng.random() < .5:
        m[subs[0]] = OperatorSymbol('F', hs=subs[0].space)
    return q.substitute(m)


CALLS = {
    'expand': lambda q, r: q.expand(),
    'simplify_scalar': lambda q, r: q.simplify_scalar(),
    'simplify_scalar2': lambda q, r: q.simplify_scalar(func=sympy.expand),
    'substitute': _subst,
    'diff': _diff,
    'adjoint': lambda q, r: q.adjoint(),
    'dag': lambda q, r: q.dag(),
    'doit': lambda q, r: q.doit(),
    'doit2': lambda q, r: q.doit([qnet.Commutator], recursive=False),
    'rebuild': lambda q, r: q.rebuild(),
    'neg': lambda q, r: -q,
    'add': lambda q, r: q + q,
    'sub': lambda q, r: q - q,
    'mul': lambda q, r: q * q,
    'scal': lambda q, r: 2 * q,
    'div': lambda q, r: q / 3,
    'pow': lambda q, r: q ** 2,
    'lshift': lambda q, r: q << q,
    'concat': lambda q, r: q + q,
    'inverse': lambda q, r: q.series_inverse(),
    'feedback': lambda q, r: q.feedback(),
    'slh': lambda q, r: q.toSLH(),
    'creduce': lambda q, r: q.creduce(),
    'blocks': lambda q, r: q.get_blocks(),
    'pseudo_inverse': lambda q, r: q.pseudo_inverse(),
    'apply_rule': lambda q, r: q.apply_rule(
        qnet.pattern(OperatorSymbol, 'A', hs=qnet.wc('hs')),
        lambda hs: OperatorSymbol('Q', hs=hs)),
    'normal_form': lambda q, r: qnet.rewrite_with_operator_pm_cc(q)
    if hasattr(qnet, 'rewrite_with_operator_pm_cc') else None,
    'expand_comm': lambda q, r: q.expand_in_basis()
    if hasattr(q, 'expand_in_basis') else None,
    'ascii': lambda q, r: ascii(q),
    'unicode': lambda q, r: unicode(q),
    'latex': lambda q, r: latex(q),
    'srepr': lambda q, r: srepr(q, indented=r.random() < .3),
    'tree': lambda q, r: tree(q),
    'dot': lambda q, r: dotprint(q),
    'free': lambda q, r: sorted(q.free_symbols, key=str) and None,
    'bound': lambda q, r: sorted(q.bound_symbols, key=str) and None,
    'all': lambda q, r: sorted(q.all_symbols, key=str) and None,
    'hash': lambda q, r: hash(q) and None,
    'eq': lambda q, r: (q == q.rebuild()) and None,
    'space': lambda q, r: q.space and None,
    'sympy_matrix': lambda q, r: __import__(
        'qnet.convert.to_sympy_matrix', fromlist=['x']
    ).convert_to_sympy_matrix(q) and None,
    'order': lambda q, r: q._order_key and None,
    'local_factors': lambda q, r: q.space.local_factors and None,
    'trace': lambda q, r: qnet.OperatorTrace.create(
        q, over_space=q.space) and None,
    'commutator': lambda q, r: qnet.Commutator.create(q, q.dag()) and None,
    'spre': lambda q, r: qnet.SPre.create(q) and None,
    'matrix': lambda q, r: Matrix([[q, 1], [0, q]]),
    'terms': lambda q, r: list(__import__('itertools').islice(q.terms, 3)) and None,
    'extract': lambda q, r: __import__(
        'qnet.algebra.toolbox.commutator_manipulation', fromlist=['x']
    ).expand_commutators_leibniz(q) and None,
    'fock': lambda q, r: q.to_fock_representation() and None,
    'block_structure': lambda q, r: q.block_structure and None,
    'T': lambda q, r: q.T,
    'conjugate': lambda q, r: q.conjugate(),
    'real': lambda q, r: q.real,
    'block': lambda q, r: q.block_structure,
    'expand2': lambda q, r: q.expand().expand() and None,
    'move_drive': lambda q, r: qnet.move_drive_to_H(q.toSLH()) and None,
}


def do_immutable(case, ae, q, subs):
    import random
    rng = case.rng
    snap = [(e, dump(e), hash(e), e._instance_key) for e in subs]
    qd = dump(q)
    keys = [k for k in CALLS]
    n = rng.choice([3, 6, 10])
    prog = []
    for name in [rng.choice(keys) for _ in range(n)]:
        t = rng.choice(subs) if subs and rng.random() < .3 else q
        seed = rng.random()
        prog.append(name)
        case.info['calls'] = list(prog)
        try:
            CALLS[name](t, random.Random(seed))
            case.saw('call ' + name)
        except (Exception, RecursionError):
            continue
    if dump(q) != qd:
        raise Bad("expression changed by %s" % prog, before=str(qd)[:6000],
                  after=str(dump(q))[:6000])
    for e, d, h, key in snap:
        if dump(e) != d:
            raise Bad("subexpression changed by %s" % prog,
                      before=str(d)[:6000], after=str(dump(e))[:6000])
        if hash(e) != h or (e._hash is not None and e._hash != h):
            raise Bad("hash changed")
        if e._instance_key != key:
            raise Bad("instance key changed")
        case.saw('unchanged')
    # cached attributes agree with those of a fresh copy
    clear_cache()
    c = ae.build()
    check_equal(c, q, 'rebuilt after calls')
    if dump(c) != qd:
        raise Bad("program gives a different structure after %s" % prog,
                  a=str(qd)[:6000], b=str(dump(c))[:6000])
    order = ['free', 'all', 'bound']
    for e, d, h, key in snap:
        if is_singleton(e) or isinstance(e, ScalarValue):
            continue
        rng.shuffle(order)
        f = type(e)(*e.args, **e.kwargs)
        want = {k: symbols(f, k) for k in order}
        got = {k: symbols(e, k) for k in order}
        if want != got:
            raise Bad("cached symbols of %s are stale or depend on the order "
                      "of access" % type(e).__name__, got=str(got),
                      want=str(want), e=str(e))
        if want['all'] != want['free'] | want['bound']:
            raise Bad("all_symbols is not the union", want=str(want))
        case.saw('symbol sets')


# -- copies ------------------------------------------------------------------

def do_copy(case, ae, q, subs):
    for e in ([q] if isinstance(q, Matrix) else []) + subs:
        if e.all_symbols or any(
                isinstance(a, sympy.Basic) and not copy.deepcopy(a) == a
                for x in subexprs(e) for a in x.args):
            # copying changes the hash of symbols in sympy 1.1.1, and
            # evaluates unevaluated products
            continue
        hash(e)
        str(e)
        for what, f in (('copied', copy.copy), ('copied', copy.deepcopy),
                        ('pickled', lambda x: pickle.loads(pickle.dumps(x)))):
            c = f(e)
            case.saw(what)
            if is_singleton(e) and c is not e:
                raise Bad("%s singleton is a new object" % what)
            check_equal(c, e, "%s %s" % (what, type(e).__name__))
            if dump(c) != dump(e):
                raise Bad("%s %s: structure" % (what, type(e).__name__))
            if str(c) != str(e):
                raise Bad("%s %s prints differently" % (
                    what, type(e).__name__))


# -- pools -------------------------------------------------------------------

def pool(case):
    rng = case.rng
    kinds = rng.choice([('op',), ('op', 'commcc', 'trace'),
                        ('ket', 'bra', 'braket'), ('sop', 'sopapp'),
                        ('scalar', 'braket'), ('sumop',), ('sumstate',),
                        ('sumscal',), ('circuit',), ('space',)])
    ae = any_expr(rng, kinds=kinds, depth=rng.choice([1, 2]))
    case.info = dict(ae.info(), mode='pool')
    case.key = ('pool', ae.info())
    recs = [ae.recipe]
    if kinds[0] in ('circuit', 'space') or not ae.has_ref:
        exprs = []
        case.phase = 'build'
        q = ae.build()
        with no_instance_caching():
            exprs = [q, ae.build()]
        for e in subexprs(q):
            exprs.append(e)
            if not is_singleton(e):
                exprs.append(type(e)(*e.args, **e.kwargs))
        dens = None
    else:
        for _ in range(5):
            recs.append(rng.choice([swap, pollute_sym])(
                rng, rng.choice(recs), .4))
        case.phase = 'build'
        exprs, dens = [], []
        fit = X.fits(case, ae)
        for r in recs:
            try:
                with no_instance_caching():
                    exprs.append(X._wrap(R.build(ae.ctx, r)))
            except Exception:
                continue
        case.nontrivial = len(exprs) > 1
    case.phase = 'pool'
    exprs = exprs[:14]
    case.nontrivial = case.nontrivial or len(exprs) > 3
    ds = None
    if dens is not None and fit:
        case.phase = 'den'
        ds = []
        for e in exprs:
            ds.append(ae.ctx.den(e))
        case.phase = 'pool'
    for i, a in enumerate(exprs):
        for j, b in enumerate(exprs):
            eq = (a == b)
            if not isinstance(eq, (bool, np.bool_)):
                raise Bad("== gives %r" % eq)
            ne = (a != b)
            if bool(eq) == bool(ne):
                raise Bad("== and != are both %s" % eq, a=str(a), b=str(b))
            if bool(b == a) != bool(eq):
                raise Bad("== is not symmetric", a=str(a), b=str(b))
            case.saw('pairs')
            if i == j and not eq:
                raise Bad("expression is not equal to itself", a=str(a))
            if eq and i != j:
                case.saw('equal pairs')
                if hash(a) != hash(b):
                    raise Bad("equal with different hashes", a=str(a),
                              b=str(b))
                if b not in {a: 1}:
                    raise Bad("equal expressions as dictionary keys")
                if ds is not None:
                    if i < len(recs) and recs[i:i+1] != recs[j:j+1]:
                        case.saw('equal built differently')
                    dd, sc = num.diff(ae.ctx.U, ds[i], ds[j])
                    if not dd <= 1e-7 * (1 + sc):
                        raise Bad("equal expressions represent different "
                                  "objects", a=str(a), b=str(b),
                                  da=str(dump(a))[:500],
                                  db=str(dump(b))[:500])


def pollute_sym(rng, r, p):
    """another program, with similar text"""
    if not isinstance(r, (list, tuple)):
        return r
    if rng.random() < p and len(r) > 2:
        if r[0] == 'sym' and r[2] in ('r', 'p', 'c'):
            return ['sym', r[1], rng.choice('rpc')]
        if r[0] == 'num' and r[1] == 'int':
            return ['num', 'int', rng.choice([r[2], -r[2], r[2] + 1])]
        if r[0] in ('oadd', 'osub'):
            return [rng.choice(['oadd', 'osub'])] + list(r[1:])
        if r[0] == 'osym':
            return ['osym', rng.choice('ABC')] + list(r[2:])
        if r[0] == 'sigma':
            return [r[0], r[1], r[3], r[2]] + list(r[4:])
        if r[0] in ('create', 'destroy'):
            return [rng.choice(['create', 'destroy'])] + list(r[1:])
    if r and r[0] == 'xsum':
        return [r[0], r[1], r[2], pollute_sym(rng, r[3], p)]
    return type(r)(pollute_sym(rng, x, p) for x in r)
