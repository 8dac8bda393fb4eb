"""F01: srepr round-trips"""
from ..common import *
from .. import anyexpr as X
from ..anyexpr import any_expr, subexprs, Expression
from .b02 import dump, symbols_of, is_singleton
import re
import numpy as np
import sympy
import qnet
from qnet import Matrix, LocalSpace, OperatorSymbol, ScalarValue
from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
from qnet.printing import srepr
from qnet.utils.indices import StrLabel, IdxSym

N_QUICK, N_THOROUGH = 9000, 220000
TIMEOUT = 40
RULE = ("random expressions of every algebra (also circuits, matrices, Hilbert"
        " spaces, indexed sums, derivatives), atoms with unusual labels, "
        "basis labels, symbols (assumptions, indexed, primed, functions, "
        "names with special characters) and numbers of every accepted type "
        "are rendered with srepr: single-line, indented, with a user cache "
        "naming subexpressions, with a cache shared by several expressions, "
        "inside lists and tuples; the text is evaluated in the namespace of "
        "`from sympy import *; from qnet import *` and compared by ==, hash, "
        "structure, symbols, value and repeated rendering; non-trivial: at "
        "least 3 subexpressions; distinct by expression")
REQUIRED = ['single line', 'indented', 'user cache', 'shared cache',
            'collection', 'compared', 'atom', 'number', 'symbol', 'label',
            'class OperatorIndexedSum', 'class SeriesProduct', 'class Matrix',
            'class LocalSigma', 'class OperatorDerivative', 'class SLH',
            'class ProductSpace', 'class BraKet', 'class SuperOperatorTimes',
            'subexpression']
ASSUMPTIONS = ["numbers equal in value but of another type (2, Integer(2), "
               "ScalarValue(2)) are interchangeable"]

NS = {}


def namespace():
    if not NS:
        exec("from sympy import *", NS)
        exec("from numpy import array, int64, float64, complex128", NS)
        exec("from qnet import *", NS)
        # (qnet has a function of the same name)
        NS['KroneckerDelta'] = sympy.KroneckerDelta
    return dict(NS)


def same_dump(a, b):
    """equal structure; floats compared by their value"""
    return norm(dump(a)) == norm(dump(b))


def norm(d):
    if isinstance(d, tuple):
        if len(d) == 3 and d[0] == 'LocalSpace':
            # a basis of '0', '1', ... is the same as a dimension
            return ('LocalSpace', norm(d[1]), norm(tuple(
                x for x in d[2] if x[0] not in ('basis', 'dimension'))),
                dim_of(dict(d[2])))
        if len(d) == 2 and isinstance(d[1], str):
            try:
                if d[0] in ('float', 'complex', 'float64', 'complex128',
                            'int64'):
                    c = complex(d[1].split('(')[-1].rstrip(')'))
                    return ('number', c.real, c.imag)
            except ValueError:
                return d
        return tuple(norm(x) for x in d)
    if isinstance(d, str):
        if d.startswith('Float(') or d.startswith('Integer('):
            try:
                c = float(d.split("(")[1].split(',')[0].strip("')"))
                return ('number', c, 0.0)
            except ValueError:
                return d
        return d
    return d


def dim_of(kw):
    b = kw.get('basis')
    if isinstance(b, tuple) and b and b[0] == 'tuple':
        labels = [x[1].strip("'") for x in b[1]]
        if labels == [str(i) for i in range(len(labels))]:
            return len(labels)
        return tuple(labels)
    d = kw.get('dimension')
    return d


def canon(text):
    """text with equal ways to specify a space or number replaced by one"""
    def rep(m):
        labels = re.findall(r"'([^']*)'", m.group(1))
        if labels == [str(i) for i in range(len(labels))]:
            return 'dimension=%d' % len(labels)
        return m.group(0).split(',dimension')[0]
    return re.sub(r"basis=\(((?:'[^']*',?)*)\)(,dimension=\d+)?", rep,
                  re.sub(r"\bInteger\((-?\d+)\)", r"\1", squeeze(text)))


def back(text, what, extra=None):
    ns = namespace()
    if extra:
        ns.update(extra)
    try:
        return eval(text, ns)
    except Exception as e:
        raise Bad("%s cannot be evaluated: %s: %s" % (
            what, type(e).__name__, e), text=text[:2500])


def check(case, e, r, what, text):
    if type(r) is not type(e):
        raise Bad("%s: class %s instead of %s" % (
            what, type(r).__name__, type(e).__name__), text=text[:2000])
    eq = r == e
    if isinstance(eq, np.ndarray):
        eq = eq.all()
    if not eq or not (e == r) or (e != r):
        raise Bad("%s: not equal" % what, text=text[:2500], e=str(e),
                  r=str(r))
    if not isinstance(e, (list,)) and hash(r) != hash(e):
        raise Bad("%s: equal with different hash" % what, text=text[:2500])
    if not same_dump(e, r):
        raise Bad("%s: structure differs" % what, text=text[:1500],
                  a=str(norm(dump(e)))[:2000], b=str(norm(dump(r)))[:2000])
    if isinstance(e, Expression) and symbols_of(e) != symbols_of(r):
        raise Bad("%s: symbols differ" % what, text=text[:2500])


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    if rng.random() < .3:
        return atoms(case)
    ae = any_expr(rng, nkinds=5)
    case.info = ae.info()
    case.key = ae.info()
    case.phase = 'build'
    q = ae.build()
    subs = subexprs(q)
    case.nontrivial = len(subs) >= 3
    case.sample = str(q)[:200]
    case.phase = 'srepr'
    case.saw('class ' + type(q).__name__)
    for s in subs:
        case.saw('class ' + type(s).__name__)
    roundtrip(case, rng, q, subs)
    if isinstance(q, QuantumExpression) and ae.has_ref and \
            rng.random() < .25 and X.fits(case, ae):
        check_same(case, ae.ctx, back(srepr(q), 'srepr'), ae.ctx.den(q),
                   'evaluated srepr')


def equals_scalar(s):
    # these are equal to native numbers
    return isinstance(s, qnet.Scalar) or isinstance(
        s, qnet.ScalarTimesOperator) and s.term is qnet.IdentityOperator


def sympy_values(q):
    out = []

    def walk(v):
        if isinstance(v, sympy.Basic):
            out.append(v)
        elif isinstance(v, (tuple, list)):
            for x in v:
                walk(x)
        elif isinstance(v, dict):
            for x in v.values():
                walk(x)
        elif hasattr(v, '__attrs_attrs__'):
            for a in v.__attrs_attrs__:
                walk(getattr(v, a.name))
    for s in subexprs(q):
        if isinstance(s, ScalarValue):
            walk(s.val)
        else:
            walk(s.args)
            walk(s.kwargs)
    if isinstance(q, Matrix):
        walk(list(q.matrix.ravel()))
    return out


def sympy_ok(q):
    """SymPy's own srepr round-trips for all SymPy parts (it does not for
    unevaluated products, such as 2*(x + 0.5*I))"""
    ns = namespace()
    for v in sympy_values(q):
        try:
            if eval(sympy.srepr(v), ns) != v:
                return False
        except Exception:
            return False
    return True


def roundtrip(case, rng, q, subs):
    if not sympy_ok(q):
        raise Skip("SymPy does not round-trip")
    text = srepr(q)
    if '\n' in text:
        raise Bad("srepr has several lines", text=text[:1000])
    r = back(text, 'srepr')
    check(case, q, r, 'srepr', text)
    case.saw('single line')
    if canon(srepr(r)) != canon(text):
        raise Bad("srepr changes in a round trip", a=text[:2000],
                  b=srepr(r)[:2000])
    t2 = srepr(q, indented=True)
    r2 = back(t2, 'indented srepr')
    check(case, q, r2, 'indented srepr', t2)
    case.saw('indented')
    # the indented form is the same text, spread over lines
    if canon(t2) != canon(text):
        raise Bad("indented form differs from the single-line form",
                  a=squeeze(text)[:2000], b=squeeze(t2)[:2000])
    if subs:
        s = rng.choice(subs)
        if s is not q:
            check(case, s, back(srepr(s), 'srepr of a subexpression'),
                  'srepr of a subexpression', srepr(s))
            case.saw('subexpression')
        # named subexpressions
        names = {}
        for i, s in enumerate(rng.sample(subs, min(len(subs), 3))):
            if equals_scalar(s):
                continue
            names[s] = 'name_%d' % i
        for ind in (False, True):
            t = srepr(q, indented=ind, cache=dict(names))
            r = back(t, 'srepr with cache', {n: s for s, n in names.items()})
            check(case, q, r, 'srepr with cache', t)
            case.saw('user cache')
            if ind is False and len(names) == len(set(names.values())):
                for s, n in names.items():
                    if n in t:
                        case.saw('name used')
        # one cache for several renderings
        cache = {}
        for ind in (False, True):
            cache = {}
            todo = rng.sample(subs, min(len(subs), 4)) + [q]
            for s in todo:
                t = srepr(s, indented=ind, cache=cache)
                if canon(t) != canon(srepr(s, indented=ind)) or (
                        ind and len(t.splitlines()) !=
                        len(srepr(s, indented=True).splitlines())
                        and 'basis' not in t):
                    raise Bad("srepr depends on a shared cache", a=t[:1500],
                              b=srepr(s, indented=ind)[:1500])
            case.saw('shared cache')
    # collections
    if not isinstance(q, Matrix) and rng.random() < .5:
        for coll in ([q], (q,), [q] + subs[:2], tuple([q] + subs[:2]), [],
                     (), [[q], (q, q)]):
            t = srepr(coll)
            check(case, coll, back(t, 'srepr of collection'),
                  'srepr of collection', t)
            t = srepr(coll, indented=True)
            check(case, coll, back(t, 'indented srepr of collection'),
                  'indented srepr of collection', t)
            case.saw('collection')
    case.saw('compared')


def squeeze(t):
    """text without white space between tokens"""
    out = []
    quote = None
    esc = False
    for ch in t:
        if quote:
            out.append(ch)
            if esc:
                esc = False
            elif ch == '\\':
                esc = True
            elif ch == quote:
                quote = None
            continue
        if ch in '\'"':
            quote = ch
            out.append(ch)
        elif not ch.isspace():
            out.append(ch)
    return ''.join(out)


# -- atoms -------------------------------------------------------------------

CHARS = ['a', 'B', '1', '_', ' ', '-', '+', "'", '"', '\\', '{', '}', '(',
         ',', 'é', 'ψ', '|', '>', '%', '^', '*', '.', '=', '#', ':']


def word(rng, n=4):
    return ''.join(rng.choice(CHARS) for _ in range(rng.randint(1, n)))


def ident(rng):
    return rng.choice(['A', 'B_1', 'Psi', 'a_+', 'X_alpha', 'q1', 'Omega',
                       'A_1', 'H_int', 'x_2.b', 'Z0', 'alpha_kappa',
                       'B_(1)', 'C_a-b'])


def number(rng):
    x = rng.choice([0, 1, -1, 2, 3, 7, 10**20, -10**25, 255])
    f = rng.choice([0.1, -0.3, 1e-20, 2.5e30, 1 / 3, 0.5, 2.0, -1.0, 1e16,
                    123456789.123456789, 5e-324, 1.7976931348623157e308])
    k = rng.choice(['int', 'float', 'complex', 'int64', 'float64',
                    'complex128', 'Integer', 'Rational', 'Float', 'symc',
                    'const', 'Floatp'])
    if k == 'int':
        return x
    if k == 'float':
        return f
    if k == 'complex':
        return complex(f, rng.choice([0.1, -2.0, 1 / 7]))
    if k == 'int64':
        return np.int64(rng.choice([0, 1, -5, 2**40]))
    if k == 'float64':
        return np.float64(f)
    if k == 'complex128':
        return np.complex128(complex(f, rng.choice([0.1, -2.0, 1 / 7])))
    if k == 'Integer':
        return sympy.Integer(x)
    if k == 'Rational':
        return sympy.Rational(rng.choice([1, -5, 22]), rng.choice([3, 7]))
    if k == 'Float':
        return sympy.Float(rng.choice([0.1, 0.5, -1 / 3]))
    if k == 'Floatp':
        return sympy.Float('0.1', rng.choice([20, 30]))
    if k == 'symc':
        return sympy.Integer(rng.choice([1, 2])) + sympy.I * sympy.Rational(
            rng.choice([1, -3]), 2)
    return rng.choice([sympy.pi, sympy.E, sympy.sqrt(2), sympy.GoldenRatio,
                       sympy.exp(sympy.I * sympy.pi / 5), sympy.EulerGamma])


ASSUME = [{}, {'real': True}, {'positive': True}, {'integer': True},
          {'complex': True}, {'nonnegative': True}, {'real': False},
          {'negative': True}, {'commutative': True}, {'imaginary': True},
          {'even': True}, {'prime': True}, {'nonzero': True},
          {'integer': True, 'positive': True}, {'zero': False}]


def symbol(rng, depth=1):
    x = rng.random()
    name = rng.choice(['x', 'alpha', 'x_1', 'Omega__2', 'kappa', 'x\'',
                       'a b', 'α', 'phi_{1}', '\\beta'])
    if x < .5:
        return sympy.Symbol(name, **rng.choice(ASSUME))
    if x < .6:
        return IdxSym(rng.choice(['i', 'j', 'k_1']), integer=rng.choice(
            [True, False]), **rng.choice([{}, {'positive': True}]))
    if x < .65:
        return IdxSym('i', primed=rng.randint(0, 3))
    if x < .75:
        return sympy.Indexed(sympy.IndexedBase(rng.choice(['c', 'x_0'])),
                             *[rng.choice([IdxSym('i'), 0, 2, IdxSym('j')])
                               for _ in range(rng.choice([1, 2]))])
    if x < .85:
        return sympy.Function(rng.choice(['f', 'g_1']))(
            sympy.Symbol('t', real=True))
    if depth:
        a, b = symbol(rng, 0), symbol(rng, 0)
        return rng.choice([
            lambda: a + 2 * b, lambda: a * b / 3, lambda: sympy.exp(sympy.I
                                                                   * a),
            lambda: sympy.sqrt(a) * b, lambda: sympy.conjugate(a),
            lambda: a**b, lambda: abs(a), lambda: sympy.sin(a)**2 - b,
            lambda: sympy.KroneckerDelta(a, b),
            lambda: sympy.re(a) + sympy.im(b),
            lambda: sympy.Heaviside(sympy.Symbol('t')),
            lambda: sympy.Derivative(sympy.Function('f')(
                sympy.Symbol('t')), sympy.Symbol('t'))])()
    return sympy.Symbol(name)


def space(rng):
    k = rng.choice(['plain', 'dim', 'basis', 'order', 'local', 'spin', 'prod',
                    'int'])
    lab = rng.choice(['0', 'q1', 'tls', 'q_1', 'a_2', 10, 'alpha', 'S'])
    if k == 'plain' or k == 'int':
        return LocalSpace(lab)
    if k == 'dim':
        return LocalSpace(lab, dimension=rng.choice([1, 2, 7]))
    if k == 'basis':
        n = rng.randint(1, 4)
        b = []
        while len(b) < n:
            w = word(rng)
            if w not in b:
                b.append(w)
        return LocalSpace(lab, basis=tuple(b))
    if k == 'order':
        return LocalSpace(lab, order_index=rng.choice([0, 3, -2]),
                          **rng.choice([{}, {'dimension': 3},
                                        {'basis': ('g', 'e')}]))
    if k == 'local':
        return LocalSpace(
            lab, basis=('g', 'e'), local_identifiers=rng.choice([
                {'LocalSigma': 'sig'}, {'Destroy': 'b', 'Create': 'b^+'},
                {'LocalSigma': 'Pi', 'Destroy': 'c'}]),
            **rng.choice([{}, {'order_index': 1}]))
    if k == 'spin':
        return qnet.SpinSpace(lab, spin=rng.choice(
            [sympy.Rational(1, 2), 1, sympy.Rational(5, 2), '3/2']),
            **rng.choice([{}, {'order_index': 2}]))
    return LocalSpace(lab) * LocalSpace('zz', dimension=2) * LocalSpace('y1')


def label(rng):
    if rng.random() < .3:
        return StrLabel(rng.choice([
            sympy.Indexed(sympy.IndexedBase('A'), IdxSym('i')),
            sympy.Symbol('x_1') + IdxSym('i'),
            sympy.Indexed(sympy.IndexedBase('B'), IdxSym('i'), IdxSym('j')),
            IdxSym('k')]))
    return ident(rng)


def atoms(case):
    try:
        return _atoms(case)
    except ValueError as e:
        if case.phase == 'build' and 'does not match pattern' in str(e):
            raise Skip("invalid label")
        raise


def _atoms(case):
    rng = case.rng
    x = rng.random()
    hs = space(rng)
    case.phase = 'build'
    args = [symbol(rng) if rng.random() < .6 else number(rng)
            for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    if x < .12:
        e = hs
        if isinstance(hs, LocalSpace) and rng.random() < .5:
            e = ScalarValue.create(2) * OperatorSymbol('A', hs=hs)
        case.saw('space')
    elif x < .35:
        v = number(rng)
        e = rng.choice([lambda: ScalarValue.create(v),
                        lambda: v * OperatorSymbol('A', hs=0),
                        lambda: v * qnet.KetSymbol('Psi', hs=0),
                        lambda: v + qnet.BraKet(qnet.KetSymbol('P', hs=0),
                                                qnet.KetSymbol('Q', hs=0)),
                        lambda: Matrix([[v, OperatorSymbol('A', hs=0)]]),
                        lambda: OperatorSymbol('A', v, hs=0),
                        lambda: ScalarValue(v) if v not in (0, 1) else
                        ScalarValue.create(v),
                        lambda: qnet.CoherentStateKet(v, hs=0)])()
        case.saw('number')
    elif x < .6:
        s = symbol(rng)
        e = rng.choice([lambda: ScalarValue.create(s),
                        lambda: s * OperatorSymbol('A', hs=0),
                        lambda: s + OperatorSymbol('A', hs=0),
                        lambda: qnet.Displace(s, hs=0),
                        lambda: qnet.Phase(s, hs=2),
                        lambda: Matrix([[s, 1]]),
                        lambda: qnet.CoherentStateKet(s, hs=1)])() if not \
            isinstance(s, sympy.Basic) or s != 0 else ScalarValue.create(s)
        case.saw('symbol')
    elif x < .8:
        e = rng.choice([
            lambda: OperatorSymbol(label(rng), *args, hs=hs),
            lambda: qnet.KetSymbol(label(rng), *args, hs=hs),
            lambda: qnet.SuperOperatorSymbol(label(rng), *args, hs=hs),
            lambda: qnet.Bra(qnet.KetSymbol(label(rng), *args, hs=hs)),
            lambda: qnet.CircuitSymbol(ident(rng), *args,
                                       cdim=rng.randint(1, 3))])()
        case.saw('label')
    else:
        if not isinstance(hs, LocalSpace):
            hs = LocalSpace('q', basis=("a,b", 'x=(1)', '-+'))
        i = IdxSym(rng.choice(['i', 'j']), integer=True)

        def index():
            if rng.random() < .4:
                try:
                    b = hs.basis_labels
                    return rng.choice(list(b))
                except qnet.BasisNotSetError:
                    return rng.randint(0, 4)
            if isinstance(hs, qnet.SpinSpace):
                return qnet.SpinIndex(i + rng.choice([0, 1]), hs=hs)
            if rng.random() < .5 and not getattr(hs, '_basis', None):
                return qnet.FockIndex(i + rng.choice([0, 1, -2]))
            return qnet.FockLabel(i, hs=hs)
        e = rng.choice([
            lambda: qnet.BasisKet(index(), hs=hs),
            lambda: qnet.LocalSigma(index(), index(), hs=hs),
            lambda: qnet.LocalSigma(index(), index(), hs=hs).dag()
            * OperatorSymbol('A', hs=hs),
            lambda: qnet.BasisKet(index(), hs=hs).dag()
            * qnet.KetSymbol('Psi', hs=hs),
            lambda: qnet.KetIndexedSum(qnet.BasisKet(
                qnet.FockLabel(i, hs=hs) if not isinstance(
                    hs, qnet.SpinSpace) else qnet.SpinIndex(i, hs=hs),
                hs=hs), rng.choice([
                    qnet.IndexOverFockSpace(i, hs),
                    qnet.IndexOverRange(i, 0, 3),
                    qnet.IndexOverRange(i, 5, 1, -2),
                    qnet.IndexOverList(i, (0, 2, 1))]))])()
        case.saw('index')
    case.saw('atom')
    subs = subexprs(e)
    case.info = dict(kind='atom', e=str(dump(e))[:1500])
    case.key = ('atom', str(dump(e)))
    case.nontrivial = True
    case.sample = str(e)[:200]
    case.phase = 'srepr'
    roundtrip(case, rng, e, subs)
