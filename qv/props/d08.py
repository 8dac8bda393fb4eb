"""D08: circuit components and symbols"""
from ..common import *
import numpy as np
import sympy
import qnet
from functools import partial
from .. import slh as M
from .d02 import same, small_ctx
from qnet.algebra.core import circuit_algebra as ca
from qnet.algebra.core.circuit_algebra import Component, SLH
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.exceptions import CannotConvertToSLH
from qnet.utils.properties_for_args import properties_for_args

N_QUICK, N_THOROUGH = 4000, 80000
RULE = ("random instances of the library components and of a user-defined "
        "component class with random labels and parameter values (numbers, "
        "symbols, expressions), and circuit symbols with arguments; the SLH "
        "form is compared with the documented model, parameters, defaults, "
        "minimal kwargs, equality and hash, rebuild, substitution, free "
        "symbols and rejection of unknown or positional arguments are "
        "checked against a record of the constructor arguments; non-trivial: "
        "not all default; distinct by class and arguments")
REQUIRED = ['CoherentDriveCC', 'PhaseCC', 'Beamsplitter', 'Kerr', 'symbol',
            'SLH', 'defaults', 'minimal kwargs', 'equal', 'unequal',
            'substitute', 'rejected', 'rebuild', 'labels', 'free symbols',
            'no conversion', 'unitary', 'energy conserved']


@partial(properties_for_args, arg_names='ARGNAMES')
class Kerr(Component):
    """user-defined three-channel component with internal mode"""
    CDIM = 3
    PORTSIN = ('i1', 'i2', 'i3')
    PORTSOUT = ('o1', 'o2', 'o3')
    ARGNAMES = ('delta', 'kappa', 'chi')
    DEFAULTS = {'delta': sympy.symbols('Delta', real=True),
                'kappa': sympy.symbols('kappa', positive=True), 'chi': 0}
    IDENTIFIER = 'Kerr'

    def _toSLH(self):
        a = qnet.LocalSigma(0, 1, hs=qnet.LocalSpace('K', dimension=2))
        L = Matrix([[sympy.sqrt(self.kappa) * a], [0], [self.chi]])
        S = Matrix([[1, 0, 0], [0, 0, 1], [0, 1, 0]])
        return SLH(S, L, self.delta * a.dag() * a)

    def _ref_model(self, ev):
        return model(ev.ctx, 'Kerr', [self.delta, self.kappa, self.chi])


CLS = {'CoherentDriveCC': (qnet.CoherentDriveCC, 1, ['displacement'],
                           ['alpha'], 'W', ('in',), ('out',)),
       'PhaseCC': (qnet.PhaseCC, 1, ['phase'], ['phi'], 'Phase',
                   ('in',), ('out',)),
       'Beamsplitter': (qnet.Beamsplitter, 2, ['mixing_angle'],
                        [sympy.pi / 4], 'BS', ('in', 'vac'), ('tr', 'rf')),
       'Kerr': (Kerr, 3, ['delta', 'kappa', 'chi'],
                ['Delta', 'kappa', 0], 'Kerr', Kerr.PORTSIN, Kerr.PORTSOUT)}

SYM = {'phi': sympy.symbols('phi', real=True),
       'g': sympy.symbols('g', real=True),
       'kappa': sympy.symbols('kappa', positive=True),
       'alpha': sympy.symbols('alpha'),
       'Delta': sympy.symbols('Delta', real=True)}


def value(rng, arg):
    """a value for a parameter (recipe)"""
    x = rng.randint(1, 30)
    if rng.random() < .3:
        return rng.choice([sympy.Rational(x, 7), x / 4, x, SYM['kappa'] * x])
    if arg in ('displacement', 'chi'):
        return rng.choice([SYM['alpha'], 2 * SYM['alpha'], 1.5, 0, 0.5 - 1j,
                           sympy.I * SYM['g'], SYM['alpha'] + 1,
                           sympy.Rational(1, 3)])
    if arg == 'kappa':
        return rng.choice([SYM['kappa'], 2, 0.5, SYM['kappa'] * 2,
                           sympy.Rational(9, 4)])
    return rng.choice([SYM['phi'], SYM['g'], 0, 0.3, sympy.pi / 3,
                       SYM['phi'] + SYM['g'], 2 * SYM['phi'], sympy.pi / 4,
                       -sympy.pi / 2, SYM['Delta']])


def model(ctx, name, vals):
    D = ctx.U.total(tuple(ctx.keys))
    f = lambda x: complex(ctx.den.scalar(x))     # noqa
    if name == 'CoherentDriveCC':
        return M.drive([f(vals[0])], D)
    if name == 'PhaseCC':
        return M.phase(f(vals[0]), D)
    if name == 'Beamsplitter':
        return M.beamsplitter(f(vals[0]), D)
    r = M.permutation((0, 2, 1), D)
    a = M.full(ctx, R.val(ctx, ['sigma', 'K', 0, 1, False]))
    r.L[0] = np.sqrt(f(vals[1])) * a
    r.L[2] = f(vals[2]) * np.eye(D)
    r.H = f(vals[0]) * a.conj().T @ a
    return r


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    name = rng.choice(['CoherentDriveCC', 'PhaseCC', 'Beamsplitter', 'Kerr',
                       'Kerr', 'symbol'])
    ctx = R.Ctx([R.Spc('K', 'dim', 2)])
    ctx.fit(1, False)
    case.saw(name)
    if name == 'symbol':
        return symbols(case, rng)
    cls, cdim, args, dflt, ident, pin, pout = CLS[name]
    dflt = [SYM.get(d, d) for d in dflt]
    kw, vals = {}, []
    for a, d in zip(args, dflt):
        if rng.random() < .6:
            kw[a] = value(rng, a)
            vals.append(kw[a])
        else:
            vals.append(d)
    label = rng.choice([None, None, ident, 'X', 'X_1', 'Foo_a'])
    if label is not None:
        kw['label'] = label
    case.info = dict(cls=name, kwargs=str(kw))
    case.key = (name, str(kw))
    case.nontrivial = bool(kw)
    case.sample = '%s(%s)' % (name, kw)
    case.phase = 'build'
    c = cls(**kw) if rng.random() < .5 else cls.create(**kw)
    case.phase = 'parameters'
    lab = label or ident
    want = dict(zip(args, vals))
    for a in args:
        if getattr(c, a) != want[a]:
            raise Bad("%s is %s, expected %s" % (a, getattr(c, a), want[a]))
    if c.label != lab or c.cdim != cdim or c.args != () or \
            c.PORTSIN != pin or c.PORTSOUT != pout:
        raise Bad("label, cdim or ports: %s %s" % (c.label, c.cdim))
    if dict(c.kwargs) != dict(want, label=lab):
        raise Bad("kwargs are %s" % c.kwargs)
    if tuple(c.sym_args) != tuple(vals):
        raise Bad("sym_args are %s" % (c.sym_args,))
    mk = {a: v for a, v, d in zip(args, vals, dflt) if v != d}
    if lab != ident:
        mk['label'] = lab
        case.saw('labels')
    if dict(c.minimal_kwargs) != mk:
        raise Bad("minimal kwargs are %s, expected %s" % (
            dict(c.minimal_kwargs), mk))
    case.saw('minimal kwargs')
    if not kw:
        case.saw('defaults')
    fs = set().union(*[sympy.sympify(v).free_symbols for v in vals])
    if c.free_symbols != fs:
        raise Bad("free symbols %s, expected %s" % (c.free_symbols, fs))
    case.saw('free symbols')
    for x in (cls(**c.minimal_kwargs), cls(**c.kwargs), c.rebuild(),
              cls.create(**c.minimal_kwargs), c.substitute({})):
        if x != c or hash(x) != hash(c) or type(x) is not cls:
            raise Bad("rebuilt component is %r" % x)
    case.saw('rebuild')
    case.phase = 'equality'
    kw2 = {a: value(rng, a) for a in args if rng.random() < .6}
    if rng.random() < .3:
        kw2['label'] = rng.choice(['X', ident])
    d = cls(**kw2)
    w2 = [kw2.get(a, x) for a, x in zip(args, dflt)]
    eq = kw2.get('label', ident) == lab and all(
        x == y for x, y in zip(vals, w2))
    if (c == d) != eq or (c != d) == eq:
        raise Bad("%s(%s) == %s(%s) is %s" % (name, kw, name, kw2, c == d))
    if eq and hash(c) != hash(d):
        raise Bad("hash of equal components")
    case.saw('equal' if eq else 'unequal')
    if c == qnet.CircuitSymbol(lab, *vals, cdim=cdim):
        raise Bad("component equals a plain circuit symbol")
    case.phase = 'rejected'
    for bad in (dict(kw, nosucharg=1), dict(kw, cdim=cdim)):
        try:
            cls(**bad)
        except TypeError:
            case.saw('rejected')
        else:
            raise Bad("%s(%s) accepted" % (name, bad))
    try:
        cls(*vals)
    except TypeError:
        pass
    else:
        raise Bad("positional arguments accepted")
    try:
        cls(label=rng.choice(['a b', '', '1x', '_y', 'x__y']))
    except ValueError:
        pass
    else:
        raise Bad("invalid label accepted")
    case.phase = 'SLH'
    v = model(ctx, name, vals)
    s = c.toSLH()
    if not isinstance(s, SLH) or s.cdim != cdim:
        raise Bad("toSLH gives %s" % s)
    m = M.of_slh(ctx, s)
    same(case, m, v, 'SLH model', s)
    case.saw('SLH')
    U = M.opmul(m.S, M.opdag(m.S))
    if abs(U - M.identity(cdim, m.D).S).max() > 1e-9:
        raise Bad("scattering matrix of %s is not unitary" % c)
    case.saw('unitary')
    if name == 'Beamsplitter':
        # energy conservation of two coherent inputs
        x = np.array([.3, 1 - .5j])
        y = m.S[:, :, 0, 0] @ x
        if abs(abs(y[0])**2 + abs(y[1])**2 - abs(x[0])**2
               - abs(x[1])**2) > 1e-9:
            raise Bad("beamsplitter does not conserve energy")
        case.saw('energy conserved')
    case.phase = 'substitute'
    if fs:
        k = rng.choice(sorted(fs, key=str))
        new = rng.choice([sympy.Rational(1, 2), SYM['kappa'], 2])
        e = c.substitute({k: new})
        wv = [sympy.sympify(x).subs(k, new) for x in vals]
        if e.label != lab or type(e) is not cls:
            raise Bad("substitution gives %r" % e)
        same(case, M.of_slh(ctx, e.toSLH()), model(ctx, name, wv),
             'substitute', e)
        if e.free_symbols != set().union(*[x.free_symbols for x in wv]):
            raise Bad("free symbols after substitution")
        if c.kwargs[args[0]] != vals[0]:
            raise Bad("component changed by substitution")
        e2 = qnet.CircuitSymbol('Q', cdim=cdim) << c
        same(case, M.of_slh(ctx, s.substitute({k: new})),
             model(ctx, name, wv), 'substitute in SLH')
        case.saw('substitute')
    inv = c.series_inverse()
    same(case, M.Circ(ctx)(inv), M.inverse(v), 'series inverse', inv)
    same(case, M.of_slh(ctx, inv.toSLH()), M.inverse(v), 'inverse SLH', inv)


def symbols(case, rng):
    lab = rng.choice(['A', 'C_1', 'Foo_ab', 'X2'])
    n = rng.choice([1, 2, 3])
    sa = [rng.choice([SYM['phi'], SYM['alpha'] * 2, 3, SYM['g'] + 1])
          for _ in range(rng.choice([0, 0, 1, 2]))]
    case.info = dict(label=lab, cdim=n, args=str(sa))
    case.key = str(case.info)
    case.nontrivial = bool(sa)
    case.sample = case.key
    case.phase = 'symbol'
    c = qnet.CircuitSymbol(lab, *sa, cdim=n)
    if c.label != lab or c.cdim != n or tuple(c.sym_args) != tuple(sa) \
            or c.args != (lab,) + tuple(sa) or c.kwargs != {'cdim': n}:
        raise Bad("attributes of %r" % c)
    fs = set().union(*[sympy.sympify(v).free_symbols for v in sa])
    if c.free_symbols != fs:
        raise Bad("free symbols")
    l2, n2 = rng.choice([lab, 'A']), rng.choice([n, 2])
    s2 = sa if rng.random() < .7 else []
    d = qnet.CircuitSymbol(l2, *s2, cdim=n2)
    eq = (lab, n, sa) == (l2, n2, s2)
    if (c == d) != eq or eq and hash(c) != hash(d):
        raise Bad("%r == %r is %s" % (c, d, c == d))
    if c.rebuild() != c:
        raise Bad("rebuild")
    try:
        c.toSLH()
    except CannotConvertToSLH:
        case.saw('no conversion')
    else:
        raise Bad("circuit symbol converted to SLH")
    try:
        qnet.CircuitSymbol(rng.choice(['a b', '', '1x', '_y', 'x__y', 'é']),
                           cdim=1)
    except ValueError:
        pass
    else:
        raise Bad("invalid label accepted")
    if fs:
        k = rng.choice(sorted(fs, key=str))
        e = c.substitute({k: 7})
        want = qnet.CircuitSymbol(
            lab, *[sympy.sympify(x).subs(k, 7) for x in sa], cdim=n)
        if e != want:
            raise Bad("substitution gives %r" % e)
