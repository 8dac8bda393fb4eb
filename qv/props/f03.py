"""F03: the printed ASCII or unicode form denotes the printed expression"""
from ..common import *
from .. import anyexpr as X
from ..asciiparse import Reader, CircuitReader, ReadError, Foreign
from .. import slh as M
from qnet.algebra.core.exceptions import AlgebraError
from ..den import Unsupported
from ..unitext import to_ascii
from qnet.printing import ascii as qascii, unicode as qunicode

N_QUICK, N_THOROUGH = 30000, 400000
TIMEOUT = 60
REQUIRED = ['compared', 'sum', 'product', 'juxtaposition', 'power', 'ket',
            'bra', 'braket', 'ketbra', 'sigma', 'commutator', 'c.c.', 'trace',
            'application', 'SPre', 'SPost', 'derivative', 'indexed sum',
            'indexed operator', 'dagger of symbol',
            'dagger of local operator', 'circuit', 'circuit: series',
            'circuit: concatenation', 'circuit: series inverse',
            'circuit: feedback', 'circuit: identity', 'circuit: permutation',
            'circuit: SLH', 'circuit: circuit symbol', 'circuit: component',
            'unicode', 'unicode circuit', "unicode: unicode_op_hats=False",
            "unicode: unicode_sub_super=False"]
RULE = ("random operators, kets, bras, inner products, scalars, traces, "
        "superoperators, their applications, indexed sums, derivatives and "
        "circuits are "
        "printed with ascii or unicode (default settings, without labels of "
        "spaces for a single space, with labels as subscripts, with "
        "sig_as_ketbra=False, without hats, without unicode subscripts); "
        "unicode text is rewritten as ASCII by tables of the Unicode "
        "standard; an own parser of the notation with the usual precedences evaluates "
        "the text to a tensor, which is compared with that of the expression; "
        "non-trivial: more than 12 characters; distinct by text")
KINDS = ('op', 'op', 'op', 'ket', 'ket', 'bra', 'braket', 'sop', 'sopapp',
         'scalar', 'trace', 'sumop', 'sumstate', 'sumscal', 'commcc', 'deriv')

NAMES = {n: R._sym(n, k) for n, k in (
    ('x', 'r'), ('y', 'r'), ('p', 'p'), ('kappa', 'p'), ('alpha', 'c'),
    ('beta', 'c'))}


def symbols_of(q):
    out = {}
    for s in getattr(q, 'all_symbols', getattr(q, 'free_symbols', ())):
        if isinstance(s, sympy.Symbol) and type(s).__name__ == 'Symbol':
            out[s.name] = s
    return out


def render(case, q, kw, ctx):
    """text in ASCII notation, and printed text"""
    rng = case.rng
    uni = rng.random() < .4
    if uni:
        if rng.random() < .2:
            kw['unicode_op_hats'] = False
        if rng.random() < .2:
            kw['unicode_sub_super'] = False
    case.phase = 'run'
    orig = text = (qunicode if uni else qascii)(q, **kw)
    case.phase = 'val'
    case.info['printer'] = 'unicode' if uni else 'ascii'
    if uni:
        text = to_ascii(orig, ctx.spaces)
        case.saw('unicode')
        for x in ('unicode_op_hats', 'unicode_sub_super'):
            if x in kw:
                case.saw('unicode: %s=False' % x)
    case.key = orig
    case.nontrivial = len(orig) > 12
    case.sample = orig
    return text, orig


def run_circuit(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = R.random_spaces(rng, n=rng.choice([1, 1, 2]), fock=False, maxdim=4)
    ctx.fit(1, False)
    g = R.Gen(rng, ctx, unitary=False)
    cg = M.CGen(rng, g, slh=rng.random() < .3, components=rng.random() < .4,
                simple=True)
    r = cg.circ(rng.choice([1, 2, 2, 3, 3, 4]), rng.choice(
        [1, 2, 2, 3, 3, 4] if not cg.slh and not cg.components else [1, 2]))
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.phase = 'val'
    try:
        v = M.ref(ctx, r)
        q = M.build(ctx, r)
    except M.IllPosed:
        raise Skip("ill-posed network")
    except AlgebraError as e:
        raise Skip("not built: %s" % e)
    if max([abs(x).max() for x in (v.S, v.L, v.H) if x.size]) > 1e5:
        raise Skip("nearly ill-posed network")
    cdims = {}
    for x in [q] + list(X.subexprs(q)):
        if type(x).__name__ == 'CircuitSymbol':
            if cdims.setdefault(x.label, x.cdim) != x.cdim:
                raise Skip("label with different numbers of channels")
    M.BY_VALUE = True
    try:
        want = M.Circ(ctx)(q)
    except M.IllPosed:
        raise Skip("ill-posed network")
    kw = {}
    if rng.random() < .15:
        kw['show_hs_label'] = 'subscript'
    case.info['settings'] = kw
    text, orig = render(case, q, kw, ctx)
    names = dict(NAMES)
    names.update(symbols_of(q))
    rd = CircuitReader(ctx, names, cdims)
    try:
        got = rd.read(text)
    except Foreign as e:
        raise Skip("notation outside of the fragment: %s" % e)
    except M.IllPosed:
        raise Bad("the text denotes an ill-posed network", text=orig,
                  srepr=repr(q))
    except ReadError as e:
        raise Bad("the text cannot be read: %s" % e, text=orig, srepr=repr(q))
    d, sc = M.diff(got, want)
    if not d <= 1e-7 * (1 + sc):
        raise Bad("the text denotes another circuit (%s)" % M.which(
            got, want), text=orig, srepr=repr(q))
    case.saw('circuit')
    if case.info['printer'] == 'unicode':
        case.saw('unicode circuit')
    for x in rd.seen:
        case.saw('circuit: ' + x)


def run_case(case):
    rng = case.rng
    if rng.random() < .15:
        return run_circuit(case)
    ae = X.any_expr(rng, KINDS, exact=rng.random() < .6)
    if not X.fits(case, ae):
        raise Skip("too many ladder operators for the truncated model")
    ctx = ae.ctx
    case.info = dict(ae.info())
    q = ae.build()
    case.phase = 'val'
    if type(q).__name__ == 'Matrix':
        raise Skip("matrix")
    single = None
    kw = {}
    if len(ctx.keys) == 1 and rng.random() < .25:
        single = ctx.keys[0]
        kw['show_hs_label'] = False
    elif rng.random() < .15:
        kw['show_hs_label'] = 'subscript'
    if rng.random() < .15 and ae.kind[:3] != 'sum':
        kw['sig_as_ketbra'] = False
    case.info['settings'] = kw
    text, orig = render(case, q, kw, ctx)
    names = dict(NAMES)
    names.update(symbols_of(q))
    rd = Reader(ctx, names, single=single)
    try:
        want = ctx.den(q)
    except Unsupported as e:
        raise Skip("not evaluated: %s" % e)
    try:
        got = rd.read(text)
    except Foreign as e:
        raise Skip("notation outside of the fragment: %s" % e)
    except ReadError as e:
        raise Bad("the text cannot be read: %s" % e, text=orig, srepr=repr(q))
    if want.kind == 'K' and (want is num.ZERO_KET or not want.spaces):
        want = num.S(want.a.reshape(-1)[0] if want.a.size else 0)
    if want.kind != got.kind:
        # multiples of the identity, zero states
        if got.kind == 'S' and want.kind in 'KB' and got.a == 0 and \
                not want.a.any():
            got = want
    try:
        dd, sc = num.diff(ctx.U, got, want)
    except num.TypeMismatch as e:
        raise Bad("the text denotes another kind of object (%s)" % e,
                  text=orig, srepr=repr(q))
    if not dd <= 1e-6 * (1 + sc):
        raise Bad("the text denotes another value (%.3g)" % dd, text=orig,
                  srepr=repr(q))
    case.saw('compared')
    for s in rd.seen:
        case.saw(s)
    for s in kw:
        case.saw('%s=%r' % (s, kw[s]))
