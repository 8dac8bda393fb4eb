"""F02: printing is total, pure and history independent"""
from ..common import *
import re
import unicodedata
import sympy
import qnet
from qnet import Matrix, no_instance_caching
from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.operator_algebra import LocalSigma
import qnet.printing as QP
from qnet.printing import (ascii, unicode, latex, srepr, tree,
                           configure_printing)
from qnet.printing.asciiprinter import QnetAsciiPrinter
from qnet.printing.unicodeprinter import QnetUnicodePrinter
from qnet.printing.latexprinter import QnetLatexPrinter
from qnet.printing._unicode_mappings import (
    _SUBSCRIPT_MAPPING, _SUPERSCRIPT_MAPPING)
from qnet.printing.base import QnetBasePrinter
from .. import anyexpr as X
from . import b02

N_QUICK, N_THOROUGH = 9000, 90000
TIMEOUT = 60
RULE = ("random expressions of every algebra (and containers of them), "
        "printed by ascii/unicode/latex/srepr/tree/str/repr with default and "
        "with random settings; the output of a new printer without caching is "
        "the reference for the shared printers (which have printed everything "
        "before), explicit caches, contexts of configure_printing, a rebuilt "
        "copy, and calls after other settings were used; documented settings "
        "are compared with a textual transformation of the default output; "
        "brackets must be balanced; the expression must not change. "
        "non-trivial: at least 3 subexpressions; distinct by program")
REQUIRED = ['ascii', 'unicode', 'latex', 'srepr', 'tree', 'str/repr',
            'shared printer', 'explicit cache', 'caching disabled',
            'rebuilt copy', 'after other settings', 'configure_printing',
            'label subscript', 'label hidden', 'sigma operator',
            'sigma unaffected', 'hats off', 'sub/superscripts off',
            'tex_op_macro', 'tex_identity_sym', 'tex_use_braket',
            'tex_frac_for_spin_labels', 'balanced', 'unchanged expression',
            'named subexpression', 'invalid setting', 'container',
            'sympy setting']

FORMATS = ['ascii', 'unicode', 'latex', 'srepr', 'indsrepr', 'tree']
CLS = {'ascii': QnetAsciiPrinter, 'unicode': QnetUnicodePrinter,
       'latex': QnetLatexPrinter}
FUN = {'ascii': ascii, 'unicode': unicode, 'latex': latex}


def fresh(name, e, **settings):
    old = QnetBasePrinter._allow_caching
    QnetBasePrinter._allow_caching = False
    try:
        return CLS[name](settings=settings).doprint(e)
    finally:
        QnetBasePrinter._allow_caching = old


def rand_settings(rng, name):
    st = {}
    if rng.random() < .6:
        st['show_hs_label'] = rng.choice([True, False, 'subscript'])
    if rng.random() < .4:
        st['sig_as_ketbra'] = rng.choice([True, False])
    if name == 'unicode':
        for k in ('unicode_sub_super', 'unicode_op_hats'):
            if rng.random() < .4:
                st[k] = rng.choice([True, False])
    if name == 'latex':
        if rng.random() < .4:
            st['tex_op_macro'] = r'\Op{{{name}}}'
        if rng.random() < .3:
            st['tex_textop_macro'] = r'\TOp{{{name}}}'
        if rng.random() < .3:
            st['tex_sop_macro'] = r'\SOp{{{name}}}'
        if rng.random() < .3:
            st['tex_textsop_macro'] = r'\TSOp{{{name}}}'
        if rng.random() < .3:
            st['tex_identity_sym'] = r'\hat{1}'
        if rng.random() < .4:
            st['tex_use_braket'] = rng.choice([True, False])
        if rng.random() < .3:
            st['tex_frac_for_spin_labels'] = rng.choice([True, False])
    return st


# whether equal expressions exist that are printed in another way
EQUAL_VARIANTS = False


def neq(what, got, want, **kw):
    if got != want and not (EQUAL_VARIANTS and one(got) == one(want)):
        raise Bad(what, got=got, want=want, **kw)


def one(text):
    return text.replace(r'\mathbb{1}', '1').replace('𝟙', '1')


BRACKETS = {')': '(', ']': '[', '}': '{'}


def balanced(text, pairs=BRACKETS):
    stack = []
    for c in text:
        if c in pairs.values():
            stack.append(c)
        elif c in pairs:
            if not stack or stack.pop() != pairs[c]:
                return False
    return not stack


def latex_ok(t):
    """braces, \\left/\\right and environments"""
    plain = t.replace(r'\{', '').replace(r'\}', '')
    if not balanced(plain, {'}': '{'}):
        return 'braces'
    depth = []
    for m in re.finditer(r'\\(left|right|middle)(?![a-z])|\\(begin|end)\{'
                         r'(\w+)\}|([{}])', plain):
        lr, env, name, br = m.groups()
        if lr == 'left' or env == 'begin' or br == '{':
            depth.append((lr or br or 'env', name))
        elif lr == 'middle':
            if not depth or depth[-1][0] != 'left':
                return 'middle'
        else:
            if not depth:
                return 'nesting'
            k, n = depth.pop()
            if {'right': 'left', '}': '{', None: 'env'}[lr or br] != k or \
                    n != name:
                return 'nesting'
    if depth:
        return 'nesting'
    if '^(' in plain or '_(' in plain:
        return 'script without braces'
    return None


def labels_of(e, ae):
    out = set()
    for x in X.subexprs(e):
        for h in getattr(getattr(x, 'space', None), 'local_factors', ()) \
                if not isinstance(x, qnet.HilbertSpace) and \
                getattr(x, 'space', None) is not qnet.FullSpace else ():
            out.add(str(h.label))
    return sorted(out, key=len, reverse=True)


def simple(texts):
    """default settings everywhere?"""


def braket_to_plain(t):
    r"""\Ket{..}\!\Bra{..} etc. as the explicit macros"""
    out, i = '', 0

    def group(j):
        assert t[j] == '{'
        d = 0
        for k in range(j, len(t)):
            if t[k] == '{' and t[k - 1] != '\\':
                d += 1
            elif t[k] == '}' and t[k - 1] != '\\':
                d -= 1
                if d == 0:
                    return t[j + 1:k], k + 1
        raise ValueError
    while i < len(t):
        m = re.match(r'\\(Ket|Bra|Braket)(?=\{)', t[i:])
        if not m:
            out += t[i]
            i += 1
            continue
        inner, i = group(i + m.end())
        inner = braket_to_plain(inner)
        if m.group(1) == 'Ket':
            if t[i:i + 7] == r'\!\Bra{':
                in2, i = group(i + 6)
                out += (r'\left\lvert %s \middle\rangle\!\middle\langle %s '
                        r'\right\rvert' % (inner, braket_to_plain(in2)))
            else:
                out += r'\left\lvert %s \right\rangle' % inner
        elif m.group(1) == 'Bra':
            out += r'\left\langle %s \right\rvert' % inner
        else:
            out += r'\left\langle %s \right\rangle' % inner.replace(
                ' | ', r' \middle\vert ', 1)
    return out


def squash(t):
    t = unicodedata.normalize('NFD', t)
    back = {}
    for mp in (_SUBSCRIPT_MAPPING, _SUPERSCRIPT_MAPPING):
        for k, v in mp.items():
            back[v] = k
    return ''.join(back.get(c, c) for c in t)


def check_settings(case, e, ae, rng):
    # each setting changes what it is documented to change
    a = fresh('ascii', e)
    labels = labels_of(e, ae)
    L = '|'.join(re.escape(x) for x in labels)
    LL = r'\((?:%s)(?:\*(?:%s))*\)' % (L, L)
    indexed = ae.kind.startswith('sum')
    if labels:
        sub = fresh('ascii', e, show_hs_label='subscript')
        off = fresh('ascii', e, show_hs_label=False)
        hide1 = re.sub(r'\^%s(H)?' % LL,
                       lambda m: '^H' if m.group(1) else '', a)
        hide2 = re.sub(r'(?<!tr)_%s' % LL, '', sub)
        hide2 = re.sub(r',%s' % LL, '', hide2)
        neq("show_hs_label=False is not the text without the labels",
            off, hide1, default=a)
        neq("show_hs_label='subscript' does not only move the labels",
            hide2, off, subscript=sub, default=a)
        case.saw('label hidden')
        if sub != off:
            case.saw('label subscript')
            if re.search(r'\^%s' % LL, sub):
                raise Bad("superscript label with show_hs_label='subscript'",
                          text=sub)
        lx = fresh('latex', e)
        lsub = fresh('latex', e, show_hs_label='subscript')
        loff = fresh('latex', e, show_hs_label=False)
        if (sub == off) != (lsub == loff) and not (
                'tr' in a or 'Sum' in a):
            raise Bad("latex labels differ from those in ascii", latex=lx,
                      latex_sub=lsub, ascii_sub=sub)
        us = fresh('unicode', e, show_hs_label='subscript')
        uo = fresh('unicode', e, show_hs_label=False)
        if (sub == off) != (us == uo):
            raise Bad("unicode labels differ from those in ascii", uni=us,
                      ascii_sub=sub)
        # as many labels of each kind in LaTeX
        n_sup = len(re.findall(r'\^%s' % LL, a))
        n_lx = lx.count('^{(') if 0 else None
        if n_sup and lsub == lx:
            raise Bad("show_hs_label='subscript' without effect", latex=lx)
    sig = [x for x in X.subexprs(e) if isinstance(x, LocalSigma)]
    for name in CLS:
        d = fresh(name, e)
        s = fresh(name, e, sig_as_ketbra=False)
        if not sig:
            neq("%s: sig_as_ketbra changes an expression without LocalSigma"
                % name, s, d)
            case.saw('sigma unaffected')
        elif s == d:
            raise Bad("%s: sig_as_ketbra=False without effect" % name, text=d)
        else:
            case.saw('sigma operator')
    if sig:
        s = fresh('ascii', e, sig_as_ketbra=False)
        if 'sigma_' not in s and 'Pi_' not in s:
            raise Bad("no sigma operator with sig_as_ketbra=False", text=s)
    u = fresh('unicode', e)
    nohat = fresh('unicode', e, unicode_op_hats=False)
    strip = unicodedata.normalize('NFD', u).replace('\u0302', '')
    neq("unicode_op_hats=False does not only remove the hats",
        unicodedata.normalize('NFD', nohat), strip, default=u)
    if u != nohat:
        case.saw('hats off')
    plain = fresh('unicode', e, unicode_sub_super=False)
    if plain != u:
        case.saw('sub/superscripts off')

        def core(t):
            return re.sub(r'[\^_(){} ,→>-]', '', squash(t))
        neq("unicode_sub_super=False changes more than sub/superscripts",
            core(plain), core(u), got_text=plain, default=u)
    lx = fresh('latex', e)
    for key, old, new in (
            ('tex_op_macro', r'\hat{', r'\Opx{'),
            ('tex_textop_macro', r'\text{', r'\TOpx{'),
            ('tex_sop_macro', r'\mathrm{', r'\SOpx{'),
            ('tex_textsop_macro', r'\mathrm{', r'\TSOpx{')):
        t = fresh('latex', e, **{key: new + '{{name}}}'})
        if new in t:
            case.saw('tex_op_macro' if key != 'tex_sop_macro' else key)
        neq("%s does not only replace the macro" % key, t.replace(new, old),
            lx)
    t = fresh('latex', e, tex_identity_sym=r'\Idx')
    neq("tex_identity_sym", t.replace(r'\Idx', r'\mathbb{1}'), lx)
    if t != lx:
        case.saw('tex_identity_sym')
    t = fresh('latex', e, tex_use_braket=True)
    neq("tex_use_braket does not only change the macros", re.sub(
        r'(\\right\\rangle[\^_])\(([^()]*)\)', r'\1{(\2)}', braket_to_plain(t)),
        lx, braket=t)
    if t != lx:
        case.saw('tex_use_braket')
        if re.search(r'\\left(\\lvert|\\langle)', t):
            raise Bad("explicit brackets with tex_use_braket", text=t)
    t = fresh('latex', e, tex_frac_for_spin_labels=True)

    def nofrac(x):
        return re.sub(r'\\frac\{(\d+)\}\{(\d+)\}', r'\1/\2', x)
    neq("tex_frac_for_spin_labels changes other things", nofrac(t),
        nofrac(lx))
    if t != lx:
        case.saw('tex_frac_for_spin_labels')


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ae = X.any_expr(rng, exact=rng.random() < .7)
    case.info = ae.info()
    case.key = (ae.kind, ae.recipe)
    case.phase = 'run'
    e = ae.build()
    for c in (classes_in(e) if isinstance(e, Expression) else ()):
        case.saw(c)
    case.nontrivial = len(X.subexprs(e)) >= 3
    before = b02.dump(e)
    target = e
    if rng.random() < .1:
        # containers
        target = rng.choice([lambda: (e,), lambda: [e, e], lambda: (e, 1),
                             lambda: [e, sympy.Symbol('x')]])()
        case.saw('container')
    ref = {}
    # a number equals this multiple of the identity, hence Matrix([[-1]])
    # equals Matrix([[-IdentityOperator]])
    global EQUAL_VARIANTS
    EQUAL_VARIANTS = isinstance(e, Matrix) and any(
        not isinstance(x, qnet.QuantumExpression) or
        getattr(x, 'term', x) in (
            qnet.IdentityOperator, qnet.ZeroOperator)
        for x in e.matrix.ravel())
    for name in CLS:
        ref[name] = fresh(name, target)
        case.saw(name)
        if not isinstance(ref[name], str) or not ref[name]:
            raise Bad("%s does not return a text" % name, got=ref[name])
        got = FUN[name](target)
        neq("%s: shared printer differs from a new printer" % name, got,
            ref[name])
        case.saw('shared printer')
    case.sample = ref['ascii'][:200]
    if not ref['ascii'].isascii():
        raise Bad("ascii() returns other characters", text=ref['ascii'])
    for name in ('ascii', 'unicode'):
        t = ref[name].replace('->', '')
        if not balanced(t):
            raise Bad("%s: unbalanced brackets" % name, text=t)
    w = latex_ok(ref['latex'])
    if w:
        raise Bad("latex: ill-formed text (%s)" % w, text=ref['latex'])
    case.saw('balanced')
    # other settings
    for name in CLS:
        st = rand_settings(rng, name)
        want = fresh(name, target, **st)
        if st:
            neq("%s: settings given in the call" % name,
                FUN[name](target, **st), want, settings=str(st))
            if name == 'latex':
                w = latex_ok(want)
                if w:
                    raise Bad("latex: ill-formed text (%s)" % w, text=want,
                              settings=str(st))
        cache = {}
        neq("%s: empty cache" % name, FUN[name](target, cache=cache, **st),
            want, settings=str(st))
        neq("%s: second use of a cache" % name,
            FUN[name](target, cache=cache, **st), want)
        case.saw('explicit cache')
        neq("%s: output after other settings were used" % name,
            FUN[name](target), ref[name])
        case.saw('after other settings')
        if name != 'latex':
            try:
                FUN[name](target, tex_op_macro='x')
                raise Bad("%s accepts unknown settings" % name)
            except TypeError:
                case.saw('invalid setting')
    # str and repr
    f1, f2 = rng.choice(FORMATS), rng.choice(FORMATS)
    st = {'show_hs_label': rng.choice([True, False, 'subscript'])} if \
        rng.random() < .7 else {}
    caching = rng.choice([True, False])
    with configure_printing(str_format=f1, repr_format=f2, caching=caching,
                            init_sympy=False, **st):
        for name in CLS:
            neq("%s: configure_printing(%s, caching=%s)" % (name, st, caching),
                FUN[name](target), fresh(name, target, **st))
            if not st:
                neq("%s: the output depends on the str/repr format" % name,
                    FUN[name](target), ref[name], str_format=f1)
        if isinstance(e, Expression):
            neq("str with str_format=%s" % f1, str(e), QP._PRINT_FUNC[f1](e))
            if not b02.is_singleton(e):     # repr is the name
                neq("repr with repr_format=%s" % f2, repr(e),
                    QP._PRINT_FUNC[f2](e))
            neq("_repr_latex_", e._repr_latex_(),
                '$' + fresh('latex', e, **st) + '$')
            case.saw('str/repr')
        case.saw('configure_printing')
        case.saw('caching disabled') if not caching else None
    for name in CLS:
        neq("%s: output after configure_printing" % name, FUN[name](target),
            ref[name])
    # other formats
    s1 = srepr(target)
    neq("srepr is not deterministic", srepr(target), s1)
    neq("srepr depends on the cache", srepr(target, cache={}), s1)
    s2 = srepr(target, indented=True)
    neq("srepr(indented=True) is not deterministic",
        srepr(target, indented=True), s2)
    neq("srepr(indented=True) depends on the cache",
        srepr(target, indented=True, cache={}), s2)
    case.saw('srepr')
    if isinstance(e, Expression):
        t1 = tree(e)
        neq("tree is not deterministic", tree(e), t1)
        neq("tree, unicode", tree(e, unicode=True), tree(e))\
            if QP._PRINT_FUNC is None else None
        if len(t1.splitlines()) < 1:
            raise Bad("empty tree")
        case.saw('tree')
    # a copy
    if rng.random() < .4:
        with no_instance_caching():
            e2 = ae.build()
        if type(e2) is type(e) and b02.norm(srepr(e2)) == b02.norm(srepr(e)):
            for name in CLS:
                neq("%s: copy of the expression" % name, fresh(name, e2),
                    fresh(name, e))
            case.saw('rebuilt copy')
    # names for subexpressions
    if isinstance(e, Expression):
        for name in CLS:
            neq("%s: name for the expression" % name,
                FUN[name](e, cache={e: 'QVNAME'}), 'QVNAME')
        subs = X.subexprs(e)
        other = qnet.OperatorSymbol('Unused', hs='unused')
        for name in CLS:
            neq("%s: name for an unused expression" % name,
                FUN[name](e, cache={other: 'QVNAME'}), fresh(name, e))
        x = rng.choice(subs or [e])
        if not isinstance(x, (qnet.Scalar, qnet.HilbertSpace)):
            t = ascii(e, cache={x: 'QVNAME'})
            if 'QVNAME' in t:
                case.saw('named subexpression')
                back = t.replace('QVNAME', '')
                if not balanced(back):
                    raise Bad("named subexpression", text=t)
    if isinstance(e, (Expression, Matrix)) and rng.random() < .5:
        check_settings(case, e, ae, rng)
    if rng.random() < .1:
        # settings of the SymPy printers
        t = latex(target, mul_symbol='dot')
        if r'\frac' in t:
            pass
        elif r'\cdot' not in t:
            neq("latex: mul_symbol", t, ref['latex'])
        else:
            neq("latex: mul_symbol", re.sub(r'\\cdot|\s', '', t),
                re.sub(r'\\cdot|\s', '', ref['latex']))
        case.saw('sympy setting')
    if b02.dump(e) != before:
        raise Bad("printing changes the expression", before=before[:500],
                  after=b02.dump(e)[:500])
    case.saw('unchanged expression')


def classify(case, out):
    # the superscript of \Braket is not in braces (pinned by the tests)
    if out.get('msg') == 'latex: ill-formed text (script without braces)':
        t = (out.get('detail') or {}).get('text', '')
        if r'\Braket{' in t and latex_ok(re.sub(
                r'([\^_])\(((?:[^(){}]|\{[^{}]*\})*)\)', r'\1{(\2)}',
                braket_to_plain(t))) is None:
            return 'F02-Braket-script'
    return None
