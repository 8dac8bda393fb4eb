"""B03: context managers restore global state; rule tables are ordered maps"""
from ..common import *
import contextlib
import io
import os
import random
import subprocess
import sys
import tempfile
import sympy
from sympy.printing.printer import Printer as SympyPrinter
import qnet
from qnet import (
    OperatorSymbol, OperatorPlus, OperatorTimes, ScalarTimesOperator,
    LocalSpace, KetSymbol, TensorKet, Create, Destroy, IdentityOperator,
    BraKet, Commutator, SuperOperatorTimes, SPre, Displace, CircuitSymbol,
    SeriesProduct, Concatenation, LocalSigma, BasisKet, KetPlus)
import qnet.algebra.core.abstract_algebra as AA
from qnet.algebra.core.abstract_algebra import Expression, Operation
from qnet.algebra.core.algebraic_properties import (
    match_replace, match_replace_binary, assoc)
from qnet.algebra.core.scalar_algebra import ScalarTimes, ScalarPower
from qnet.algebra.pattern_matching import wc, pattern_head
from qnet.algebra.toolbox.core import (
    no_instance_caching, temporary_instance_cache, temporary_rules)
import qnet.printing as QP
from qnet.printing import ascii, unicode, latex, srepr
from qnet.printing.base import QnetBasePrinter

N_QUICK, N_THOROUGH = 1800, 90000
TIMEOUT = 60
RULE = ("random programs of nested no_instance_caching, "
        "temporary_instance_cache, temporary_rules (any classes, also base "
        "classes together with their subclasses and repeated classes), "
        "configure_printing (all options, also from INI files) and statements "
        "(creation, printing, add_rule, del_rules, changes of "
        "simplifications), with exceptions raised at random points and by "
        "invalid arguments of the managers themselves; the complete global "
        "state (flags, caches and their contents, rule tables and order, "
        "simplifications, printers, SymPy settings, str/repr) is snapshotted "
        "at entry and exit of every context; rule tables are compared with an "
        "ordered-map model; fresh processes check contexts entered before "
        "anything was printed. non-trivial: nesting depth >= 2 or an "
        "exception; distinct by program")
REQUIRED = ['no_instance_caching', 'temporary_instance_cache',
            'temporary_rules', 'configure_printing', 'nested', 'exception',
            'exception propagated', 'entry error', 'state compared',
            'rule added', 'rule deleted', 'rule effect', 'rules cleared',
            'rules shown', 'cache isolated', 'no caching effect',
            'printing effect', 'repeated class', 'base and subclass',
            'simplifications changed', 'rule errors', 'fresh process',
            'inifile']


class QVOp(Operation):
    """operation with rules, for this check"""
    simplifications = [match_replace]
    _rules = {}


class QVBin(Operation):
    simplifications = [assoc, match_replace_binary]
    _binary_rules = {}
    _neutral_element = 0


class QVSub(QVOp):
    """inherits its rules"""


from collections import OrderedDict  # noqa
QVOp._rules = OrderedDict()
QVBin._binary_rules = OrderedDict()

CLASSES = [OperatorPlus, OperatorTimes, ScalarTimesOperator, TensorKet,
           BraKet, Commutator, SuperOperatorTimes, SPre, Displace,
           SeriesProduct, Concatenation, ScalarTimes, ScalarPower, KetPlus,
           QVOp, QVBin, QVSub, QVOp, QVBin, OperatorTimes, OperatorTimes]
BASES = [Expression, Operation, qnet.Operator,
         qnet.algebra.core.abstract_quantum_algebra.QuantumOperation]


class Boom(Exception):
    pass


def const(v):
    return lambda: v


def rule_names(cls):
    try:
        return list(cls.rules())
    except TypeError:       # without simplifications that apply rules
        return None


def all_classes():
    out, todo = [], [Expression]
    seen = set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        out.append(c)
        todo += c.__subclasses__()
    return sorted(out, key=lambda c: c.__module__ + c.__qualname__)


MISSING = '<missing>'
ATTRS = ['_rules', '_binary_rules', 'simplifications', '_instances',
         'instance_caching']


def snapshot(content=True):
    """the global state, as a dict of comparable values"""
    s = {}
    for c in all_classes():
        for a in ATTRS:
            v = c.__dict__.get(a, MISSING)
            if v is MISSING:
                continue
            key = (c.__name__, a)
            if a in ('_rules', '_binary_rules'):
                s[key] = ('rules', id(v), tuple(
                    (k, id(x)) for k, x in v.items()))
            elif a == 'simplifications':
                s[key] = ('simpl', tuple(id(x) for x in v))
            elif a == '_instances':
                s[key] = ('cache', id(v))
            else:
                s[key] = v
    for f in (ascii, unicode, latex):
        for a in ('printer', '_printer_cls'):
            v = f.__dict__.get(a, MISSING)
            s[f.__name__, a] = v if v is MISSING else id(v)
        p = f.__dict__.get('printer')
        if p is not None:
            s[f.__name__, 'settings'] = tuple(sorted(
                (k, str(v)) for k, v in p._settings.items()))
            s[f.__name__, 'sympy'] = (
                id(p._sympy_printer), type(p._sympy_printer).__name__,
                tuple(sorted((k, str(v)) for k, v in
                             p._sympy_printer._settings.items())))
    todo = [QnetBasePrinter]
    while todo:
        c = todo.pop()
        for a in ('sympy_printer_cls', '_allow_caching', '_default_settings'):
            v = c.__dict__.get(a, MISSING)
            if v is not MISSING:
                s[c.__name__, a] = str(v)
        todo += c.__subclasses__()
    s['sympy settings'] = tuple(sorted(
        (k, str(v)) for k, v in SympyPrinter._global_settings.items()))
    for a in ('__str__', '__repr__', '_repr_latex_'):
        s['Expression', a] = id(Expression.__dict__.get(a, MISSING))
    s['displayhook'] = id(sys.displayhook)
    return s


def compare(case, a, b, what):
    case.saw('state compared')
    diff = sorted(str(k) for k in set(a) | set(b)
                  if a.get(k, MISSING) != b.get(k, MISSING))
    if diff:
        k = diff[0]
        full = [x for x in set(a) | set(b) if str(x) == k][0]
        raise Bad("%s: global state is not restored: %s" % (
            what, ', '.join(diff[:6])), before=str(a.get(full, MISSING))[:500],
            after=str(b.get(full, MISSING))[:500])


def caches():
    """the distinct instance caches with their contents"""
    out = {}
    for c in all_classes():
        v = c.__dict__.get('_instances')
        if v is not None:
            out[id(v)] = (v, set(map(id, v.values())), len(v))
    return out


# -- programs ----------------------------------------------------------------

def gen_block(rng, depth):
    out = []
    for _ in range(rng.randint(1, 3 if depth else 4)):
        x = rng.random()
        if depth and x < .5:
            out.append(gen_with(rng, depth))
        elif x < .6:
            out.append(['create', rng.randrange(10**6)])
        elif x < .7:
            out.append(['print', rng.randrange(10**6)])
        elif x < .8:
            out.append(['addrule', rng.randrange(10**6)])
        elif x < .86:
            out.append(['delrule', rng.randrange(10**6)])
        elif x < .9:
            out.append(['simpl', rng.randrange(10**6)])
        elif x < .93:
            out.append(['badrule', rng.randrange(10**6)])
        elif x < .96:
            out.append(['show', rng.randrange(10**6)])
        else:
            out.append(['raise'])
    return out


def gen_with(rng, depth):
    k = rng.choice(['nocache', 'cache', 'rules', 'rules', 'print', 'try'])
    body = gen_block(rng, depth - 1)
    if k == 'cache' or k == 'rules':
        cls = [rng.choice(CLASSES) for _ in range(rng.randint(1, 3))]
        if rng.random() < .25:
            cls.insert(rng.randint(0, len(cls)), rng.choice(BASES))
        if rng.random() < .2:
            cls.append(rng.choice(cls))
        names = [c.__name__ for c in cls]
        if rng.random() < .08:
            names.insert(rng.randint(0, len(names)), '<invalid>')
        return [k, names, body, rng.random() < .3 and k == 'rules']
    if k == 'print':
        return [k, gen_printing(rng), body]
    return [k, body]


def gen_printing(rng):
    kw = {}
    if rng.random() < .4:
        kw['str_format'] = rng.choice(['ascii', 'unicode', 'latex', 'tex',
                                       'srepr', 'indsrepr', 'tree'])
    if rng.random() < .3:
        kw['repr_format'] = rng.choice(['ascii', 'unicode', 'latex', 'srepr',
                                        'tree'])
    if rng.random() < .3:
        kw['caching'] = rng.choice([True, False])
    for f in ('ascii', 'unicode', 'latex'):
        if rng.random() < .35:
            st = {}
            if rng.random() < .6:
                st['show_hs_label'] = rng.choice([True, False, 'subscript'])
            if rng.random() < .4:
                st['sig_as_ketbra'] = rng.choice([True, False])
            if f == 'latex' and rng.random() < .5:
                st['tex_op_macro'] = r'\op{{{name}}}'
            if f == 'unicode' and rng.random() < .5:
                st['unicode_op_hats'] = False
            kw[f + '_settings'] = st
    if rng.random() < .1:
        kw['ascii_sympy_printer'] = rng.choice([
            'qnet.printing.sympy.SympyStrPrinter',
            'sympy.printing.str.StrPrinter'])
    if rng.random() < .1:
        kw['ascii_printer'] = 'qnet.printing.' + rng.choice([
            'asciiprinter.QnetAsciiPrinter', 'asciiprinter.QnetAsciiPrinter',
            'unicodeprinter.QnetUnicodePrinter'])
    if rng.random() < .15:
        kw['init_sympy'] = False
    if rng.random() < .08:
        kw['order'] = 'lex'
    if rng.random() < .05:
        kw['reset'] = True
    if rng.random() < .1:
        kw.update(rng.choice([
            {'str_format': 'bogus'}, {'repr_format': 'bogus'},
            {'ascii_settings': {'bogus': 1}},
            {'latex_printer': 'qnet.no.such.Printer'},
            {'latex_settings': {'nonsense': True}},
            {'unicode_printer': 'qnet.algebra.core.operator_algebra.Create'},
            {'ascii_sympy_printer': 'sympy.Symbol'},
            {'inifile': 'x', 'caching': True}]))
        kw['<bad>'] = True
    elif rng.random() < .12:
        kw = {'<ini>': {k: v for k, v in kw.items()
                        if k in ('str_format', 'caching', 'ascii_settings',
                                 'latex_settings')}}
    return kw


BYNAME = {c.__name__: c for c in CLASSES + BASES}


class Machine:
    def __init__(self, case, rng):
        self.case, self.rng = case, rng
        self.depth = 0
        self.protected = []       # classes with temporary rules
        self.counter = 0
        self.tmp = None

    # rule tables
    def table(self, cls):
        a = cls._rules_attr()
        return getattr(cls, a), a

    def run(self, block):
        for st in block:
            getattr(self, 'do_' + st[0])(*st[1:])

    def objects(self, seed):
        r = random.Random(seed)
        h = [LocalSpace('q%d' % r.randint(0, 3)) for _ in range(2)]
        A, B = [OperatorSymbol(r.choice('ABC'), hs=x) for x in h]
        psi, phi = [KetSymbol(r.choice(['Psi', 'Phi']), hs=x) for x in h]
        return r.choice([
            lambda: OperatorTimes.create(A, B, A),
            lambda: OperatorPlus.create(A, B, 2 * A),
            lambda: ScalarTimesOperator.create(r.randint(2, 9), A),
            lambda: Commutator.create(A, B),
            lambda: SPre.create(A) * SPre.create(B),
            lambda: BraKet.create(psi, KetSymbol('Chi', hs=psi.space)),
            lambda: psi + KetSymbol('Chi', hs=psi.space),
            lambda: CircuitSymbol('X', cdim=2) << CircuitSymbol('Y', cdim=2),
            lambda: CircuitSymbol('X', cdim=1) + CircuitSymbol('Y', cdim=2),
            lambda: Create(hs=h[0]) * Destroy(hs=h[0]),
            lambda: QVOp.create(r.randint(0, 3), r.randint(0, 3)),
            lambda: QVBin.create(*[r.randint(0, 3) for _ in range(4)])])

    def do_create(self, seed):
        self.objects(seed)()

    def do_print(self, *args):
        # statement ['print', seed] or context ['print', kwargs, body]
        if len(args) == 2:
            return self.do_print_ctx(*args)
        e = self.objects(args[0])()
        self.rng.choice([ascii, unicode, latex, srepr, str, repr])(e)

    def do_raise(self):
        self.case.saw('exception')
        raise Boom()

    def do_try(self, body):
        try:
            self.run(body)
        except Boom:
            self.case.saw('exception propagated')

    # -- rules
    def new_rule(self):
        self.counter += 1
        return 'QV%03d' % self.counter

    def do_addrule(self, seed):
        if not self.protected:
            return
        r = random.Random(seed)
        cls = r.choice(self.protected)
        try:
            tab, attr = self.table(cls)
        except TypeError:
            return
        if not self.temporary(cls, attr):
            return
        before = list(tab.items())
        name = self.new_rule()
        a, b = wc('a', head=int), wc('b', head=int)
        if cls in (QVOp, QVSub, QVBin):
            v = 1000 + self.counter
            i, j = r.randint(4, 5), r.randint(4, 5)
            cls.add_rule(name, pattern_head(i, j), const(v))
            with no_instance_caching():
                got = cls.create(i, j)
            # the first matching rule in the order of definition wins
            earlier = [n for n, rule in before if n.startswith('QV') and
                       self.pairs.get(n) == (i, j)]
            self.pairs[name] = (i, j)
            self.values[name] = v
            want = self.values[earlier[0]] if earlier else v
            if got != want and all(
                    self.standard(c) for c in (QVOp, QVSub, QVBin)):
                raise Bad("rule %s of %s: got %s, expected %s" % (
                    name, cls.__name__, got, want), rules=str(list(tab)))
            self.case.saw('rule effect')
        else:
            cls.add_rule(name, pattern_head(wc('a', head=str),
                                            wc('b', head=str)),
                         lambda a, b: 'never')
        self.case.saw('rule added')
        if list(tab.items())[:-1] != before or list(tab)[-1] != name:
            raise Bad("add_rule does not append to the rules",
                      before=str(before), after=str(list(tab)))
        if list(cls.rules()) != list(tab):
            raise Bad("rules() are not the names of the rules")

    def standard(self, cls):
        """the rules are among the simplifications"""
        return (match_replace in cls.simplifications or
                match_replace_binary in cls.simplifications)

    def temporary(self, cls, attr):
        """do the rules of `cls` come from a temporary table? Then note that
        they are modified"""
        for c in cls.__mro__:
            if attr in c.__dict__:
                if c in self.protected:
                    self.mods.append((c, (c.__name__, attr)))
                    return True
                return False
        return False

    def do_delrule(self, seed):
        if not self.protected:
            return
        r = random.Random(seed)
        cls = r.choice(self.protected)
        try:
            tab, attr = self.table(cls)
        except TypeError:
            return
        if not self.temporary(cls, attr):
            return
        before = list(tab)
        if r.random() < .15:
            cls.del_rules()
            if list(cls.rules()):
                raise Bad("del_rules() without names leaves rules")
        elif before:
            names = r.sample(before, min(len(before), r.choice([1, 1, 2])))
            cls.del_rules(*names)
            want = [n for n in before if n not in names]
            if list(cls.rules()) != want:
                raise Bad("del_rules", before=str(before), names=str(names),
                          after=str(list(cls.rules())))
        self.case.saw('rule deleted')

    def do_badrule(self, seed):
        """invalid calls must not change the rules"""
        if not self.protected:
            return
        r = random.Random(seed)
        cls = r.choice(self.protected)
        try:
            tab, attr = self.table(cls)
        except TypeError:
            try:
                cls.add_rule('X', pattern_head(1), lambda: 1)
            except (TypeError, AttributeError):
                return
            raise Bad("add_rule for a class without rules")
        before = list(tab.items())
        a = wc('a')
        bad = [
            (ValueError, lambda: cls.add_rule(
                next(iter(tab)), pattern_head(a), lambda a: a))
            if tab else (KeyError, lambda: cls.del_rules('nope')),
            (KeyError, lambda: cls.del_rules('no such rule')),
            (TypeError, lambda: cls.add_rule(5, pattern_head(a),
                                             lambda a: a)),
            (TypeError, lambda: cls.add_rule('Y', 'pattern', lambda a: a)),
            (ValueError, lambda: cls.add_rule('Y', pattern_head(a),
                                              lambda b: b)),
            (ValueError, lambda: cls.add_rule('Y', pattern_head(a), 5)),
            (ValueError, lambda: cls.add_rule('Y', a, lambda a: a)),
            (AttributeError, lambda: cls.add_rule(
                'Y', pattern_head(a), lambda a: a, attr='_no_rules')),
            (AttributeError, lambda: cls.del_rules('Y', attr='_no_rules')),
            (AttributeError, lambda: cls.del_rules(attr='_no_rules')),
        ]
        exc, f = r.choice(bad)
        try:
            f()
        except exc:
            pass
        else:
            raise Bad("invalid rule operation is accepted")
        if list(self.table(cls)[0].items()) != before:
            raise Bad("failed rule operation changes the rules")
        self.case.saw('rule errors')

    def do_show(self, seed):
        r = random.Random(seed)
        cls = r.choice(CLASSES)
        try:
            names = list(self.table(cls)[0])
        except TypeError:
            names = []
        sel = r.sample(names, min(2, len(names))) if r.random() < .5 else []
        buf = io.StringIO()
        s0 = snapshot()
        with contextlib.redirect_stdout(buf):
            cls.show_rules(*sel)
        got = [ln for ln in buf.getvalue().splitlines()
               if ln and not ln.startswith(' ')]
        want = [n for n in names if not sel or n in sel]
        if got != want:
            raise Bad("show_rules", got=str(got), want=str(want))
        compare(self.case, s0, snapshot(), 'show_rules')
        self.case.saw('rules shown')

    def do_simpl(self, seed):
        if not self.protected:
            return
        cls = random.Random(seed).choice(self.protected)
        own = cls.__dict__.get('simplifications')
        if own is None:
            return
        self.mods.append((cls, (cls.__name__, 'simplifications')))
        if random.Random(seed + 1).random() < .5 and own:
            own.pop()
        else:
            cls.simplifications = own + [lambda cls, ops, kw: (ops, kw)]
        self.case.saw('simplifications changed')

    # -- contexts
    def within(self, name, ctx, body, inside=None, classes=()):
        """run body in the context; compare the states"""
        case = self.case
        case.saw(name)
        self.depth += 1
        if self.depth > 1:
            case.saw('nested')
        s0 = snapshot()
        c0 = caches()
        nmods = len(self.mods)
        entered = []
        try:
            with ctx():
                entered.append(1)
                if inside:
                    inside()
                self.run(body)
        finally:
            self.depth -= 1
            ok = isinstance(sys.exc_info()[1], (Bad, Skip))
            if not ok:
                s1 = snapshot()
                for cls, key in self.mods[nmods:]:
                    # the program has changed what only an outer context
                    # restores
                    if cls not in classes:
                        s0.pop(key, None)
                        s1.pop(key, None)
                compare(case, s0, s1, name if entered else
                        name + ' (error on entry)')
                for i, (d, ids, n) in c0.items():
                    if len(d) < n or not ids <= set(map(id, d.values())):
                        raise Bad("%s: cached instances are lost" % name)
                    if name == 'no_instance_caching' and len(d) != n:
                        raise Bad("no_instance_caching: %d instances were "
                                  "cached" % (len(d) - n))
        return bool(entered)

    def do_nocache(self, body):
        def inside():
            f = self.objects(17)
            n = {i: x[2] for i, x in caches().items()}
            a, b = f(), f()
            if a is b or a != b:
                raise Bad("no_instance_caching: %s" % (
                    'instance is cached' if a is b else 'not equal'))
            if {i: x[2] for i, x in caches().items()} != n:
                raise Bad("no_instance_caching: cache has changed")
            if Expression.instance_caching or OperatorTimes.instance_caching:
                raise Bad("no_instance_caching: flag is set")
            self.case.saw('no caching effect')
        self.within('no_instance_caching', no_instance_caching, body, inside)

    def classes(self, names):
        if len(set(names)) < len(names):
            self.case.saw('repeated class')
        cls = [BYNAME.get(n, None) for n in names]
        real = [c for c in cls if c]
        if any(a is not b and issubclass(a, b) for a in real for b in real):
            self.case.saw('base and subclass')
        return cls

    def entry_error(self, name, f, cls):
        s0 = snapshot()
        try:
            with f():
                raise Bad("%s with an invalid class is accepted" % name)
        except (TypeError, AttributeError):
            pass
        self.case.saw('entry error')
        compare(self.case, s0, snapshot(), name + ' (error on entry)')

    def do_cache(self, names, body, _):
        cls = self.classes(names)
        if None in cls:
            bad = [c if c is not None else 5 for c in cls]
            return self.entry_error('temporary_instance_cache',
                                    lambda: temporary_instance_cache(*bad),
                                    cls)
        made = {}

        def build(c):
            h = LocalSpace('zz')
            A, B = OperatorSymbol('A', hs=h), OperatorSymbol('B', hs=h)
            return {
                OperatorPlus: lambda: OperatorPlus.create(A, B),
                OperatorTimes: lambda: OperatorTimes.create(A, B),
                ScalarTimesOperator: lambda: ScalarTimesOperator.create(7, A),
                QVOp: lambda: QVOp.create(1, 2),
                QVBin: lambda: QVBin.create(1, 2),
                QVSub: lambda: QVSub.create(1, 2),
                Commutator: lambda: Commutator.create(A, B),
                SPre: lambda: SPre.create(A)}.get(c, lambda: None)()
        for c in cls:
            made[c] = build(c)

        def inside():
            for c in cls:
                if c._instances:
                    raise Bad("temporary cache of %s is not empty" % c)
            for c in cls:
                o = build(c)
                if o is None or made[c] is None:
                    continue
                if Expression.instance_caching:
                    if o is made[c] and type(o).__module__ != 'builtins':
                        raise Bad("%s: cached instance from outside of the "
                                  "context" % c.__name__)
                    if build(c) is not o:
                        raise Bad("%s: no caching in temporary cache"
                                  % c.__name__)
                self.case.saw('cache isolated')
        self.within('temporary_instance_cache',
                    lambda: temporary_instance_cache(*cls), body, inside)
        for c in cls:
            if made[c] is not None and Expression.instance_caching and \
                    build(c) is not made[c]:
                raise Bad("%s: the original cache is not restored"
                          % c.__name__)

    def do_rules(self, names, body, clear):
        cls = self.classes(names)
        if None in cls:
            bad = [c if c is not None else 5 for c in cls]
            return self.entry_error('temporary_rules',
                                    lambda: temporary_rules(*bad), cls)
        outer = {c: rule_names(c) for c in cls}
        old = list(self.protected)

        def inside():
            for c in cls:
                now = rule_names(c)
                if clear and now:
                    raise Bad("temporary_rules(clear=True): %s has rules %s"
                              % (c.__name__, now))
                if not clear and now != outer[c]:
                    raise Bad("temporary_rules: %s has other rules"
                              % c.__name__, now=str(now),
                              before=str(outer[c]))
                if c._instances:
                    raise Bad("temporary_rules: cache is not empty")
            if clear:
                self.case.saw('rules cleared')
            self.protected = self.protected + cls
            for c in set(cls):
                self.effect(c)
        try:
            self.within('temporary_rules',
                        lambda: temporary_rules(*cls, clear=clear), body,
                        inside, classes=cls)
        finally:
            self.protected = old

    def effect(self, cls):
        """a new rule is applied, and not any more after deleting it"""
        if cls not in (QVOp, QVSub, QVBin):
            return
        if not self.standard(cls):
            return
        attr = cls._rules_attr()
        if not self.temporary(cls, attr):
            return
        x, y = 90 + len(self.protected), 77
        name = self.new_rule()
        cls.add_rule(name, pattern_head(x, y), lambda: 12345)
        if cls.create(x, y) != 12345:
            raise Bad("added rule is not applied by %s.create" % cls)
        name2 = self.new_rule()
        cls.add_rule(name2, pattern_head(x, y + 1), lambda: 54321)
        if cls.create(x, y + 1) != 54321 or cls.create(x, y) != 12345:
            raise Bad("added rules are not applied by %s.create" % cls)
        cls.del_rules(name)
        with no_instance_caching():
            if cls.create(x, y) == 12345:
                raise Bad("deleted rule is applied by %s.create" % cls)
            if cls.create(x, y + 1) != 54321:
                raise Bad("rule is lost by deleting another one")
        cls.del_rules(name2)
        self.case.saw('rule effect')

    def do_print_ctx(self, kw, body):
        case = self.case
        kw = dict(kw)
        bad = kw.pop('<bad>', False)
        if bad:
            s0 = snapshot()
            try:
                with QP.configure_printing(**kw):
                    raise Boom()
            except (TypeError, ValueError, KeyError):
                pass
            except Boom:
                raise Bad("configure_printing accepts %s" % kw)
            case.saw('entry error')
            compare(case, s0, snapshot(), 'configure_printing (error on '
                    'entry)')
            return
        ini = kw.pop('<ini>', None)
        call = kw
        if ini is not None:
            case.saw('inifile')
            fd, path = tempfile.mkstemp(suffix='.ini', dir='/tmp')
            with os.fdopen(fd, 'w') as f:
                g = {k: v for k, v in ini.items() if '_settings' not in k}
                if g:
                    f.write('[global]\n' + ''.join(
                        '%s = %s\n' % kv for kv in g.items()))
                for sec in ('ascii', 'latex'):
                    st = ini.get(sec + '_settings')
                    if st:
                        f.write('[%s]\n' % sec + ''.join(
                            '%s = %s\n' % kv for kv in st.items()))
            call = {'inifile': path}
            kw = ini
        A = test_object()

        def inside():
            for f, name in ((ascii, 'ascii'), (unicode, 'unicode'),
                            (latex, 'latex')):
                st = kw.get(name + '_settings', {})
                if f(A) != f(A, **st):
                    raise Bad("configure_printing: %s settings %s have no "
                              "effect" % (name, st), got=f(A), want=f(A, **st))
                if not st and name + '_printer' not in kw and \
                        f(A) != DEFAULT[name]:
                    raise Bad("configure_printing: %s without settings is "
                              "not the default" % name, got=f(A))
            if QnetBasePrinter._allow_caching != kw.get('caching', True):
                raise Bad("configure_printing: caching")
            fmt = kw.get('str_format')
            if fmt:
                want = QP._PRINT_FUNC[fmt](A)
                if str(A) != want:
                    raise Bad("str_format %s" % fmt, got=str(A), want=want)
            fmt = kw.get('repr_format')
            if fmt:
                want = QP._PRINT_FUNC[fmt](A)
                if repr(A) != want:
                    raise Bad("repr_format %s" % fmt, got=repr(A), want=want)
            if A._repr_latex_() != '$' + latex(A) + '$':
                raise Bad("_repr_latex_")
            case.saw('printing effect')
        texts = [f(A) for f in (ascii, unicode, latex, str, repr)]
        try:
            self.within('configure_printing',
                        lambda: QP.configure_printing(**call), body, inside)
        finally:
            if ini is not None:
                os.remove(path)
        now = [f(A) for f in (ascii, unicode, latex, str, repr)]
        if texts != now:
            raise Bad("output changes after configure_printing",
                      before=str(texts), after=str(now))


DEFAULT = {}


def test_object():
    return OperatorSymbol('A', hs=LocalSpace('q1')) * LocalSigma(
        'g', 'e', hs=LocalSpace('q2', basis=('g', 'e')))


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    if rng.random() < .02:
        return fresh(case)
    prog = [gen_with(rng, rng.choice([1, 2, 2, 3])) for _ in range(
        rng.choice([1, 1, 2]))]
    case.info = dict(program=prog)
    case.key = prog
    case.nontrivial = str(prog).count('[[') >= 2 or 'raise' in str(prog)
    case.sample = str(prog)[:300]
    case.phase = 'run'
    m = Machine(case, rng)
    m.pairs, m.values, m.mods = {}, {}, []
    ascii('x'), unicode('x'), latex('x')
    str(IdentityOperator)
    s0 = snapshot()
    try:
        m.run(prog)
    except Boom:
        case.saw('exception propagated')
        compare(case, s0, snapshot(), 'program')
    else:
        compare(case, s0, snapshot(), 'program')
    finally:
        reset(s0)


def reset(s0):
    """later cases must not suffer from state that was leaked"""
    if s0 == snapshot():
        return
    for c in all_classes():
        for a, v in PRISTINE.get(c, {}).items():
            if c.__dict__.get(a, MISSING) is v:
                continue
            if v is MISSING:
                delattr(c, a)
            else:
                setattr(c, a, v)
    for (c, a), items in TABLES.items():
        t = c.__dict__.get(a)
        if t is not None:
            if isinstance(t, list):
                t[:] = items
            else:
                t.clear()
                t.update(items)
    Expression.instance_caching = True
    SympyPrinter._global_settings = {}
    QP.init_printing(init_sympy=False)


PRISTINE, TABLES = {}, {}


def setup(seed, tier):
    ascii('x'), unicode('x'), latex('x')
    str(IdentityOperator)
    A = test_object()
    DEFAULT.update(ascii=ascii(A), unicode=unicode(A), latex=latex(A))
    for c in all_classes():
        PRISTINE[c] = {a: c.__dict__.get(a, MISSING) for a in ATTRS}
        for a in ('_rules', '_binary_rules', 'simplifications'):
            v = c.__dict__.get(a)
            if v is not None:
                TABLES[c, a] = list(v) if isinstance(v, list) else list(
                    v.items())


# -- fresh processes ---------------------------------------------------------

FRESH = r'''
import sys
sys.path.insert(0, %(src)r)
import warnings; warnings.simplefilter('ignore')
import qnet
from qnet import *
from qnet.printing import ascii, unicode, latex, configure_printing
from sympy.printing.printer import Printer
A = OperatorSymbol('A', hs=LocalSpace('q1', basis=('g', 'e')))
e = A * LocalSigma('g', 'e', hs='q2') if False else A + 2
hook = sys.displayhook
glob = dict(Printer._global_settings)
class Boom(Exception): pass
try:
    with configure_printing(**%(kw)r):
        %(body)s
except Boom:
    pass
except (TypeError, ValueError):
    pass
print(repr([ascii(e), unicode(e), latex(e)]))
print(hook is sys.displayhook, glob == Printer._global_settings)
'''


def fresh(case):
    """configure_printing before anything was printed"""
    rng = case.rng
    kw = gen_printing(rng)
    kw.pop('<ini>', None)
    kw.pop('<bad>', None)
    body = rng.choice(['pass', 'ascii(e); latex(e)', 'str(e); unicode(e)',
                       'raise Boom()'])
    case.info = dict(kind='fresh', kw=kw, body=body)
    case.key = (str(kw), body)
    case.nontrivial = True
    case.phase = 'run'
    src = os.path.dirname(os.path.dirname(qnet.__file__))
    out = []
    for w in (kw, None):
        code = FRESH % dict(src=src, kw=w or {}, body=body)
        if w is None:
            code = code.replace('with configure_printing(**{}):', 'if 0:')
        p = subprocess.run([sys.executable, '-c', code], text=True,
                           capture_output=True, timeout=120,
                           env=dict(os.environ, PYTHONIOENCODING='utf8'))
        if p.returncode:
            raise Bad("fresh process fails", err=p.stderr[-1500:])
        out.append(p.stdout)
    case.saw('fresh process')
    if out[0] != out[1]:
        raise Bad("configure_printing in a fresh process leaves changed "
                  "printers behind", after=out[0], expected=out[1])
