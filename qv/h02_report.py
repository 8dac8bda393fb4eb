"""What a process sees of qnet (run in the checked and in fresh processes)"""
import importlib


def report(modules):
    import sympy
    import qnet
    from qnet.algebra.core.abstract_algebra import Expression
    names, where, rules = {}, {}, {}
    for m in modules:
        mod = importlib.import_module(m)
        names[m] = sorted(mod.__all__)
        for n in mod.__all__:
            x = getattr(mod, n)
            where[m + '.' + n] = [
                type(x).__name__, str(getattr(x, '__module__', '')) if
                isinstance(x, type) or callable(x) else '',
                getattr(qnet, n) is x]

    def walk(c):
        for attr in ('_rules', '_binary_rules'):
            d = c.__dict__.get(attr)
            if d:
                rules[c.__name__ + attr] = list(d)
        for attr in ('simplifications', 'properties'):
            if c.__dict__.get(attr):
                rules[c.__name__ + attr] = [
                    getattr(f, '__name__', str(f)) for f in c.__dict__[attr]]
        for s in c.__subclasses__():
            if s.__module__.startswith('qnet.'):
                walk(s)
    walk(Expression)
    from qnet import Destroy, Create, PhaseCC, Beamsplitter, OperatorSymbol
    import sympy as sp
    phi = sp.Symbol('phi', real=True)
    A = OperatorSymbol('A', hs='q')
    works = [qnet.ascii(Destroy(hs=1) * Create(hs=1)),
             qnet.ascii((PhaseCC(phase=phi) << PhaseCC(phase=1)).toSLH()),
             qnet.ascii(Beamsplitter().toSLH()), qnet.ascii((A + 2) * A.dag()),
             qnet.latex(A * 2), qnet.unicode(A * 2), qnet.srepr(A)]
    return dict(names=names, where=where, rules=rules, works=works)
