"""Evaluate a batch of programs and report the printed results (I01)"""
import sys
import json
import random
import warnings

warnings.simplefilter('ignore')


def program(tag):
    """(recipe, list of (name, function)) of the program `tag`"""
    import sympy
    import qnet
    from . import anyexpr as X
    from . import recipes as R
    rng = random.Random(tag)
    kinds = ('op', 'op', 'ket', 'bra', 'braket', 'sop', 'sopapp', 'scalar',
             'trace', 'sumop', 'sumop', 'sumstate', 'sumscal', 'circuit',
             'circuit', 'circuit', 'matrix', 'deriv', 'space', 'commcc')
    ae = X.any_expr(rng, kinds=kinds, depth=rng.choice([1, 2, 2, 3]),
                    symargs=.4)
    for _ in range(8):
        # directly instantiated products are not in canonical form
        if not any("'%s'" % n in repr(ae.recipe)
                   for n in ('ptimes', 'pplus', 'otimes', 'oplus')) and (
                ae.kind not in X.TENSOR or ae.kind == 'deriv' or
                R.weight(ae.recipe) <= 12):
            break
        ae = X.any_expr(rng, kinds=kinds, depth=1, symargs=.4)
    return rng, ae


STEPS = ['ascii', 'unicode', 'latex', 'srepr', 'tree', 'free', 'args',
         'expand', 'adjoint', 'simplify', 'subst', 'diff', 'doit', 'rules',
         'slh', 'csimp', 'dyn', 'ABCD', 'ind', 'space', 'basis', 'series',
         'sum2', 'comm', 'qutip', 'sympy', 'dot']


def steps(rng, ae, e):
    import sympy
    import qnet
    from qnet.algebra.core.abstract_algebra import Expression
    from qnet.printing import ascii, unicode, latex, srepr
    from qnet.printing.treeprinting import tree
    circ = isinstance(e, qnet.Circuit)
    syms = sorted([s for s in getattr(e, 'free_symbols', ())], key=str)
    yield 'ascii', lambda: ascii(e)
    yield 'unicode', lambda: unicode(e)
    yield 'latex', lambda: latex(e)
    yield 'srepr', lambda: srepr(e)
    yield 'tree', lambda: tree(e)
    yield 'free', lambda: [str(s) for s in syms]
    if isinstance(e, Expression):
        yield 'args', lambda: [str(a) for a in e.args] + [
            (k, str(v)) for k, v in e.kwargs.items()]
        yield 'ind', lambda: srepr(e, indented=True)
        yield 'dot', lambda: qnet.dotprint(e) if hasattr(qnet, 'dotprint') \
            else __import__('qnet.printing.dot', fromlist=['x']).dotprint(e)
    if hasattr(e, 'space'):
        yield 'space', lambda: [str(e.space), str(
            [str(f) for f in e.space.local_factors])]
    yield 'expand', lambda: srepr(e.expand())
    yield 'simplify', lambda: srepr(e.simplify_scalar())
    if hasattr(e, 'adjoint') and ae.kind not in ('space',):
        yield 'adjoint', lambda: srepr(e.adjoint())
    if len(syms) >= 1:
        new = [sympy.Symbol('w_%d' % k) for k in range(len(syms))]
        yield 'subst', lambda: srepr(e.substitute(dict(zip(syms, new))))
    if syms and not circ and hasattr(e, 'diff'):
        yield 'diff', lambda: srepr(e.diff(syms[0]).expand())
    if hasattr(e, 'doit'):
        yield 'doit', lambda: srepr(e.doit())
    if isinstance(e, qnet.Operator):
        x = qnet.OperatorSymbol('Z', hs=e.space if e.space.local_factors
                                else qnet.LocalSpace(0))
        yield 'comm', lambda: srepr(qnet.Commutator.create(x, e).expand())
        yield 'sum2', lambda: srepr((e + x + 2) * (x + e))
    if circ:
        yield 'csimp', lambda: [srepr(x) for x in (
            e.creduce(), e.expand().simplify() if hasattr(e, 'simplify')
            else e)]
        yield 'slh', lambda: srepr(e.toSLH())
        yield 'dyn', lambda: srepr(
            e.toSLH().symbolic_master_equation().expand())


def run(tag):
    from .runner import Skip
    out = {}
    try:
        rng, ae = program(tag)
    except Exception as exc:
        return {'recipe': 'ERR ' + type(exc).__name__}
    out['recipe'] = repr((ae.kind, ae.info().get('spaces'), ae.recipe))
    try:
        e = ae.build()
    except Skip:
        return out
    except Exception as exc:
        out['build'] = 'EXC %s %s' % (type(exc).__name__, str(exc)[:200])
        return out
    todo = list(steps(rng, ae, e))
    for name, f in todo:
        try:
            out[name] = json.loads(json.dumps(f()))
        except Exception as exc:
            out[name] = 'EXC %s %s' % (type(exc).__name__, str(exc)[:200])
    return out


def main():
    cfg = json.loads(sys.argv[1])
    sys.path.insert(0, cfg['verif'])
    import qnet
    from qnet import no_instance_caching
    import contextlib
    import signal

    class TO(BaseException):
        pass

    def alarm(*a):
        raise TO()
    signal.signal(signal.SIGALRM, alarm)
    res = {}
    with (no_instance_caching() if cfg['nocache']
          else contextlib.nullcontext()):
        for tag in cfg['tags']:
            signal.setitimer(signal.ITIMER_REAL, cfg['limit'])
            try:
                res[tag] = run(tag)
            except TO:
                res[tag] = None
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
    print('RESULT' + json.dumps(res))


if __name__ == '__main__':
    main()
