"""A09: indexed sums"""
from ..common import *
from ..sums import (
    SumGen, set_env, sum_ctx, sums_in, NAMES, FREE_VALUE, sym, IndexedSum,
    capture)
from qnet import IdxSym, IndexOverList, IndexOverRange, IndexOverFockSpace
from qnet.algebra.core.exceptions import InfiniteSumError
import itertools
import numpy as np

N_QUICK, N_THOROUGH = 1200, 40000
RULE = ("random programs with (nested) indexed sums of operators, kets, bras "
        "and scalars over list, integer and Fock-space ranges, composed with "
        "sums, products, adjoints, applications and free indices of the same "
        "name; each result, its doit() (all indices, some indices, limited "
        "number of terms), its terms, renamed, expanded, adjoint, simplified "
        "and substituted forms are compared with an explicit summation over "
        "the reference tensors; range objects are compared with Python lists; "
        "non-trivial: at least one sum and 4 nodes; distinct by program text")
REQUIRED = ['compared', 'doit full', 'doit indices', 'doit max_terms',
            'terms', 'renamed', 'range object', 'expand', 'adjoint',
            'nested sum', 'two sums', 'free index', 'infinite sum',
            'coherent state as sum', 'sum survives', 'substitute free']
ASSUMPTIONS = ["all indices of one expression run over the same values "
               "(documented limitation of the Kronecker-delta resolution)"]


def range_case(case, rng):
    name = rng.choice(NAMES)
    s = sym(name)
    case.phase = 'gen'
    kind = rng.choice(['list', 'range', 'fock', 'inf'])
    if kind == 'list':
        vals = [rng.choice([-1, 0, 1, 2, 5]) for _ in range(rng.randint(0, 4))]
        ar = ('list', vals)
    elif kind == 'range':
        a, b = rng.randint(-3, 4), rng.randint(-3, 6)
        st = rng.choice([1, 1, 2, 3, -1, -2])
        vals = []
        x = a
        while (x <= b) if st > 0 else (x >= b):
            vals.append(x)
            x += st
        ar = ('range', a, b, st)
    elif kind == 'fock':
        spc = R.random_spaces(rng, n=1, fock=False)
        k = spc.keys[0]
        vals = list(range(spc.spaces[k].dim))
        ar = ('fock', spc.to_json())
    else:
        ar = ('inf',)
        vals = None
    case.info = dict(range=ar)
    case.key = ('range', name, ar)
    case.nontrivial = bool(vals)
    case.phase = 'range'
    if kind == 'list':
        ran = IndexOverList(s, vals)
    elif kind == 'range':
        ran = IndexOverRange(s, a, b, st) if st != 1 or rng.random() < .5 \
            else IndexOverRange(s, a, b)
    elif kind == 'fock':
        ran = IndexOverFockSpace(s, hs=spc.hs(k))
    else:
        ran = IndexOverFockSpace(s, hs=R.LocalSpace('q'))
    if vals is None:
        got = [m for m in itertools.islice(ran.iter(), 20)]
        if got != [{s: i} for i in range(20)]:
            raise Bad("infinite Fock range iterates over %s" % got)
        for x in (-2, -1, 0, 1, 50):
            if (x in ran) != (x >= 0):
                raise Bad("%d in %r is %s" % (x, ran, x in ran))
        vals = list(range(60))
    else:
        got = list(ran.iter())
        if got != [{s: i} for i in vals]:
            raise Bad("range iterates over %s, expected %s" % (got, vals))
        if len(ran) != len(vals):
            raise Bad("len is %s, expected %s" % (len(ran), len(vals)))
        for x in range(-4, 8):
            if (x in ran) != (x in vals):
                raise Bad("%d in range is %s" % (x, x in ran))
    if ran.index_symbol != s:
        raise Bad("index symbol")
    t = IdxSym(rng.choice(NAMES), primed=rng.choice([0, 1, 2]))
    r2 = ran.substitute({s: t})
    if type(r2) is not type(ran) or r2.index_symbol != t:
        raise Bad("renaming the index gives %r" % r2)
    it = [list(m.values())[0] for m in itertools.islice(r2.iter(), 60)]
    if it != vals:
        raise Bad("renaming the index changes the values: %s" % it)
    # indicator
    if len(vals):
        u = IdxSym('u')
        pw = ran.piecewise_one(u)
        for x in range(-3, 8):
            got = pw.subs({u: x})
            if not (got.is_Number and (int(got) == 1) == (x in vals)):
                raise Bad("piecewise_one(%d) = %s" % (x, got))
    case.saw('range object')


def coherent_case(case, rng):
    case.phase = 'gen'
    ctx = R.Ctx([R.Spc('a', 'fock')])
    g = R.Gen(rng, ctx)
    amp = g.small_amp()
    r = ['coherent', 'a', amp]
    case.info = dict(recipe=r)
    case.key = ('coherent', r)
    ctx.fit(1, True)
    case.phase = 'build'
    q = R.build(ctx, r)
    case.phase = 'coherent'
    n = rng.choice(['n', 'm', IdxSym('k')])
    v = ref_value(case, ctx, r)
    s = q.to_fock_representation(index_symbol=n)
    check_same(case, ctx, s, v, 'Fock representation of coherent state')
    mt = rng.randint(1, 6)
    s = q.to_fock_representation(index_symbol=n, max_terms=mt)
    w = v.a.copy()
    w[mt:] = 0
    check_same(case, ctx, s, num.T('K', v.spaces, w),
               'Fock representation with max_terms')
    check_same(case, ctx, s.doit(), num.T('K', v.spaces, w),
               'Fock representation with max_terms, doit')
    case.saw('coherent state as sum')
    case.nontrivial = True


def tensor_sum(ctx, vals):
    r = None
    for v in vals:
        r = v if r is None else num.add(ctx.U, r, v)
    return r


def no_nested(q):
    return not [s for s in sums_in(q.term)]


def all_index_symbols(q):
    return {s for s in q.free_symbols if isinstance(s, IdxSym)}


def classify(case, out):
    if capture.seen and 'differs' in out.get('msg', ''):
        return 'A09-scalar-sum-capture'


def run_case(case):
    rng = case.rng
    capture.seen = 0
    x = rng.random()
    if x < 0.08:
        return range_case(case, rng)
    if x < 0.10:
        return coherent_case(case, rng)
    case.phase = 'gen'
    ctx = sum_ctx(rng)
    shift = rng.random() < 0.15
    g = SumGen(rng, ctx, shift=shift)
    d = rng.choice([1, 2, 2, 3])
    kind = rng.choice(['op', 'op', 'ket', 'bra', 'state', 'scalar'])
    if shift:
        # shifted labels: no products that contract two labels
        kind = rng.choice(['ket', 'op'])
        d = min(d, 1)
        if kind == 'ket':
            r = g.summed(lambda: ['kscl', g.scalar(1), g.ket_leaf(
                [rng.choice(ctx.keys)])])
        else:
            r = g.summed(lambda: ['oscl', g.scalar(1), g.op_leaf(ctx.keys)])
        if rng.random() < .5:
            r = ['oadd', r, g.summed(lambda: g.op_leaf(ctx.keys))] \
                if kind == 'op' else ['bra', r]
    elif kind == 'op':
        r = g.op(d)
        if not g.nsums:
            r = g.summed(lambda: g.op(d))
    elif kind == 'ket':
        ks = g.pick_spaces()
        r = g.summed(lambda: g.ket(ks, d))
        x = rng.random()
        if x < .3:
            r = ['kapp', g.op(1, ks), r]
        elif x < .5:
            r = ['kadd', g.ket(ks, 1), r]
    elif kind == 'bra':
        ks = g.pick_spaces()
        r = g.summed(lambda: g.bra(ks, d))
    elif kind == 'state':
        r = g.ket_or_bra_or_braket(d)
        if not g.nsums:
            ks = g.pick_spaces()
            r = ['bradotket', g.summed(lambda: g.bra(ks, d)),
                 g.summed(lambda: g.ket(ks, d))]
    else:
        r = g.scal(d)
        if not g.nsums:
            r = g.summed(lambda: g.scal(d))
    fit(case, ctx, r)
    set_env(ctx)
    v = ref_value(case, ctx, r)
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.key = (ctx.to_json(), r)
    case.phase = 'build'
    q = R.build(ctx, r)
    case.phase = 'value'
    check_same(case, ctx, q, v, 'program with sums')
    if g.nsums > 1:
        case.saw('two sums')
    case.nontrivial = R.size(r) >= 4
    case.sample = str(r)[:300]
    if not isinstance(q, R.qnet.algebra.core.abstract_quantum_algebra
                      .QuantumExpression):
        case.saw('not a QNET expression')
        return
    ss = sums_in(q)
    if ss:
        case.saw('sum survives')
    if all_index_symbols(q):
        case.saw('free index')
    inf = [s for s in ss if any(
        isinstance(ra, IndexOverFockSpace) and not ra.hs.has_basis
        for ra in s.ranges)]
    big = [s for s in ss if s not in inf and len(s) > 300]
    # every sum object in the result is well formed on its own
    for s in ss[:3]:
        names = [ra.index_symbol for ra in s.ranges]
        if len(set(names)) != len(names):
            raise Bad("repeated index in %s" % s)
        if set(names) & s.free_symbols:
            raise Bad("bound index is a free symbol of %s" % s)
        if not set(names) <= s.bound_symbols:
            raise Bad("index missing in bound_symbols of %s" % s)
        if sums_in(s.term):
            case.saw('nested sum')
    case.phase = 'doit'
    if big:
        pass
    elif not inf:
        d = q.doit([IndexedSum])
        check_same(case, ctx, d, v, 'doit([IndexedSum])')
        if sums_in(d):
            raise Bad("doit leaves a sum: %s" % d)
        check_same(case, ctx, q.doit(), v, 'doit()')
        case.saw('doit full')
        k = rng.sample(NAMES, rng.randint(1, 3))
        if rng.random() < .5:
            k = [sym(n) for n in k]
        d = q.doit([IndexedSum], indices=k)
        check_same(case, ctx, d, v, 'doit(indices=%s)' % k)
        for s in sums_in(d):
            for n in k:
                if (n if isinstance(n, IdxSym) else sym(n)) in s.variables:
                    raise Bad("doit(indices=%s) leaves %s" % (k, s))
        case.saw('doit indices')
    elif isinstance(q, IndexedSum):
        case.saw('infinite sum')
        try:
            d = q.doit()
        except InfiniteSumError:
            pass
        else:
            raise Bad("doit of an infinite sum gives %s" % d)
    for s in ss[:2]:
        if sums_in(s.term):
            continue
        if set(s.free_symbols) & {t for t in ctx.den.env if False}:
            pass
        bound = set(itertools.chain(*[o.variables for o in ss])) - set(
            s.variables)
        if bound & s.free_symbols:
            continue   # inside another sum
        case.phase = 'terms'
        rv = [ctx.den.range_values(ra) for ra in s.ranges]
        m = rng.randint(1, 5)

        def at(combo):
            old = {ra.index_symbol: ctx.den.env.get(ra.index_symbol)
                   for ra in s.ranges}
            for ra, x in zip(s.ranges, combo):
                ctx.den.env[ra.index_symbol] = x
            t = ctx.den(s.term)
            for a, b in old.items():
                if b is None:
                    ctx.den.env.pop(a, None)
                else:
                    ctx.den.env[a] = b
            return t
        combos = list(itertools.islice(itertools.product(*rv), 12))
        if s in big or s in inf and (len(s.ranges) > 1):
            continue
        vals = [at(c) for c in combos]
        n = 1
        for x in rv:
            n *= len(x)
        ts = list(itertools.islice(s.terms, 12))
        if s not in inf:
            if len(s) != n:
                raise Bad("len is %d, expected %d" % (len(s), n))
        if s in inf:
            ts = ts[:len(combos)]
            n = len(combos)
        if len(ts) != min(n, 12):
            raise Bad("number of terms is %d, expected %d" % (len(ts), n))
        for t, w in zip(ts, vals):
            check_same(case, ctx, t, w, 'term of sum')
        case.saw('terms')
        d = s.doit(max_terms=m)
        check_same(case, ctx, d, tensor_sum(ctx, vals[:m]),
                   'doit(max_terms=%d) of %s' % (m, s))
        case.saw('doit max_terms')
    for s in ss[:2]:
        bound = set(itertools.chain(*[o.variables for o in ss]))
        if (bound - set(s.variables)) & s.free_symbols:
            continue
        case.phase = 'rename'
        w = ctx.den(s)
        others = rng.sample([sym(n) for n in NAMES], rng.randint(1, 4))
        form = rng.choice(['sym', 'range', 'list', 'sum'])
        if form == 'sym':
            arg = others
        elif form == 'range':
            arg = [IndexOverRange(o, 0, 2) for o in others]
        elif form == 'list':
            arg = [[IndexOverRange(o, 0, 2) for o in others]]
        else:
            arg = [rng.choice(ss)]
            others = arg[0].variables
        d = s.make_disjunct_indices(*arg)
        check_same(case, ctx, d, w, 'make_disjunct_indices(%s)' % arg)
        if set(d.variables) & set(others):
            raise Bad("make_disjunct_indices(%s) gives %s" % (arg, d))
        if len(d.ranges) != len(s.ranges):
            raise Bad("number of ranges changes")
        case.saw('renamed')
    case.phase = 'expand'
    check_same(case, ctx, q.expand(), v, 'expand')
    case.saw('expand')
    case.phase = 'adjoint'
    check_same(case, ctx, q.adjoint(), num.dag(v), 'adjoint')
    check_same(case, ctx, q.adjoint().adjoint(), v, 'adjoint of adjoint')
    case.saw('adjoint')
    case.phase = 'simplify_scalar'
    check_same(case, ctx, q.simplify_scalar(), v, 'simplify_scalar')
    case.phase = 'rebuild'
    check_same(case, ctx, q.rebuild(), v, 'rebuild')
    # substitution of a free index / of a bound one
    case.phase = 'substitute'
    fr = sorted(all_index_symbols(q), key=str)
    if fr and not shift:
        f = rng.choice(fr)
        case.info['subst'] = str(f)
        x = rng.choice(sorted(set(
            [0, 1] if g.kind == 'fock' and ctx.fock() else
            ctx.den.range_values(ss[0].ranges[0]) if ss else [0, 1])))
        ctx.den.env[f] = x
        w = ref_value(case, ctx, r)
        case.phase = 'substitute'
        check_same(case, ctx, q.substitute({f: x}), w,
                   'substitute free index %s=%s' % (f, x))
        case.saw('substitute free')
        ctx.den.env[f] = FREE_VALUE
        # by another index symbol
        t = sym(rng.choice(NAMES))
        ctx.den.env[f] = ctx.den.env[t]
        w = ref_value(case, ctx, r)
        case.phase = 'substitute'
        check_same(case, ctx, q.substitute({f: t}), w,
                   'substitute free index %s by %s' % (f, t))
        case.saw('substitute free by free')
        ctx.den.env[f] = FREE_VALUE
    bs = sorted({b for s in ss for b in s.variables} - set(fr), key=str)
    if bs:
        b = rng.choice(bs)
        case.info['subst'] = 'bound ' + str(b)
        t = rng.choice([1, sym('m'), IdxSym('i', primed=3), sym('j')])
        check_same(case, ctx, q.substitute({b: t}), v,
                   'substitute bound index %s by %s' % (b, t))
        case.saw('substitute bound')
