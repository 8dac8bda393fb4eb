"""D02: circuit expressions keep their meaning"""
from ..common import *
from .. import slh as M
from qnet.algebra.core.exceptions import AlgebraError, CannotConvertToSLH
from qnet.algebra.core import circuit_algebra as ca

N_QUICK, N_THOROUGH = 5000, 150000
RULE = ("random circuit programs (series, concatenation, feedback, series "
        "inverse, permutations, padding, identities, components, symbols and "
        "SLH triples with 1-5 channels); the built and simplified expression, "
        "its blocks, creduce, rebuild, inverse and SLH form are evaluated by "
        "an independent structural evaluator with random unitary SLH models "
        "of the symbols and compared with the Gough-James value of the "
        "program; non-trivial: at least 4 nodes; distinct by program")
REQUIRED = ['compared', 'toSLH', 'creduce', 'blocks', 'rebuild', 'inverse',
            'substitute', 'saw Feedback', 'saw SeriesProduct', 'channel index',
            'saw Concatenation', 'saw SeriesInverse', 'saw CPermutation',
            'saw SLH', 'saw CircuitSymbol', 'toSLH rejected']
TIMEOUT = 30


def same(case, a, b, what, q=None, rtol=1e-7):
    case.saw('compared')
    d, s = M.diff(a, b)
    if not d <= rtol * (1 + s):
        raise Bad("%s: SLH model differs (%s)" % (what, M.which(a, b)),
                  result=str(q)[:400])


def small_ctx(rng):
    return R.random_spaces(rng, n=rng.choice([1, 1, 2]), fock=False, maxdim=4)


def reference(case, ctx, r):
    case.phase = 'val'
    try:
        v = M.ref(ctx, r)
    except M.IllPosed:
        raise Skip("ill-posed network")
    if max(abs(v.S).max() if v.S.size else 0,
           abs(v.L).max() if v.L.size else 0, abs(v.H).max()) > 1e5:
        raise Skip("nearly ill-posed network")
    return v


def random_structure(rng, struct):
    """a coarser block structure"""
    out = [struct[0]]
    for b in struct[1:]:
        if rng.random() < .5:
            out.append(b)
        else:
            out[-1] += b
    return tuple(out)


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = small_ctx(rng)
    ctx.fit(1, False)
    g = R.Gen(rng, ctx, unitary=False)
    cg = M.CGen(rng, g, slh=rng.random() < .3,
                components=rng.random() < .5, simple=True)
    n = rng.choice([1, 2, 2, 3, 3, 4])
    r = cg.circ(n, rng.choice([1, 2, 2, 3, 3, 4] if not cg.slh
                              and not cg.components else [1, 2, 2, 3]))
    case.info = dict(spaces=ctx.to_json(), recipe=r)
    case.key = (ctx.to_json(), r)
    v = reference(case, ctx, r)
    ev = M.Circ(ctx)
    case.phase = 'build'
    try:
        q = M.build(ctx, r)
    except AlgebraError as e:
        if 'Inversion not implemented' in str(e):
            raise Skip("feedback through an operator")
        raise
    case.nontrivial = M.csize(r) >= 4
    case.sample = str(q)[:200]
    case.phase = 'value'

    def check(c, w, what):
        try:
            same(case, ev(c), w, what, c)
        except M.IllPosed:
            raise Bad("%s: result contains an ill-posed feedback" % what,
                      result=str(c)[:400])
        if c.cdim != w.n:
            raise Bad("%s: cdim is %s, expected %d" % (what, c.cdim, w.n))
        bs = c.block_structure
        if sum(bs) != w.n:
            raise Bad("%s: block structure %s, %d channels" % (
                what, bs, w.n))
    check(q, v, 'circuit')
    for k in ev.seen:
        case.saw('saw ' + k)
    case.phase = 'creduce'
    check(q.creduce(), v, 'creduce')
    case.saw('creduce')
    case.phase = 'rebuild'
    q2 = q.rebuild()
    check(q2, v, 'rebuild')
    case.saw('rebuild')
    case.phase = 'inverse'
    try:
        w = M.inverse(v)
        check(q.series_inverse(), w, 'series_inverse')
        case.saw('inverse')
        if v.n > 0:
            try:
                check(q << q.series_inverse(), M.identity(v.n, v.D),
                      'circuit times its inverse')
            except AlgebraError:
                pass
    except AlgebraError:
        case.saw('inverse not possible')
    # blocks
    case.phase = 'blocks'
    if v.n:
        struct = q.block_structure
        for st in (None, random_structure(rng, struct)):
            bl = q.get_blocks(st) if st else q.get_blocks()
            st = st or struct
            if [b.cdim for b in bl] != list(st):
                raise Bad("get_blocks(%s) gives channel numbers %s" % (
                    st, [b.cdim for b in bl]))
            check(ca.Concatenation.create(*bl), v,
                  'concatenated blocks for %s' % (st,))
            u = None
            for b in bl:
                x = ev(b)
                u = x if u is None else M.concat(u, x)
            same(case, u, v, 'blocks for %s' % (st,), bl)
        case.saw('blocks')
        # incompatible block structures are rejected
        cuts = {sum(struct[:i]) for i in range(1, len(struct))}
        other = [c for c in range(1, v.n) if c not in cuts]
        if other:
            c = rng.choice(other)
            try:
                q.get_blocks((c, v.n - c))
            except ca.IncompatibleBlockStructures:
                case.saw('incompatible blocks')
            else:
                raise Bad("get_blocks(%s) accepted, structure is %s" % (
                    (c, v.n - c), struct))
        for ch in range(v.n):
            i, b = q.index_in_block(ch)
            if sum(struct[:b]) + i != ch or not 0 <= i < struct[b]:
                raise Bad("index_in_block(%d)=%s for structure %s" % (
                    ch, (i, b), struct))
        for ch in (-1, v.n):
            try:
                q.index_in_block(ch)
            except ValueError:
                pass
            else:
                raise Bad("index_in_block(%d) accepted" % ch)
        case.saw('channel index')
    # SLH form
    case.phase = 'toSLH'
    syms = M.symbols_in(r)
    try:
        s = q.toSLH()
        check(s, v, 'toSLH')
        case.saw('toSLH')
    except CannotConvertToSLH:
        if not syms:
            raise
        case.saw('toSLH rejected')
    except AlgebraError as e:
        if 'Inversion not implemented' not in str(e):
            raise
    if not syms:
        return
    if rng.random() < .4 or M.csize(r) > 15 or \
            max(s[2] for s in syms.values()) > 3:
        return
    # replace symbols by SLH triples or other circuits
    case.phase = 'gen'
    cg2 = M.CGen(rng, g, op_S=False, simple=True, symbols=False)
    todo = rng.sample(sorted(syms), rng.randint(1, len(syms)))
    subs = {}
    for k in todo:
        s = syms[k]
        subs[k] = cg2.slh_leaf(s[2]) if rng.random() < .7 else cg2.leaf(s[2])
    case.info['subst'] = subs

    def repl(x):
        if isinstance(x, list):
            if str(x) in subs:
                return subs[str(x)]
            return [repl(y) for y in x]
        return x
    r2 = repl(r)
    w = reference(case, ctx, r2)
    case.phase = 'substitute'
    try:
        q3 = q.substitute({M.build(ctx, syms[k]): M.build(ctx, x)
                           for k, x in subs.items()})
        check(q3, w, 'substituted circuit')
        case.saw('substitute')
        if len(todo) == len(syms):
            check(q3.toSLH(), w, 'toSLH of substituted circuit')
            case.saw('toSLH')
    except AlgebraError as e:
        if 'Inversion not implemented' in str(e):
            return
        raise
