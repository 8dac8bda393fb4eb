"""D04: networks assembled with connect"""
from ..common import *
import numpy as np
import qnet
from .. import slh as M
from .d02 import same, small_ctx
from qnet.algebra.core.exceptions import AlgebraError, CannotConvertToSLH
from qnet.algebra.core import circuit_algebra as ca
from qnet.algebra.toolbox.circuit_manipulation import connect

N_QUICK, N_THOROUGH = 2500, 60000
RULE = ("random lists of 1-4 components (symbols, library components, SLH "
        "triples, permutations, composite circuits, duplicates) with random "
        "connection lists that refer to components by object or index and to "
        "ports by index or name; the connected network is evaluated "
        "structurally, in SLH form and with force_SLH and compared with the "
        "simultaneous elimination of all internal channels of the "
        "concatenated numeric models; invalid connection lists must raise "
        "ValueError; non-trivial: at least 2 connections; distinct by "
        "components and connections")
REQUIRED = ['compared', 'force_SLH', 'toSLH', 'port names', 'by object',
            'duplicates', 'self-loop', 'no connection', 'reordered',
            'invalid', 'expand_simplify=False', '3 connections']
TIMEOUT = 30


def eliminate(v, conns):
    """close all connections [(output, input)] of model `v` at once"""
    D, n = v.D, v.n
    if not conns:
        return v
    o, i = [c[0] for c in conns], [c[1] for c in conns]
    eo = [k for k in range(n) if k not in o]
    ei = [k for k in range(n) if k not in i]
    k = len(conns)

    def mat(rows, cols):
        return v.S[np.ix_(rows, cols)].transpose(0, 2, 1, 3).reshape(
            len(rows) * D, len(cols) * D)
    m = np.eye(k * D) - mat(o, i)
    if np.linalg.cond(m) > 1e5:
        raise M.IllPosed
    W = np.linalg.inv(m)
    Lo = v.L[o].reshape(k * D, D)
    Le = v.L[eo].reshape(len(eo) * D, D)
    S = mat(eo, ei) + mat(eo, i) @ W @ mat(o, ei)
    L = Le + mat(eo, i) @ W @ Lo
    X = v.L.reshape(n * D, D).conj().T @ mat(list(range(n)), i) @ W @ Lo
    r = len(eo)
    return M.N(S.reshape(r, D, r, D).transpose(0, 2, 1, 3),
               L.reshape(r, D, D), v.H + M.im(X))


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = small_ctx(rng)
    ctx.fit(1, False)
    g = R.Gen(rng, ctx, unitary=False)
    cg = M.CGen(rng, g, slh=rng.random() < .5,
                components=rng.random() < .8, op_S=False, simple=True)
    comps = []
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4])):
        x = rng.random()
        n = rng.choice([1, 1, 2, 2, 3])
        if x < .12 and comps:
            comps.append(rng.choice(comps))
        elif x < .8:
            r = cg.leaf(n)
            if r[0] == 'id' and rng.random() < .7:
                r = ['sym', 'Z_%d' % n, n]
            comps.append(r)
        else:
            comps.append(cg.circ(n, 1))
    case.phase = 'val'
    v = None
    try:
        for r in comps:
            w = M.ref(ctx, r)
            v = w if v is None else M.concat(v, w)
    except M.IllPosed:
        raise Skip("ill-posed component")
    case.phase = 'build'
    try:
        qs = [M.build(ctx, r) for r in comps]
    except AlgebraError as e:
        raise Skip("component not built")
    case.phase = 'gen'
    n = v.n
    dims = [q.cdim for q in qs]
    if sum(dims) != n:
        raise Bad("cdims %s" % dims)
    offs = [sum(dims[:k]) for k in range(len(dims))]
    k = rng.randint(0, min(n - 1, 4))
    outs, ins = rng.sample(range(n), k), rng.sample(range(n), k)
    case.info = dict(spaces=ctx.to_json(), comps=comps, outs=outs, ins=ins)
    case.key = (ctx.to_json(), comps, outs, ins)
    case.nontrivial = k >= 2
    case.sample = '%s %s' % (comps, list(zip(outs, ins)))

    def refer(ch, out):
        c = max(j for j in range(len(dims)) if offs[j] <= ch and dims[j] > 0)
        p = ch - offs[c]
        q = qs[c]
        if isinstance(q, ca.Component) and rng.random() < .6:
            p = (q.PORTSOUT if out else q.PORTSIN)[p]
            case.saw('port names')
        if qs.count(q) == 1 and rng.random() < .5:
            c = q
            case.saw('by object')
        if qs.count(q) > 1:
            case.saw('duplicates')
        return (c, p)
    conns = [(refer(o, True), refer(i, False)) for o, i in zip(outs, ins)]
    case.info['connections'] = str(conns)
    for o, i in zip(outs, ins):
        if [x for x in offs if x <= o][-1] == [x for x in offs if x <= i][-1]:
            case.saw('self-loop')
    case.saw('%d connections' % k if k else 'no connection')
    case.phase = 'invalid'
    j = rng.randrange(len(qs))
    nums = [c for c in range(len(qs))]
    bad = [
        ((len(qs), 0), (0, 0)), ((0, 0), (len(qs), 0)), ((-1, 0), (0, 0)),
        ((0, 0), (-1, 0)),
        ((j, dims[j]), (0, 0)), ((0, 0), (j, dims[j])), ((j, -1), (0, 0)),
        ((0, 0), (j, -1)), ((j, 'nosuchport'), (0, 0)),
        ((0, 0), (j, 'nosuchport')),
        ((qnet.CircuitSymbol('nosuchcomponent', cdim=1), 0), (0, 0)),
        ((0, 0), (qnet.CircuitSymbol('nosuchcomponent', cdim=1), 0))]
    if qs.count(qs[j]) > 1:
        bad += [((qs[j], 0), (0, 0)), ((0, 0), (qs[j], 0))]
    for b in rng.sample(bad, 3):
        must_fail(case, qs, conns[:rng.randint(0, k)] + [b])
    if k and k < n:
        # a port that is used twice
        (o, i) = rng.choice(conns)
        fo = rng.choice([x for x in range(n) if x not in outs])
        fi = rng.choice([x for x in range(n) if x not in ins])
        must_fail(case, qs, conns + [(o, refer(fi, False))])
        must_fail(case, qs, conns + [(refer(fo, True), i)])
    case.phase = 'val'
    try:
        want = eliminate(v, list(zip(outs, ins)))
    except M.IllPosed:
        raise Skip("ill-posed network")
    if max(abs(want.S).max(), abs(want.L).max(), abs(want.H).max()) > 1e5:
        raise Skip("nearly ill-posed network")
    ev = M.Circ(ctx)
    case.phase = 'connect'

    def check(c, what):
        try:
            same(case, ev(c), want, what, c)
        except M.IllPosed:
            raise Bad("%s: result contains an ill-posed feedback" % what,
                      result=str(c)[:400])
        if c.cdim != want.n:
            raise Bad("%s: cdim %s, expected %d" % (what, c.cdim, want.n))
    before = list(qs), list(conns)
    try:
        c = connect(qs, conns)
    except AlgebraError as e:
        if 'Inversion not implemented' in str(e):
            raise Skip("feedback through an operator")
        raise
    check(c, 'connect')
    if (qs, conns) != before:
        raise Bad("connect changes its arguments")
    order = list(range(k))
    rng.shuffle(order)
    if k > 1:
        case.phase = 'reordered'
        try:
            check(connect(qs, [conns[x] for x in order],
                          expand_simplify=False),
                  'reordered connections %s' % order)
            case.saw('reordered')
        except AlgebraError as e:
            if 'Inversion not implemented' not in str(e):
                raise
    case.phase = 'SLH'
    if any(M.symbols_in(r) for r in comps):
        try:
            connect(qs, conns, force_SLH=True)
        except CannotConvertToSLH:
            pass
        return
    try:
        s = c.toSLH()
        check(s, 'toSLH')
        case.saw('toSLH')
        es = rng.random() < .5
        s = connect(qs, conns, force_SLH=True, expand_simplify=es)
        if not isinstance(s, ca.SLH):
            raise Bad("force_SLH gives %s" % type(s))
        check(s, 'force_SLH expand_simplify=%s' % es)
        case.saw('force_SLH')
        case.saw('expand_simplify=%s' % es)
    except AlgebraError as e:
        if 'Inversion not implemented' not in str(e):
            raise


def must_fail(case, qs, conns):
    case.saw('invalid')
    try:
        c = connect(qs, conns)
    except ValueError:
        return
    raise Bad("invalid connections %s accepted" % (conns,), result=str(c))
