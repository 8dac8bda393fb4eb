"""D03: permutations and blocks"""
from ..common import *
from .. import slh as M
from qnet.utils import permutations as P
from qnet.utils.permutations import BadPermutationError
from qnet.algebra.core import circuit_algebra as ca
import qnet
import itertools
import math

EXH = sum(math.factorial(n) for n in range(1, 7))     # 873
N_QUICK, N_THOROUGH = 3500, 60000
RULE = ("all permutations of up to 6 channels (7 in the thorough tier) and "
        "random ones up to 10, with random second permutations, block "
        "structures, port pairs and malformed inputs; every utility is "
        "compared with its definition on image tuples, every CPermutation "
        "operation with the action on channels; non-trivial: at least 3 "
        "channels; distinct by permutation and partner")
REQUIRED = ['utilities', 'cycles', 'blocks', 'full_block_perm',
            'within blocks', 'series', 'feedback', 'inverse', 'get_blocks',
            'map_channels', 'extract_channel', 'pad', 'malformed', 'SLH',
            'factorize', 'loop']


def eq(got, want, what):
    if not (type(got) == type(want) and got == want):
        raise Bad("%s is %r, expected %r" % (what, got, want))


def inv(p):
    q = [0] * len(p)
    for i, x in enumerate(p):
        q[x] = i
    return tuple(q)


def blocks(p):
    out, start = [], 0
    for k in range(1, len(p) + 1):
        if max(p[:k]) == k - 1:
            out.append(tuple(x - start for x in p[start:k]))
            start = k
    return out


def image(c):
    """image tuple of a permutation circuit, evaluated structurally"""
    if c is qnet.CircuitZero:
        return ()
    if c is qnet.CIdentity:
        return (0,)
    if isinstance(c, ca.CPermutation):
        return tuple(c.permutation)
    if isinstance(c, ca.Concatenation):
        out = ()
        for o in c.operands:
            out = out + tuple(x + len(out) for x in image(o))
        return out
    if isinstance(c, ca.SeriesProduct):
        out = None
        for o in reversed(c.operands):
            q = image(o)
            out = q if out is None else tuple(q[x] for x in out)
        return out
    raise Bad("not a permutation circuit: %s" % c)


def close(p, o, i):
    """image tuple after connecting output o to input i (None: loop)"""
    if p[i] == o:
        return None
    out = []
    for j in range(len(p)):
        if j == i:
            continue
        x = p[j]
        if x == o:
            x = p[i]
        out.append(x - (x > o))
    return tuple(out)


def structure(rng, n):
    cuts = sorted(rng.sample(range(1, n), rng.randint(0, n - 1)))
    b = [0] + cuts + [n]
    return tuple(y - x for x, y in zip(b, b[1:]))


def nth(idx, upto):
    for n in range(1, upto + 1):
        f = math.factorial(n)
        if idx < f:
            items, p = list(range(n)), []
            for k in range(n, 0, -1):
                f = math.factorial(k - 1)
                p.append(items.pop(idx // f))
                idx %= f
            return tuple(p)
        idx -= f
    return None


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    p = nth(case.idx, 7 if case.tier == 'thorough' else 6)
    if p is None:
        n = rng.choice([3, 4, 5, 6, 7, 8, 9, 10])
        p = list(range(n))
        rng.shuffle(p)
        if rng.random() < .5:
            # block permutation
            st = structure(rng, n)
            p, off = [], 0
            for b in st:
                q = list(range(off, off + b))
                rng.shuffle(q)
                p += q
                off += b
        p = tuple(p)
    n = len(p)
    s = list(range(n))
    rng.shuffle(s)
    s = tuple(s)
    case.info = dict(p=p, s=s)
    case.key = (p, s)
    case.nontrivial = n >= 3
    case.sample = str(p)
    case.phase = 'utilities'
    if not P.check_permutation(p):
        raise Bad("check_permutation")
    eq(P.invert_permutation(p), inv(p), 'invert_permutation')
    eq(P.compose_permutations(p, s), tuple(p[x] for x in s),
       'compose_permutations')
    eq(P.concatenate_permutations(p, s), p + tuple(x + n for x in s),
       'concatenate_permutations')
    seq = [chr(97 + i) for i in range(n)]
    eq(P.permute(seq, p), [seq[x] for x in p], 'permute of list')
    eq(P.permute(tuple(seq), p), tuple(seq[x] for x in p), 'permute of tuple')
    eq(P.permute(''.join(seq), p) if False else list(P.permute(
        range(n), p)), [x for x in p], 'permute of range')
    case.saw('utilities')
    cyc = P.permutation_to_disjoint_cycles(p)
    elts = sorted(x for c in cyc for x in c)
    if elts != list(range(n)):
        raise Bad("cycles %s do not partition the channels" % cyc)
    for c in cyc:
        for a, b in zip(c, c[1:] + c[:1]):
            if p[a] != b:
                raise Bad("cycles %s of %s" % (cyc, p))
    eq(P.permutation_from_disjoint_cycles(cyc), p,
       'permutation_from_disjoint_cycles')
    off = rng.randint(1, 5)
    eq(P.permutation_from_disjoint_cycles(
        [[x + off for x in c] for c in cyc], off), p,
       'permutation_from_disjoint_cycles with offset')
    case.saw('cycles')
    bl = [tuple(b) for b in P.permutation_to_block_permutations(p)]
    eq(bl, blocks(p), 'permutation_to_block_permutations')
    eq(P.permutation_from_block_permutations(bl), p,
       'permutation_from_block_permutations')
    case.saw('blocks')
    st = structure(rng, n)
    case.info['structure'] = st
    m = len(st)
    bp = list(range(m))
    rng.shuffle(bp)
    bp = tuple(bp)
    case.info['block_perm'] = bp
    want = []
    for k in range(m):
        o = sum(st[j] for j in range(m) if bp[j] < bp[k])
        want += [o + i for i in range(st[k])]
    eq(P.full_block_perm(bp, st), tuple(want), 'full_block_perm')
    case.saw('full_block_perm')
    gb, gw = P.block_perm_and_perms_within_blocks(p, st)
    offs = [sum(st[:k]) for k in range(m)]
    images = [p[o:o + l] for o, l in zip(offs, st)]
    mins = [min(x) for x in images]
    eq(tuple(gb), tuple(sorted(mins).index(x) for x in mins),
       'block permutation of %s for %s' % (p, st))
    eq([tuple(w) for w in gw],
       [tuple(sorted(x).index(y) for y in x) for x in images],
       'permutations within blocks of %s for %s' % (p, st))
    # a permutation that is exactly within-blocks followed by a block perm
    full, within = P.full_block_perm(bp, st), []
    for l in st:
        w = list(range(l))
        rng.shuffle(w)
        within.append(tuple(w))
    comp = tuple(full[x] for x in P.permutation_from_block_permutations(
        within))
    gb, gw = P.block_perm_and_perms_within_blocks(comp, st)
    eq((tuple(gb), [tuple(w) for w in gw]), (bp, within),
       'decomposition of block permutation')
    case.saw('within blocks')
    # malformed
    case.phase = 'malformed'
    badp = list(p)
    if n > 1:
        i, j = rng.sample(range(n), 2)
        badp[i] = badp[j]
    else:
        badp[0] = 1
    badp = tuple(badp)
    if rng.random() < .3:
        badp = tuple(x + 1 for x in p)
    if P.check_permutation(badp):
        raise Bad("check_permutation(%s)" % (badp,))
    for what, f in (
            ('CPermutation.create', lambda: ca.CPermutation.create(badp)),
            ('cycles', lambda: P.permutation_to_disjoint_cycles(badp)),
            ('blocks', lambda: P.permutation_to_block_permutations(badp)),
            ('permute', lambda: P.permute(list(range(n)), badp)),
            ('permute length', lambda: P.permute(list(range(n + 1)), p)),
            ('map_channels value', lambda: ca.map_channels({0: n}, n)),
            ('map_channels key', lambda: ca.map_channels({n: 0}, n)),
            ('map_channels neg', lambda: ca.map_channels({-1: 0}, n)),
            ('map_channels neg', lambda: ca.map_channels({0: -1}, n))):
        try:
            got = f()
        except ValueError:
            pass
        else:
            raise Bad("%s accepts malformed input %s: %s" % (
                what, badp, got))
    case.saw('malformed')
    # circuits
    case.phase = 'circuit'
    c = ca.CPermutation.create(p)
    d = ca.CPermutation.create(s)
    ident = p == tuple(range(n))
    if ident != (c == ca.circuit_identity(n)):
        raise Bad("identity permutation: %s" % c)
    eq(image(c), p, 'image of %s' % c)
    eq(c.cdim, n, 'cdim')
    eq(image(c << d), tuple(p[x] for x in s), 'series of permutations')
    if not ident and s != tuple(range(n)):
        eq(image(c.series_with_permutation(d)), tuple(p[x] for x in s),
           'series_with_permutation')
    case.saw('series')
    eq(image(c.series_inverse()), inv(p), 'series inverse')
    if (c << c.series_inverse()) != ca.circuit_identity(n):
        raise Bad("permutation times inverse")
    case.saw('inverse')
    eq(image(c + d), p + tuple(x + n for x in s), 'concatenation')
    if not ident:
        eq(tuple(c.block_structure), tuple(map(len, blocks(p))),
           'block structure')
        eq([tuple(b) for b in c.block_perms], blocks(p), 'block_perms')
        eq([image(b) for b in c.get_blocks()], blocks(p), 'get_blocks')
        fine = tuple(map(len, blocks(p)))
        co = [fine[0]]
        for b in fine[1:]:
            if rng.random() < .5:
                co.append(b)
            else:
                co[-1] += b
        gotb = c.get_blocks(tuple(co))
        eq(tuple(b.cdim for b in gotb), tuple(co), 'blocks %s' % (co,))
        o = 0
        for b, l in zip(gotb, co):
            eq(image(b), tuple(x - o for x in p[o:o + l]), 'block')
            o += l
        case.saw('get_blocks')
        try:
            gotb = c.get_blocks(st)
        except ca.IncompatibleBlockStructures:
            cuts = set(itertools.accumulate(fine))
            if set(itertools.accumulate(st)) <= cuts:
                raise Bad("get_blocks(%s) of %s rejected" % (st, p))
        else:
            eq(tuple(b.cdim for b in gotb), st, 'blocks')
    if n > 1:
        for o, i in itertools.product(range(n), repeat=2) if n < 5 else [
                (rng.randrange(n), rng.randrange(n)) for _ in range(6)]:
            case.info['ports'] = (o, i)
            want = close(p, o, i)
            if want is None:
                # closed loop: removed or rejected
                case.saw('loop')
                try:
                    f = c.feedback(out_port=o, in_port=i)
                except Exception as e:
                    continue
                if isinstance(f, ca.Feedback):
                    continue        # left as it is: has no meaning
                want = tuple(x - (x > o) for j, x in enumerate(p) if j != i)
                eq(image(f), want, 'feedback %d->%d of loop' % (o, i))
                continue
            eq(image(c.feedback(out_port=o, in_port=i)), want,
               'feedback %d->%d' % (o, i))
            eq(image(ca.FB(c, out_port=o, in_port=i)), want,
               'FB %d->%d' % (o, i))
            case.saw('feedback')
        want = close(p, n - 1, n - 1)
        if want is not None:
            eq(image(c.feedback()), want, 'feedback()')
    # map_channels etc.
    k = rng.randint(1, n)
    ks, vs = rng.sample(range(n), k), rng.sample(range(n), k)
    mp = dict(zip(ks, vs))
    case.info['map'] = mp
    eq(image(ca.map_channels(mp, n)), tuple(M.map_perm(mp.items(), n)),
       'map_channels')
    case.saw('map_channels')
    k = rng.randrange(n)
    eq(image(ca.extract_channel(k, n)), tuple(
        n - 1 if j == k else j - (j > k) for j in range(n)),
       'extract_channel(%d, %d)' % (k, n))
    case.saw('extract_channel')
    k, m = rng.randint(0, n), rng.randint(1, 3)
    pos = list(range(k)) + list(range(k + m, n + m))
    want = list(range(n + m))
    for j in range(n):
        want[pos[j]] = pos[p[j]]
    eq(image(ca.pad_with_identity(c, k, m)), tuple(want),
       'pad_with_identity(%d, %d)' % (k, m))
    case.saw('pad')
    # SLH model: S[p_j, j] = 1
    case.phase = 'SLH'
    S = c.toSLH()
    for i in range(n):
        for j in range(n):
            x = S.S.matrix[i, j]
            one = x == 1 or x is qnet.IdentityOperator
            zero = x == 0 or x is qnet.ZeroOperator
            if one != (p[j] == i) or not (one or zero):
                raise Bad("S[%d, %d] of %s is %s" % (i, j, p, x))
    if any(not (x == 0 or x is qnet.ZeroOperator) for x in list(
            S.L.matrix.ravel()) + [S.H]):
        raise Bad("L or H of a permutation")
    case.saw('SLH')
    # permutations followed by blocks
    case.phase = 'factorize'
    if n <= 6:
        cs = [ca.CircuitSymbol('X%d' % k, cdim=l) for k, l in enumerate(st)]
        rhs = ca.Concatenation.create(*cs)
        got = c << rhs
        check_factor(got, p, st)
        got = rhs << c
        check_factor(got, None, None, before=p, st2=st)
        case.saw('factorize')


def check_factor(got, p, st, before=None, st2=None):
    """trace every channel through `got`: each symbol's channel k must see the
    right external input/output"""
    ext_in, ext_out = trace(got)
    st = st or st2
    off = 0
    p = p or tuple(range(sum(st)))
    b = before or tuple(range(sum(st)))
    for k, l in enumerate(st):
        for i in range(l):
            ch = off + i
            if ext_in[('X%d' % k, i)] != b.index(ch):
                raise Bad("input %d of X%d is fed by %d in %s" % (
                    i, k, ext_in[('X%d' % k, i)], got))
            if ext_out[('X%d' % k, i)] != p[ch]:
                raise Bad("output %d of X%d goes to %d in %s" % (
                    i, k, ext_out[('X%d' % k, i)], got))
        off += l


def trace(c):
    """for a circuit of permutations and single-use symbols: which external
    channel feeds / is fed by every symbol channel"""
    fin, fout = {}, {}

    def go(c, lines):
        # lines: sources; returns sources of the outputs
        if c is qnet.CIdentity:
            return list(lines)
        if isinstance(c, ca.CPermutation):
            out = [None] * len(lines)
            for j, x in enumerate(lines):
                out[c.permutation[j]] = x
            return out
        if isinstance(c, ca.Concatenation):
            out, o = [], 0
            for q in c.operands:
                out += go(q, lines[o:o + q.cdim])
                o += q.cdim
            return out
        if isinstance(c, ca.SeriesProduct):
            for q in reversed(c.operands):
                lines = go(q, lines)
            return lines
        if isinstance(c, ca.CircuitSymbol):
            for i, x in enumerate(lines):
                fin[(c.label, i)] = x
            return [(c.label, i) for i in range(len(lines))]
        raise Bad("unexpected %s" % c)
    for j, x in enumerate(go(c, list(range(c.cdim)))):
        fout[x] = j
    return fin, fout
