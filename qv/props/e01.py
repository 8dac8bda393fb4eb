"""E01: operator-valued matrices obey matrix algebra"""
from ..common import *
from ..num import T, S
import numpy as np
import sympy
import qnet
from qnet import (Matrix, hstackm, vstackm, diagm, block_matrix,
                  identity_matrix, zerosm, ScalarValue, TrivialSpace)
from qnet.algebra.core.matrix_algebra import permutation_matrix
from qnet.algebra.core.abstract_algebra import substitute
from qnet.algebra.core.exceptions import NoConjugateMatrix

N_QUICK, N_THOROUGH = 5000, 120000
TIMEOUT = 40
RULE = ("random programs of 3-14 matrix operations over matrices of shape "
        "1..4 x 1..4 whose entries are operators, QNET scalars, sympy "
        "expressions and native numbers; after every operation every entry "
        "is compared with the same operation on arrays of numeric values, "
        "and at the end all earlier matrices must still hold the same "
        "entries; non-trivial: a matrix with at least 4 entries, one of them "
        "an operator; distinct by program")
REQUIRED = ['add', 'sub', 'neg', 'mul', 'lmul', 'rmul', 'radd', 'div', 'T',
            'adjoint', 'conjugate', 'no conjugate', 'real', 'imag', 'trace',
            'hstack', 'vstack', 'block_matrix', 'diagm', 'identity', 'zeros',
            'permutation', 'slice', 'item', 'element_wise', 'expand',
            'simplify_scalar', 'substitute', 'series', 'block structure',
            'is_zero', 'eq', 'space', 'free_symbols', 'unchanged', 'copy',
            'rebuild']


def val_entry(ctx, r):
    v = R.val(ctx, r)
    return v if isinstance(v, T) else S(v)


class M:
    """numeric model: object array of tensors"""

    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return self.a.shape


def arr(rows, shape=None):
    shape = shape or (len(rows), len(rows[0]))
    a = np.empty(shape, dtype=object)
    for i in range(shape[0]):
        for j in range(shape[1]):
            a[i, j] = rows[i][j]
    return a


def emap(f, *ms):
    a = np.empty(ms[0].shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        a[ix] = f(*[m.a[ix] for m in ms])
    return M(a)


def mmul(U, x, y):
    a = np.empty((x.shape[0], y.shape[1]), dtype=object)
    for i, j in np.ndindex(*a.shape):
        s = S(0)
        for k in range(x.shape[1]):
            s = num.add(U, s, num.mul(U, x.a[i, k], y.a[k, j]))
        a[i, j] = s
    return M(a)


def compare(case, ctx, q, m, what):
    if not isinstance(q, Matrix):
        raise Bad("%s is a %s, not a Matrix" % (what, type(q).__name__))
    if q.shape != m.shape or q.matrix.shape != m.shape:
        raise Bad("%s has shape %s, expected %s" % (what, q.shape, m.shape))
    for ix in np.ndindex(*m.shape):
        v = m.a[ix]
        e = q.matrix[ix]
        check_same(case, ctx, e, v, '%s, entry %s' % (what, ix))
        if np.asarray(v.a).size and np.max(np.abs(v.a)) > 1e8:
            raise Skip("entries too large")


def small(m):
    return all(np.max(np.abs(np.asarray(e.a)), initial=0) < 1e4
               for e in m.a.ravel())


def size(q):
    return sum(len(str(e)) for e in q.matrix.ravel())


def run_case(case):
    rng = case.rng
    ctx = R.random_spaces(rng, n=rng.choice([1, 2]), fock=False, maxdim=6)
    g = R.Gen(rng, ctx, unitary=False)
    U = ctx.U
    prog = []
    pool = []       # (qnet matrix, model, all entries scalar, snapshot)

    def entry(kind):
        x = rng.random()
        if kind == 's':
            if x < .4:
                return g.native(1)
            if x < .55:
                return ['num', 'int', rng.choice([0, 1, -1, 2])]
            return g.scalar(1, qnet_scalar=True)
        if x < .25:
            return ['num', 'int', rng.choice([0, 0, 1, -1])]
        if x < .35:
            return g.native(1)
        if x < .45:
            return g.scalar(1, qnet_scalar=True)
        return g.op(rng.choice([0, 0, 1, 2]))

    def fresh(shape, kind):
        rows = [[entry(kind) for _ in range(shape[1])]
                for _ in range(shape[0])]
        form = rng.choice(['list', 'ndarray', 'matrix', 'list1'])
        prog.append(['new', form, rows])
        case.info['recipe'] = prog
        case.phase = 'val'
        m = M(arr([[ref(ctx, e) for e in r] for r in rows]))
        case.phase = 'build'
        es = [[R.build(ctx, e) for e in r] for r in rows]
        case.phase = 'run'
        if form == 'list1' and shape[1] == 1:
            q = Matrix([r[0] for r in es])
        elif form in ('list', 'list1'):
            q = Matrix(es)
        else:
            a = arr(es)
            if form == 'matrix':
                q0 = Matrix(a)
                q = Matrix(q0)
                a[0, 0] = sympy.Symbol('poison')
                case.saw('copy')
            else:
                q = Matrix(a)
                hash(q)
                a[-1, -1] = sympy.Symbol('poison')
                case.saw('copy')
        put(q, m, 'new matrix', kind == 's')

    def ref(ctx, e):
        v = val_entry(ctx, e)
        if not np.all(np.isfinite(np.asarray(v.a))):
            raise Skip("reference value not finite")
        return v

    def put(q, m, what, scal):
        case.phase = 'den'
        compare(case, ctx, q, m, what)
        if max(m.shape) > 6:
            return
        if small(m) and size(q) < 1500:
            pool.append((q, m, scal, [id(e) for e in q.matrix.ravel()],
                         q.shape, list(q.matrix.ravel())))

    for _ in range(rng.choice([1, 2, 2])):
        fresh((rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3])),
              rng.choice(['o', 'o', 's']))
    if rng.random() < .4:
        n = rng.choice([1, 2, 2, 3])
        fresh((n, n), rng.choice(['o', 's']))
    nontriv = False
    for _ in range(rng.randint(3, 12)):
        if not pool:
            return
        q, m, sc = rng.choice(pool)[:3]
        s = m.shape
        same = [p for p in pool if p[1].shape == s]
        nxt = [p for p in pool if p[1].shape[0] == s[1]]
        op = rng.choice(OPS)
        prog.append([op])
        case.phase = 'run'
        case.info['step'] = op
        if len(m.a.ravel()) >= 4 and not sc:
            nontriv = True
        if op == 'fresh':
            sh = rng.choice([s, (s[1], rng.choice([1, 2])), (s[0], 1),
                             (s[0], s[0])])
            fresh(sh, rng.choice(['o', 's']))
            continue
        if op == 'add':
            q2, m2, sc2 = rng.choice(same)[:3]
            put(q + q2, emap(lambda a, b: num.add(U, a, b), m, m2), 'A + B',
                sc and sc2)
        elif op == 'sub':
            q2, m2, sc2 = rng.choice(same)[:3]
            put(q - q2, emap(lambda a, b: num.sub(U, a, b), m, m2), 'A - B',
                sc and sc2)
        elif op == 'neg':
            put(-q, emap(num.neg, m), '-A', sc)
        elif op == 'mul':
            if not nxt:
                continue
            q2, m2, sc2 = rng.choice(nxt)[:3]
            put(q * q2, mmul(U, m, m2), 'A * B', sc and sc2)
        elif op in ('lmul', 'rmul', 'radd', 'div'):
            kd = rng.choice('oss') if op != 'div' else 's'
            e = entry(kd) if op != 'div' else g.number(nonzero=True)
            if op == 'div' and rng.random() < .4:
                e = g.sym()
            prog[-1] = [op, e]
            case.phase = 'val'
            v = ref(ctx, e)
            case.phase = 'build'
            eq = R.build(ctx, e)
            case.phase = 'run'
            if isinstance(eq, (np.generic,)) and op in ('rmul', 'radd'):
                continue    # numpy scalars take over the operation
            sc2 = sc and v.kind == 'S'
            if op == 'lmul':
                put(q * eq, emap(lambda a: num.mul(U, a, v), m), 'A * e', sc2)
            elif op == 'rmul':
                put(eq * q, emap(lambda a: num.mul(U, v, a), m), 'e * A', sc2)
            elif op == 'radd':
                # the scalar is added to every entry (like for numpy arrays)
                left = rng.random() < .5
                put(eq + q if left else q + eq,
                    emap(lambda a: num.add(U, a, v), m), 'e + A', sc2)
            else:
                put(q / eq, emap(lambda a: num.scale(1 / v.a, a), m),
                    'A / e', sc2)
        elif op == 'T':
            f = rng.choice(['T', 'transpose'])
            r = q.T if f == 'T' else q.transpose()
            put(r, M(m.a.T.copy()), 'A.T', sc)
            if r.T != q:
                raise Bad("transposing twice changes the matrix")
        elif op == 'adjoint':
            f = rng.choice(['adjoint', 'dag', 'H'])
            r = q.H if f == 'H' else getattr(q, f)()
            put(r, emap(num.dag, M(m.a.T.copy())), 'A.' + f, sc)
        elif op in ('conjugate', 'real', 'imag'):
            def run():
                return q.conjugate() if op == 'conjugate' else \
                    getattr(q, op)
            hasop = any(isinstance(e, qnet.Operator)
                        for e in q.matrix.ravel())
            if not sc:
                if hasop:
                    try:
                        r = run()
                    except NoConjugateMatrix:
                        case.saw('no conjugate')
                        continue
                    raise Bad("%s of a matrix of operators is %s"
                              % (op, r))
                continue
            f = {'conjugate': np.conj, 'real': np.real,
                 'imag': np.imag}[op]
            put(run(), emap(lambda a: S(f(a.a)), m), 'A.' + op, sc)
        elif op == 'trace':
            if s[0] != s[1]:
                continue
            v = S(0)
            for k in range(s[0]):
                v = num.add(U, v, m.a[k, k])
            check_same(case, ctx, q.trace(), v, 'trace')
        elif op in ('hstack', 'vstack'):
            ax = 0 if op == 'hstack' else 1
            c = [p for p in pool if p[1].shape[ax] == s[ax]]
            ps = [rng.choice(c) for _ in range(rng.choice([1, 2, 2, 3]))]
            f = hstackm if ax == 0 else vstackm
            arg = [p[0] for p in ps]
            if rng.random() < .5:
                arg = tuple(arg)
            put(f(arg), M(np.concatenate([p[1].a for p in ps], axis=1 - ax)),
                op, all(p[2] for p in ps))
        elif op == 'block_matrix':
            b = [p for p in pool if p[1].shape[0] == s[0]]
            c = [p for p in pool if p[1].shape[1] == s[1]]
            b, c = rng.choice(b), rng.choice(c)
            d = [p for p in pool if p[1].shape == (c[1].shape[0],
                                                   b[1].shape[1])]
            if not d:
                continue
            d = rng.choice(d)
            put(block_matrix(q, b[0], c[0], d[0]),
                M(np.block([[m.a, b[1].a], [c[1].a, d[1].a]])), op,
                sc and b[2] and c[2] and d[2])
        elif op == 'diagm':
            n = rng.choice([1, 2, 3])
            es = [entry('o') for _ in range(n)]
            k = rng.choice([0, 0, 1, -1])
            prog[-1] = [op, es, k]
            case.phase = 'val'
            vs = [ref(ctx, e) for e in es]
            case.phase = 'build'
            qs = [R.build(ctx, e) for e in es]
            case.phase = 'run'
            a = np.empty((n + abs(k), n + abs(k)), dtype=object)
            for ix in np.ndindex(*a.shape):
                a[ix] = S(0)
            for i in range(n):
                a[i + max(0, -k), i + max(0, k)] = vs[i]
            v = np.empty(n, dtype=object)
            for i in range(n):
                v[i] = qs[i]
            put(diagm(v, k), M(a), 'diagm', False)
        elif op == 'identity':
            n = rng.choice([1, 2, 3, 4])
            put(identity_matrix(n), M(arr(
                [[S(int(i == j)) for j in range(n)] for i in range(n)])),
                op, True)
        elif op == 'zeros':
            sh = (rng.choice([1, 2, 3]), rng.choice([1, 2, 3]))
            z = zerosm(sh)
            put(z, M(arr([[S(0)] * sh[1]] * sh[0])), op, True)
            if not z.is_zero:
                raise Bad("zerosm is not zero")
        elif op == 'permutation':
            n = rng.choice([1, 2, 3, 4])
            p = list(range(n))
            rng.shuffle(p)
            prog[-1] = [op, p]
            a = arr([[S(int(p[j] == i)) for j in range(n)]
                     for i in range(n)])
            put(permutation_matrix(tuple(p)), M(a), op, True)
        elif op == 'item':
            i, j = rng.randrange(-s[0], s[0]), rng.randrange(-s[1], s[1])
            prog[-1] = [op, i, j]
            check_same(case, ctx, q[i, j], m.a[i, j], 'A[%d, %d]' % (i, j))
        elif op == 'slice':
            def sl(n):
                a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
                if a == b:
                    a, b = 0, n
                return slice(a, b, rng.choice([None, None, 1]))
            a, b = sl(s[0]), sl(s[1])
            prog[-1] = [op, str(a), str(b)]
            put(q[a, b], M(m.a[a, b].copy()), 'A[%s, %s]' % (a, b), sc)
            k = rng.randrange(s[1])
            r = q[:, k]
            if s[0] > 1:
                put(r, M(m.a[:, k:k + 1].copy()), 'A[:, %d]' % k, sc)
        elif op == 'element_wise':
            c = rng.choice([2, -1, sympy.I])
            put(q.element_wise(lambda e, f, g_=1: f * e * g_, c, g_=2),
                emap(lambda e: num.scale(2 * complex(c), e), m),
                op, sc)
        elif op == 'expand':
            r = q.expand()
            put(r, m, 'expand', sc)
        elif op == 'simplify_scalar':
            r = q.simplify_scalar(func=rng.choice(
                [sympy.expand, lambda e: e]))
            put(r, m, 'simplify_scalar', sc)
        elif op == 'substitute':
            subst(case, ctx, U, q, m, put, sc, rng, prog, pool)
        elif op == 'series':
            series(case, ctx, q, m, rng)
        elif op == 'block structure':
            blocks(case, ctx, q, m, rng, put, sc)
        elif op == 'is_zero':
            iz = q.is_zero
            mz = all(np.max(np.abs(np.asarray(e.a))) < 1e-12
                     for e in m.a.ravel())
            if iz and not mz:
                raise Bad("is_zero of a matrix that is not zero")
            z = q - q
            if not z.expand().simplify_scalar().is_zero and not any(
                    isinstance(e, sympy.Basic) or isinstance(e, ScalarValue)
                    or isinstance(e, float) for e in z.matrix.ravel()):
                raise Bad("A - A is not zero", result=str(z))
        elif op == 'eq':
            q2, m2 = rng.choice(pool)[:2]
            e = q == q2
            if bool(e) != (not (q != q2)):
                raise Bad("== and != disagree")
            if e:
                if m.shape != m2.shape:
                    raise Bad("matrices of different shape are equal")
                compare(case, ctx, q2, m, 'equal matrix')
                if hash(q) != hash(q2):
                    raise Bad("equal matrices have different hash",
                              a=repr(q), b=repr(q2))
            if q != Matrix(q.matrix.copy()):
                raise Bad("matrix differs from its copy")
            if q == 3 or q == 'x':
                raise Bad("matrix equals another object")
        elif op == 'space':
            sp = q.space
            fs = set()
            for e in q.matrix.ravel():
                if hasattr(e, 'space'):
                    fs |= set(e.space.local_factors)
            if set(sp.local_factors) != fs:
                raise Bad("space %s of matrix is not %s" % (sp, fs))
        elif op == 'free_symbols':
            fs = set()
            for e in q.matrix.ravel():
                fs |= getattr(e, 'free_symbols', set())
            if q.free_symbols != fs:
                raise Bad("free_symbols are %s, expected %s"
                          % (q.free_symbols, fs))
        elif op == 'rebuild':
            r = q.__class__(*q.args)
            if r != q or hash(r) != hash(q):
                raise Bad("rebuilding from args changes the matrix")
            if q.element_wise(lambda e: e) != q:
                raise Bad("element_wise identity changes the matrix")
        case.saw(op)
    for q, m, sc, ids, sh, es in pool:
        if q.shape != sh or [id(e) for e in q.matrix.ravel()] != ids and \
                list(q.matrix.ravel()) != es:
            raise Bad("an operand was changed by a later operation",
                      before=str(es), after=str(q))
        case.saw('unchanged')
    case.key = prog
    case.nontrivial = nontriv
    case.sample = str(pool[-1][0]) if pool else None


def subst(case, ctx, U, q, m, put, sc, rng, prog, pool):
    """replace a symbol by a value in the matrix and in the environment"""
    syms = sorted((s for s in q.free_symbols
                   if type(s) is sympy.Symbol), key=str)
    if not syms:
        return
    s = rng.choice(syms)
    den = ctx.den
    v = 0.5 if s.is_positive or s.is_real else complex(0.25, 0.5)
    val = sympy.Rational(1, 2) if isinstance(v, float) else \
        sympy.Rational(1, 4) + sympy.I / 2
    r = q.substitute({s: val})
    if s in r.free_symbols:
        raise Bad("%s is still in the matrix after substitution" % s)
    if r.shape != q.shape:
        raise Bad("substitute changes the shape to %s" % (r.shape,))
    for ix in np.ndindex(*q.shape):
        e = q.matrix[ix]
        want = e.substitute({s: val}) if hasattr(e, 'substitute') else (
            e.subs({s: val}) if isinstance(e, sympy.Basic) else e)
        dv = ctx.den(want)
        check_same(case, ctx, r.matrix[ix], dv, 'substituted entry')
    r2 = substitute(q, {q: r})
    if r2 != r:
        raise Bad("substituting the matrix as a whole gives %s" % r2)


def series(case, ctx, q, m, rng):
    x = sympy.Symbol('zz', real=True)
    c = q * (1 + 2 * x) + q * x ** 2
    out = c.series_expand(x, 0, 3)
    if len(out) != 4:
        raise Bad("series_expand of order 3 has %d terms" % len(out))
    for k, f in enumerate([1, 2, 1, 0]):
        if not isinstance(out[k], Matrix) or out[k].shape != m.shape:
            raise Bad("series term has wrong type or shape")
        compare(case, ctx, out[k], emap(lambda e: num.scale(f, e), m),
                'series term %d' % k)


def blocks(case, ctx, q, m, rng, put, sc):
    """direct sum of square matrices and its decomposition"""
    n = q.shape[0]
    if q.shape[0] != q.shape[1]:
        return
    parts = [q]
    for _ in range(rng.choice([0, 1, 2])):
        k = rng.choice([1, 2])
        parts.append(identity_matrix(k) if rng.random() < .4 else
                     Matrix(np.ones((k, k), dtype=int) * rng.choice([1, 2])))
    rng.shuffle(parts)
    tot = parts[0]
    for p in parts[1:]:
        tot = block_matrix(tot, zerosm((tot.shape[0], p.shape[1]), dtype=int),
                           zerosm((p.shape[0], tot.shape[1]), dtype=int), p)
    N = tot.shape[0]
    cuts = [k for k in range(1, N)
            if all(e == 0 for e in tot.matrix[:k, k:].ravel()) and
            all(e == 0 for e in tot.matrix[k:, :k].ravel())]
    want = tuple(b - a for a, b in zip([0] + cuts, cuts + [N]))
    bs = tot.block_structure
    if bs != want:
        raise Bad("block structure %s, expected %s" % (bs, want),
                  matrix=str(tot))
    # any coarsening can be extracted
    keep = [c for c in cuts if rng.random() < .6]
    st = tuple(b - a for a, b in zip([0] + keep, keep + [N]))
    if N and len(st):
        try:
            bl = tot._get_blocks(st)
        except ValueError as e:
            raise Bad("blocks %s of %s rejected: %r" % (st, want, e))
        pos = 0
        for b, k in zip(bl, st):
            if b != tot[pos:pos + k, pos:pos + k]:
                raise Bad("block at %d is %s" % (pos, b))
            pos += k
        if len(bl) != len(st):
            raise Bad("%d blocks for %s" % (len(bl), st))
    col = tot[:, 0:1]
    if N > 1:
        bl = col._get_blocks(st)
        if len(bl) != len(st) or vstackm(bl) != col:
            raise Bad("blocks %s of a column do not stack up to the column"
                      % (st,), column=str(col), blocks=str(bl))


OPS = ['fresh', 'add', 'sub', 'neg', 'mul', 'mul', 'mul', 'lmul', 'rmul',
       'radd', 'div', 'T', 'adjoint', 'adjoint', 'conjugate', 'real', 'imag',
       'trace', 'hstack', 'vstack', 'block_matrix', 'diagm', 'identity',
       'zeros', 'permutation', 'slice', 'item', 'element_wise', 'expand',
       'simplify_scalar', 'substitute', 'series', 'block structure',
       'is_zero', 'eq', 'space', 'free_symbols', 'rebuild']
