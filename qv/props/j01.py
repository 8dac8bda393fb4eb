"""J01: the drawing of a circuit shows exactly its wiring"""
from ..common import *
import os
import tempfile
import sympy
import pyx
import qnet
from qnet import latex
from qnet.visualization.circuit_pyx import draw_circuit_canvas, draw_circuit
from qnet.algebra.core.exceptions import AlgebraError
from .. import slh as M
from .. import anyexpr as X

N_QUICK, N_THOROUGH = 2500, 60000
TIMEOUT = 60
RULE = ("random circuits (symbols, permutations, SLH triples, components, "
        "concatenations, series products, feedbacks, inverses) drawn by "
        "draw_circuit_canvas with random settings; every stroke, box and text "
        "on the (nested, transformed) canvases is recorded; the netlist "
        "reconstructed from the end points of the strokes is compared with "
        "the netlist of the expression: every channel of every box, in order, "
        "and every external port; boxes must not overlap, ports lie on the "
        "edges of the reported dimensions, labels are the printed circuits; "
        "draw_circuit writes the file. non-trivial: at least two boxes or a "
        "permutation; distinct by (program, settings)")
REQUIRED = ['ports', 'wires', 'boxes', 'labels', 'no overlap', 'series',
            'concatenation', 'feedback', 'permutation', 'slh', 'component',
            'inverse', 'identity', 'right to left', 'file', 'settings',
            'indicator boxes', 'nested feedback', 'not a circuit',
            'curve between']


class Text(pyx.baseclasses.canvasitem):
    """stands in for the output of LaTeX"""

    def __init__(self, x, y, s):
        self.x, self.y, self.s = x, y, s

    def bbox(self):
        return pyx.bbox.empty()

    def processPS(self, file, writer, context, registry, bbox):
        pass

    def processPDF(self, file, writer, context, registry, bbox):
        pass


def setup(seed, tier):
    def text(self, x, y, s, *args, **kw):
        return self.insert(Text(x, y, s))
    pyx.canvas.canvas.text = text


PT = 72 / 2.54          # points per unit


def record(canvas, trafo=None, out=None):
    """all strokes/texts in global coordinates (PyX units)"""
    out = [] if out is None else out
    trafo = canvas.trafo if trafo is None else trafo * canvas.trafo
    for it in canvas.items:
        if isinstance(it, pyx.canvas.canvas):
            record(it, trafo, out)
        elif isinstance(it, Text):
            x, y = trafo.apply_pt(it.x * PT, it.y * PT)
            out.append(('text', (x / PT, y / PT), it.s))
        elif isinstance(it, pyx.deco.decoratedpath):
            dashed = any(isinstance(s, pyx.style.linestyle)
                         for s in list(it.styles or []) +
                         list(it.strokestyles or []))
            np_ = it.path.normpath()
            for sp in np_.normsubpaths:
                pts = [sp.at_pt([0])[0]] + [
                    sp.at_pt([k + 1])[0]
                    for k in range(len(sp.normsubpathitems))]
                pts = [trafo.apply_pt(*p) for p in pts]
                pts = [(x / PT, y / PT) for x, y in pts]
                closed = sp.closed
                arrow = len(it.ornaments.items) > 0
                out.append(('box' if closed else 'line', pts,
                            dict(dashed=dashed, arrow=arrow)))
    return out


# -- the netlist of an expression ----------------------------------------------

class Net:
    def __init__(self):
        self.leaves = []        # (expression, cdim)
        self.parent = {}
        self.nwires = 0

    def node(self, key):
        self.parent.setdefault(key, key)
        return key

    def find(self, a):
        while self.parent[a] != a:
            a = self.parent[a]
        return a

    def join(self, a, b):
        self.parent[self.find(a)] = self.find(b)

    def wire(self):
        self.nwires += 1
        return self.node(('w', self.nwires))


def names(e):
    return [c.__name__ for c in type(e).__mro__]


def netlist(net, e, case=None):
    """(input nodes, output nodes)"""
    nm = names(e)
    saw = case.saw if case is not None else (lambda x: None)
    if e is qnet.CIdentity:
        saw('identity')
        w = net.wire()
        return [w], [w]
    if 'CPermutation' in nm:
        saw('permutation')
        ws = [net.wire() for _ in range(e.cdim)]
        outs = [None] * e.cdim
        for k, j in enumerate(e.permutation):
            outs[j] = ws[k]
        return ws, outs
    if 'SeriesProduct' in nm:
        saw('series')
        parts = [netlist(net, o, case) for o in reversed(e.operands)]
        for (_, outs), (ins, _) in zip(parts, parts[1:]):
            assert len(outs) == len(ins)
            for a, b in zip(outs, ins):
                net.join(a, b)
        return parts[0][0], parts[-1][1]
    if 'Concatenation' in nm:
        saw('concatenation')
        ins, outs = [], []
        for o in e.operands:
            a, b = netlist(net, o, case)
            ins += a
            outs += b
        return ins, outs
    if 'Feedback' in nm:
        saw('feedback')
        if 'Feedback' in repr([names(o) for o in e.operands]):
            saw('nested feedback')
        ins, outs = netlist(net, e.operand, case)
        o, i = e.out_in_pair
        net.join(outs[o], ins[i])
        return ins[:i] + ins[i + 1:], outs[:o] + outs[o + 1:]
    saw('slh' if 'SLH' in nm else 'component' if 'Component' in nm else
        'inverse' if 'SeriesInverse' in nm else 'symbol')
    k = len(net.leaves)
    net.leaves.append(e)
    return ([net.node(('b', k, 'in', j)) for j in range(e.cdim)],
            [net.node(('b', k, 'out', j)) for j in range(e.cdim)])


def label_of(e):
    if 'SLH' in names(e):
        return ('SLH', latex(e.space))
    return ('', latex(e))


# -- the netlist of a drawing ------------------------------------------------------

def trace(rec, ins, outs, hunit, vunit, width, eps=1e-6):
    """(boxes [(label, [in...], [out...])], class of every port)"""
    boxes = [(pts, st) for k, pts, st in rec
             if k == 'box' and not st['dashed']]
    lines = [pts for k, pts, st in rec if k == 'line' and not st['dashed']]
    texts = [(p, s) for k, p, s in rec if k == 'text']
    rects = []
    for pts, st in boxes:
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        rects.append((min(xs), max(xs), min(ys), max(ys)))
    labels = [[] for _ in rects]
    for (x, y), s in texts:
        hit = [i for i, r in enumerate(rects)
               if abs((r[0] + r[1]) / 2 - x) < 1e-6 and
               abs((r[2] + r[3]) / 2 - y) < 1e-6]
        if len(hit) != 1:
            raise Bad("text %r is not at the centre of a box" % s,
                      at=(x, y), boxes=rects)
        labels[hit[0]].append(s)
    for i, lb in enumerate(labels):
        if len(lb) != 1:
            raise Bad("box with %d labels" % len(lb), labels=lb)
    # nodes: end points of strokes
    pts = []
    reps = []

    def node(p):
        for k, q in enumerate(reps):
            if abs(p[0] - q[0]) < eps and abs(p[1] - q[1]) < eps:
                return k
        reps.append(p)
        return len(reps) - 1
    parent = {}

    def find(a):
        parent.setdefault(a, a)
        while parent[a] != a:
            a = parent[a]
        return a
    for ln in lines:
        a, b = node(ln[0]), node(ln[-1])
        parent[find(a)] = find(b)
    sides = []
    sgn = 1 if hunit > 0 else -1
    for i, r in enumerate(rects):
        ends = {'in': [], 'out': []}
        for k, q in enumerate(list(reps)):
            if r[2] - eps < q[1] < r[3] + eps:
                if abs(q[0] - r[0]) < eps:
                    ends['in' if sgn > 0 else 'out'].append((q[1], k))
                if abs(q[0] - r[1]) < eps:
                    ends['out' if sgn > 0 else 'in'].append((q[1], k))
        up = vunit < 0      # first channel at the top
        sides.append((labels[i][0],
                      [k for _, k in sorted(ends['in'], reverse=up)],
                      [k for _, k in sorted(ends['out'], reverse=up)]))
    gin = [node((0., y * vunit)) for y in ins]
    gout = [node((width * hunit, y * vunit)) for y in outs]
    n0 = len(reps)
    return rects, [(lb, [find(k) for k in a], [find(k) for k in b])
                   for lb, a, b in sides], \
        [find(k) for k in gin], [find(k) for k in gout]


def canonical(boxes, gin, gout):
    """canonical description of the connections seen from the ports"""
    cls = {}
    order = []

    def c(k):
        if k not in cls:
            cls[k] = len(cls)
            queue.append(k)
        return cls[k]
    queue = []
    head = ([c(k) for k in gin], [c(k) for k in gout])
    where = {}
    for b, (lb, a, o) in enumerate(boxes):
        for j, k in enumerate(a):
            where.setdefault(k, []).append((b, 'in', j))
        for j, k in enumerate(o):
            where.setdefault(k, []).append((b, 'out', j))
    num_ = {}
    res = []
    while queue:
        k = queue.pop(0)
        # by direction and channel: a wire has one source and one target
        for b, side, j in sorted(where.get(k, []),
                                 key=lambda t: (t[1], t[2])):
            if b not in num_:
                num_[b] = len(num_)
                lb, a, o = boxes[b]
                res.append((num_[b], lb, [c(x) for x in a],
                            [c(x) for x in o]))
    rest = sorted((repr(boxes[b][0]), len(boxes[b][1]))
                  for b in range(len(boxes)) if b not in num_)
    return head, res, rest


# -- cases -------------------------------------------------------------------

def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ctx = R.random_spaces(rng, n=1, fock=False, maxdim=3)
    ctx.fit(1, False)
    g = X.XGen(rng, ctx, symargs=0, unitary=False)
    cg = X.XCGen(rng, g, slh=rng.random() < .3, components=rng.random() < .5,
                 maxn=5)
    r = cg.circ(rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([1, 2, 2, 3, 3, 4]))
    kw = {}
    hunit, vunit, rh, rp = 4., -1., .1, .4
    if rng.random() < .6:
        case.saw('settings')
        if rng.random() < .6:
            hunit = kw['hunit'] = rng.choice([4, 2.5, -4, -3, 10])
        if rng.random() < .5:
            vunit = kw['vunit'] = rng.choice([-1., -2., -0.5, 1.])
        if rng.random() < .4:
            rh = kw['rhmargin'] = rng.choice([.05, .2, .3])
        if rng.random() < .4:
            kw['rvmargin'] = rng.choice([.05, .1, .3])
        if rng.random() < .4:
            rp = kw['rpermutation_length'] = rng.choice([.3, .7, 1.])
        if rng.random() < .5:
            kw['draw_boxes'] = rng.random() < .5
        if rng.random() < .5:
            kw['permutation_arrows'] = rng.random() < .5
    if hunit < 0:
        case.saw('right to left')
    case.info.update(recipe=r, kw=kw)
    case.key = repr((r, kw))
    case.phase = 'build'
    try:
        circ = M.build(ctx, r)
    except AlgebraError as e:
        if 'Inversion not implemented' in str(e):
            raise Skip("feedback through an operator")
        raise
    except M.IllPosed:
        raise Skip("ill-posed")
    if circ.cdim == 0:
        raise Skip("no channels")
    case.phase = 'qnet'
    canvas, dims, c_in, c_out = draw_circuit_canvas(circ, **kw)
    case.phase = 'monitor'
    net = Net()
    ins, outs = netlist(net, circ, case)
    n = circ.cdim
    width, height = dims
    if len(c_in) != n or len(c_out) != n:
        raise Bad("number of ports", got=(len(c_in), len(c_out)), want=n)
    for ys in (c_in, c_out):
        if any(not 0 < y < height for y in ys) or \
                any(not a < b for a, b in zip(ys, ys[1:])):
            raise Bad("ports outside the drawing or out of order",
                      ports=ys, dims=dims)
    case.saw('ports')
    rec = record(canvas)
    rects, boxes, gin, gout = trace(rec, c_in, c_out, hunit, vunit, width)
    if len(boxes) != len(net.leaves):
        raise Bad("number of boxes", got=len(boxes), want=len(net.leaves))
    # geometry
    X0, X1 = sorted((0, width * hunit))
    Y0, Y1 = sorted((0, height * vunit))
    for q in rects:
        if q[0] < X0 - 1e-6 or q[1] > X1 + 1e-6 or q[2] < Y0 - 1e-6 or \
                q[3] > Y1 + 1e-6:
            raise Bad("box outside the drawing", box=q, dims=dims)
    for a in range(len(rects)):
        for b in range(a):
            p, q = rects[a], rects[b]
            if min(p[1], q[1]) - max(p[0], q[0]) > 1e-6 and \
                    min(p[3], q[3]) - max(p[2], q[2]) > 1e-6:
                raise Bad("overlapping boxes", a=p, b=q)
    if len(rects) > 1:
        case.saw('no overlap')
    if kw.get('draw_boxes', True) is False:
        if any(st['dashed'] for k, _, st in rec if k == 'box'):
            raise Bad("indicator box drawn with draw_boxes=False")
    elif any(s in names(circ) for s in ('SeriesProduct', 'Concatenation',
                                        'CPermutation')):
        if not any(st['dashed'] for k, _, st in rec if k == 'box'):
            raise Bad("no indicator box")
        case.saw('indicator boxes')
    if any(k == 'line' and abs(p[0][1] - p[-1][1]) > 1e-6 and len(p) == 2
           for k, p, st in rec):
        case.saw('curve between')
    # labels
    want_labels = sorted(label_of(e)[1] for e in net.leaves)
    got = []
    left = list(boxes)
    named = []
    for e in net.leaves:
        kind, lb = label_of(e)
        txt = '$%s$' % lb if not kind else r'${\rm SLH}_{%s}$' % lb
        named.append(txt)
    if sorted(named) != sorted(b[0] for b in boxes):
        raise Bad("labels of the boxes", got=sorted(b[0] for b in boxes),
                  want=sorted(named))
    if boxes:
        case.saw('labels')
    # wiring
    wboxes = [(t, [net.find(('b', k, 'in', j)) for j in range(e.cdim)],
               [net.find(('b', k, 'out', j)) for j in range(e.cdim)])
              for k, (t, e) in enumerate(zip(named, net.leaves))]
    for (lb, a, o) in boxes:
        if len(a) != len(o):
            raise Bad("box with %d inputs and %d outputs" % (len(a), len(o)),
                      label=lb)
    want = canonical(wboxes, [net.find(x) for x in ins],
                     [net.find(x) for x in outs])
    got = canonical(boxes, gin, gout)
    if got != want:
        raise Bad("the drawing shows another wiring", got=str(got)[:700],
                  want=str(want)[:700], circuit=str(circ))
    case.saw('wires')
    case.saw('boxes', len(boxes))
    if case.idx % 20 == 0:
        to_file(case, rng, circ)
    case.nontrivial = len(boxes) > 1 or 'permut' in repr(r) or 'perm' in repr(r)
    case.sample = "%s %s" % (str(circ)[:120], kw)


def to_file(case, rng, circ):
    case.phase = 'qnet'
    d = tempfile.mkdtemp(prefix='qvj01')
    try:
        f = os.path.join(d, 'out' + rng.choice(['.eps', '.pdf', '.ps']))
        r = draw_circuit(circ, f, rng.choice(['lr', 'rl']))
        if r is not True or not os.path.getsize(f):
            raise Bad("draw_circuit writes no file", result=repr(r))
        case.saw('file')
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            r = draw_circuit(rng.choice([3, qnet.OperatorSymbol('A', hs=1),
                                         None]), f)
        if r is not False:
            raise Bad("draw_circuit draws what is no circuit")
        case.saw('not a circuit')
    finally:
        import shutil
        shutil.rmtree(d)
