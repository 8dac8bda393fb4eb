"""F04: tree and graph renderings show the structure of the expression"""
import contextlib
import io
import re
import shutil
import subprocess
from ..common import *
import numpy as np
import sympy
import qnet
from qnet import Matrix
from qnet.algebra.core.abstract_algebra import Expression, Operation
from qnet.printing import tree, print_tree, dotprint, srepr, ascii as asc
from qnet.printing import unicode as uni
from qnet.printing.dot import expr_labelfunc
from .. import anyexpr as X
from . import b02

N_QUICK, N_THOROUGH = 7000, 150000
TIMEOUT = 60
RULE = ("random expressions of every algebra rendered by tree, print_tree and "
        "dotprint with random options; the text is parsed back (indentation "
        "and connectors of every line, DOT language) into a labelled tree "
        "that is compared with the tree of operands or arguments of the "
        "expression, cut at the given depth and excluded types; samples are "
        "also read by Graphviz; non-trivial: depth at least 2 and 4 nodes; "
        "distinct by (program, options)")
REQUIRED = ['tree', 'dot', 'print_tree', 'attr args', 'attr operands',
            'depth limit', 'exclude type', 'srepr leaves', 'ascii', 'padding',
            'not repeated', 'styles', 'shared subexpression', 'maxdepth',
            'custom children', 'custom labels', 'graph style', 'deep',
            'kind:circuit', 'kind:space', 'kind:op', 'kind:sumop',
            'kind:deriv', 'kind:matrix']
DOT = shutil.which('dot')


class Node:
    def __init__(self, expr, children):
        self.expr, self.children = expr, children

    def size(self):
        return 1 + sum(c.size() for c in self.children)

    def depth(self):
        return 1 + max([c.depth() for c in self.children] or [-1])


def reference(expr, children_of, depth=None, level=0):
    ch = [] if depth is not None and level >= depth else children_of(expr)
    return Node(expr, [reference(c, children_of, depth, level + 1)
                       for c in ch])


def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    ae = X.any_expr(rng, depth=rng.choice([0, 1, 2, 2, 3, 3]))
    case.info = ae.info()
    case.phase = 'run'
    e = ae.build()
    if not isinstance(e, Expression):
        raise Skip("not an expression")
    case.saw('kind:' + ae.kind)
    mode = rng.choice(['tree', 'tree', 'dot'])
    del _IDS[:]
    case.info['how'] = mode
    before = b02.dump(e)
    (do_tree if mode == 'tree' else do_dot)(case, e)
    if b02.dump(e) != before:
        raise Bad("rendering changes the expression")
    case.key = (ae.recipe, str(case.info.get('options')))


# -- tree --------------------------------------------------------------------

def shorten(s):
    return '...' if len(s) > 15 or '\n' in s else s


def head(x, r):
    """class name and shortened arguments"""
    if b02.is_singleton(x):
        return repr(x)
    if isinstance(x, Expression):
        parts = [shorten(r(a)) for a in x.args]
        for k in x.minimal_kwargs:
            parts.append('%s=%s' % (k, shorten(r(x.kwargs[k]))))
        return '%s(%s)' % (type(x).__name__, ', '.join(parts))
    if isinstance(x, (tuple, list)):
        return None
    return sympy.srepr(x)


def parse_tree(lines, unicode, pad):
    """list of (level, last, open levels, label)"""
    out = []
    if not lines[0].startswith(pad + '. '):
        raise Bad("root line %r" % lines[0])
    out.append((0, True, (), lines[0][len(pad) + 2:]))
    br = ('├─ ', '└─ ') if unicode else ('+- ',)
    bar = '│' if unicode else '|'
    for line in lines[1:]:
        if not line.startswith(pad + '  '):
            raise Bad("indentation of line %r" % line)
        s = line[len(pad) + 2:]
        bars = []
        n = 0
        while not s.startswith(br):
            if s[:3] not in (bar + '  ', '   '):
                raise Bad("cannot read line %r" % line)
            bars.append(s[0] == bar)
            s = s[3:]
            n += 1
        last = s.startswith(br[1]) if unicode else None
        out.append((n + 1, last, tuple(bars), s[3:]))
    return out


def flat(node, level=0, last=True, bars=()):
    out = [(level, last, bars, node)]
    n = len(node.children)
    for i, c in enumerate(node.children):
        out += flat(c, level + 1, i == n - 1,
                    bars + (not last,) if level else ())
    return out


def do_tree(case, e):
    rng = case.rng
    opt = {}
    attr = 'operands'
    if rng.random() < .4:
        attr = opt['attr'] = 'args'
    case.saw('attr ' + attr)
    unicode = True
    if rng.random() < .4:
        unicode = opt['unicode'] = False
        case.saw('ascii')
    if rng.random() < .3:
        opt['depth'] = rng.choice([0, 1, 1, 2, 2, 3])
        case.saw('depth limit')
    subs = X.subexprs(e)
    excl = None
    if rng.random() < .25:
        t = rng.choice([type(rng.choice(subs or [e])), Operation, qnet.Scalar,
                        qnet.Operator])
        excl = opt['exclude_type'] = t if rng.random() < .6 else (
            rng.choice([list, tuple])((t, qnet.HilbertSpace)))
        if isinstance(excl, list):
            excl = tuple(excl)
        case.saw('exclude type')
    if rng.random() < .3:
        opt['srepr_leaves'] = True
        case.saw('srepr leaves')
    pad = ''
    if rng.random() < .15:
        pad = opt['padding'] = ' ' * rng.choice([2, 4])
        case.saw('padding')
    case.info['options'] = str(opt)

    def children(x):
        if excl is not None and isinstance(x, excl):
            return []
        return list(getattr(x, attr, []))
    t = reference(e, children, opt.get('depth'))
    if any(not ('operands' == attr or isinstance(c, Expression) or
                isinstance(c, (int, str, sympy.Basic, float, complex)))
           for c in sum([[c.expr for c in n.children] for _, _, _, n in
                         flat(t)], [])):
        raise Skip("argument without a head representation")
    try:
        text = tree(e, **opt)
    except (AttributeError, TypeError) as exc:
        raise Bad("tree: %r" % exc, expr=str(e)[:400], options=str(opt))
    case.saw('tree')
    case.sample = text[:400]
    if t.depth() >= 2 and t.size() >= 4:
        case.nontrivial = True
    if t.depth() >= 3:
        case.saw('deep')
    if rng.random() < .3:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            res = print_tree(e, **opt)
        if res is not None or buf.getvalue() != text + '\n':
            raise Bad("print_tree prints something else than tree() returns",
                      got=buf.getvalue()[:400], want=text[:400])
        case.saw('print_tree')
    got = parse_tree(text.split('\n'), unicode, pad)
    want = flat(t)
    if len(got) != len(want):
        raise Bad("the tree has %d lines, expected %d nodes" % (
            len(got), len(want)), text=text, options=str(opt))
    r = uni if unicode else asc
    for (lv, last, bars, label), (lv2, last2, bars2, node) in zip(got, want):
        if lv != lv2 or (last is not None and last != last2) or \
                bars != bars2:
            raise Bad("wrong position of the line %r: level %d %s %s, "
                      "expected %d %s %s" % (label, lv, last, bars, lv2,
                                             last2, bars2), text=text,
                      options=str(opt))
        x = node.expr
        leaf = not hasattr(x, attr)
        if opt.get('srepr_leaves') and leaf and lv > 0:
            w = srepr(x)
        else:
            w = head(x, r)
        if w is not None and label != w:
            raise Bad("label %r, expected %r" % (label, w), text=text,
                      options=str(opt))


# -- DOT ---------------------------------------------------------------------

TOK = re.compile(r'"((?:[^"\\]|\\.)*)"|(->|[\[\]{};=,])|([A-Za-z_]\w*)', re.S)


def lex(text):
    text = re.sub(r'(?m)^#.*$', '', text)
    out, i = [], 0
    while i < len(text):
        if text[i].isspace():
            i += 1
            continue
        m = TOK.match(text, i)
        if not m:
            raise Bad("not in the DOT language at %r" % text[i:i + 40])
        if m.group(1) is not None:
            out.append(('id', m.group(1).replace('\\"', '"')))
        elif m.group(2):
            out.append(('p', m.group(2)))
        else:
            out.append(('id', m.group(3)))
        i = m.end()
    return out


def parse_dot(text):
    t = lex(text)
    pos = [0]

    def nxt(kind=None, val=None):
        if pos[0] >= len(t):
            raise Bad("truncated graph", text=text[:400])
        k, v = t[pos[0]]
        if (kind and k != kind) or (val and v != val):
            raise Bad("DOT: found %r, expected %r" % (v, val or kind),
                      text=text[:1000])
        pos[0] += 1
        return v

    def peek(v):
        return pos[0] < len(t) and t[pos[0]] == ('p', v)
    nxt('id', 'digraph')
    if not peek('{'):
        nxt('id')
    nxt('p', '{')
    style, nodes, edges = {}, [], []
    while not peek('}'):
        if peek(';'):
            nxt()
            continue
        a = nxt('id')
        if peek('='):
            nxt()
            style[a] = nxt('id')
        elif peek('->'):
            nxt()
            edges.append((a, nxt('id')))
        elif peek('['):
            nxt()
            attrs = {}
            while not peek(']'):
                if peek(',') or peek(';'):
                    nxt()
                    continue
                k = nxt('id')
                nxt('p', '=')
                attrs[k] = nxt('id')
            nxt('p', ']')
            nodes.append((a, attrs))
        else:
            nodes.append((a, {}))
    nxt('p', '}')
    return style, nodes, edges


def default_label(x, leaf, r=str):
    if leaf:
        return r(x)
    if len(x.kwargs) == 0:
        return type(x).__name__
    return '%s(..., %s)' % (type(x).__name__, ', '.join(
        '%s=%s' % kv for kv in x.kwargs.items()))


def do_dot(case, e):
    rng = case.rng
    opt = {}
    children = (lambda x: list(x.operands) if isinstance(x, Operation)
                else [])
    if rng.random() < .3:
        def children(x):
            return list(x.args) if isinstance(x, Expression) else []
        opt['get_children'] = children
        case.saw('custom children')
    label = default_label
    if rng.random() < .3:
        if rng.random() < .5:
            opt['labelfunc'] = expr_labelfunc(asc, str)

            def label(x, leaf):
                return default_label(x, leaf, asc)
        else:
            def label(x, leaf):
                return '%s %d' % (type(x).__name__, leaf)
            opt['labelfunc'] = label
        case.saw('custom labels')
    depth = None
    if rng.random() < .3:
        depth = opt['maxdepth'] = rng.choice([0, 1, 1, 2, 3])
        case.saw('maxdepth')
    repeat = True
    if rng.random() < .4:
        repeat = opt['repeat'] = False
        # (a ScalarValue has the hash of its argument)
        if 'get_children' in opt or rng.random() < .4:
            opt['idfunc'] = srepr_id
        case.saw('not repeated')
    styles = []
    if rng.random() < .3:
        styles = [(lambda x: isinstance(x, Operation),
                   {'color': 'red', 'shape': 'box'}),
                  (lambda x: isinstance(x, qnet.Operator),
                   {'color': 'blue', 'fontsize': 12})]
        opt['styles'] = styles
        case.saw('styles')
    graph = {}
    if rng.random() < .2:
        graph = {'rankdir': rng.choice(['LR', 'BT']), 'bgcolor': 'white'}
        opt.update(graph)
        case.saw('graph style')
    case.info['options'] = str(sorted((k, str(v) if k not in (
        'labelfunc', 'get_children', 'idfunc', 'styles') else k)
        for k, v in opt.items()))
    t = reference(e, children, depth)
    text = dotprint(e, **opt)
    case.saw('dot')
    if t.depth() >= 2 and t.size() >= 4:
        case.nontrivial = True
    style, nodes, edges = parse_dot(text)
    for k, v in dict({'rankdir': 'TD', 'ordering': 'out'}, **graph).items():
        if style.get(k) != v:
            raise Bad("graph attribute %s=%s, expected %s" % (
                k, style.get(k), v))

    def attrs(x, leaf):
        d = {}
        for f, s in styles:
            if f(x):
                d.update({k: str(v) for k, v in s.items()})
        d['label'] = label(x, leaf)
        return d
    if len(text) < 20000 and DOT and rng.random() < .03:
        graphviz(case, text, nodes, edges)
    if repeat:
        ids = [i for i, _ in nodes]
        if len(set(ids)) != len(ids):
            raise Bad("a node is defined twice", text=text[:1500])
        table = dict(nodes)
        ch = {i: [] for i in ids}
        indeg = {i: 0 for i in ids}
        for a, b in edges:
            if a not in ch or b not in ch:
                raise Bad("edge between undefined nodes", text=text[:1500])
            ch[a].append(b)
            indeg[b] += 1
        roots = [i for i in ids if indeg[i] == 0]
        if len(roots) != 1 or any(n > 1 for n in indeg.values()):
            raise Bad("not a tree", text=text[:1500])

        def cmp(i, node):
            x = node.expr
            leaf = not node.children
            want = attrs(x, leaf)
            if table[i] != want:
                raise Bad("node attributes %s, expected %s" % (
                    table[i], want), text=text[:1500])
            if len(ch[i]) != len(node.children):
                raise Bad("node %s has %d children, expected %d" % (
                    table[i]['label'], len(ch[i]), len(node.children)),
                    text=text[:1500])
            for a, b in zip(ch[i], node.children):
                cmp(a, b)
        cmp(roots[0], t)
        if len(ids) != t.size():
            raise Bad("%d nodes, expected %d" % (len(ids), t.size()))
        return
    # each distinct subexpression once
    if depth is not None:
        # the same expression may be an inner node and a leaf
        seen = {}
        for _, _, _, n in flat(t):
            seen.setdefault(srepr_id(n.expr), set()).add(bool(n.children))
        if any(len(s) > 1 for s in seen.values()):
            raise Skip("inner node and leaf")
    want_nodes, want_edges = {}, set()
    count = {}

    def walk(node):
        k = srepr_id(node.expr)
        count[k] = count.get(k, 0) + 1
        want_nodes[k] = attrs(node.expr, not node.children)
        for c in node.children:
            want_edges.add((k, srepr_id(c.expr)))
            walk(c)
    walk(t)
    if 'idfunc' not in opt and len(set(hash(y) for y in _IDS)) < len(_IDS):
        if any(x == y or y == x
               for i, x in enumerate(_IDS) for y in _IDS[:i]):
            # a multiple of the identity is equal to the scalar
            raise Skip("equal expressions of different types")
    if max(count.values()) > 1:
        case.saw('shared subexpression')
    got_nodes = {}
    for i, a in nodes:
        if got_nodes.setdefault(i, a) != a:
            raise Bad("two different nodes have the same id", text=text[:1500],
                      nodes=[got_nodes[i], a])
    if len(got_nodes) != len(want_nodes):
        raise Bad("%d different nodes, expected %d" % (
            len(got_nodes), len(want_nodes)), text=text[:1500])

    def key(d):
        return tuple(sorted(d.items()))
    a = sorted(key(d) for d in got_nodes.values())
    b = sorted(key(d) for d in want_nodes.values())
    if a != b:
        raise Bad("nodes differ", got=a[:10], want=b[:10])
    for i, j in edges:
        if i not in got_nodes or j not in got_nodes:
            raise Bad("edge between undefined nodes", text=text[:1500])
    a = sorted((key(got_nodes[i]), key(got_nodes[j])) for i, j in set(edges))
    b = sorted((key(want_nodes[i]), key(want_nodes[j]))
               for i, j in want_edges)
    if a != b:
        raise Bad("edges differ", got=a[:10], want=b[:10])


_IDS = []


def srepr_id(x):
    """equal expressions have the same id"""
    for i, y in enumerate(_IDS):
        if y is x or (type(x) is type(y) and not isinstance(
                x, np.ndarray) and x == y):
            return 'id%d' % i
    _IDS.append(x)
    return 'id%d' % (len(_IDS) - 1)


def graphviz(case, text, nodes, edges):
    p = subprocess.run([DOT, '-Tplain'], input=text.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=30)
    err = p.stderr.decode(errors='replace')
    if p.returncode:
        raise Bad("Graphviz rejects the graph: %s" % err[:200],
                  text=text[:1500])
    out = p.stdout.decode(errors='replace')
    n = len(re.findall(r'(?m)^node ', out))
    m = len(re.findall(r'(?m)^edge ', out))
    if n != len(set(i for i, _ in nodes)) or m != len(edges):
        raise Bad("Graphviz reads %d nodes and %d edges" % (n, m),
                  text=text[:1500])
    case.saw('read by Graphviz')
