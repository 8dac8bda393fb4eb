"""Reader of the ASCII notation: text -> numeric tensor.

An own recursive-descent parser with the conventional precedences

    sum      :=  ['-'] product (('+' | '-') product)*  [('+' | '-') 'c.c.']
    product  :=  'Sum_{..}^{..}' product | 'D_x ' power
                 | power (('*' | '/' | juxtaposition) power)*
    power    :=  atom ['**' power | '^H' | '^+' | '[' sum ']']*

It knows the names of spaces and symbols, but nothing of the QNET expression.
"""
import cmath
import re

import numpy as np
import sympy

from . import num
from .num import T, S
from .den import spin_label
from .symeval import index_name, indexed_value, symbol_value

IDX = 'ijkln'


class ReadError(Exception):
    """the text is not in the language, or has no meaning"""


class Foreign(Exception):
    """notation outside of the fragment (e.g. Piecewise)"""


FUNCS = {
    'exp': cmath.exp, 'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan,
    'sinh': cmath.sinh, 'cosh': cmath.cosh, 'tanh': cmath.tanh,
    'log': cmath.log, 'sqrt': cmath.sqrt,
    'conjugate': lambda z: complex(z).conjugate(),
    'Abs': abs, 're': lambda z: complex(z).real,
    'im': lambda z: complex(z).imag,
}
CONSTS = {'I': 1j, 'pi': cmath.pi, 'E': cmath.e}
_NUM = re.compile(r"\d+(\.\d*)?(e[+-]?\d+)?j?")
_DER = re.compile(r"D_(\w|\([^()]*\)(\^\d+)? )")
_ID = re.compile(r"[A-Za-z][A-Za-z0-9]*(_(\{[^{}]*\}|[A-Za-z0-9']+))*'*")
_IDXSUB = r"(?:\{[^{}]*\}|(?:[%s]'*|\d)+(?:,(?:[%s]'*|\d)+)*)" % (IDX, IDX)


class Reader:
    """
    Args:
        ctx: spaces, and the values of the symbols
        names: mapping name -> symbol for scalars
        opnames, indexed_ops: names of (indexed) operator symbols
        single: key of the only space (for text without labels of spaces)
    """

    def __init__(self, ctx, names, opnames=('A', 'B', 'C', 'F'),
                 sopnames=('L', 'M'), indexed=('c', 'd'), single=None):
        self.ctx, self.U, self.den = ctx, ctx.U, ctx.den
        self.names = names
        self.opnames, self.sopnames = opnames, sopnames
        self.indexed = indexed
        self.single = single
        self.seen = set()

    def read(self, text):
        self.s, self.p = text, 0
        node = self.sum()
        self.ws()
        if self.p != len(self.s):
            raise ReadError("cannot read %r" % self.s[self.p:self.p + 40])
        return self.ev(node)

    # -- characters ----------------------------------------------------------

    def ws(self):
        p = self.p
        while self.p < len(self.s) and self.s[self.p] == ' ':
            self.p += 1
        return self.p > p

    def at(self, t):
        return self.s.startswith(t, self.p)

    def peek(self):
        return self.s[self.p] if self.p < len(self.s) else ''

    def eat(self, t):
        if not self.at(t):
            raise ReadError("%r expected at %r" % (
                t, self.s[self.p:self.p + 40]))
        self.p += len(t)

    def until(self, end):
        e = self.s.find(end, self.p)
        if e < 0:
            raise ReadError("%r missing after %r" % (
                end, self.s[self.p:self.p + 40]))
        r = self.s[self.p:e]
        self.p = e + len(end)
        return r

    def sub(self, text):
        """node for a piece of text (in a label)"""
        saved = self.s, self.p
        self.s, self.p = text, 0
        try:
            node = self.sum()
            self.ws()
            if self.p != len(text):
                raise ReadError("cannot read %r" % text)
            return node
        finally:
            self.s, self.p = saved

    # -- grammar -------------------------------------------------------------

    def sum(self):
        self.ws()
        terms = []
        neg = closed = False
        if self.peek() == '-':
            self.eat('-')
            self.ws()
            neg = True
        t = self.product()
        terms.append(('neg', t) if neg else t)
        while True:
            mark = self.p
            self.ws()
            c = self.peek()
            if c and c in '+-':
                self.p += 1
                self.ws()
                if self.at('c.c.'):
                    self.eat('c.c.')
                    self.seen.add('c.c.')
                    terms = [('cc', ('sum', terms), 1 if c == '+' else -1)]
                    closed = True
                    continue
                if closed:
                    raise ReadError("term after c.c.")
                if self.peek() == '-':
                    raise ReadError("two signs in a row")
                t = self.product()
                terms.append(('neg', t) if c == '-' else t)
            else:
                self.p = mark
                break
        if len(terms) > 1:
            self.seen.add('sum')
            return ('sum', terms)
        return terms[0]

    def product(self):
        if self.at('Sum_{') or self.at('Sum '):
            return self.indexed_sum()
        if _DER.match(self.s, self.p):
            return self.derivative()
        facs = [self.power()]
        while True:
            mark = self.p
            sp = self.ws()
            c = self.peek()
            if c == '*':
                self.eat('*')
                self.ws()
                facs.append(self.power())
            elif c == '/':
                self.eat('/')
                self.ws()
                facs.append(('inv', self.power()))
            elif self.at('|_'):
                self.p = mark
                break
            elif c and (c in '|<√' or c == '(' or (
                    sp and (c.isalnum() or c == '['))):
                # juxtaposition
                if self.at('in ') or self.at('in{'):
                    self.p = mark
                    break
                facs.append(self.power())
                self.seen.add('juxtaposition')
            else:
                self.p = mark
                break
        if len(facs) == 1:
            return facs[0]
        self.seen.add('product')
        return ('prod', facs)

    def indexed_sum(self):
        self.eat('Sum')
        self.eat('_{')
        bottom = self.braces()
        top = None
        if self.at('^{'):
            self.eat('^{')
            top = self.braces()
        m = re.match(r"((?:[%s]'*)(?:,[%s]'*)*)(.*)$" % (IDX, IDX), bottom)
        if not m:
            raise ReadError("bad range %r" % bottom)
        idx = m.group(1).split(',')
        rhs = m.group(2)
        if rhs.startswith(' in H_'):
            vals = list(range(self.ctx.dim(self.key(rhs[6:]))))
        elif rhs.startswith(' in {') and rhs.endswith('}'):
            vals = [int(v) for v in rhs[5:-1].split(',')] \
                if rhs[5:-1] else []
        elif rhs.startswith('='):
            parts = [q.strip() for q in rhs[1:].split(',')]
            a, b = int(parts[0]), int(top)
            if len(parts) == 3 and parts[2] == '...':
                st = int(parts[1]) - a
            elif len(parts) == 1:
                st = 1 if b >= a else -1
            else:
                raise ReadError("bad range %r" % bottom)
            vals = list(range(a, b + (1 if st > 0 else -1), st))
        else:
            raise ReadError("bad range %r" % bottom)
        self.ws()
        if re.compile(r"-[\d.]").match(self.s, self.p):
            self.eat('-')
            body = ('neg', self.product())
        else:
            body = self.product()
        self.seen.add('indexed sum')
        return ('isum', idx, vals, body)

    def braces(self):
        depth, i = 1, self.p
        while depth:
            if i >= len(self.s):
                raise ReadError("unbalanced braces")
            depth += {'{': 1, '}': -1}.get(self.s[i], 0)
            i += 1
        r = self.s[self.p:i - 1]
        self.p = i
        return r

    def derivative(self):
        ders = []
        while _DER.match(self.s, self.p):
            self.eat('D_')
            if self.at('('):
                self.eat('(')
                name = self.until(')')
            else:
                m = _ID.match(self.s, self.p)
                name = m.group(0)
                self.p = m.end()
            n = 1
            if self.at('^'):
                self.eat('^')
                m = _NUM.match(self.s, self.p)
                n = int(m.group(0))
                self.p = m.end()
            self.eat(' ')
            ders.append((self.symbol(name), n))
        body = self.power()
        vals = []
        m = re.compile(r" \|_([^ (]+)").match(self.s, self.p)
        if m:
            # a single value without spaces
            t = m.group(1)
            depth = 0
            for j, ch in enumerate(t):
                depth += (ch in '([{') - (ch in ')]}')
                if depth < 0 or (depth == 0 and ch in ','):
                    t = t[:j]
                    break
            self.p += 3 + len(t)
            t, v = t.split('=')
            vals.append((self.symbol(t), self.sub(v)))
        elif self.at(' |_('):
            self.eat(' |_(')
            while True:
                m = _ID.match(self.s, self.p)
                self.p = m.end()
                self.eat('=')
                vals.append((self.symbol(m.group(0)), self.sum()))
                self.ws()
                if self.at(','):
                    self.eat(',')
                    self.ws()
                    continue
                self.eat(')')
                break
        self.seen.add('derivative')
        return ('deriv', ders, vals, body)

    def power(self):
        if self.peek() == '-':
            raise ReadError("sign inside of a product")
        node = self.atom()
        while True:
            if self.at('**'):
                self.eat('**')
                if self.at('-'):
                    self.eat('-')
                    e = ('neg', self.power())
                else:
                    e = self.power()
                self.seen.add('power')
                return ('pow', node, e)
            if self.at('^H'):
                self.eat('^H')
                node = ('dag', node)
                self.seen.add('dagger')
            elif self.at('\u00a0\u20f0'):
                self.p += 2
                node = ('fun', 'conjugate', [node])
                self.seen.add('conjugate')
            elif self.at('^+'):
                self.eat('^+')
                node = ('pinv', node)
                self.seen.add('pinv')
            elif self.at('['):
                self.eat('[')
                arg = self.sum()
                self.ws()
                self.eat(']')
                node = ('app', node, arg)
                self.seen.add('application')
            else:
                return node

    def args(self):
        self.eat('(')
        out = []
        while True:
            out.append(self.sum())
            self.ws()
            if self.at(','):
                self.eat(',')
                continue
            self.eat(')')
            return out

    def hs(self):
        """space of a symbol: '^(a*b)', '_(a*b)' or the only space"""
        if self.at('^(') or self.at('_('):
            self.p += 2
            return self.hs_keys(self.until(')'))
        if self.single is None:
            raise ReadError("space missing at %r" % self.s[self.p - 8:])
        return (self.single,)

    def hs_keys(self, text):
        return tuple(self.key(k) for k in text.split('*'))

    def key(self, k):
        if k not in self.ctx.spaces and k.replace('_', '') in self.ctx.spaces:
            return k.replace('_', '')
        if k not in self.ctx.spaces:
            raise ReadError("unknown space %r" % k)
        return k

    def atom(self):
        c = self.peek()
        if c == '(':
            self.eat('(')
            n = self.sum()
            self.ws()
            self.eat(')')
            return n
        if c == '[':
            self.eat('[')
            a = self.sum()
            self.ws()
            self.eat(',')
            b = self.sum()
            self.ws()
            self.eat(']')
            self.seen.add('commutator')
            return ('comm', a, b)
        if c == '|':
            self.eat('|')
            lab = self.until('>')
            if self.at('<'):
                mark = self.p
                self.eat('<')
                lab2 = self.until('|')
                if self.hs_next():
                    hs = self.hs()
                    self.seen.add('ketbra')
                    return ('prod', [('ket', lab, hs),
                                     ('dag', ('ket', lab2, hs))])
                self.p = mark
            self.seen.add('ket')
            return ('ket', lab, self.hs())
        if c == '<':
            self.eat('<')
            lab = self.until('|')
            if not re.match(r"[\w+-]", self.peek() or ' ') or self.at('_('):
                self.seen.add('bra')
                return ('dag', ('ket', lab, self.hs()))
            lab2 = self.until('>')
            hs = self.hs()
            self.seen.add('braket')
            return ('prod', [('dag', ('ket', lab, hs)), ('ket', lab2, hs)])
        if c == '√':
            self.eat('√')
            return ('fun', 'sqrt', [self.power()])
        m = _NUM.match(self.s, self.p)
        if m:
            self.p = m.end()
            t = m.group(0)
            return ('num', complex(t) if t.endswith('j') else
                    int(t) if t.isdigit() else float(t))
        return self.name()

    def hs_next(self):
        return self.at('^(') or self.at('_(') or self.single is not None

    def opname(self, base):
        """rest of the name of an operator: superscripts and arguments;
        None if no operator"""
        mark = self.p
        hs = None
        dag = False
        if self.at('^('):
            hs = self.hs()
            if self.at('H'):
                self.eat('H')
                dag = True
        elif self.at('_(') or self.at(',('):
            self.p += 2
            hs = self.hs_keys(self.until(')'))
            if self.at('^H'):
                self.eat('^H')
                dag = True
        elif self.single is not None:
            hs = (self.single,)
            if self.at('^H'):
                self.eat('^H')
                dag = True
        else:
            self.p = mark
            return None
        args = self.args() if self.at('(') else []
        return hs, dag, args

    def name(self):
        for t in ('tr_(',):
            if self.at(t):
                self.eat(t)
                ks = self.hs_keys(self.until(')'))
                self.eat('[')
                n = self.sum()
                self.ws()
                self.eat(']')
                self.seen.add('trace')
                return ('tr', ks, n)
        for t in ('P_Ker', 'SPre', 'SPost'):
            if self.at(t + '(') or (t == 'P_Ker' and self.at('P_Ker^H(')):
                self.eat(t)
                dag = False
                if self.at('^H'):
                    self.eat('^H')
                    dag = True
                a = self.args()
                if len(a) != 1:
                    raise ReadError("%s with %d arguments" % (t, len(a)))
                self.seen.add(t)
                return ('dag', (t, a[0])) if dag else (t, a[0])
        m = re.compile(r"(sigma|Pi)_").match(self.s, self.p)
        if m:
            rest = re.compile(r"([^\^()]*?)(?=\^\(|,\(|_\(|\^H|,? |\)|\]|$)")
            self.p = m.end()
            lm = rest.match(self.s, self.p)
            self.p = lm.end()
            labs = lm.group(1).split(',')
            o = self.opname(m.group(1))
            if o is None:
                raise ReadError("sigma without space")
            hs, dag, args = o
            if m.group(1) == 'Pi':
                labs = labs * 2
            if len(labs) != 2 or args:
                raise ReadError("sigma %r" % (labs,))
            n = ('prod', [('ket', labs[0], hs), ('dag', ('ket', labs[1], hs))])
            self.seen.add('sigma')
            return ('dag', n) if dag else n
        m = re.compile(r"J_[+\-z]").match(self.s, self.p)
        if m:
            self.p = m.end()
            o = self.opname(m.group(0))
            if o is None or o[2] or len(o[0]) != 1:
                raise ReadError("bad spin operator")
            n = ('spin', m.group(0)[2], o[0])
            return ('dag', n) if o[1] else n
        m = re.compile(r"(%s)_(%s)(?=\^\(|,\(%s)" % (
            '|'.join(self.opnames), _IDXSUB,
            '' if self.single is None else r'|\^H|\W|$')).match(
                self.s, self.p)
        if m:
            self.p = m.end()
            o = self.opname(m.group(1))
            n = ('sym', 'O', (m.group(1), m.group(2)), o[0], o[2])
            self.seen.add('indexed operator')
            return ('dag', n) if o[1] else n
        m = re.compile(r"(a|Phase|D|Squeeze|%s)(?=\^\(|_\(|\^H|$|\W)" % (
            '|'.join(self.opnames + self.sopnames))).match(self.s, self.p)
        if m:
            mark = self.p
            self.p = m.end()
            nm = m.group(1)
            o = self.opname(nm)
            if o is not None:
                hs, dag, args = o
                if nm in self.opnames:
                    n = ('sym', 'O', (nm,), hs, args)
                elif nm in self.sopnames:
                    n = ('sym', 'P', (nm,), hs, args)
                elif nm == 'a':
                    if args or len(hs) != 1:
                        raise ReadError("bad ladder operator")
                    n = ('ladder', hs)
                else:
                    if len(args) != 1 or len(hs) != 1:
                        raise ReadError("bad %s" % nm)
                    n = ('par', nm, hs, args[0])
                if dag:
                    self.seen.add('dagger of ' + (
                        'symbol' if nm in self.opnames + self.sopnames
                        else 'local operator'))
                return ('dag', n) if dag else n
            self.p = mark
        m = re.compile(r"(?:%s)_%s" % ('|'.join(self.indexed), _IDXSUB)).match(
            self.s, self.p) or _ID.match(self.s, self.p)
        if not m:
            raise ReadError("cannot read %r" % self.s[self.p:self.p + 40])
        nm = m.group(0)
        if nm in ('Piecewise', 'oo', 'zoo', 'nan', 'Mod', 'KroneckerProduct'):
            raise Foreign(nm)
        self.p = m.end()
        if nm in FUNCS and self.at('('):
            return ('fun', nm, self.args())
        if nm == 'KroneckerDelta':
            return ('delta', self.args())
        if nm in CONSTS and nm not in self.names:
            return ('num', CONSTS[nm])
        return ('scal', nm, self.symbol(nm))

    def symbol(self, nm):
        if nm in self.names:
            return self.names[nm]
        base = nm.rstrip("'")
        if len(base) == 1 and base in IDX:
            from qnet import IdxSym
            return IdxSym(base, primed=len(nm) - 1)
        m = re.match(r"(%s)_(%s)$" % ('|'.join(self.indexed), _IDXSUB), nm)
        if m:
            return (m.group(1), m.group(2))
        raise ReadError("unknown symbol %r" % nm)

    # -- values --------------------------------------------------------------

    def scal(self, node):
        t = self.ev(node)
        if t.kind != 'S':
            raise ReadError("scalar expected")
        return t.a

    def subscripts(self, text):
        """integers of a string of subscripts"""
        if text.startswith('{'):
            text = text[1:-1]
        out = []
        for part in text.split(','):
            if not re.match(r"(?:[%s]'*|\d)+$" % IDX, part):
                v = complex(self.scal(self.sub(part)))
                out.append(int(round(v.real)))
                continue
            for t in re.findall(r"[%s]'*|\d" % IDX if ',' not in text
                                else r"[%s]'*|\d+" % IDX, part):
                out.append(int(t) if t.isdigit() else int(round(complex(
                    self.scal(('scal', t, self.symbol(t)))).real)))
        return out

    def symname(self, name):
        if len(name) == 1:
            return name[0]
        if name[1].isdigit():
            return '_'.join(name)
        return index_name(name[0], self.subscripts(name[1]))

    def ket(self, lab, hs):
        if len(hs) > 1:
            # product of basis states?
            parts = lab.split(',') if ',' in lab else list(lab)
            if len(parts) == len(hs) and not lab.startswith('alpha=') and all(
                    self.basis_index(p, k, False) is not None
                    for p, k in zip(parts, hs)):
                r = None
                for p, k in zip(parts, hs):
                    t = self.ket(p, (k,))
                    r = t if r is None else num.mul(self.U, r, t)
                return r
        elif lab.startswith('alpha='):
            v = self.scal(self.sub(lab[6:]))
            return T('K', hs, num.coherent_vec(self.U.dim(hs[0]), v))
        m = re.match(r"(Psi|Phi|Chi)(?:_([^(]*))?(\(.*\))?$", lab)
        if m:
            nm = (m.group(1),) + ((m.group(2),) if m.group(2) else ())
            args = []
            if m.group(3):
                saved = self.s, self.p
                self.s, self.p = m.group(3), 0
                try:
                    nodes = self.args()
                    if self.p != len(self.s):
                        raise ReadError("bad arguments %r" % m.group(3))
                finally:
                    self.s, self.p = saved
                args = [complex(self.scal(a)) for a in nodes]
            return self.den.symbol_value(
                'K', self.symname(nm), tuple(sorted(hs)), args)
        if len(hs) != 1:
            raise ReadError("unknown state %r" % lab)
        i = self.basis_index(lab, hs[0], True)
        v = np.zeros(self.U.dim(hs[0]), dtype=complex)
        if 0 <= i < len(v):
            v[i] = 1
        return T('K', hs, v)

    def basis_index(self, lab, key, strict):
        spec = self.U.spec[key]
        if lab in spec['labels']:
            return spec['labels'].index(lab)
        try:
            v = complex(self.scal(self.sub(lab))).real
        except (ReadError, Foreign):
            if strict:
                raise ReadError("unknown basis state %r" % lab)
            return None
        if spec['kind'] in ('spin', 'spinb'):
            if spec['kind'] == 'spin':
                v = v + (spec['dim'] - 1) / 2
        if abs(v - round(v)) > 1e-9:
            raise ReadError("basis state %r" % lab)
        return int(round(v))

    def ev(self, n):
        k = n[0]
        U = self.U
        if k == 'num':
            return S(n[1])
        if k == 'scal':
            s = n[2]
            if isinstance(s, tuple):
                return S(indexed_value(s[0], self.subscripts(s[1])))
            v = self.den.env.get(s)
            if v is None:
                v = symbol_value(s)
            return S(v)
        if k == 'fun':
            if len(n[2]) != 1:
                raise Foreign("function of several arguments")
            return S(FUNCS[n[1]](complex(self.scal(n[2][0]))))
        if k == 'delta':
            a, b = (complex(self.scal(x)) for x in n[1])
            return S(1 if abs(a - b) < 1e-9 else 0)
        if k == 'neg':
            return num.neg(self.ev(n[1]))
        if k == 'sum':
            r = None
            for t in n[1]:
                t = self.ev(t)
                r = t if r is None else self.add(r, t)
            return r
        if k == 'cc':
            a = num.as_op(U, self.ev(n[1]))
            return num.add(U, a, num.scale(n[2], num.dag(a)))
        if k == 'prod':
            return self.prod([self.ev(f) for f in n[1]])
        if k == 'inv':
            v = self.scal(n[1])
            return S(1 / v)
        if k == 'pow':
            b, e = self.ev(n[1]), complex(self.scal(n[2]))
            if b.kind == 'S':
                from .den import _cpow
                return S(_cpow(b.a, e))
            if b.kind == 'O' and e.imag == 0 and e.real == int(e.real) >= 0:
                return T('O', b.spaces, np.linalg.matrix_power(
                    b.a, int(e.real)))
            raise ReadError("power of %s" % b.kind)
        if k == 'dag':
            t = self.ev(n[1])
            if t.kind == 'P':
                return num.superadj(U, t)
            return num.dag(t)
        if k == 'pinv':
            a = num.as_op(U, self.ev(n[1]))
            return T('O', a.spaces, num.pinv(a.a))
        if k == 'P_Ker':
            a = num.as_op(U, self.ev(n[1]))
            return T('O', a.spaces, np.eye(a.a.shape[0])
                     - num.pinv(a.a) @ a.a)
        if k == 'SPre':
            return num.spre(U, self.ev(n[1]))
        if k == 'SPost':
            return num.spost(U, self.ev(n[1]))
        if k == 'app':
            p, o = self.ev(n[1]), self.ev(n[2])
            if p.kind not in 'PS':
                raise ReadError("application of %s" % p.kind)
            return num.mul(U, p, num.as_op(U, o) if p.kind == 'P' else o)
        if k == 'comm':
            a, b = (num.as_op(U, self.ev(x)) for x in n[1:])
            return num.sub(U, num.mul(U, a, b), num.mul(U, b, a))
        if k == 'tr':
            return num.ptrace(U, self.ev(n[2]), tuple(sorted(n[1])))
        if k == 'ket':
            return self.ket(n[1], n[2])
        if k == 'spin':
            m = num.spin_mats(U.dim(n[2][0]))['z+-'.index(n[1])]
            return T('O', n[2], m)
        if k == 'ladder':
            return T('O', n[1], num.destroy(U.dim(n[1][0])))
        if k == 'par':
            _, nm, hs, a = n
            d, v = U.dim(hs[0]), complex(self.scal(a))
            if nm == 'Phase':
                m = np.diag(np.exp(1j * v * np.arange(d)))
            elif nm == 'D':
                m = num.displace_mat(d, v)
            else:
                m = num.squeeze_mat(d, v)
            return T('O', hs, m)
        if k == 'sym':
            _, kind, name, hs, args = n
            return self.den.symbol_value(
                kind, self.symname(name), tuple(sorted(hs)),
                [complex(self.scal(a)) for a in args])
        if k == 'isum':
            return self.isum(n)
        if k == 'deriv':
            _, ders, vals, body = n
            vals = {s: complex(self.scal(v)) for s, v in vals}

            def rec(ds):
                if not ds:
                    return self.ev(body)
                s, m = ds[0]
                x0 = vals.get(s)
                if x0 is None:
                    x0 = self.den.env.get(s)
                    x0 = symbol_value(s) if x0 is None else x0
                return self.den.derivative(lambda: rec(ds[1:]), s, m, x0)
            return rec(ders)
        raise ReadError(k)

    def isum(self, n):
        _, idx, vals, body = n
        env = self.den.env
        syms = [self.symbol(i) for i in idx]
        saved = {s: env.get(s) for s in syms}
        acc = [None]

        def rec(j):
            if j == len(syms):
                t = self.ev(body)
                acc[0] = t if acc[0] is None else self.add(acc[0], t)
                return
            for v in vals:
                env[syms[j]] = v
                rec(j + 1)
        try:
            rec(0)
        finally:
            for s, v in saved.items():
                if v is None:
                    env.pop(s, None)
                else:
                    env[s] = v
        return S(0) if acc[0] is None else acc[0]

    def add(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.kind == 'S' and x.a == 0:
                return y
        try:
            return num.add(self.U, a, b)
        except num.TypeMismatch as e:
            raise ReadError("sum of %s and %s (%s)" % (a.kind, b.kind, e))

    # products: every factor is a map from the states of its incoming to those
    # of its outgoing spaces

    def prod(self, ts):
        if any(t.kind == 'P' for t in ts):
            first = [t.kind for t in ts].index('P')
            r = self.prod(ts[:first]) if first else S(1)
            for t in ts[first:]:
                if r.kind not in 'PS' or t.kind not in 'PSO':
                    raise ReadError("%s times %s" % (r.kind, t.kind))
                r = num.mul(self.U, r, t)
            return r
        c = 1
        m = None
        for t in ts:
            if t.kind == 'S':
                c = c * t.a
                continue
            d = [self.U.dim(s) for s in t.spaces]
            outs = t.spaces if t.kind in 'KO' else ()
            ins = t.spaces if t.kind in 'BO' else ()
            x = (outs, ins, np.reshape(t.a, (d if outs else []) + (
                d if ins else [])))
            m = x if m is None else self.compose(m, x)
        if m is None:
            return S(c)
        outs, ins, a = m
        if outs and ins:
            sp = tuple(sorted(set(outs) | set(ins)))
            if set(outs) != set(ins):
                raise ReadError("operator between different spaces")
            order = [outs.index(s) for s in sp] + [
                len(outs) + ins.index(s) for s in sp]
            N = self.U.total(sp)
            return T('O', sp, c * np.transpose(a, order).reshape(N, N))
        if not outs and not ins:
            return S(c * complex(a))
        sp = outs or ins
        so = tuple(sorted(sp))
        v = np.transpose(a, [sp.index(s) for s in so]).reshape(-1)
        return T('K' if outs else 'B', so, c * v)

    def compose(self, A, B):
        ao, ai, a = A
        bo, bi, b = B
        common = [s for s in ai if s in bo]
        arest = [s for s in ai if s not in common]
        brest = [s for s in bo if s not in common]
        if set(arest) & set(bi) or set(brest) & set(ao):
            raise ReadError("product of states of one space")
        r = np.tensordot(
            a, b, axes=([len(ao) + ai.index(s) for s in common],
                        [bo.index(s) for s in common]))
        # axes: ao, arest, brest, bi
        n1, n2, n3 = len(ao), len(arest), len(brest)
        order = list(range(n1)) + [n1 + n2 + i for i in range(n3)] + [
            n1 + i for i in range(n2)] + [
            n1 + n2 + n3 + i for i in range(len(bi))]
        return (tuple(ao) + tuple(brest), tuple(arest) + tuple(bi),
                np.transpose(r, order))


class CircuitReader(Reader):
    """
    concat  :=  series ('+' series)*
    series  :=  unit ('<<' unit)*
    unit    :=  '(' concat ')' | '[' concat ']' ('_{o->i}' | '^{-1}')
             |  'cid(n)' | 'Perm(..)' | 'SLH(S, L, H)' | name ['(' args ')']

    Args:
        cdims: number of channels of the symbols, by label
        components: names of the known components
    """

    def __init__(self, ctx, names, cdims, **kwargs):
        super().__init__(ctx, names, **kwargs)
        self.cdims = cdims
        self.D = ctx.U.total(tuple(ctx.keys))

    def read(self, text):
        self.s, self.p = text, 0
        r = self.concat()
        if self.p != len(self.s):
            raise ReadError("cannot read %r" % self.s[self.p:self.p + 40])
        return r

    def concat(self):
        from . import slh as M
        r = self.series()
        while self.at(' + '):
            self.eat(' + ')
            self.seen.add('concatenation')
            r = M.concat(r, self.series())
        return r

    def series(self):
        from . import slh as M
        r = self.unit()
        while self.at(' << '):
            self.eat(' << ')
            self.seen.add('series')
            x = self.unit()
            if x.n != r.n:
                raise ReadError("series of %d and %d channels" % (r.n, x.n))
            r = M.series(r, x)
        return r

    def matrix(self):
        rows = []
        self.eat('[')
        while not rows or self.at(', '):
            if rows:
                self.eat(', ')
            self.eat('[')
            row = []
            while not row or self.at(', '):
                if row:
                    self.eat(', ')
                row.append(self.operator())
            self.eat(']')
            rows.append(row)
        self.eat(']')
        return np.array(rows)

    def operator(self):
        from . import slh as M
        return M.full(self.ctx, self.ev(self.sum()))

    def integers(self):
        self.eat('(')
        return [int(x) for x in self.until(')').split(',') if x.strip()]

    def unit(self):
        from . import slh as M
        if self.at('('):
            self.eat('(')
            r = self.concat()
            self.eat(')')
            return r
        if self.at('['):
            self.eat('[')
            r = self.concat()
            self.eat(']')
            if self.at('^{-1}'):
                self.eat('^{-1}')
                self.seen.add('series inverse')
                return M.inverse(r)
            self.eat('_{')
            m = re.match(r"(\d+)->(\d+)$", self.until('}'))
            if not m:
                raise ReadError("bad feedback")
            o, i = int(m.group(1)), int(m.group(2))
            if not (o < r.n and i < r.n):
                raise ReadError("feedback %d->%d of %d channels" % (o, i, r.n))
            self.seen.add('feedback')
            return M.feedback(r, o, i)
        for t, n in (('CIdentity', 1), ('CircuitZero', 0)):
            if self.at(t):
                self.eat(t)
                return M.identity(n, self.D)
        if self.at('cid('):
            self.eat('cid')
            n, = self.integers()
            self.seen.add('identity')
            return M.identity(n, self.D)
        if self.at('Perm('):
            self.eat('Perm')
            self.seen.add('permutation')
            return M.permutation(self.integers(), self.D)
        if self.at('SLH('):
            self.eat('SLH(')
            S_ = self.matrix()
            self.eat(', ')
            L = self.matrix()
            self.eat(', ')
            H = self.operator()
            self.eat(')')
            self.seen.add('SLH')
            return M.N(S_, L[:, 0], H)
        m = re.compile(r"[A-Za-z]\w*").match(self.s, self.p)
        if not m:
            raise ReadError("cannot read %r" % self.s[self.p:self.p + 40])
        self.p = m.end()
        nm = m.group(0)
        args = []
        if self.at('('):
            args = [complex(self.scal(a)) for a in self.args()]
        if nm in self.cdims:
            n = self.cdims[nm]
            self.seen.add('circuit symbol')
            return M.symbol(self.ctx, '%s|%s' % (nm, [
                '%.9f %.9f' % (x.real + 0., x.imag + 0.) for x in args]), n)
        f = {'W': lambda a: M.drive([a], self.D),
             'Phase': lambda a: M.phase(a, self.D),
             'BS': lambda a: M.beamsplitter(a, self.D)}.get(nm)
        if f is None or len(args) != 1:
            raise ReadError("unknown circuit %r" % nm)
        self.seen.add('component')
        return f(args[0])
