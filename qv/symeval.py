"""Independent numeric evaluation of sympy expressions (complex floats)."""
import cmath
import math
import zlib
import random
import sympy


class CannotEvaluate(Exception):
    pass


def seeded(*key):
    return random.Random(zlib.crc32(repr(key).encode()))


def symbol_value(sym):
    """Deterministic 'generic' value for a symbol, respecting assumptions"""
    name = sym.name
    r = seeded('sym', name)
    mag = r.uniform(0.35, 1.3)
    if sym.is_integer:
        v = r.randint(1, 3)
        return v if (sym.is_positive or r.random() < .5) else -v
    if sym.is_positive:
        return mag
    if sym.is_negative:
        return -mag
    if sym.is_real:
        return mag if r.random() < 0.6 else -mag
    if sym.is_imaginary:
        return 1j * mag
    return cmath.rect(mag, r.uniform(0.2, 1.2))


def indexed_value(name, idx):
    r = seeded('indexed', name, tuple(int(i) for i in idx))
    return cmath.rect(r.uniform(0.4, 1.2), r.uniform(-1.5, 1.5))


def index_name(name, idx):
    """label of an indexed symbol with definite indices"""
    idx = [str(i) for i in idx]
    sep = '' if all(len(i) == 1 for i in idx) else ','
    return "%s_%s" % (name, sep.join(idx))


_FUNCS = {
    'exp': cmath.exp, 'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan,
    'sinh': cmath.sinh, 'cosh': cmath.cosh, 'tanh': cmath.tanh,
    'log': cmath.log, 'asin': cmath.asin, 'acos': cmath.acos,
    'atan': cmath.atan,
}


def _pow(b, e):
    if b == 0:
        if e == 0:
            return 1.0
        if isinstance(e, complex) and e.imag == 0:
            e = e.real
        return 0.0 if not isinstance(e, complex) and e > 0 else \
            float('inf')
    if isinstance(e, complex) and e.imag == 0:
        e = e.real
    if isinstance(e, float) and e == int(e) and abs(e) < 60:
        return complex(b) ** int(e)
    if isinstance(e, int):
        return complex(b) ** e
    return complex(b) ** e


def eval_sympy(e, env):
    """Numeric value of sympy expression `e` with symbol values `env`
    (falling back to :func:`symbol_value`)"""
    if isinstance(e, (int, float)):
        return e
    if isinstance(e, complex):
        return e
    if e in env:
        return env[e]
    if e.is_Integer:
        return int(e)
    if e.is_Rational:
        return e.p / e.q
    if e.is_Float:
        return float(e)
    if e.is_Symbol and type(e).__name__ != 'Indexed':
        from_env = env.get(e)
        return symbol_value(e) if from_env is None else from_env
    name = type(e).__name__
    if e.is_Add:
        return sum(eval_sympy(a, env) for a in e.args)
    if e.is_Mul:
        r = 1
        for a in e.args:
            r = r * eval_sympy(a, env)
        return r
    if e.is_Pow:
        return _pow(eval_sympy(e.args[0], env), eval_sympy(e.args[1], env))
    if name == 'ImaginaryUnit':
        return 1j
    if name == 'Pi':
        return math.pi
    if name == 'Exp1':
        return math.e
    if name in _FUNCS:
        return _FUNCS[name](complex(eval_sympy(e.args[0], env)))
    if name in ('conjugate', 'adjoint', 'Dagger'):
        return complex(eval_sympy(e.args[0], env)).conjugate()
    if name == 'adjoint':
        return complex(eval_sympy(e.args[0], env)).conjugate()
    if name == 'transpose':
        return complex(eval_sympy(e.args[0], env))
    if name == 'Abs':
        return abs(complex(eval_sympy(e.args[0], env)))
    if name == 're':
        return complex(eval_sympy(e.args[0], env)).real
    if name == 'im':
        return complex(eval_sympy(e.args[0], env)).imag
    if name == 'arg':
        return cmath.phase(complex(eval_sympy(e.args[0], env)))
    if name == 'sign':
        z = complex(eval_sympy(e.args[0], env))
        return z / abs(z) if z else 0
    if name == 'atan2':
        y, x = (complex(eval_sympy(a, env)) for a in e.args)
        return math.atan2(y.real, x.real)
    if name == 'floor' or name == 'ceiling':
        return getattr(math, name[:4].replace('floo', 'floor'))(
            complex(eval_sympy(e.args[0], env)).real)
    if name == 'KroneckerDelta':
        a = complex(eval_sympy(e.args[0], env))
        b = complex(eval_sympy(e.args[1], env))
        return 1 if abs(a - b) < 1e-9 else 0
    if name == 'factorial':
        v = complex(eval_sympy(e.args[0], env))
        return math.gamma(v.real + 1)
    if name == 'Indexed':
        base = e.args[0]
        bname = str(getattr(base, 'label', base))
        return indexed_value(
            bname, [round(complex(eval_sympy(a, env)).real)
                    for a in e.args[1:]])
    if name == 'Piecewise':
        for val, cond in e.args:
            if eval_bool(cond, env):
                return eval_sympy(val, env)
        raise CannotEvaluate("no branch of %s" % e)
    if name == 'Mod':
        return (complex(eval_sympy(e.args[0], env)).real
                % complex(eval_sympy(e.args[1], env)).real)
    if name == 'Derivative' or name == 'Subs':
        raise CannotEvaluate(repr(e))
    if name in ('BooleanTrue', 'BooleanFalse'):
        return bool(e)
    if name == 'NaN' or name == 'Infinity':
        raise CannotEvaluate(repr(e))
    if hasattr(e, 'func') and getattr(e, 'is_Function', False):
        # undefined function: smooth polynomial of the arguments
        return undefined_function(name, [eval_sympy(a, env) for a in e.args])
    raise CannotEvaluate("%s: %r" % (name, e))


def undefined_function(name, args):
    r = seeded('func', name, len(args))
    v = cmath.rect(r.uniform(.4, 1.2), r.uniform(-1.5, 1.5))
    for a in args:
        c1 = cmath.rect(r.uniform(.4, 1.2), r.uniform(-1.5, 1.5))
        c2 = cmath.rect(r.uniform(.1, .4), r.uniform(-1.5, 1.5))
        v = v + c1 * a + c2 * a * a
    return v


def eval_bool(c, env):
    if c is True or c is False:
        return c
    name = type(c).__name__
    if name == 'BooleanTrue':
        return True
    if name == 'BooleanFalse':
        return False
    if name == 'And':
        return all(eval_bool(a, env) for a in c.args)
    if name == 'Or':
        return any(eval_bool(a, env) for a in c.args)
    if name == 'Not':
        return not eval_bool(c.args[0], env)

    def num(x):
        if str(x) == 'oo':
            return float('inf')
        if str(x) == '-oo':
            return -float('inf')
        return complex(eval_sympy(x, env)).real
    if name in ('Equality', 'Unequality', 'LessThan', 'StrictLessThan',
                'GreaterThan', 'StrictGreaterThan'):
        a, b = num(c.args[0]), num(c.args[1])
        eq = abs(a - b) < 1e-9 if a != b else True
        return {'Equality': eq, 'Unequality': not eq,
                'LessThan': a < b or eq, 'StrictLessThan': a < b and not eq,
                'GreaterThan': a > b or eq,
                'StrictGreaterThan': a > b and not eq}[name]
    if name == 'Contains':
        v = num(c.args[0])
        s = c.args[1]
        if type(s).__name__ == 'FiniteSet':
            return any(abs(num(x) - v) < 1e-9 for x in s.args)
        if type(s).__name__ == 'EmptySet':
            return False
    raise CannotEvaluate("bool %s: %r" % (name, c))
