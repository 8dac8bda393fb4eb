"""H02: the flat API exposes exactly the public names"""
from ..common import *
import ast
import importlib
import itertools
import json
import os
import pkgutil
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path
import sympy
import qnet
from qnet import LocalSpace
from qnet._flat_api_tools import _import_submodules

N_QUICK, N_THOROUGH = 700, 12000
TIMEOUT = 240
RULE = ("(1) every package and module of qnet, in this process: the public "
        "names derived by an own parser of the source files' __all__ lists "
        "against the namespaces, object by object; (2) fresh processes which "
        "import a random module first, or in which an optional dependency "
        "(qutip, pyx, matplotlib, IPython) is missing, or which run under "
        "another hash seed: same names, same rule tables, working algebra; "
        "(3) random synthetic package trees given to _import_submodules: "
        "namespaces or the documented ImportError against a model; (4) random "
        "chains of init_algebra: class of implicitly created spaces. "
        "non-trivial: always; distinct by tree/configuration")
REQUIRED = ['package', 'module', 'identical object', 'process', 'missing qutip',
            'missing pyx', 'missing matplotlib', 'missing IPython',
            'first import', 'rules', 'star import', 'tree', 'conflict',
            'no __all__', 'private module', 'nested', 'include', 'exclude',
            'same object twice', 'init_algebra', 'implicit space',
            'rejected default']

SRC = Path(qnet.__file__).resolve().parent


# -- expected API from the sources --------------------------------------------

def literal_all(path):
    """the list assigned to __all__ at the top level of the file"""
    tree = ast.parse(path.read_text(encoding='utf-8'))
    out = None
    for node in tree.body:
        if isinstance(node, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == '__all__'
                for t in node.targets):
            out = list(ast.literal_eval(node.value))
    return out


def expected(path, name):
    """{module name: {public name: defining modules}} recursively"""
    res = {}

    def walk(p, modname):
        own = {n: {modname} for n in (literal_all(
            p / '__init__.py' if p.is_dir() else p) or [])}
        if p.is_dir():
            for f in sorted(p.iterdir()):
                if f.name.startswith('_') or f.name.startswith('.'):
                    continue
                if f.is_dir() and (f / '__init__.py').exists():
                    sub = modname + '.' + f.name
                elif f.suffix == '.py':
                    sub = modname + '.' + f.stem
                else:
                    continue
                for n, where in walk(f, sub).items():
                    own.setdefault(n, set()).update(where)
        res[modname] = own
        return own
    walk(path, name)
    return res


EXPECTED = None
PROC = None


def setup(seed, tier):
    global EXPECTED, PROC
    EXPECTED = expected(SRC, 'qnet')
    import random
    rng = random.Random(seed)
    mods = sorted(EXPECTED)
    first = ['qnet', 'qnet.printing', 'qnet.algebra.core.operator_algebra',
             'qnet.visualization.circuit_pyx', 'qnet.utils.indices']
    first += rng.sample(mods, 2 if tier == 'quick' else len(mods))
    PROC = [dict(first=m, block=None) for m in first]
    PROC += [dict(first='qnet', block=b) for b in
             ('qutip', 'pyx', 'matplotlib', 'IPython')]
    PROC += [dict(first=rng.choice(mods), block=b) for b in
             ('qutip', 'pyx', 'matplotlib', 'IPython')]


SCRIPT = r'''
import sys, json, importlib
cfg = json.loads(sys.argv[1])
if cfg['block']:
    class Block:
        def find_spec(self, name, path=None, target=None):
            if name.split('.')[0] == cfg['block']:
                raise ImportError('blocked ' + name)
    sys.meta_path.insert(0, Block())
importlib.import_module(cfg['first'])
sys.path.insert(0, cfg['verif'])
import qnet
from qv.h02_report import report
print('REPORT' + json.dumps(report(cfg['modules'])))
'''


# -- cases -------------------------------------------------------------------

def run_case(case):
    rng = case.rng
    case.phase = 'gen'
    case.nontrivial = True
    mods = sorted(EXPECTED)
    if case.idx < len(mods):
        return check_module(case, mods[case.idx])
    k = case.idx - len(mods)
    if k < len(PROC):
        return check_process(case, PROC[k])
    if rng.random() < .3:
        return check_init(case, rng)
    return check_tree(case, rng)


def check_module(case, modname):
    case.key = modname
    case.info.update(module=modname)
    case.phase = 'qnet'
    mod = importlib.import_module(modname)
    want = EXPECTED[modname]
    got = list(getattr(mod, '__all__', []))
    if len(set(got)) != len(got):
        raise Bad("duplicate public names", module=modname, got=got)
    if set(got) != set(want):
        raise Bad("public names of %s" % modname,
                  missing=sorted(set(want) - set(got)),
                  extra=sorted(set(got) - set(want)))
    # reached by attribute access from the root package
    obj = qnet
    for part in modname.split('.')[1:]:
        obj = getattr(obj, part, None)
    if obj is not mod:
        raise Bad("%s is not reachable as an attribute" % modname,
                  got=repr(obj))
    for n, where in want.items():
        x = getattr(mod, n)
        for w in sorted(where) + [modname, 'qnet'] + [
                modname.rsplit('.', k)[0]
                for k in range(1, modname.count('.') + 1)]:
            y = getattr(importlib.import_module(w), n)
            if y is not x:
                raise Bad("%s.%s is not %s.%s" % (modname, n, w, n))
            case.saw('identical object')
        m = getattr(x, '__module__', None)
        if isinstance(m, str) and m.startswith('qnet') and \
                isinstance(x, type) and \
                getattr(importlib.import_module(m), n, x) is not x:
            raise Bad("%s.%s is not the object of its module" % (modname, n))
    ns = {}
    exec('from %s import *' % modname, ns)
    ns.pop('__builtins__')
    if set(ns) != set(want):
        raise Bad("star import of %s" % modname,
                  got=sorted(ns), want=sorted(want))
    if any(ns[n] is not getattr(mod, n) for n in ns):
        raise Bad("star import of %s: other objects" % modname)
    case.saw('star import')
    case.saw('package' if hasattr(mod, '__path__') else 'module')


def check_process(case, cfg):
    from .. import h02_report
    case.key = repr(cfg)
    case.info.update(cfg)
    case.phase = 'gen'
    mods = sorted(EXPECTED)
    verif = Path(__file__).resolve().parents[2]
    env = dict(os.environ, PYTHONHASHSEED=str(case.rng.randrange(1000)),
               PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=str(SRC.parent))
    arg = json.dumps(dict(cfg, modules=mods, verif=str(verif)))
    pr = subprocess.run([sys.executable, '-W', 'ignore', '-c', SCRIPT, arg],
                        env=env, stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE, cwd='/', timeout=200)
    out = pr.stdout.decode()
    if 'REPORT' not in out:
        raise Bad("importing %s %s fails" % (
            cfg['first'], 'without ' + cfg['block'] if cfg['block'] else ''),
            rc=pr.returncode, err=pr.stderr.decode()[-600:])
    got = json.loads(out[out.index('REPORT') + 6:])
    want = json.loads(json.dumps(h02_report.report(mods)))
    for part in want:
        if got[part] != want[part]:
            g, w = got[part], want[part]
            diff = [(k, g.get(k), w.get(k)) for k in sorted(set(g) | set(w))
                    if g.get(k) != w.get(k)] \
                if isinstance(w, dict) else (g, w)
            raise Bad("another process has other %s" % part,
                      diff=str(diff)[:800])
    case.saw('process')
    case.saw('rules')
    case.saw('missing ' + cfg['block'] if cfg['block'] else 'first import')


_ids = itertools.count()


def check_tree(case, rng):
    """a random package tree, against a model of the documented behaviour"""
    root = 'qvtree_%d_%d' % (os.getpid(), next(_ids))
    names = ['f', 'g', 'Alpha', 'beta', 'x1', 'Zed', 'q', 'omega']
    shared = rng.random() < .4     # same object exported at several places

    def tree(depth):
        """(dict of own values, own __all__ or None, {sub: tree})"""
        own = rng.sample(names, rng.choice([0, 1, 1, 2]))
        if rng.random() < .6:
            own = [n + str(next(_ids)) for n in own]
        al = None if rng.random() < .15 else list(own)
        if al and rng.random() < .2:
            al.pop()
        subs = {}
        if depth > 0:
            for s in rng.sample(['m1', 'm2', 'core', '_hid', 'util', 'b'],
                                rng.choice([0, 1, 2, 3])):
                subs[s] = tree(depth - 1 if rng.random() < .6 else 0)
                subs[s]['pkg'] = bool(subs[s]['subs']) or rng.random() < .2
        return dict(own=own, all=al, subs=subs, pkg=bool(subs))
    t = tree(rng.choice([1, 2, 2, 3]))
    t['pkg'] = True
    if t['all'] is None:
        t['all'] = []
    kw = {}
    flat = all(not s['subs'] for s in t['subs'].values())
    if flat and t['subs']:
        if rng.random() < .3:
            kw['include'] = [root + '.' + s for s in rng.sample(
                sorted(t['subs']), rng.randint(0, len(t['subs'])))]
        if rng.random() < .3:
            kw['exclude'] = [root + '.' + s for s in rng.sample(
                sorted(t['subs']), rng.randint(1, len(t['subs'])))]
        if rng.random() < .3:
            kw['include_private_modules'] = rng.random() < .7
    case.info.update(tree=t, kw=kw, shared=shared)
    case.key = repr((t, kw, shared))
    tmp = tempfile.mkdtemp(prefix='qvh02')
    try:
        def write(t, path, mod):
            lines = []
            for n in t['own']:
                if shared:
                    lines.append('from qnet.utils.indices import IdxSym as '
                                 + n)
                else:
                    lines.append('class %s: pass' % n)
            if t['all'] is not None:
                lines.append('__all__ = %r' % (t['all'],))
            if t['pkg']:
                os.mkdir(path)
                open(os.path.join(path, '__init__.py'), 'w').write(
                    '\n'.join(lines) + '\n')
                for s, st in t['subs'].items():
                    write(st, os.path.join(path, s), mod + '.' + s)
            else:
                open(path + '.py', 'w').write('\n'.join(lines) + '\n')
        write(t, os.path.join(tmp, root), root)
        sys.path.insert(0, tmp)
        sys.dont_write_bytecode = True
        importlib.invalidate_caches()
        mod = importlib.import_module(root)
        case.phase = 'qnet'
        err = None
        try:
            _import_submodules(mod.__all__, mod.__path__, mod.__name__, **kw)
        except ImportError as e:
            err = e
        # model
        case.phase = 'monitor'

        class Conflict(Exception):
            pass

        def model(t, name, top=True):
            """namespace of public objects; raises Conflict"""
            ns = {n: (name, n) for n in t['own']}
            al = list(t['all'] or [])
            for s in sorted(t['subs']):
                st = t['subs'][s]
                if s.startswith('_') and not (
                        top and kw.get('include_private_modules')):
                    case.saw('private module')
                    continue
                full = name + '.' + s
                if top and full in (kw.get('exclude') or []):
                    case.saw('exclude')
                    continue
                if top and kw.get('include') is not None and \
                        full not in kw['include']:
                    case.saw('include')
                    continue
                if st['all'] is None:
                    case.saw('no __all__')
                sn, sa = model(st, full, False)
                ns[s] = full
                for n in sa:
                    if n in ns:
                        if ns[n] == sn[n] or shared and \
                                isinstance(ns[n], tuple):
                            case.saw('same object twice')
                            continue
                        raise Conflict(n)
                    ns[n] = sn[n]
                    al.append(n)
            if not top:
                case.saw('nested')
            return ns, al
        try:
            want = model(t, root)
        except Conflict as c:
            want = None
        if want is None:
            if err is None:
                raise Bad("conflicting names accepted",
                          all=list(mod.__all__))
            case.saw('conflict')
            return
        if err is not None:
            raise Bad("_import_submodules fails: %s" % err)
        if sorted(want[1]) != list(mod.__all__):
            raise Bad("__all__ of the package", got=list(mod.__all__),
                      want=sorted(want[1]))
        for n in want[1]:
            w = want[0][n]
            if getattr(mod, n) is not getattr(sys.modules[w[0]], w[1]):
                raise Bad("%s is not the object of %s" % (n, w[0]))
        for s in t['subs']:
            if want[0].get(s) == root + '.' + s and \
                    getattr(mod, s) is not sys.modules[root + '.' + s]:
                raise Bad("submodule %s is not accessible" % s)
        case.saw('tree')
    finally:
        if tmp in sys.path:
            sys.path.remove(tmp)
        for m in [m for m in sys.modules
                  if m == root or m.startswith(root + '.')]:
            del sys.modules[m]
        shutil.rmtree(tmp)


def check_init(case, rng):
    from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
    cls = type('QvSpace', (LocalSpace,), {})
    cls2 = type('QvSub', (cls,), {})
    qnet.QvSpace, qnet.QvSub = cls, cls2
    valid = {'QvSpace': cls, 'QvSub': cls2, 'LocalSpace': LocalSpace}
    log = []
    case.info['steps'] = log
    try:
        qnet.init_algebra()
        cur = LocalSpace
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            case.phase = 'qnet'
            if x < .4:
                n = rng.choice(sorted(valid))
                log.append(n)
                qnet.init_algebra(default_hs_cls=n)
                cur = valid[n]
                case.saw('init_algebra')
            elif x < .5:
                log.append('default')
                qnet.init_algebra()
                cur = LocalSpace
            else:
                n = rng.choice(['ProductSpace', 'OperatorSymbol', 'TrivialSpace',
                                'NoSuchName', 'Eq', 'ascii'])
                log.append(n)
                try:
                    qnet.init_algebra(default_hs_cls=n)
                except (TypeError, AttributeError):
                    case.saw('rejected default')
                else:
                    raise Bad("init_algebra accepts %s" % n)
            lb = rng.choice([0, 1, 'q1', 'tls', 17])
            objs = [qnet.OperatorSymbol('A', hs=lb), qnet.Destroy(hs=lb),
                    qnet.KetSymbol('Psi', hs=lb), qnet.BasisKet(1, hs=lb),
                    qnet.LocalSigma(0, 1, hs=lb), qnet.Displace(2, hs=lb),
                    qnet.SuperOperatorSymbol('L', hs=lb),
                    qnet.CoherentStateKet(1, hs=lb),
                    qnet.OperatorSymbol.create('A', hs=lb),
                    qnet.Create.create(hs=lb)]
            for o in objs:
                if type(o.space) is not cur or o.space != cur(lb):
                    raise Bad("implicit space of %s is %r %s, not %s(%r)" % (
                        type(o).__name__, o.space, type(o.space), cur.__name__, lb))
                case.saw('implicit space')
            hs = LocalSpace('fix', dimension=3)
            for o in (qnet.OperatorSymbol('A', hs=hs),
                      qnet.Destroy(hs=LocalSpace('d'))):
                if type(o.space) is not LocalSpace:
                    raise Bad("explicit space replaced by %r" % (o.space,))
            two = qnet.OperatorSymbol('A', hs=('u', 'v')).space
            if two != cur('u') * cur('v') or any(
                    type(f) is not cur for f in two.local_factors):
                raise Bad("implicit product space %r" % (two,))
    finally:
        del qnet.QvSpace, qnet.QvSub
        qnet.init_algebra()
    case.key = repr(log)
    case.sample = repr(log)
