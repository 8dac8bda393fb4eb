"""I01: results do not depend on the process, its hash seed or its history"""
from ..common import *
import json
import os
import random
import re
import subprocess
import sys
from pathlib import Path
import qnet

N_QUICK, N_THOROUGH = 20, 600
TIMEOUT = 400
BATCH = 40
RULE = ("batches of random programs of every algebra are evaluated in fresh "
        "processes with different PYTHONHASHSEED, in different order, with "
        "and without instance caching; every printed result (all printers, "
        "expanded, differentiated, substituted, adjoint, reduced, SLH, master "
        "equation, ...) of a program must be identical in all processes. "
        "non-trivial: a batch with results of at least 10 kinds; distinct by "
        "batch")
REQUIRED = ['processes', 'programs', 'hash seeds differ', 'other order',
            'without caching', 'result:ascii', 'result:unicode',
            'result:latex', 'result:srepr', 'result:tree', 'result:args',
            'result:ind', 'result:dot', 'result:space', 'result:expand',
            'result:simplify', 'result:adjoint', 'result:subst',
            'result:diff', 'result:doit', 'result:comm', 'result:sum2',
            'result:csimp', 'result:slh', 'result:dyn']


def norm(r):
    """a basis ('0', '1', ...) is equal to, and exchanged with, a dimension"""
    def f(m):
        labels = re.findall(r"'(\w+)'", m.group(1))
        if labels == [str(k) for k in range(len(labels))]:
            return 'dimension=%d' % len(labels)
        return m.group(0)
    s = re.sub(r'Integer\((-?\d+)\)', r'\1', json.dumps(r))
    s = re.sub(r'\\n *', ' ', s).replace('( ', '(')
    return json.loads(re.sub(r"basis=\(((?:'\w+',? ?)+)\)", f, re.sub(
        r"(basis=\((?:'\w+',? ?)+\)), dimension=\d+", r'\1', s)))


def run_case(case):
    rng = case.rng
    verif = Path(__file__).resolve().parents[2]
    tags = ['%s/%d' % (rng.randrange(10**9), k) for k in range(BATCH)]
    case.info.update(tags=tags)
    case.key = repr(tags)
    seeds = rng.sample(range(1, 5000), 3)
    jobs = []
    for n, hs in enumerate(seeds):
        order = list(tags)
        if n:
            rng.shuffle(order)
        nocache = n == 2 and rng.random() < .7
        cfg = dict(verif=str(verif), tags=order, nocache=nocache, limit=25)
        env = dict(os.environ, PYTHONHASHSEED=str(hs),
                   PYTHONDONTWRITEBYTECODE='1')
        env['PYTHONPATH'] = os.pathsep.join(
            [str(Path(qnet.__file__).resolve().parents[1]), str(verif)])
        jobs.append((hs, nocache, cfg, env))
    res = []
    case.phase = 'run'
    for hs, nocache, cfg, env in jobs:
        pr = subprocess.run(
            [sys.executable, '-W', 'ignore', '-m', 'qv.i01_worker',
             json.dumps(cfg)], env=env, cwd=str(verif),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=380)
        out = pr.stdout.decode()
        if 'RESULT' not in out:
            raise RuntimeError("worker failed: " + pr.stderr.decode()[-800:])
        res.append(json.loads(out[out.index('RESULT') + 6:]))
        case.saw('processes')
        case.saw('hash seeds differ')
        if nocache:
            case.saw('without caching')
        case.saw('other order')
    case.phase = 'monitor'
    kinds = set()
    for t in tags:
        rs = [r[t] for r in res]
        if any(r is None for r in rs):
            continue
        if len({r['recipe'] for r in rs}) > 1:
            raise RuntimeError("the generator is not deterministic: %s" % t)
        case.saw('programs')
        for k in rs[0]:
            if k != 'recipe':
                kinds.add(k)
                case.saw('result:' + k)
        rs = [norm(r) for r in rs]
        for n, r in enumerate(rs[1:]):
            if r != rs[0]:
                k = sorted(set(r) ^ set(rs[0])) or [
                    k for k in r if r[k] != rs[0][k]]
                k = k[0]
                raise Bad("%s differs between processes" % k,
                          recipe=r['recipe'][:600],
                          a=str(rs[0].get(k))[:500], b=str(r.get(k))[:500],
                          nocache=jobs[n + 1][1],
                          seeds=[jobs[0][0], jobs[n + 1][0]], tag=t)
    case.nontrivial = len(kinds) >= 10
    case.sample = "batch of %d programs, %d kinds of results" % (
        len(tags), len(kinds))
