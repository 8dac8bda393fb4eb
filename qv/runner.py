"""Runs the cases of one property over all cores, aggregates the verdict,
writes the evidence file and prints the verdict lines."""
import importlib
import json
import multiprocessing
import os
import re
import pathlib
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter

ROOT = pathlib.Path(__file__).resolve().parent.parent
NPROC = int(os.environ.get('QV_NPROC', '8'))


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case is outside of what the oracle can decide"""


class Bad(Exception):
    """An observation violates the property"""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


def _alarm(signum, frame):
    raise CaseTimeout()


def qnet_tail(tb):
    """(file, line, function) of the innermost QNET frame of a traceback"""
    res = None
    for f in traceback.extract_tb(tb):
        if '/qnet/' in f.filename:
            res = (f.filename.split('/qnet/')[-1], f.name)
    return res


def run_one(mod, prop, seed, idx, tier, timeout):
    """Run a single case; returns an outcome dict"""
    rng = random.Random("%s:%s:%s" % (prop, seed, idx))
    out = dict(idx=idx, status='ok', stats={}, key=None, nontrivial=False)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    case = Case(prop, rng, idx, tier)
    try:
        try:
            mod.run_case(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout as e:
        out['status'] = 'timeout'
        if qnet_tail(e.__traceback__) is None:
            # the reference evaluation is too expensive
            out['status'] = 'skip'
            out['why'] = 'reference evaluation too slow'
    except MemoryError:
        out['status'] = 'timeout'
    except Skip as e:
        out['status'] = 'skip'
        out['why'] = str(e)[:80]
    except Bad as e:
        out['status'] = 'bad'
        out['msg'] = e.msg
        out['detail'] = e.detail
    except Exception as e:
        from .den import Unsupported
        from .symeval import CannotEvaluate
        from .num import TypeMismatch
        tail = qnet_tail(e.__traceback__)
        out['msg'] = "%s: %s" % (type(e).__name__, str(e)[:300])
        if isinstance(e, (Unsupported, CannotEvaluate)):
            out['status'] = 'skip'
            out['why'] = out['msg'][:80]
        elif tail is None and not isinstance(e, TypeMismatch) \
                and type(e).__name__ != 'DenError' \
                and case.phase in ('gen', 'val'):
            out['status'] = 'harness'
            out['detail'] = dict(tb=traceback.format_exc()[-1500:])
        else:
            out['status'] = 'bad'
            out['detail'] = dict(
                exc=type(e).__name__, at=tail,
                tb=traceback.format_exc()[-1500:])
    out['stats'] = dict(case.stats)
    out['key'] = case.key
    out['nontrivial'] = case.nontrivial
    out['sample'] = case.sample
    if out['status'] == 'bad':
        out['info'] = case.info
        out['phase'] = case.phase
        try:
            out['finding'] = mod.classify(case, out) \
                if hasattr(mod, 'classify') else None
        except Exception:
            out['finding'] = None
    return out


class Case:
    """Handed to a property module's `run_case`"""

    def __init__(self, prop, rng, idx, tier):
        self.prop, self.rng, self.idx, self.tier = prop, rng, idx, tier
        self.stats = Counter()
        self.key = None
        self.nontrivial = False
        self.sample = None
        self.info = {}
        self.phase = 'run'

    def saw(self, name, n=1):
        """count an observation made by a monitor"""
        self.stats[name] += n

    def bad(self, msg, **detail):
        raise Bad(msg, **detail)


def _worker(modname, prop, seed, tier, idxs, timeout, q, deadline):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(1500)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    mod = importlib.import_module(modname)
    if hasattr(mod, 'setup'):
        mod.setup(seed, tier)
    batch = []
    for n, idx in enumerate(idxs):
        if time.time() > deadline:
            batch.append(dict(idx=idx, status='unrun', stats={}, key=None,
                              nontrivial=False, sample=None))
            continue
        o = run_one(mod, prop, seed, idx, tier, timeout)
        batch.append(o)
        if len(batch) >= 50:
            q.put(batch)
            batch = []
        if n % 1000 == 999:
            from qnet.algebra.core.abstract_algebra import Expression
            Expression._instances.clear()
    if hasattr(mod, 'teardown'):
        mod.teardown()
    q.put(batch)
    q.put(None)


def run_parallel(modname, prop, seed, tier, idxs, timeout, deadline):
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    nproc = max(1, min(NPROC, len(idxs)))
    procs = []
    for w in range(nproc):
        p = ctx.Process(target=_worker, args=(
            modname, prop, seed, tier, idxs[w::nproc], timeout, q, deadline))
        p.start()
        procs.append(p)
    done = 0
    outs = []
    dead = 0
    while done < nproc:
        try:
            b = q.get(timeout=5)
        except Exception:
            alive = sum(p.is_alive() for p in procs)
            if alive == 0 and q.empty():
                dead = nproc - done
                break
            continue
        if b is None:
            done += 1
        else:
            outs.extend(b)
    for p in procs:
        p.join(timeout=30)
        if p.is_alive():
            p.kill()
    outs.sort(key=lambda o: o['idx'])
    return outs, dead


def load_findings():
    f = ROOT / 'known_findings.json'
    if not f.exists():
        return []
    return json.loads(f.read_text())


def main(prop, modname, argv):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    verbose = False
    ncases = None
    maxshow = 5
    it = iter(argv)
    for a in it:
        if a == '--replay':
            replay = next(it)
        elif a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '-n':
            ncases = int(next(it))
        elif a == '-v':
            verbose = True
            maxshow = 40
    mod = importlib.import_module(modname)
    if replay:
        return do_replay(mod, prop, json.loads(
            pathlib.Path(replay).read_text()))
    n = ncases or (mod.N_THOROUGH if tier == 'thorough' else mod.N_QUICK)
    timeout = getattr(mod, 'TIMEOUT', 20)
    budget = getattr(mod, 'BUDGET', 700 if tier == 'thorough' else 500)
    outs, dead = run_parallel(
        modname, prop, seed, tier, list(range(n)), timeout, t0 + budget)
    stats = Counter()
    for o in outs:
        stats.update(o['stats'])
    status = Counter(o['status'] for o in outs)
    # confirm timeouts on their own
    slow = [o for o in outs if o['status'] == 'timeout']
    confirmed = []
    for o in slow[:2]:
        o2 = run_parallel(modname, prop, seed, tier, [o['idx']], 75,
                          time.time() + 100)[0]
        if o2 and o2[0]['status'] == 'timeout':
            o['status'] = 'bad'
            o['msg'] = ("no result within 75 s of CPU time (typical cases take"
                        " milliseconds)")
            o['detail'] = {}
            o['info'] = {}
            o['finding'] = mod.classify_timeout(o) if hasattr(
                mod, 'classify_timeout') else None
            confirmed.append(o)
        elif o2 and o2[0]['status'] == 'bad':
            o.update(o2[0])
    findings = [f for f in load_findings()
                if f['property'] == prop and f.get('status') == 'known']
    known_ids = {f['id'] for f in findings}
    bad = [o for o in outs if o['status'] == 'bad']
    kfs = Counter(o['finding'] for o in bad if o.get('finding') in known_ids)
    viol = [o for o in bad if o.get('finding') not in known_ids]
    keys = set(str(o['key']) for o in outs
               if o['nontrivial'] and o['status'] == 'ok')
    samples = [o['sample'] for o in outs
               if o['status'] == 'ok' and o['nontrivial']
               and o['sample'] is not None][:6]
    harness = [o for o in outs if o['status'] == 'harness']
    skipped = Counter(o.get('why') for o in outs if o['status'] == 'skip')
    wall = time.time() - t0
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=len(outs) - status['unrun'],
            distinct_nontrivial=len(keys),
            rule=mod.RULE, samples=samples,
            decided=status['ok'] + len(bad),
            skipped=status['skip'], skip_reasons=dict(
                skipped.most_common(8)),
            timeouts=len(slow) - len(confirmed),
            not_run_for_time=status['unrun'],
            known_finding_hits=dict(kfs),
            monitor_observations={k: int(v) for k, v in
                                  sorted(stats.items())}),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=len(viol))
    (ROOT / 'evidence').mkdir(exist_ok=True)
    (ROOT / 'evidence' / (prop + '.json')).write_text(
        json.dumps(evidence, indent=1, default=str))
    probes = getattr(mod, 'PROBES', {})
    for f in findings:
        print("KNOWN-FINDING: property=%s %s [%s, seen in %d cases]" % (
            prop, f['what'], f['id'], kfs.get(f['id'], 0)))
    print("property=%s tier=%s seed=%d cases=%d ok=%d skip=%d bad=%d "
          "known=%d timeout=%d unrun=%d distinct=%d wall=%.1fs" % (
              prop, tier, seed, len(outs), status['ok'], status['skip'],
              len(viol), sum(kfs.values()), len(slow), status['unrun'],
              len(keys), wall))
    if verbose:
        for k, v in sorted(stats.items()):
            print("   %-40s %d" % (k, v))
        for k, v in skipped.most_common(10):
            print("   skip %-40s %d" % (k, v))
    if harness:
        print("HARNESS ERROR in %d cases, e.g. case %d: %s\n%s" % (
            len(harness), harness[0]['idx'], harness[0]['msg'],
            harness[0]['detail']['tb']))
    if viol:
        (ROOT / 'replays').mkdir(exist_ok=True)
        groups = {}
        for o in viol:
            d = o.get('detail') or {}
            g = (re.sub(r'[-+]?[0-9][0-9.e+-]*', '#', o['msg'])[:36],
                 o.get('phase'), str(d.get('at')))
            sz = len(json.dumps(o.get('info'), default=str))
            groups.setdefault(g, []).append((sz, o['idx'], o))
        shown = 0
        for g, items in sorted(groups.items(), key=lambda x: -len(x[1])):
            items.sort(key=lambda x: x[:2])
            o = items[0][2]
            path = ROOT / 'replays' / ("%s-%s-%d.json" % (
                prop, tier, o['idx']))
            path.write_text(json.dumps(dict(
                property=prop, seed=seed, tier=tier, idx=o['idx'],
                nproc=NPROC, msg=o['msg'], detail=o.get('detail'),
                info=o.get('info')), indent=1, default=str))
            if shown < maxshow:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   (%d cases) %s" % (len(items), o['msg']))
                if o.get('detail', {}).get('at'):
                    print("   at %s" % (o['detail']['at'],))
                print("   %s" % json.dumps(
                    o.get('info'), default=str)[:1500])
                if verbose and o.get('detail'):
                    for k, v in o['detail'].items():
                        if k != 'tb':
                            print("   %s = %s" % (k, str(v)[:600]))
            shown += 1
        return 1
    total = max(1, len(outs))
    if harness:
        return 3
    if dead:
        print("INCONCLUSIVE: a worker died")
        return 2
    if len(keys) == 0 or status['ok'] < 0.3 * total:
        print("INCONCLUSIVE: the deciding monitor was reached too rarely")
        return 2
    for name in getattr(mod, 'REQUIRED', ()):
        if stats.get(name, 0) == 0:
            print("INCONCLUSIVE: monitor %r never observed anything" % name)
            return 2
    return 0


def do_replay(mod, prop, js):
    sys.setrecursionlimit(1500)
    if hasattr(mod, 'setup'):
        mod.setup(js['seed'], js['tier'])
    o = run_one(mod, prop, js['seed'], js['idx'], js['tier'], 300)
    if o['status'] != 'bad':
        # reproduce the history of the worker process
        n = js.get('nproc', 8)
        for i in range(js['idx'] % n, js['idx'] + 1, n):
            o = run_one(mod, prop, js['seed'], i, js['tier'], 300)
    print(json.dumps(o, indent=1, default=str))
    return 1 if o['status'] == 'bad' else 0
