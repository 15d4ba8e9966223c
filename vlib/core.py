"""Workload driver, monitors' verdict discipline, evidence and replay.

A check module (checks/<id>.py) declares
    PROPERTY, LEVEL, RULE, WORKLOADS, MUST   (and optionally ASSUMPTIONS,
    OPENQUAKE, QUICK_BUDGET, THOROUGH_BUDGET, post(state))
A workload is (name, function, quick_count, thorough_count); the function is
called as fn(m, rng, i) for i in range(count): `m` is the Monitor of the case,
`rng` a numpy Generator that depends only on (VERIF_SEED, property, workload,
i), so every case can be replayed alone.

Verdicts are three-valued: 1 = violated (VIOLATION line + replay file), 0 =
held on what was observed, 2 = inconclusive (an event class that the deciding
oracle needs was observed fewer times than MUST demands, or the harness died).
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '150'))
MAX_VIOL_PER_MECH = 3
FAIL_FAST = os.environ.get('VERIF_FAIL_FAST') == '1'    # tools/mutate.py


class Hang(BaseException):
    pass


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Stop(Exception):
    """A violation was recorded and the rest of the case is meaningless."""


class Monitor:
    """Per-case observer: collects events, distinct keys and violations."""

    def __init__(self, prop, workload, index, seed, tier):
        self.prop, self.workload, self.index = prop, workload, index
        self.seed, self.tier = seed, tier
        self.events = {}
        self.keys = []
        self.evals = 0
        self.sample_ = None
        self.viol = []
        self.thorough = tier == 'thorough'

    # ---- observation ------------------------------------------------------
    def saw(self, event, n=1):
        self.events[event] = self.events.get(event, 0) + int(n)

    def case(self, *key, nontrivial=True, n=1):
        """One evaluated oracle case; `key` identifies it for distinctness."""
        self.evals += n
        if nontrivial:
            key = repr((self.workload,) + key).encode('utf8', 'replace')
            h = hashlib.blake2b(key,
                                digest_size=8).digest()
            self.keys.append(h)

    def sample(self, **kw):
        if self.sample_ is None:
            self.sample_ = {k: _short(v) for k, v in kw.items()}

    # ---- verdicts ---------------------------------------------------------
    def fail(self, mech, msg, **details):
        if sum(v['mechanism'] == mech for v in self.viol) < 2:
            self.viol.append(dict(
                mechanism=mech, message=msg,
                details={k: _short(v, 1500) for k, v in details.items()}))

    def check(self, cond, mech, msg, **details):
        self.saw('oracle_evaluations')
        if not cond:
            self.fail(mech, msg, **details)
        return bool(cond)

    def require(self, cond, mech, msg, **details):
        if not self.check(cond, mech, msg, **details):
            raise Stop()


def _short(v, n=400):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


# --------------------------------------------------------------------------
def bootstrap(openquake=False):
    """Make the package under test importable from REPO's working tree."""
    if not openquake:
        # importing openquake costs seconds and is irrelevant to all checks
        # but the openquake one; the package treats it as optional.
        for name in ('openquake', 'openquake.hmtk'):
            sys.modules.setdefault(name, None)
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    warnings.showwarning = lambda *a, **k: None
    import seismostats
    f = os.path.realpath(seismostats.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('imported seismostats from ' + f)
    import logging
    logging.getLogger('seismostats').setLevel(logging.CRITICAL)


def _alarm(signum, frame):
    raise Hang()


def run_case(mod, wname, fn, i, seed, tier):
    import numpy as np
    m = Monitor(mod.PROPERTY, wname, i, seed, tier)
    rng = np.random.default_rng(
        [seed, zlib.crc32(mod.PROPERTY.encode()), zlib.crc32(wname.encode()),
         i])
    # code under test may use the legacy global generator
    np.random.seed(int(rng.integers(0, 2**31)))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            fn(m, rng, i)
    except Discard:
        m.saw('discarded')
    except Stop:
        pass
    except Hang:
        m.fail('hang', 'case did not return within %d s' % CASE_TIMEOUT)
    except (MemoryError, KeyboardInterrupt):
        raise
    except OSError as e:
        if e.errno in (28, 12, 24):     # ENOSPC, ENOMEM, EMFILE
            raise
        _crash(m, e)
    except Exception as e:              # noqa
        _crash(m, e)
    finally:
        signal.alarm(0)
    return m


def _crash(m, e):
    tb = traceback.extract_tb(e.__traceback__)
    inside = [f for f in tb if f.filename.startswith(REPO)]
    where = ('%s:%s' % (os.path.relpath(inside[-1].filename, REPO),
                        inside[-1].name)) if inside else 'oracle'
    m.fail('exception:%s@%s' % (type(e).__name__, where),
           'valid input made the code (or the oracle reading its result) '
           'raise %s: %s' % (type(e).__name__, _short(str(e), 300)),
           traceback=''.join(traceback.format_exception(e))[-2500:])


class Agg:
    def __init__(self):
        self.events, self.keys, self.evals = {}, set(), 0
        self.samples, self.viol, self.cases = [], [], {}
        self.skipped = 0

    def add(self, m):
        for k, v in m.events.items():
            self.events[k] = self.events.get(k, 0) + v
        self.keys.update(m.keys)
        self.evals += m.evals
        self.cases[m.workload] = self.cases.get(m.workload, 0) + 1
        if m.sample_ is not None and \
                sum(s['workload'] == m.workload for s in self.samples) < 2:
            self.samples.append(dict(workload=m.workload, index=m.index,
                                     case=m.sample_))
        for v in m.viol:
            same = [x for x in self.viol if x['mechanism'] == v['mechanism']]
            if len(same) < MAX_VIOL_PER_MECH:
                self.viol.append(dict(v, workload=m.workload, index=m.index))

    def merge(self, o):
        for k, v in o.events.items():
            self.events[k] = self.events.get(k, 0) + v
        self.keys |= o.keys
        self.evals += o.evals
        self.skipped += o.skipped
        for k, v in o.cases.items():
            self.cases[k] = self.cases.get(k, 0) + v
        self.samples += o.samples
        self.viol += o.viol


def _shard(args):
    modname, shard, nshards, seed, tier, deadline = args
    mod = sys.modules[modname]
    agg = Agg()
    jobs = []
    for wname, fn, q, t in mod.WORKLOADS:
        n = t if tier == 'thorough' else q
        jobs += [((i + 1) / max(n, 1), wname, fn, i) for i in range(n)]
    # interleave the workloads so that a deadline cuts all of them alike
    jobs.sort(key=lambda j: (j[0], j[1]))
    for k, (_, wname, fn, i) in enumerate(jobs):
        if k % nshards != shard:
            continue
        if time.time() > deadline:
            agg.skipped += 1
            continue
        agg.add(run_case(mod, wname, fn, i, seed, tier))
        if FAIL_FAST and agg.viol:
            break
    return agg


# --------------------------------------------------------------------------
def known_findings(prop):
    """[(mechanism prefix, text)] for the property."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                mech, text = rest.split(' ', 1)
                assert mech.startswith('mechanism=')
                out.append((mech[len('mechanism='):], text))
    return out


def main(argv):
    if argv[:1] == ['--selftest']:
        bootstrap()
        import seismostats
        print('package importable from', seismostats.__file__)
        return 0
    prop = argv[0]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = zlib.crc32(os.environ['VERIF_SEED'].encode())
    seed = abs(seed) % (2 ** 31)
    t0 = time.time()

    mods = [f[:-3] for f in os.listdir(os.path.join(VERIF, 'checks'))
            if f.lower().startswith(prop.lower() + '_') and f.endswith('.py')]
    if len(mods) != 1:
        print('no single check module for', prop, mods)
        return 2
    try:
        src = open(os.path.join(VERIF, 'checks', mods[0] + '.py')).read()
        bootstrap(openquake='OPENQUAKE = True' in src)
        mod = importlib.import_module('checks.' + mods[0])
    except Exception:           # noqa
        traceback.print_exc()
        print('INCONCLUSIVE property=%s the package or the check could not be '
              'imported' % prop)
        return 2

    if replay:
        r = json.load(open(replay))
        fn = {w[0]: w[1] for w in mod.WORKLOADS}[r['workload']]
        m = run_case(mod, r['workload'], fn, r['index'], r['seed'], r['tier'])
        for v in m.viol:
            print(json.dumps(v, indent=1))
        print('replayed: %d violation(s)' % len(m.viol))
        return 1 if m.viol else 0

    budget = getattr(mod, 'THOROUGH_BUDGET' if tier == 'thorough'
                     else 'QUICK_BUDGET', 700 if tier == 'thorough' else 500)
    deadline = t0 + budget
    nproc = int(os.environ.get('VERIF_PROCS', '0')) or min(
        getattr(mod, 'PROCS', 8), os.cpu_count() or 1)
    agg = Agg()
    tasks = [(mod.__name__, s, nproc, seed, tier, deadline)
             for s in range(nproc)]
    died = None
    try:
        if nproc == 1:
            agg.merge(_shard(tasks[0]))
        else:
            import concurrent.futures as cf
            with cf.ProcessPoolExecutor(
                    nproc, mp_context=mp.get_context('fork')) as ex:
                for a in ex.map(_shard, tasks):
                    agg.merge(a)
    except Exception as e:      # noqa  (a worker died: OOM and the like)
        died = repr(e)
        traceback.print_exc()

    extra = {}
    if hasattr(mod, 'post') and died is None:
        m = Monitor(prop, 'post', 0, seed, tier)
        extra = mod.post(m, agg) or {}
        agg.add(m)

    # ------------------------------------------------------------ verdict
    known = known_findings(prop)
    fresh, seen_known = [], {}
    for v in agg.viol:
        hit = [k for k in known if v['mechanism'] == k[0]]
        if hit:
            seen_known[hit[0][0]] = seen_known.get(hit[0][0], 0) + 1
        else:
            fresh.append(v)
    for mech, text in known:
        print('KNOWN-FINDING: property=%s %s [mechanism %s, %s on this run]' %
              (prop, text, mech,
               'observed' if seen_known.get(mech) else 'not observed'))

    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    # one line per mechanism
    by_mech = {}
    for v in fresh:
        by_mech.setdefault(v['mechanism'], v)
    for n, (mech, v) in enumerate(by_mech.items()):
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, tier=tier, seed=seed,
                       workload=v['workload'], index=v['index'],
                       mechanism=mech, message=v['message'],
                       details=v['details']), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   [%s] %s' % (mech, v['message']))
        for k, d in list(v['details'].items())[:8]:
            print('     %s = %s' % (k, _short(d, 900)))

    missing = {k: (agg.events.get(k, 0), n) for k, n in mod.MUST.items()
               if agg.events.get(k, 0) < n}
    wall = time.time() - t0
    per = {}
    for s in sorted(agg.samples, key=lambda s: (s['workload'], s['index'])):
        per.setdefault(s['workload'], []).append(s)
    samples = [s for w in per for s in per[w][:2]] or [dict(note='none')]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=agg.evals, distinct_nontrivial=len(agg.keys),
            rule=mod.RULE, samples=samples[:12],
            cases_per_workload=agg.cases, observed_events=agg.events,
            required_events=mod.MUST, cases_skipped_by_deadline=agg.skipped,
            known_findings_observed=seen_known, **extra),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=len(by_mech))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print('%s %s seed=%d: %d oracle cases (%d distinct non-trivial), %d '
          'events, %.1f s' % (prop, tier, seed, agg.evals, len(agg.keys),
                              sum(agg.events.values()), wall))
    if by_mech:
        return 1
    if died or missing:
        print('INCONCLUSIVE property=%s %s' % (prop, died or
              'too few observations: ' + json.dumps(missing)))
        return 2
    return 0
