"""C07 results depend on the arguments alone, not on what was called before,
on the object that is reused, or on what runs concurrently."""
import json
import os
import pickle
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

import matplotlib
import numpy as np
import pandas as pd

from seismostats import Catalog, ForecastCatalog
from seismostats.analysis.declustering import (GardnerKnopoffType1,
                                               GardnerKnopoffWindow,
                                               GruenthalWindow,
                                               UhrhammerWindow)
from seismostats.utils import (CoordinateTransformer, get_option,
                               set_option)
from vlib import api, samples
from vlib.api import (A_ALL, B_POS, B_SIMPLE, AMorePositiveAValueEstimator,
                      BMorePositiveBValueEstimator, ClassicAValueEstimator)
from vlib.core import REPO, VERIF
from vlib.util import chance, choice, same, snapshot

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('a case is one call (of %d kinds) or one reused object whose outcome '
        'after a generated history is compared with the outcome of the same '
        'call in a fresh process / on a fresh object; all are non-trivial' %
        len(api.NAMES))
ASSUMPTIONS = ['the seed of numpy\'s global generator is an argument']
MUST = {'pristine_calls': 60, 'pristine_after_history': 60,
        'neighbour_calls': 300,
        'interleaved_calls': 300, 'held_results': 35,
        'reused_estimators': 200, 'reuse_weights_dropped': 20,
        'reuse_dmc_dropped': 20, 'reused_bootstraps': 8, 'thread_calls': 150,
        'catalog_attributes': 100, 'settings_compared': 200,
        'generator_untouched': 150, 'generator_used': 8,
        'reused_objects': 100}

CHILD = r'''
import sys, os, pickle, io, contextlib, warnings
sys.path.insert(0, %r)
from vlib import core
core.bootstrap()
warnings.simplefilter('ignore')
import numpy as np
from vlib import api
out = {}


def alone(fn):                  # in a pristine process
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        with contextlib.redirect_stdout(io.StringIO()):
            res = fn()
        with os.fdopen(w, 'wb') as f:
            f.write(pickle.dumps(res))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


for name, seed in pickle.loads(bytes.fromhex(sys.argv[1])):
    out[name, seed] = (
        alone(lambda: api.make(name, np.random.default_rng(seed)).run()),
        alone(lambda: api.after_neighbours(name, seed)))
sys.stdout.buffer.write(pickle.dumps(out))
'''


def w_pristine(m, rng, i):
    """Calls after a long history equal the same calls in fresh processes"""
    names = api.NAMES[i % 8::8]
    jobs = [(n, int(rng.integers(0, 2 ** 31))) for n in names]
    env = dict(os.environ, PYTHONHASHSEED='0', MPLBACKEND='Agg',
               VERIF_REPO=REPO)
    p = subprocess.run(
        [sys.executable, '-c', CHILD % VERIF, pickle.dumps(jobs).hex()],
        capture_output=True, timeout=140, env=env)
    if p.returncode != 0:
        raise RuntimeError(p.stderr.decode()[-1500:])
    ref = pickle.loads(p.stdout)
    m.saw('pristine_calls', len(ref))
    for (n, sd), (first, near) in ref.items():
        for how, k, got in near:
            m.saw('neighbour_calls', k)
            m.case(how, n, sd)
            m.check(same(got, first), 'neighbour_dependent',
                    'the result of %s differs after calls with %s' % (
                        n, {'near': 'nearly the same arguments', 'edited':
                            'the same objects with other contents'}[how]),
                    got=got, fresh=first, name=n)
    ref = {k: v[0] for k, v in ref.items()}
    # a history of other calls, then the calls themselves, twice
    for n in rng.choice(api.NAMES, 15):
        api.make(str(n), rng).run()
    for _ in range(2):
        for k in rng.permutation(len(jobs)):
            n, s = jobs[k]
            got = api.make(n, np.random.default_rng(s)).run()
            m.case('pristine', n, s)
            m.saw('pristine_after_history')
            m.check(same(got, ref[n, s]), 'history_dependent',
                    'the result of %s depends on what was called before in '
                    'the process' % n, got=got, fresh=ref[n, s], name=n)


def process_state():
    """settings of the process which no call may change"""
    return dict(numpy=dict(np.geterr()), filters=list(warnings.filters),
                matplotlib=dict(matplotlib.rcParams), env=dict(os.environ),
                cwd=os.getcwd(), option=get_option('warnings'),
                recursion=sys.getrecursionlimit(),
                hook=(warnings.showwarning, sys.excepthook))


def restore(state):
    np.seterr(**state['numpy'])
    for k, v in state['matplotlib'].items():
        if k != 'backend' and matplotlib.rcParams[k] != v:
            matplotlib.rcParams[k] = v
    for k in set(os.environ) - set(state['env']):
        del os.environ[k]
    os.environ.update(state['env'])
    os.chdir(state['cwd'])
    set_option('warnings', state['option'])
    sys.setrecursionlimit(state['recursion'])
    warnings.showwarning, sys.excepthook = state['hook']


def w_process(m, rng, i):
    """no call changes settings of the process, deterministic calls do not
    touch the random generator, and random ones do not seed it"""
    name = api.NAMES[i % len(api.NAMES)]
    c = api.make(name, rng)
    for attempt in range(2):    # modules imported for the first time are free
        a, kw = c.fresh()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            before = process_state()
            c.run(a, kw)
            after = process_state()
        bad = [k for k in before if before[k] != after[k]]
        if not bad:
            break
        restore(before)
    m.saw('settings_compared')
    m.case('process', name, c.seed)
    m.check(not bad, 'process_settings', '%s changed settings of the process: '
            '%s' % (name, bad), before={k: before[k] for k in bad if k not in (
                'matplotlib', 'env')})
    state = np.random.get_state()
    seeded = np.random.RandomState(c.seed).get_state()
    if name not in api.STOCHASTIC:
        m.saw('generator_untouched')
        m.check(same(state, seeded), 'generator', '%s, which is deterministic,'
                ' moves the random generator of numpy' % name)
    else:
        m.saw('generator_used')
        c.seed += 1
        c.run(*c.fresh())
        m.check(not same(np.random.get_state()[1:], state[1:]), 'generator',
                '%s seeds the random generator of numpy' % name)


def w_objects(m, rng, i):
    """windows, declusterers and transformers: reused or next to others"""
    if i % 2:
        kind = choice(rng, [GardnerKnopoffWindow, GruenthalWindow,
                            UhrhammerWindow])
        old = kind(time_cutoff=choice(rng, [None, 50.]))
        dec = GardnerKnopoffType1(old)
        n = int(rng.integers(2, 30))
        mag = np.round(rng.uniform(2, 7, n), 1)
        df = pd.DataFrame(dict(
            magnitude=mag, longitude=7 + rng.normal(0, .3, n),
            latitude=46 + rng.normal(0, .3, n),
            time=np.datetime64('2020-01-01', 's') + np.sort(rng.integers(
                0, 10 ** 7, n)).astype('timedelta64[s]')))
        for step in range(4):
            if step:    # the same magnitudes in another order, or others
                df['magnitude'] = rng.permutation(mag) if chance(rng, .7) \
                    else np.round(rng.uniform(2, 7, n), 1)
            new = kind(time_cutoff=old.time_cutoff)
            x = df['magnitude'].to_numpy()
            got = [[list(v) for v in w(x.copy())] for w in (old, new)]
            m.saw('reused_objects')
            m.case('window', kind.__name__, x.tobytes())
            m.check(same(*got), 'object_reuse', 'a reused %s gives other '
                    'windows than a fresh one' % kind.__name__, magnitudes=x,
                    reused=got[0], fresh=got[1])
            got = [list(d(df)) for d in (dec, GardnerKnopoffType1(new))]
            m.check(same(*got), 'object_reuse', 'a reused declusterer gives '
                    'another result than a fresh one', magnitudes=x,
                    reused=got[0], fresh=got[1])
        return
    # alike transformers next to each other equal themselves alone
    local = choice(rng, [2056, 32632, 'epsg:2056'])
    args = [(local, 0., 0., 0.), (local, 2.6e6, 1.2e6, 0.),
            (local, 0., 0., 0., 4258), (local, 0., 0., 0., 3857),
            (local, 8., 46., 10., 4326, 4326), (local, 8., 46., 10.)]
    pts = rng.uniform(6, 10, 3), rng.uniform(45, 48, 3)

    def evaluate(t, a):
        p = pts if len(a) < 5 or a[4] != 3857 else (pts[0] * 1.1e5,
                                                    pts[1] * 1.3e5)
        fwd = t.to_local_coords(*p)
        return fwd, t.from_local_coords(fwd[0], fwd[1])
    alone = [evaluate(CoordinateTransformer(*a), a) for a in args]
    order = rng.permutation(len(args))
    ts = {int(j): CoordinateTransformer(*args[j]) for j in order}
    for j, t in ts.items():
        got = evaluate(t, args[j])
        m.saw('reused_objects')
        m.case('transformer', local, args[j], i)
        m.check(same(api.norm(got), api.norm(alone[j])), 'object_neighbours',
                'a transformer depends on the order in which others were '
                'created', args=args[j], got=got, first=alone[j])
        x, y = evaluate(t, args[j])[1][:2]
        p = pts if len(args[j]) < 5 or args[j][4] != 3857 else (
            pts[0] * 1.1e5, pts[1] * 1.3e5)
        m.check(np.allclose(x, p[0], rtol=1e-6) and np.allclose(
            y, p[1], rtol=1e-6), 'object_neighbours', 'a transformer does not '
            'invert itself next to others', args=args[j])


def w_interleave(m, rng, i):
    k = int(rng.integers(3, 7))
    calls = [api.make(choice(rng, api.NAMES), rng) for _ in range(k)]
    if chance(rng, .3):         # several calls of the same kind
        n = choice(rng, api.NAMES)
        calls += [api.make(n, rng) for _ in range(3)]
    first = {}
    order = list(range(len(calls))) * 3
    rng.shuffle(order)
    for j in order:
        c = calls[j]
        a, kw = c.fresh()
        got = c.run(a, kw)
        m.saw('interleaved_calls')
        if j not in first:
            m.sample(history=[calls[x].name for x in order])
            first[j] = (got, snapshot(got))
            m.case(c.name, c.seed)
        else:
            m.check(same(got, first[j][1]), 'history_dependent',
                    'repeating %s with equal arguments gives another result '
                    'after calling %s' % (
                        c.name, sorted({calls[x].name for x in order})),
                    got=got, first=first[j][1])
    for j, (res, copy) in first.items():
        m.check(same(res, copy), 'result_changed_later', 'a result of %s was '
                'changed by later calls' % calls[j].name)
    # results held by the caller (not detached) do not change either
    c = choice(rng, calls)
    if c.name not in api.PLOTS:
        np.random.seed(c.seed)
        try:
            a, kw = c.fresh()
            raw = c.fn(*a, **kw)
        except Exception:       # noqa
            return
        before = api.norm(raw)
        for o in calls:
            o.run(*o.fresh())
        m.saw('held_results')
        m.check(same(api.norm(raw), before), 'held_result_changed',
                'the result of %s held by the caller was changed by later '
                'calls' % c.name)


def b_attrs(e):
    d = api.norm(e)
    if type(e).__name__.startswith('BMore'):
        return d
    d['std_beta'] = e.std_beta
    return d


def seeded_std(e):
    """the bootstrapped uncertainty with every unseeded generator seeded"""
    orig = np.random.default_rng
    np.random.default_rng = \
        lambda seed=None: orig(12345 if seed is None else seed)
    np.random.seed(12345)
    try:
        return e.std
    except ValueError as ex:        # no valid estimates
        return str(ex)
    finally:
        np.random.default_rng = orig


def w_reuse(m, rng, i):
    """one estimator object for a sequence of samples"""
    cls = choice(rng, B_SIMPLE + B_POS + A_ALL)
    is_a = cls in A_ALL
    old = cls()
    hist = []
    for step in range(int(rng.integers(2, 5))):
        if not hist or chance(rng, .6):
            ds, k, x = samples.binned(rng, 120)
            n = len(x)
            d = float(ds)
            mc = float(samples.canon(np.array([int(np.median(k)) if chance(
                rng, .8) else int(k.max()) + 3]), ds)[0])
        else:               # the same sample with other arguments
            m.saw('reuse_same_sample')
        kw = {}
        if cls in B_POS or (is_a and cls is not ClassicAValueEstimator):
            kw['times'] = samples.times(rng, n, 'dt64ns')[1]
            if chance(rng, .5):
                kw['dmc'] = d * int(rng.integers(1, 4))
        if is_a:
            if chance(rng, .5) or cls is AMorePositiveAValueEstimator:
                kw['b_value'] = float(rng.uniform(.7, 1.5))
                if chance(rng, .5):
                    kw['m_ref'] = 0.0
            if chance(rng, .5):
                kw['scaling_factor'] = float(rng.uniform(.5, 9))
        elif chance(rng, .6):
            kw['weights'] = rng.uniform(.2, 2, n)
        if hist:
            if 'weights' in hist[-1] and 'weights' not in kw:
                m.saw('reuse_weights_dropped')
            if 'dmc' in hist[-1] and 'dmc' not in kw:
                m.saw('reuse_dmc_dropped')
        hist.append(kw)
        fresh = cls()
        out = []
        for e in (old, fresh):
            try:
                v = e.calculate(x.copy(), mc, d, **snapshot(kw))
                out.append(('ok', v, b_attrs(e) if not is_a else api.norm(e)))
            except (ValueError, IndexError, AttributeError,
                    ZeroDivisionError) as ex:
                out.append(('raised', type(ex).__name__, str(ex)))
        m.case(cls.__name__, step, n, mc, sorted(kw))
        m.saw('reused_estimators')
        m.check(same(out[0], out[1]), 'estimator_reuse',
                'a reused %s gives another outcome than a fresh one' %
                cls.__name__, reused=out[0], fresh=out[1], history=hist)
        if cls is BMorePositiveBValueEstimator and out[1][0] == 'ok' and \
                n < 60:
            again = cls()
            again.calculate(x.copy(), mc, d, **snapshot(kw))
            std = [seeded_std(e) for e in (fresh, again)]
            if same(*std):      # the generator could be controlled
                m.saw('reused_bootstraps')
                m.check(same(seeded_std(old), std[0]), 'estimator_reuse',
                        'the bootstrapped uncertainty of a reused estimator '
                        'differs from that of a fresh one', history=hist)


def w_threads(m, rng, i):
    """the same calls from several threads at once"""
    names = [n for n in api.NAMES
             if n not in api.STOCHASTIC and n not in api.PLOTS and
             n not in ('bootstrap_std',)]
    calls = [api.make(choice(rng, names), rng) for _ in range(6)]
    same_kind = choice(rng, names)
    calls += [api.make(same_kind, rng) for _ in range(4)]

    def run(c):
        a, kw = c.fresh()
        try:
            return ('ok', api.norm(c.fn(*a, **kw)))
        except Exception as e:          # noqa
            return ('raised', type(e).__name__, str(e))
    ref = [run(c) for c in calls]
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        with ThreadPoolExecutor(5) as ex:
            jobs = [int(j) for j in rng.permutation(
                np.repeat(np.arange(len(calls)), 3))]
            res = list(ex.map(lambda j: run(calls[j]), jobs))
    finally:
        sys.setswitchinterval(old)
    m.case('threads', [c.name for c in calls], i)
    for j, got in zip(jobs, res):
        m.saw('thread_calls')
        m.check(same(got, ref[j]), 'concurrent_calls', 'the result of %s '
                'differs when other calls run concurrently' % calls[j].name,
                got=got, serial=ref[j])


META = ['name', 'mc', 'a_value', 'delta_m', 'b_value', 'starttime', 'endtime',
        'bounding_polygon', 'depth_min', 'depth_max']


def w_catalogs(m, rng, i):
    """attributes belong to one catalogue, never to the class or to others"""
    cats = [api.catalog(rng, 60) for _ in range(3)]
    cats[1] = cats[0].copy()
    for step in range(8):
        j = int(rng.integers(0, 3))
        c = cats[j]
        others = [snapshot({k: getattr(o, k) for k in META})
                  for n, o in enumerate(cats) if n != j]
        op = int(rng.integers(0, 6))
        if op == 0:
            c.estimate_b(mc=2.0)
        elif op == 1:
            c.estimate_a()
        elif op == 2:
            c.estimate_mc_maxc(0.1)
        elif op == 3:
            c.bin_magnitudes(0.2, inplace=True)
            c.bin_magnitudes(0.1, inplace=True)
        elif op == 4:
            c.name = 'x%d' % step
            c.mc = 1.0
        else:
            c.estimate_mc_b_stability()
            c.mc = 1.5
        now = [{k: getattr(o, k) for k in META}
               for n, o in enumerate(cats) if n != j]
        m.saw('catalog_attributes')
        m.check(same(others, now), 'attributes_shared', 'working with one '
                'catalogue changed the attributes of another one',
                before=others, after=now, op=op)
        new = choice(rng, [
            lambda: Catalog({'magnitude': [1.0]}),
            lambda: ForecastCatalog({'magnitude': [1.0], 'catalog_id': [0]}),
            lambda: Catalog(),
            lambda: Catalog.from_dict([{'magnitude': 1.0}])])()
        vals = {k: getattr(new, k) for k in META}
        m.check(all(v is None for v in vals.values()), 'attributes_leak',
                'a new catalogue has attributes of an earlier one', vals=vals)
    m.case('catalogs', i)
    m.check(get_option('warnings') is True, 'option_leak',
            'the warnings option was changed by the calls')


WORKLOADS = [('pristine', w_pristine, 8, 64),
             ('interleave', w_interleave, 90, 1500),
             ('process', w_process, 6 * len(api.NAMES), 16 * len(api.NAMES)),
             ('objects', w_objects, 60, 1500),
             ('reuse', w_reuse, 240, 6000),
             ('threads', w_threads, 24, 400),
             ('catalogs', w_catalogs, 24, 300)]
