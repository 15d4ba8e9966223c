"""C30 plots draw exactly the data: what a reader takes from the figure is what
the functions documented for it give."""
import datetime as dt
import math
import os
import shutil
import tempfile
from decimal import Decimal

import cartopy.crs as ccrs
import cartopy.io.img_tiles as img_tiles
import cartopy.io.shapereader as shapereader
import geopandas
import matplotlib
import matplotlib.dates as mdates
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import shapely
from matplotlib.colors import to_rgb, to_rgba_array
from PIL import Image
from scipy.stats import norm

from seismostats.analysis import (BMorePositiveBValueEstimator,
                                  BPositiveBValueEstimator,
                                  ClassicBValueEstimator,
                                  UtsuBValueEstimator, b_significant_1D)
from seismostats.plots import (dot_size, plot_b_series_constant_nm,
                               plot_b_significant_1D, plot_cum_count,
                               plot_cum_fmd, plot_fmd, plot_in_space,
                               plot_mags_in_time, plot_mc_vs_b)
from seismostats.plots.basics import gutenberg_richter, reverse_dot_size
from vlib import ref, samples
from vlib.util import chance, choice, close

matplotlib.use('Agg')
PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = ('a case is one plotting call; the data of everything it draws '
        '(points, sizes, lines, bands, legend entries) are read back from the '
        'axes and compared with the values computed from the arguments; '
        'non-trivial when more than one point is drawn')
ASSUMPTIONS = ['markers, axis limits and colours nobody asked for are free (apart from '
               'maps showing all events)', 'event times and x-variables are '
               'distinct', 'values come from the estimators where other '
               'checks decide these (C04, C05, C14)']
MUST = {'plots': 250, 'points': 5000, 'cum_fmd': 40, 'fmd': 25,
        'gr_lines': 25, 'weighted': 40, 'left': 25, 'cum_count': 40,
        'count_lines': 60, 'mags_in_time': 30, 'mc_steps': 10, 'dates': 15,
        'dot_sizes': 50, 'space': 8, 'space_again': 3, 'background': 4,
        'country': 2, 'color_map': 4, 'legend_sizes': 10, 'mc_vs_b': 18,
        'bands': 60, 'series': 40, 'series_values': 500, 'series_gaps': 10,
        'series_mcs': 10, 'series_sorted': 15, 'significance': 8,
        'red_dots': 2, 'given_axes': 80, 'new_axes': 80, 'earlier_kept': 20,
        'missing': 15, 'colors': 60, 'color_values': 10, 'passed_on': 8}

EST = [ClassicBValueEstimator] * 4 + [UtsuBValueEstimator] * 2 + [
    BPositiveBValueEstimator] * 4 + [BMorePositiveBValueEstimator]


class Stage:
    """axes to draw on, with or without something drawn on them before"""

    def __init__(self, m, rng, given=None, **kw):
        plt.close('all')
        self.m = m
        self.other = plt.figure().subplots()
        self.other.plot([1, 2], [3, 4])
        self.image = self.other.imshow([[1., 2.], [3., 4.]], cmap='magma')
        self.given = chance(rng, .6) if given is None else given
        self.kw = {}
        self.base = [0, 0]
        self.before = None
        if self.given:
            m.saw('given_axes')
            self.ax = plt.figure().subplots(subplot_kw=kw)
            self.kw['ax'] = self.ax
            if chance(rng, .5):
                plt.figure()        # another figure is the current one
        else:
            m.saw('new_axes')
            if kw:
                plt.figure()
        self.figs = plt.get_fignums()
        self.params = dict(plt.rcParams)

    def done(self, ax, mech):
        m = self.m
        m.saw('plots')
        if self.given:
            m.check(ax is self.ax, mech, 'not the given axes returned')
            m.check(plt.get_fignums() == self.figs, mech,
                    'a figure was created although axes were given')
        else:
            m.check(isinstance(ax, plt.Axes) and ax is not self.other, mech,
                    'no (new) axes returned')
        lines = self.other.get_lines()
        m.check(len(lines) == 1 and not self.other.collections
                and list(lines[0].get_ydata()) == [3, 4], mech,
                'drawn on other axes')
        m.check(self.other.get_images() == [self.image]
                and self.image.get_cmap().name == 'magma', mech,
                'the image on other axes was changed')
        now = dict(plt.rcParams)
        m.check(now == self.params, mech, 'settings of matplotlib changed',
                settings=[k for k in now if now[k] != self.params.get(k)])


def num(x):
    x = np.asarray(x)
    if x.dtype.kind in 'Mm' or x.dtype == object:
        if len(x) == 0:
            return np.array([])
        return np.asarray(mdates.date2num(pd.to_datetime(
            pd.Series(x)).to_numpy()), float)
    return x.astype(float)


def line_data(line):
    return num(line.get_xdata(orig=True)), np.asarray(
        line.get_ydata(orig=True), float)


def same_points(got, want, atol=1e-9):
    (gx, gy), (wx, wy) = got, want
    return close(gx, wx, rtol=1e-9, atol=atol) and close(
        gy, wy, rtol=1e-8, atol=1e-9)


def expect_lines(m, ax, wants, mech, skip=0):
    lines = [line_data(ln) for ln in ax.get_lines()[skip:]]
    left = list(range(len(lines)))
    for name, w in wants:
        w = (num(w[0]), np.asarray(w[1], float))
        hit = next((k for k in left if same_points(lines[k], w)), None)
        if m.check(hit is not None, f'{mech}:{name}', 'no line shows these '
                   'values', want=w, got=lines):
            left.remove(hit)
        m.saw('points', len(w[0]))
    m.check(not left, f'{mech}:extra lines', 'other lines are drawn', got=[lines[k] for k in left])


def expect_band(m, ax, x, lo, hi, mech, skip=0, rough=False):
    """the band covers lo..hi at every x"""
    m.saw('bands')
    polys = ax.collections[skip:]
    if not m.check(len(polys) == 1, f'{mech}:band', f'{len(polys)} bands'):
        return
    v = np.concatenate([p.vertices for p in polys[0].get_paths()]) if \
        polys[0].get_paths() else np.empty((0, 2))
    x, lo, hi = num(x), np.asarray(lo, float), np.asarray(hi, float)
    ok = np.isfinite(lo) & np.isfinite(hi)
    want = np.concatenate([np.c_[x[ok], lo[ok]], np.c_[x[ok], hi[ok]]])
    v = v[np.isfinite(v).all(axis=1)]
    if len(want) == 0:
        m.check(len(v) == 0, f'{mech}:band', 'a band without values')
        return

    if rough:          # standard deviations are bootstrapped, at random
        m.check(len(want) == len(v) or len(v) > len(want), f'{mech}:band',
                'limits of the band are missing', got=len(v), want=len(want))
        mid = (lo + hi) / 2
        for px, q in zip(x[ok], np.flatnonzero(ok)):
            ys = v[np.abs(v[:, 0] - px) <= 1e-8 * max(1, abs(px)), 1]
            m.check(len(ys) and close((ys.min() + ys.max()) / 2, mid[q],
                                      rtol=1e-6, atol=1e-6),
                    f'{mech}:band', 'the band is not around the values',
                    at=px, got=ys, mid=mid[q])
        return

    def covered(a, b):
        scale = np.maximum(np.abs(b), 1)
        return all(bool(np.any(np.all(np.abs(b - p) <= 1e-8 * scale, axis=1)))
                   for p in a)
    m.check(covered(want, v), f'{mech}:band', 'limits of the band are missing',
            want=want[:8], got=v[:8])
    m.check(covered(v, want), f'{mech}:band', 'the band has other limits',
            want=want[:8], got=v[:8])


def offsets(m, coll, x, y, sizes, mech):
    o = np.asarray(np.ma.filled(coll.get_offsets().astype(float), np.nan))
    want = np.c_[num(x), np.asarray(y, float)]
    m.saw('points', len(want))
    if not m.check(o.shape == want.shape, f'{mech}:number',
                   'number of points', got=o.shape, want=want.shape):
        return
    m.check(close(o, want), f'{mech}:positions', 'points are elsewhere',
            got=o[:6], want=want[:6])
    if sizes is not None:
        s = np.asarray(coll.get_sizes(), float)
        if np.ndim(sizes) == 0:
            sizes = np.full(len(s), float(sizes))
        m.check(close(s, sizes, rtol=1e-8), f'{mech}:sizes', 'sizes of points',
                got=s[:6], want=np.asarray(sizes)[:6])


def colored(m, artist, color, mech):
    """the artist has the colour asked for (transparency is free)"""
    if color is None:
        return
    c = artist.get_facecolor() if hasattr(artist, 'get_facecolor') else \
        artist.get_color()
    got = to_rgba_array(c)[:, :3]
    m.saw('colors')
    m.check(len(got) and np.allclose(got, to_rgb(color), atol=1e-6), mech,
            'not in the colour asked for', got=got[:3], want=color)


COLORS = ['red', 'g', '#123456', 'tab:orange', 'C3']


# -- frequency-magnitude distributions

def fmd_sample(m, rng):
    ds, k, x = samples.binned(rng, nmin=1)
    q = int(choice(rng, [1, 1, 1, 2, 3, 5]))
    bs = str(Decimal(ds) * q)
    kk = (2 * k + q) // (2 * q)      # nearest, halves up
    w = samples.weights(rng, len(k)) if chance(rng, .4) else None
    if w is not None and not np.sum(w) > 0:
        w = None
    return bs, kk, x, w


def with_missing(m, rng, x, w):
    """insert missing magnitudes, and choose the container"""
    if chance(rng, .3):
        m.saw('missing')
        at = rng.integers(0, len(x) + 1, int(rng.integers(1, 4)))
        x = np.insert(x, at, np.nan)
        w = None if w is None else np.insert(w, at, 7.)
    if chance(rng, .4):
        p = rng.permutation(len(x))
        x = pd.Series(x, index=p)
        if w is not None and chance(rng, .5):
            w = pd.Series(w, index=p)
    elif w is not None and chance(rng, .3):
        w = list(w)
    return x, w


def grid_counts(kk, w, bs):
    lo, hi = int(kk.min()), int(kk.max())
    c = np.zeros(hi - lo + 1)
    np.add.at(c, kk - lo, 1. if w is None else np.asarray(w, float))
    bins = np.array([float(int(b) * Decimal(bs)) for b in range(lo, hi + 1)])
    return bins, c


def w_fmd(m, rng, i):
    bs, kk, x, w = fmd_sample(m, rng)
    d = float(bs)
    cum = chance(rng, .6)
    bins, c = grid_counts(kk, w, bs)
    zero = cum and chance(rng, .2)
    if zero:                 # every distinct magnitude
        u = np.unique(x)
        d, bins = 0., u
        ww = np.ones(len(x)) if w is None else np.asarray(w, float)
        c = np.array([math.fsum(ww[x >= v]) for v in u])
    elif cum:
        c = np.cumsum(c[::-1])[::-1]
    pos = choice(rng, ['center', 'center', 'left'])
    m.saw('left', pos == 'left')
    m.saw('weighted', w is not None)
    xa, wa = with_missing(m, rng, x, w)
    kw = dict(weights=wa) if wa is not None else {}
    if pos != 'center' or chance(rng, .3):
        kw['bin_position'] = pos
    if chance(rng, .4):
        kw['size'] = int(rng.integers(5, 80))
    lab = choice(rng, [True, False, 'events'])
    if lab is not True:
        kw['label'] = lab
    col = None
    if chance(rng, .4):
        col = kw['color'] = choice(rng, COLORS)
    st = Stage(m, rng)
    shown = bins - (d / 2 if pos == 'left' else 0)
    if not cum:
        m.saw('fmd')
        ax = plot_fmd(xa, d, **kw, **st.kw)
        offsets(m, ax.collections[0], shown, c, kw.get('size'), 'fmd')
        colored(m, ax.collections[0], col, 'fmd:color')
        m.check(len(ax.collections) == 1 and not ax.get_lines(), 'fmd:extra',
                'more than the points is drawn')
        st.done(ax, 'fmd:axes')
        legend(m, ax, [] if lab is False else [
            'non cumulative' if lab is True else lab], 'fmd:legend')
    else:
        m.saw('cum_fmd')
        b = mc = None
        lines, labels = [], []
        if lab is not False:
            labels.append('cumulative' if lab is True else lab)
        if chance(rng, .7):
            b = float(rng.uniform(.4, 2))
            kw['b_value'] = b
            j = 0
            if chance(rng, .7):
                j = int(rng.integers(0, len(bins)))
                mc = float(bins[j])
                kw['mc'] = mc
            if chance(rng, .4):
                kw['color_line'] = choice(rng, COLORS)
            gl = choice(rng, [True, False, 'law'])
            if gl is not True:
                kw['label_line'] = gl
            if gl is not False:
                labels.append(f'GR fit, b={b:.2f}' if gl is True else gl)
            y = c[j] * 10 ** (-b * (bins[j:] - bins[j]))
            lines = [('line', (shown[j:], y))]
            m.saw('gr_lines')
        if d or chance(rng, .5):
            kw['fmd_bin'] = d
        ax = plot_cum_fmd(xa, **kw, **st.kw)
        offsets(m, ax.collections[0], shown, c, kw.get('size'), 'cum_fmd')
        expect_lines(m, ax, lines, 'cum_fmd')
        colored(m, ax.collections[0], col, 'cum_fmd:color')
        for ln in ax.get_lines()[:len(lines)]:
            colored(m, ln, kw.get('color_line', col), 'cum_fmd:color')
        m.check(len(ax.collections) == 1, 'cum_fmd:extra', 'more points')
        st.done(ax, 'cum_fmd:axes')
        legend(m, ax, labels, 'cum_fmd:legend')
    m.case(cum, bs, pos, x.tobytes(), nontrivial=len(bins) > 1)
    m.sample(bin=bs, bins=shown[:5], counts=c[:5])


def legend(m, ax, labels, mech):
    leg = ax.get_legend()
    got = [t.get_text() for t in leg.get_texts()] if leg else []
    m.check(sorted(got) == sorted(labels), mech, 'legend', got=got,
            want=labels)


def w_law(m, rng, i):
    """the law itself, and the sizes of dots and back"""
    x = rng.uniform(-1, 8, int(rng.integers(1, 9)))
    b, mc, n = rng.uniform(.3, 2.5), rng.uniform(-1, 5), rng.integers(1, 9999)
    y = gutenberg_richter(x, b, mc, n)
    m.check(close(y, [n * math.exp(-b * math.log(10) * (v - mc)) for v in x],
                  rtol=1e-10), 'law', 'Gutenberg-Richter law')
    mags = np.round(rng.uniform(-1, 8, int(choice(rng, [1, 2, 7, 40]))), 1)
    if chance(rng, .2):
        mags[:] = mags[0]
    lo = float(choice(rng, [1, 10, rng.uniform(1, 30)]))
    hi = lo + float(choice(rng, [rng.uniform(1, 400), rng.uniform(.05, 1)]))
    p = choice(rng, [1, 2, 3, .5, .3])
    s = dot_size(mags, smallest=lo, largest=hi, interpolation_power=p)
    m.saw('dot_sizes')
    want = ref_sizes(mags, lo, hi, p)
    m.check(close(s, want, rtol=1e-9), 'dot_size', 'sizes of dots', got=s[:5],
            want=want[:5])
    if chance(rng, .4):     # missing magnitudes have no size
        m.saw('missing_sizes')
        j = int(rng.integers(0, len(mags) + 1))
        s = dot_size(np.insert(mags, j, np.nan), smallest=lo, largest=hi,
                     interpolation_power=p)
        m.check(close(np.delete(s, j), want, rtol=1e-9), 'dot_size',
                'a missing magnitude changes the sizes of other dots',
                got=s[:5], want=want[:5])
    back = reverse_dot_size(np.asarray(want), mags.min(), mags.max(), p)
    m.check(close(back, mags, rtol=1e-6, atol=1e-6), 'reverse_dot_size',
            'sizes do not map back to the magnitudes', got=back[:5],
            want=mags[:5])
    m.case(mags.tobytes(), lo, hi, p, nontrivial=len(mags) > 1)


def ref_sizes(mags, lo, hi, p):
    mags = np.asarray(mags, float)
    a, b = mags.min(), mags.max()
    if a == b:
        return np.full(len(mags), hi)
    return np.array([lo + (hi - lo) * ((v - a) / (b - a)) ** p for v in mags])


# -- events in time and space

def event_times(m, rng, n):
    kind = choice(rng, ['float', 'int', 'dt64', 'dates', 'ts'])
    kind, t, order, _ = samples.times(rng, n, kind)
    m.saw('dates', kind in ('dt64', 'dates', 'ts'))
    return t, order, kind


def w_count(m, rng, i):
    ds, k, x = samples.binned(rng, nmin=1, nmax=80)
    d = float(ds)
    n = len(k)
    t, order, kind = event_times(m, rng, n)
    w = samples.weights(rng, n) if chance(rng, .4) else None
    m.saw('weighted', w is not None)
    kw = {}
    if chance(rng, .7):
        ks = sorted(set(int(v) for v in rng.integers(
            k.min() - 1, k.max() + 2, int(rng.integers(1, 4)))))
        if chance(rng, .3):
            ks = ks[::-1]
        mcs = [float(v * Decimal(ds)) for v in ks]
        kw['mcs'] = mcs if chance(rng, .5) else np.array(mcs)
    else:
        ks, mcs = [int(k.min())], [float(x.min())]
    if chance(rng, .8):
        kw['delta_m'] = d
        if chance(rng, .3):    # anywhere within their bins
            m.saw('within_bins')
            x = x + rng.uniform(-.4, .4, n) * d
            if 'mcs' not in kw:
                mcs = [float(x.min())]
    if w is not None:
        kw['weights'] = w if chance(rng, .5) else list(w)
    normalize = chance(rng, .6)
    if not normalize:
        kw['normalize'] = False
    if chance(rng, .3):
        kw['color'] = COLORS[:len(ks)]
    elif chance(rng, .3):
        kw['color'] = 'red'
    perm = rng.permutation(n)
    xa, ta = x, t
    if chance(rng, .4):
        xa = pd.Series(x, index=perm)
        ta = pd.Series(t, index=perm)
    st = Stage(m, rng)
    ax = plot_cum_count(ta, xa, **kw, **st.kw)
    st.done(ax, 'cum_count:axes')
    m.saw('cum_count')
    tn = num(t)
    lines, labels, cols, gone = [], [], [], 0
    for kc, mc in zip(ks, mcs):
        sel = [j for j in np.argsort(tn) if k[j] >= kc]
        ww = [1. if w is None else float(w[j]) for j in sel]
        tot = math.fsum(ww)
        if not tot > 0:
            gone += 1
            continue
        xs = [tn.min()] + [tn[j] for j in sel] + [tn.max()]
        ys = [0.] + [math.fsum(ww[:j + 1]) for j in range(len(sel))] + [tot]
        if normalize:
            ys = [v / tot for v in ys]
        lines.append(('line', (np.array(xs), np.array(ys))))
        labels.append(f'Mc={mc:.2f}')
        cols.append(kw['color'][len(cols) + gone] if isinstance(
            kw.get('color'), list) else kw.get('color'))
        m.saw('count_lines')
    got = [ln.get_drawstyle() for ln in ax.get_lines()]
    m.check(all(g == 'steps-post' for g in got), 'cum_count:steps',
            'counts do not jump at the events', got=got)
    expect_lines(m, ax, lines, 'cum_count')
    legend(m, ax, labels, 'cum_count:legend')
    for ln, lab, c in zip(ax.get_lines(), labels, cols):
        colored(m, ln, c, 'cum_count:color')
        m.check(ln.get_label() == lab, 'cum_count:labels',
                'line with the label of another', got=ln.get_label(),
                want=lab)
    m.case(n, tuple(ks), kind, w is not None, normalize, nontrivial=n > 1)


def dot_colors(m, coll, kw, mech):
    v = kw.get('color_dots')
    if isinstance(v, np.ndarray):
        m.saw('color_values')
        m.check(close(coll.get_array(), v) and
                coll.get_cmap().name == kw.get('cmap', 'viridis'), mech,
                'values of colours', cmap=coll.get_cmap().name)
    else:
        colored(m, coll, v, mech)


def w_time(m, rng, i):
    n = int(choice(rng, [1, 2, 15, 60]))
    x = np.round(rng.exponential(.5, n) + rng.uniform(-1, 4), 1)
    t, order, kind = event_times(m, rng, n)
    kw = {}
    lo, hi, p = 10, 200, 2
    if chance(rng, .5):
        lo = int(rng.integers(1, 30))
        hi = lo + int(rng.integers(1, 300))
        p = int(rng.integers(1, 4))
        kw.update(dot_smallest=lo, dot_largest=hi, dot_interpolation_power=p)
    if chance(rng, .3):
        kw['color_dots'] = rng.uniform(0, 1, n)
        if chance(rng, .5):
            kw['cmap'] = 'plasma'
    elif chance(rng, .3):
        kw['color_dots'] = choice(rng, COLORS)
    if chance(rng, .4):
        kw['color_line'] = choice(rng, COLORS)
    lines = []
    if chance(rng, .5):
        nc = int(rng.integers(1, 4))
        mcs = [float(v) for v in np.round(rng.uniform(0, 3, nc), 1)]
        tn = num(t)
        if kind in ('dt64', 'dates', 'ts'):
            years = sorted(int(v) for v in rng.choice(
                np.arange(1985, 2001), nc, replace=False))
            ch = [dt.datetime(y, 1, 1) for y in years]
            kw['mc_change_times'] = years if chance(rng, .5) else ch
            xs = list(num(np.array(ch))) + [tn.max()]
        else:
            ch = sorted(float(v) for v in rng.uniform(
                tn.min() - 5, tn.max(), nc))
            kw['mc_change_times'] = ch
            xs = ch + [tn.max()]
        kw['mcs'] = mcs
        lines.append(('completeness', (np.array(xs),
                                       np.array(mcs + mcs[-1:]))))
        m.saw('mc_steps')
    keep = {a: list(b) for a, b in kw.items() if isinstance(b, list)}
    st = Stage(m, rng)
    xa, ta = x, t
    if chance(rng, .4):
        perm = rng.permutation(n)
        xa, ta = pd.Series(x, index=perm), pd.Series(t, index=perm)
    ax = plot_mags_in_time(ta, xa, **kw, **st.kw)
    st.done(ax, 'mags_in_time:axes')
    m.saw('mags_in_time')
    offsets(m, ax.collections[0], t, x, ref_sizes(x, lo, hi, p),
            'mags_in_time')
    dot_colors(m, ax.collections[0], kw, 'mags_in_time:colors')
    expect_lines(m, ax, lines, 'mags_in_time')
    if lines:
        m.check(ax.get_lines()[0].get_drawstyle() == 'steps-post',
                'mags_in_time:steps', 'completeness changes elsewhere')
        colored(m, ax.get_lines()[0], kw.get('color_line'),
                'mags_in_time:color')
    for a, b in keep.items():
        m.check(list(kw[a]) == b, 'mags_in_time:arguments', f'{a} changed')
    m.case(n, kind, tuple(x[:3]), p, nontrivial=n > 1)


class Offline:
    """stands in for the servers of the map tiles and of the borders"""

    def __init__(self, center, order=0):
        self.center, self.order = center, order
        self.styles, self.shapes = set(), set()

    def __enter__(self):
        def image(tiles, tile):
            self.styles.add(tiles.style)
            grey = (np.arange(256 * 256) % 256).astype('uint8')
            img = Image.fromarray(grey.reshape(256, 256))
            return (img.convert(tiles.desired_tile_form or 'RGB'),
                    tiles.tileextent(tile), 'lower')

        def path(downloader, format_dict):
            self.shapes.add(format_dict['resolution'])
            file = os.path.join(self.dir, 'borders.shp')
            if not os.path.exists(file):
                x, y = self.center
                names = [['East', 'Somewhere', 'West'],
                         ['Zone', 'Somewhere', 'Any'],
                         ['Somewhere', 'Any', 'Zone']][self.order]
                k0 = names.index('Somewhere') * 20
                boxes = [shapely.box(x + k - 1.5, y - 1.2, x + k + 1.5, y + 1.2)
                         for k in (k0, k0 - 20, k0 - 40)]
                geopandas.GeoDataFrame(
                    {'ADMIN': names},
                    geometry=boxes, crs='EPSG:4326').to_file(file)
            return file
        self.dir = tempfile.mkdtemp(prefix='c30.')
        self.saved = [(img_tiles.GoogleTiles, 'get_image'),
                      (shapereader.NEShpDownloader, 'path')]
        self.saved = [(k, n, k.__dict__.get(n)) for k, n in self.saved]
        img_tiles.GoogleTiles.get_image = image
        shapereader.NEShpDownloader.path = path
        return self

    def __exit__(self, *a):
        for k, n, f in self.saved:
            if f is None:
                delattr(k, n)
            else:
                setattr(k, n, f)
        shutil.rmtree(self.dir)


def faded(m, ax, c):
    """the background is faded outside of the country: brightness right below
    and right above its southern and northern borders"""
    img = np.asarray(ax.figure.canvas.buffer_rgba())[..., :3].mean(axis=2)
    x = c[0] + np.linspace(-1.4, 1.4, 81)
    diff = []
    for side in (-1, 1):
        light = []
        for y in (1.24, 1.16):
            xy = ax.projection.transform_points(
                ccrs.PlateCarree(), x, np.full(81, c[1] + side * y))[:, :2]
            px = ax.transData.transform(xy).round().astype(int)
            px = np.clip(px, 0, [img.shape[1] - 1, img.shape[0] - 1])
            light.append(img[len(img) - 1 - px[:, 1], px[:, 0]])
        diff.append(float(np.median(light[0] - light[1])))
    m.check(min(diff) > 5, 'space:mask', 'surroundings of the country are not '
            'lighter than the country', difference=diff)


def w_space(m, rng, i):
    background = i % 3 == 0
    n = int(choice(rng, [2, 5, 40]))
    c = (rng.uniform(-150, 150), rng.uniform(-50, 50))
    country = None
    if background and chance(rng, .5):
        country = 'Somewhere'
        m.saw('country')
    wide = [.1] if country else [.1, 2] if background else [.1, 3, 20]
    lon = c[0] + rng.uniform(-1, 1, n) * choice(rng, wide)
    lat = c[1] + rng.uniform(-1, 1, n) * choice(rng, wide)
    x = np.round(rng.exponential(.5, n) + rng.uniform(-1, 4), 1)
    kw = {}
    lo, hi, p = 10, 200, 2
    if chance(rng, .5):
        lo = int(rng.integers(1, 30))
        hi = lo + int(rng.integers(20, 300))
        p = choice(rng, [1, 2, 3, .4])
        kw.update(dot_smallest=lo, dot_largest=hi, dot_interpolation_power=p)
    if chance(rng, .3):
        kw['color_dots'] = rng.uniform(0, 1, n)
        if chance(rng, .5):
            kw['cmap'] = 'plasma'
    elif chance(rng, .3):
        kw['color_dots'] = choice(rng, COLORS)
    want_labels = 'auto'
    if chance(rng, .6):
        want_labels = choice(rng, [None, 4, list(np.arange(-1., 9.)),
                                   np.arange(-1., 9., .5)])
        kw['dot_labels'] = want_labels
    if chance(rng, .5) or background and chance(rng, .5):
        kw['color_map'] = choice(rng, ['gray', 'hot'])
        m.saw('color_map')
    if chance(rng, .3):
        kw['style'] = choice(rng, ['street', 'satellite'])
    if background:
        kw['include_map'] = True
        m.saw('background')
        if country:
            kw['country'] = country
        if chance(rng, .5):
            kw['resolution'] = choice(rng, ['10m', '50m', '110m'])
    st = Stage(m, rng, False if background else None,
               projection=ccrs.Mercator())
    args = [lon, lat, x]
    if chance(rng, .4):
        perm = rng.permutation(n)
        args = [pd.Series(a, index=perm) for a in args]
    with Offline(c, i % 2 + i % 5 // 4) as net:
        ax = plot_in_space(*args, **kw, **st.kw)
        if background:
            ax.figure.canvas.draw()
            got = [(k.get_cmap().name if np.ndim(k.get_array()) == 2 else None)
                   for k in ax.get_images()]
            if country:
                faded(m, ax, c)
            m.check(got == [kw.get('color_map')], 'space:background',
                    'another background than asked for', got=got,
                    expected=kw.get('color_map'))
            style = kw.get('style', 'satellite')
            m.check(net.styles == {style}, 'space:background',
                    'another style of the map', got=net.styles,
                    expected=style)
            want = {kw.get('resolution', '10m')}
            m.check(net.shapes == want if country else net.shapes <= want,
                    'space:background', 'another resolution',
                    got=net.shapes, expected=want)
        else:
            m.check(not net.styles and not net.shapes, 'space:background',
                    'a background was fetched which is not asked for')
    st.done(ax, 'space:axes')
    m.saw('space')
    sc = [k for k in ax.collections if hasattr(k, 'get_sizes')
          and len(k.get_offsets()) and k.get_sizes().size]
    if not m.check(len(sc) == 1, 'space:extra', f'{len(sc)} sets of points'):
        return
    sizes = ref_sizes(x, lo, hi, p)
    offsets(m, sc[0], lon, lat, sizes, 'space')
    dot_colors(m, sc[0], kw, 'space:colors')
    tr = sc[0].get_offset_transform() - ax.transData
    xy = ax.projection.transform_points(ccrs.PlateCarree(), lon, lat)[:, :2]
    m.check(close(tr.transform(np.c_[lon, lat]), xy, rtol=1e-6, atol=1),
            'space:projection', 'points are projected to other places')
    x0, x1, y0, y1 = ax.get_extent(crs=ax.projection)
    tol = 1e-6 * max(abs(x0), abs(x1), abs(y0), abs(y1))
    if country:     # the map shows the country, and not the whole world
        box = ax.projection.transform_points(
            ccrs.PlateCarree(), c[0] + np.array([-1.5, 1.5]),
            c[1] + np.array([-1.2, 1.2]))[:, :2]
        far = ax.projection.transform_points(
            ccrs.PlateCarree(), c[0] + np.array([-4.5, 4.5]),
            c[1] + np.array([-4., 4.]))[:, :2]
        m.check(far[0, 0] < x0 <= box[0, 0] + tol
                and box[1, 0] - tol <= x1 < far[1, 0]
                and far[0, 1] < y0 <= box[0, 1] + tol
                and box[1, 1] - tol <= y1 < far[1, 1],
                'space:extent', 'the map does not show the country',
                extent=(x0, x1, y0, y1), country=box)
        return
    m.check(bool(np.all((xy[:, 0] >= x0 - tol) & (xy[:, 0] <= x1 + tol)
                        & (xy[:, 1] >= y0 - tol) & (xy[:, 1] <= y1 + tol))),
            'space:extent', 'events outside of the map', extent=(x0, x1, y0,
                                                                y1))
    if chance(rng, .4):     # more events on the same map
        m.saw('space_again')
        lon2 = c[0] + rng.uniform(-25, 25) + rng.uniform(-1, 1, 4)
        lat2 = c[1] + rng.uniform(-25, 25) + rng.uniform(-1, 1, 4)
        plot_in_space(lon2, lat2, np.array([1., 2., 2., 3.]), ax=ax,
                      dot_labels=None)
        a0, a1, b0, b1 = ax.get_extent(crs=ax.projection)
        xy = np.r_[xy, ax.projection.transform_points(
            ccrs.PlateCarree(), lon2, lat2)[:, :2]]
        tol = 1e-6 * max(abs(v) for v in (a0, a1, b0, b1))
        m.check(bool(np.all((xy[:, 0] >= a0 - tol) & (xy[:, 0] <= a1 + tol)
                            & (xy[:, 1] >= b0 - tol)
                            & (xy[:, 1] <= b1 + tol))), 'space:extent',
                'events outside of a map with two sets of events',
                first=(x0, x1, y0, y1), extent=(a0, a1, b0, b1))
    leg = ax.get_legend()
    if want_labels is None:
        m.check(leg is None, 'space:legend', 'a legend though none is wanted')
    elif len(set(x)) > 1:
        if m.check(leg is not None, 'space:legend', 'no legend'):
            if isinstance(want_labels, (list, np.ndarray)):
                n_in = sum(x.min() + .01 <= v <= x.max() - .01
                           for v in want_labels)
                m.check(len(leg.get_texts()) >= n_in, 'space:legend',
                        'magnitudes are missing in the legend', want=n_in,
                        got=len(leg.get_texts()))
            for h, t in zip(leg.legend_handles, leg.get_texts()):
                s = t.get_text().replace('$\\mathdefault{', '').replace(
                    '}$', '').replace('−', '-').replace('\u2212', '-')
                v = float(s)
                got = float(h.get_markersize()) ** 2
                # labels are rounded, and matplotlib interpolates
                dec = len(s.split('.')[1]) if '.' in s else 0
                eps = .5 * 10 ** -dec + .004 * np.ptp(x)
                a, b = (lo + (hi - lo) * min(1, max(
                    0, (q - x.min()) / np.ptp(x))) ** p
                    for q in (v - eps, v + eps))
                tol = .03 * (hi - lo) / 8
                m.saw('legend_sizes')
                m.check(a - tol <= got <= b + tol, 'space:legend',
                        'a dot of the legend has the size of another '
                        'magnitude', label=s, got=got, want=(a, b))
                if isinstance(want_labels, (list, np.ndarray)):
                    m.check(x.min() - eps <= v <= x.max() + eps,
                            'space:legend', 'label beyond the data', v=v)
    m.case(n, tuple(lon[:2]), p, nontrivial=True)
    plt.close('all')


# -- statistics

def w_mc_b(m, rng, i):
    ds, k, x = samples.binned(rng, nmin=30, nmax=200)
    d = 0. if chance(rng, .1) else float(ds)
    est = choice(rng, EST)
    kc = sorted(set(int(v) for v in rng.integers(k.min(), k.max() + 1, 5)))
    if chance(rng, .2):
        kc = kc[::-1]
    mcs = [float(v * Decimal(ds)) for v in kc]
    kw = {}
    if est in EST[:6] and chance(rng, .3):
        kw['weights'] = rng.uniform(.5, 2, len(k))
        m.saw('weighted')
    if est in EST[6:] and chance(rng, .4):
        kw['dmc'] = float(2 * Decimal(ds))
        m.saw('passed_on')
    cl = choice(rng, [.2, .95, .68, .99])
    want_b, want_s = [], []
    for mc in mcs:
        e = est()
        e.calculate(x, mc=mc, delta_m=d, **kw)
        want_b.append(e.b_value)
        want_s.append(e.std)
    b, s = np.array(want_b, float), np.array(want_s, float)
    if not np.all(np.isfinite(b) | np.isnan(b)):
        return
    st = Stage(m, rng)
    opt = dict(kw)
    if est is not ClassicBValueEstimator or chance(rng, .5):
        opt['b_method'] = est
    if cl != .95:
        opt['confidence_interval'] = cl
    if chance(rng, .5):
        opt['label'] = 'b of mc'
    if chance(rng, .4):
        opt['color'] = choice(rng, COLORS)
    ax = plot_mc_vs_b(x, np.array(mcs) if chance(rng, .5) else mcs, d,
                      **opt, **st.kw)
    st.done(ax, 'mc_vs_b:axes')
    m.saw('mc_vs_b')
    if est is ClassicBValueEstimator and not kw and d:
        for q, v in enumerate(b):
            e = k[k >= kc[q]] - kc[q]
            if len(e) > 1 and e.any():
                m.check(close(v, ref.mle_b(e * d, d), rtol=1e-6),
                        'mc_vs_b:reference', 'b-value')
    for ln in ax.get_lines()[:1]:
        colored(m, ln, opt.get('color'), 'mc_vs_b:color')
    expect_lines(m, ax, [('b-values', (mcs, b))], 'mc_vs_b')
    f = norm.isf((1 - cl) / 2)
    expect_band(m, ax, mcs, b - f * s, b + f * s, 'mc_vs_b',
                rough=est is BMorePositiveBValueEstimator)
    legend(m, ax, [opt['label']] if 'label' in opt else [], 'mc_vs_b:legend')
    m.case(est.__name__, ds, tuple(kc), x.tobytes(), nontrivial=len(kc) > 1)


def series(m, rng, nmin, nmax):
    """events along a dimension, with completeness changing along it"""
    ds, k, x = samples.binned(rng, nmin=nmin, nmax=nmax,
                              deltas=['0.1', '0.01', '0.2'])
    d = float(ds)
    n = len(k)
    kc = int(np.quantile(k, choice(rng, [0, .3, .6])))
    mc = float(kc * Decimal(ds))
    kcs = np.full(n, kc)
    mca = mc
    if chance(rng, .35):
        kcs = kc + rng.integers(0, max(2, int(.4 / d)), n) * (
            rng.random(n) < .4)
        mca = np.array([float(int(v) * Decimal(ds)) for v in kcs])
        if chance(rng, .4):
            mca = list(mca)
        m.saw('series_mcs')
    t = samples.times(rng, n)
    xv = None
    order = np.arange(n)
    if chance(rng, .6):
        xv = rng.permutation(n) + rng.uniform(0, .5, n)
        order = np.argsort(xv)
        m.saw('series_sorted')
        if chance(rng, .3):
            xv = pd.Series(xv, index=rng.permutation(n))
        elif chance(rng, .3):
            xv = list(xv)
    keep = order[[bool(k[j] >= kcs[j]) for j in order]]
    mcn = np.array([float(int(v) * Decimal(ds)) for v in kcs])
    pos = (np.arange(n, dtype=float) if xv is None
           else np.asarray(xv, float))[keep]
    if chance(rng, .1):     # (the magnitudes may be any then)
        d = 0.
    return ds, d, k, x, mca, mcn, t, xv, keep, pos


def w_series(m, rng, i):
    ds, d, k, x, mca, mcn, (_, ta, _, tsec), xv, keep, pos = series(
        m, rng, 5, 120)
    if len(keep) == 0:
        return
    est = choice(rng, EST)
    if est is BMorePositiveBValueEstimator and len(keep) > 25:
        est = BPositiveBValueEstimator        # (bootstraps take long)
    n_m = int(rng.integers(2, max(4, min(len(keep) + 3, 40))))
    min_num = int(choice(rng, [2, 2, max(2, n_m // 2), max(2, n_m - 2)]))
    tech = choice(rng, ['left', 'midpoint', 'right', None])
    cl = choice(rng, [.2, .95, .8, .999, .995])
    more = {}
    if est in EST[6:] and chance(rng, .4):
        more['dmc'] = float(2 * Decimal(ds))
        m.saw('passed_on')
    b = np.full(len(keep), np.nan)
    s = np.full(len(keep), np.nan)
    at = {'left': 0, 'midpoint': n_m // 2, 'right': n_m - 1,
          None: n_m - 1}[tech]
    tsec = np.asarray(tsec)
    for j in range(len(keep) - n_m + 1):
        win = keep[j:j + n_m]
        win = win[np.argsort(tsec[win])]
        e = est()
        e.calculate(x[win], mc=float(np.max(mcn[win])), delta_m=d, **more)
        if e.n >= min_num:
            b[j + at], s[j + at] = e.b_value, e.std
        else:
            m.saw('series_gaps')
    if np.any(np.isinf(b)):
        return
    kw = {}
    if xv is not None:
        kw['x_variable'] = xv
    if tech:
        kw['plot_technique'] = tech
    if min_num != 2:
        kw['min_num'] = min_num
    if est is not ClassicBValueEstimator:
        kw['method'] = est
    if cl != .95:
        kw['confidence_level'] = cl
    if chance(rng, .4):
        kw['label'] = 'b'
    if chance(rng, .4):
        kw['color'] = choice(rng, COLORS)
    kw.update(more)
    st = Stage(m, rng)
    ax = plot_b_series_constant_nm(x, d, mca, ta, n_m, **kw, **st.kw)
    st.done(ax, 'series:axes')
    m.saw('series')
    m.saw('series_values', int(np.isfinite(b).sum()))
    legend(m, ax, [kw['label']] if 'label' in kw else [], 'series:legend')
    for ln in ax.get_lines()[:1]:
        colored(m, ln, kw.get('color'), 'series:color')
    expect_lines(m, ax, [('b-values', (pos, b))], 'series')
    f = norm.isf((1 - cl) / 2)
    expect_band(m, ax, pos, b - f * s, b + f * s, 'series',
                rough=est is BMorePositiveBValueEstimator)
    m.case(est.__name__, ds, n_m, tech, x.tobytes(),
           nontrivial=int(np.isfinite(b).sum()) > 1)
    if not st.given:
        return
    # a second call on the same axes leaves the first as it is
    one = [line_data(ln) for ln in ax.get_lines()]
    plot_mc_vs_b(x, [mcn[0]], d, ax=ax)
    two = [line_data(ln) for ln in ax.get_lines()]
    m.saw('earlier_kept')
    m.check(len(two) == len(one) + 1 and all(
        same_points(a, c) for a, c in zip(one, two)), 'series:earlier',
        'what was drawn earlier changed')


def w_significance(m, rng, i):
    ds, d, k, x, mca, mcn, (_, ta, _, tsec), xv, keep, pos = series(
        m, rng, 150, 250)
    if chance(rng, .5):       # b-value changing along the way
        half = keep[len(keep) // 2:]
        q = float(ds)
        k[half] = np.minimum(mcn[half] / q + (k[half] - mcn[half] / q) * 3,
                             9.5 / q).round().astype(int)
        x = np.array([float(int(v) * Decimal(ds)) for v in k])
    est = choice(rng, EST[:-1])
    auto = chance(rng, .15)
    kw = {}
    if not auto:
        n_ms = sorted(set(int(v) for v in rng.integers(
            4, max(6, len(keep) // 12), 2)))
        kw['n_ms'] = n_ms if chance(rng, .5) else np.array(n_ms)
    elif len(keep) / 15 <= 2:
        return
    if xv is not None:
        kw['x_variable'] = xv
    if est is not ClassicBValueEstimator:
        kw['method'] = est
    cons = chance(rng, .5)
    if not cons:
        kw['conservative'] = False
    thr = choice(rng, [.05, .2, .5])
    if thr != .05:
        kw['p_threshold'] = thr
    more = {}
    if est is BPositiveBValueEstimator and chance(rng, .4):
        more['dmc'] = float(2 * Decimal(ds))
        m.saw('passed_on')
    mn = 2
    if chance(rng, .4):
        mn = kw['min_num'] = int(rng.integers(
            2, 10 if auto else min(n_ms) + 1))
    if auto and len(keep) / 15 <= mn:
        return
    if chance(rng, .4):
        kw['label'] = 'mac'
    if chance(rng, .4):
        kw['color'] = choice(rng, COLORS)
    kw.update(more)
    st = Stage(m, rng)
    ax = plot_b_significant_1D(x, mca, d, ta, **kw, **st.kw)
    st.done(ax, 'significance:axes')
    m.saw('significance')
    if auto:
        n_ms = [int(v) for v in ax.get_lines()[0].get_xdata()]
        m.check(0 < len(n_ms) <= 10 and len(set(n_ms)) == len(n_ms)
                and min(n_ms) >= min(15, int(len(keep) / 15))
                and max(n_ms) <= max(15, len(keep) / 15),
                'significance:n_ms', 'unreasonable choice of window lengths',
                got=n_ms, n=len(keep))
    rows = []
    ta = np.asarray(ta)
    for n_m in n_ms:
        if len(keep) / n_m < 15:
            rows.append((np.nan,) * 4)
        else:
            rows.append(b_significant_1D(
                x[keep], mcn[keep], d, ta[keep], n_m, min_num=mn, method=est,
                conservative=cons, **more))
    p, mac, mu, std = (np.array([r[q] for r in rows], float)
                       for q in range(4))
    lines = [('mac', (n_ms, mac)), ('mean', (n_ms, mu))]
    legend(m, ax, [kw['label']] if 'label' in kw else [],
           'significance:legend')
    colored(m, ax.get_lines()[0], kw.get('color'), 'significance:color')
    n_ms = np.array(n_ms)
    red = p < thr
    if red.any():
        m.saw('red_dots')
        lines.append(('significant', (n_ms[red], mac[red])))
    expect_lines(m, ax, lines, 'significance')
    f = norm.isf(thr / 2)
    expect_band(m, ax, n_ms, mu - f * std, mu + f * std, 'significance')
    m.case(est.__name__, ds, tuple(n_ms), thr, x.tobytes())


WORKLOADS = [('fmd', w_fmd, 160, 2500), ('law', w_law, 120, 1500),
             ('count', w_count, 110, 1500), ('time', w_time, 80, 1200),
             ('space', w_space, 40, 500), ('mc_b', w_mc_b, 70, 800),
             ('series', w_series, 110, 1200),
             ('significance', w_significance, 24, 300)]
