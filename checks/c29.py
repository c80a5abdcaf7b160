"""C29 Profile, map and harmonics plots show the data they are given."""
import itertools
import os
import struct
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.c28 import COLORS, area, expect_curves, one_sided, rgba
from vf import globe, model
from vf.core import Check, Violation, close, require, scratch
from vf.gen import diff, num, plain, real, seeds, snap, stream, trace, wave, waves

CHECK = Check('C29', assumptions=['no trace of a profile is zero everywhere in the plotted window', 'time limits of profiles whose traces have different windows are not judged beyond lying inside the data', 'delay times of the models are judged by other properties',
                                  'harmonics have five terms of each kind'])
_serial = itertools.count()


@st.composite
def profile_cases(draw):
    n = draw(st.one_of(st.integers(1, 7), st.integers(1, 30)))
    pos = draw(st.sampled_from([0., -350., 1234.5]))
    c = {'sr': draw(st.sampled_from([1., 4., 10.])), 'n': draw(st.integers(30, 150)), 'pre': draw(num(0, 12, 2)), 'box': [], 'waves': []}
    width = draw(st.sampled_from([10., 33., 80.]))
    for _ in range(n):
        w = width if draw(st.integers(0, 2)) else draw(real(5, 100, 1))
        c['box'].append([round(pos + w / 2, 2), w, draw(st.integers(1, 30))])
        c['waves'].append([draw(waves), draw(st.sampled_from([1., 1., 0.1, 20.]))])
        pos = pos + w * (draw(st.sampled_from([1., 1., 3.])))
    c['order'] = draw(st.permutations(range(n)))
    c['shifts'] = draw(st.sampled_from([None, None, [0, 2.], [1.25, 0, 3.5]]))
    opt = {}
    for k, v in (('figsize', [[5., 4.], [11., 3.5]]), ('dpi', [60, 133]), ('scale', [0.5, 2, 7.5]), ('fillcolors', [[None, None], [0, None], [None, 1], [0, 1], [2, 3], [4, 0]]), ('top', ['hist', 'hist', None]),
                 ('moveout_model', [None, 'iasp91'])):
        if draw(st.integers(0, 2)) == 0:
            opt[k] = draw(st.sampled_from(v))
    if draw(st.integers(0, 2)) == 0:
        a = draw(num(-5, 3, 1))
        opt['trim'] = [a, a + draw(num(4, 60, 1))]
    c.update({'opt': opt, 'phase': draw(st.sampled_from(['Ps', 'Ps', 'Ppps', 'Ppss', 'Sp', 'Sppp'])), 'slowness': draw(st.sampled_from([6.4, 6.4, 5.1, 7.2])), 'method': draw(st.booleans()),
              'file': draw(st.sampled_from([None, None, None, None, 'png', 'pdf']))})
    if draw(st.integers(0, 3)) == 0:
        c['model'] = draw(model.models())
        opt.pop('moveout_model', None)
    return c


def times_of(tr):
    return np.arange(len(tr)) * tr.stats.delta + (tr.stats.starttime - tr.stats.onset)


@CHECK.sub(profile_cases, quick=200, thorough=3500, rule='profiles of up to seven boxes of different width with gaps in any order and random subsets of all options; non-trivial if at least two boxes')
def profile(c, ctx):
    import matplotlib.pyplot as plt
    from rf.imaging import plot_profile
    from rf.simple_model import load_model
    n = len(c['box'])
    s_phase = c['phase'][0] == 'S'
    traces = []
    for j, ((pos, w, k), (wv, a)) in enumerate(zip(c['box'], c['waves'])):
        tr = trace(wave(c['n'], wv) * a, c['sr'], id='...?Q'.replace('?', ''))
        tr.stats.onset = tr.stats.starttime + c['pre'] + (c['shifts'][j % len(c['shifts'])] if c.get('shifts') else 0)
        tr.stats.update({'box_pos': pos, 'box_length': w, 'num': k, 'phase': 'S' if s_phase else 'P', 'type': 'rf', 'moveout': c['phase'], 'slowness': c['slowness'], 'slowness_before_moveout': c['slowness']})
        traces.append(tr)
    s = stream([traces[i] for i in c['order']])
    opt = dict(c['opt'])
    fill = ['C3', 'C0']
    if 'fillcolors' in opt:
        fill = [None if k is None else COLORS[k] for k in opt['fillcolors']]
        opt['fillcolors'] = tuple(fill)
    if 'figsize' in opt:
        opt['figsize'] = tuple(opt['figsize'])
    shown = s if 'trim' not in opt else s.copy().slice2(*opt['trim'], reftime='onset')
    if len(shown) < n or any(len(tr) < 2 or not np.any(tr.data) for tr in shown):
        ctx.nontrivial(False)
        return
    plt.close('all')
    with scratch() as folder:
        mod = None
        if opt.get('moveout_model', 1) is not None:
            if 'model' in c:
                opt['moveout_model'] = os.path.join(folder, 'model%d-%d.dat' % (os.getpid(), next(_serial)))
                model.write_file(c['model'], opt['moveout_model'])
            mod = load_model(opt.get('moveout_model', 'iasp91'))
            delay = mod.calculate_delay_times(phase=c['phase'], slowness=c['slowness'])
            if not np.all(np.isfinite(delay)):
                ctx.nontrivial(False)
                return
        before = snap(s)
        fname = os.path.join(folder, 'plot.' + c['file']) if c['file'] else None
        args = (fname,) if fname else ()
        fig = s.plot_profile(*args, **opt) if c['method'] else plot_profile(s, *args, **opt)
        require(not diff(before, snap(s)), 'plot_profile changed the profile: %s', diff(before, snap(s)))
        if fname:
            require(fig is None and not plt.get_fignums(), 'figure is still open after it was saved')
            with open(fname, 'rb') as f:
                head = f.read(400)
            require({'png': head[1:4] == b'PNG', 'pdf': head[:4] == b'%PDF'}[c['file']], 'no %s file: %r', c['file'], head[:20])
            if c['file'] == 'png':
                w, h = struct.unpack('>II', head[16:24])
                size, dpi = opt.get('figsize', (6.4, 4.8)), opt.get('dpi', 100)
                require(abs(w - size[0] * dpi) <= 1.5 and abs(h - size[1] * dpi) <= 1.5, 'image has %d x %d pixels, size %s inches, dpi %s', w, h, size, dpi)
            ctx.label('file')
            fig = s.plot_profile(**opt)
        try:
            require(np.allclose(fig.get_size_inches(), opt.get('figsize', (6.4, 4.8))), 'figure is %s inches', fig.get_size_inches())
            if 'dpi' in opt:
                require(fig.dpi == opt['dpi'], 'dpi of the figure is %s', fig.dpi)
            main = [ax for ax in fig.axes if ax.get_xlabel() == 'distance (km)']
            require(len(main) == 1, '%d axes with label distance', len(main))
            depth = [ax for ax in fig.axes if ax.get_ylabel() == 'depth (km)']
            require(len(depth) == (mod is not None), '%d axes with label depth, model is %s', len(depth), opt.get('moveout_model', 'iasp91'))
            bars = [ax for ax in fig.axes if ax not in main and ax not in depth]
            require(len(bars) == (opt.get('top') == 'hist'), '%d axes with bars, top is %s', len(bars), opt.get('top'))
            sections(main[0], shown, opt, fill, c.get('shifts'))
            if mod is not None:
                depths(fig, main[0], depth[0], mod.z, delay)
            if bars:
                heights(fig, main[0], bars[0], shown)
        finally:
            plt.close('all')
    ctx.label(*opt)
    ctx.label('S' if s_phase else 'P', 'own model' if 'model' in c else 'model')
    ctx.nontrivial(n > 1)


class Swap(object):
    """Lines and areas of the axes with x and y swapped."""

    class _Coll(object):
        def __init__(self, x):
            self.get_facecolor = x.get_facecolor
            self.paths = [type(p)(p.vertices[:, ::-1], p.codes) for p in x.get_paths()]

        def get_paths(self):
            return self.paths

    class _Line(object):
        def __init__(self, x):
            self.xy = np.array(x.get_xydata(), float)[:, ::-1]

        def get_xydata(self):
            return self.xy

    def __init__(self, ax):
        self.lines = [self._Line(x) for x in ax.lines]
        self.collections = [self._Coll(x) for x in ax.collections]


def sections(ax, shown, opt, fill, shifts=None):
    top = max(np.max(np.abs(tr.data)) for tr in shown)
    short = min(tr.stats.box_length for tr in shown)
    scale = opt.get('scale', 1)
    want = [(times_of(tr), tr.data / top * short * scale, tr.stats.box_pos) for tr in shown]
    expect_curves(Swap(ax), want, fill, 'profile')
    hi, lo = ax.get_ylim()
    if shifts:
        # windows differ: something of every trace or of some trace is shown
        a, b = min(w[0][0] for w in want), max(w[0][-1] for w in want)
        require(lo >= a - 0.06 * (b - a) - 1e-6 and hi <= b + 0.06 * (b - a) + 1e-6, 'limits %s of the time axis, samples between %s and %s', (hi, lo), a, b)
        a, b = lo, hi
    else:
        a, b = want[0][0][0], want[0][0][-1]
    m = 0.06 * (b - a) + 1e-6
    require(hi > lo, 'time increases upwards: limits %s', (hi, lo))
    require(a - m <= lo <= a + 1e-6 and b - 1e-6 <= hi <= b + m, 'limits %s of the time axis, samples between %s and %s', (hi, lo), a, b)
    x = ax.get_xlim()
    pos = [tr.stats.box_pos for tr in shown]
    require(x[0] <= min(pos) and x[1] >= max(pos) and x[0] < x[1], 'limits %s of the distance axis, boxes at %s', x, pos)
    ends = np.concatenate([w[1] + w[2] for w in want])
    require(x[0] <= ends.min() + 1e-9 and x[1] >= ends.max() - 1e-9, 'limits %s of the distance axis, curves between %s and %s', x, ends.min(), ends.max())


def depths(fig, ax, ax2, z, delay):
    """Every label is at the delay time of its depth."""
    require(np.allclose(ax.get_ylim(), ax2.get_ylim(), rtol=0, atol=1e-9), 'limits %s of the depth axis differ from those of the time axis %s', ax2.get_ylim(), ax.get_ylim())
    require(np.allclose(ax.get_position().bounds, ax2.get_position().bounds), 'depth axis and time axis differ in position')
    fig.canvas.draw()
    hi, lo = ax2.get_ylim()
    labels = [(t.get_text(), t.get_position()[1]) for t in ax2.get_yticklabels()]
    seen = 0
    for text, t in labels:
        if not text or not lo - 1e-9 <= t <= hi + 1e-9:
            continue
        d = float(text)
        require(d <= z[-1] + 1e-9, 'depth %s is shown at %s s, the model ends in %s km', text, t, z[-1])
        want = float(np.interp(d, z, delay))
        require(abs(t - want) <= 1e-6 * max(1, abs(want)), 'depth %s is shown at %s s, delay time is %s s', text, t, want)
        seen += 1
    inside = [d for d in range(0, 1000, 200) if d <= z[-1] and lo <= np.interp(d, z, delay) <= hi]
    require(seen >= len(inside), '%d depths are labeled, depths %s are inside the window', seen, inside)


def heights(fig, ax, ax3, shown):
    from matplotlib.patches import Rectangle
    got = sorted((r.get_x(), r.get_width(), r.get_y(), r.get_height()) for r in ax3.patches if isinstance(r, Rectangle))
    want = sorted((tr.stats.box_pos - tr.stats.box_length / 2, tr.stats.box_length, 0, tr.stats.num) for tr in shown)
    require(np.shape(got) == np.shape(want) and np.allclose(got, want), 'bars (left, width, bottom, height) are %s, boxes are %s', got, want)
    require(np.allclose(ax3.get_xlim(), ax.get_xlim()), 'limits %s of the bars, of the profile %s', ax3.get_xlim(), ax.get_xlim())
    lo, hi = ax3.get_ylim()
    require(lo <= 0 and hi >= max(w[3] for w in want), 'limits %s of the bars', (lo, hi))
    p = ax3.get_position()
    require(p.y0 >= ax.get_position().y1 - 1e-9 and np.allclose([p.x0, p.x1], [ax.get_position().x0, ax.get_position().x1]), 'bars are not above the profile')


@st.composite
def misc_cases(draw):
    return {'what': draw(st.sampled_from(['top', 'empty'])), 'top': draw(st.sampled_from(['histogram', 'map', 'x', 'Hist'])), 'seed': draw(seeds)}


@CHECK.sub(misc_cases, quick=8, thorough=16, rule='empty profiles and unknown values of top; always non-trivial', shards=1)
def invalid(c, ctx):
    import matplotlib.pyplot as plt
    from vf.core import raises
    plt.close('all')
    s = stream([])
    if c['what'] == 'empty':
        require(s.plot_profile() is None, 'plot of an empty profile')
    else:
        tr = trace(wave(50, ['noise', c['seed']]), 1., id='...Q')
        tr.stats.onset = tr.stats.starttime + 5
        tr.stats.update({'box_pos': 1., 'box_length': 2., 'num': 1, 'phase': 'P', 'type': 'rf', 'moveout': 'Ps', 'slowness': 6.4})
        raises((NotImplementedError,), lambda: stream([tr]).plot_profile(top=c['top']), 'top=%r' % c['top'])
    ctx.label(c['what'])
    plt.close('all')


# Harmonics

@st.composite
def harmonic_cases(draw):
    def terms(kind):
        return {'kind': kind, 'waves': [[draw(waves), draw(st.sampled_from([1., 1., 0.2, 15.]))] for _ in range(5)]}
    c = {'sr': draw(st.sampled_from([1., 4., 10.])), 'n': draw(st.integers(30, 120)), 'pre': draw(num(0, 12, 2)), 'first': [terms('mod')], 'second': None, 'components': draw(st.sampled_from(['R', 'T', 'RT', 'QL']))}
    if draw(st.booleans()):
        c['first'].append(terms('unmod'))
    if draw(st.integers(0, 2)) == 0:
        c['second'] = [terms('mod')] + ([terms('unmod')] if draw(st.booleans()) else [])
        c['pre2'] = draw(st.sampled_from([c['pre'], c['pre'] + 2.5]))
        c['components2'] = draw(st.sampled_from(['R', 'T']))
    c['order'] = draw(seeds)
    c['fill'] = draw(st.sampled_from(['default', [None, None], [0, None], [None, 1], [0, 1], [2, 3]]))
    c['trim'] = None
    if draw(st.integers(0, 2)) == 0:
        a = draw(num(-5, 6, 1))
        c['trim'] = [a, a + draw(num(4, 25, 1))]
    c['method'] = draw(st.booleans())
    return c


def harmonic_stream(c, groups, pre, components, order):
    out = []
    for g in groups:
        for k, (wv, a) in enumerate(g['waves']):
            tr = trace(wave(c['n'], wv) * a, c['sr'], id='NE.STA.%s.%d' % (g['kind'], k))
            tr.stats.onset = tr.stats.starttime + pre
            tr.stats.update({'components': components, 'type': 'rf', 'phase': 'P'})
            out.append(tr)
    rs = np.random.RandomState(order)
    return stream([out[i] for i in rs.permutation(len(out))])


@CHECK.sub(harmonic_cases, quick=130, thorough=2500, rule='modeled and unmodeled terms of one or two streams in any order, fill colors and windows; always non-trivial unless a window is empty')
def harmonics(c, ctx):
    import matplotlib.pyplot as plt
    from rf.imaging import plot_harmonics
    hd = harmonic_stream(c, c['first'], c['pre'], c['components'], c['order'])
    hd2 = harmonic_stream(c, c['second'], c['pre2'], c['components2'], c['order'] + 1) if c['second'] else None
    fill, kw = ['b', 'r'], {}
    if c['fill'] != 'default':
        fill = [None if k is None else COLORS[k] for k in c['fill']]
        kw['fillcolors'] = tuple(fill)
    if c['trim']:
        kw['trim'] = tuple(c['trim'])
    cut = (lambda s: s.copy().slice2(*c['trim'], reftime='onset')) if c['trim'] else (lambda s: s)
    for s in (hd, hd2):
        if s is not None:
            x = cut(s)
            if len(x) < len(s) or any(len(tr) < 2 or not np.any(tr.data) for tr in x):
                ctx.nontrivial(False)
                return
    plt.close('all')
    before = [snap(s) for s in (hd, hd2) if s is not None]
    if hd2 is not None:
        kw['hd2'] = hd2
    fig = hd.plot_harmonics(**kw) if c['method'] and hasattr(hd, 'plot_harmonics') else plot_harmonics(hd, **kw)
    try:
        for b, s in zip(before, [hd, hd2]):
            require(not diff(b, snap(s)), 'plot_harmonics changed its input: %s', diff(b, snap(s)))
        first = cut(hd)
        second = cut(hd2) if hd2 is not None else None
        ref = max(np.max(np.abs(tr.data)) for tr in first)
        left = [tr for tr in first if tr.stats.location == 'mod']
        if second is not None:
            right = [tr for tr in second if tr.stats.location == 'mod']
            ref2 = max(np.max(np.abs(tr.data)) for tr in right)
        else:
            right, ref2 = [tr for tr in first if tr.stats.location == 'unmod'], ref
        require(len(fig.axes) == 2, '%d panels', len(fig.axes))
        fig.canvas.draw()
        axes = sorted(fig.axes, key=lambda ax: ax.get_position().x0)
        names = dict(zip(['sin2', 'cos2', 'sin', 'cos', 'constant'], [4, 3, 2, 1, 0]))
        for ax, trs, r, what in ((axes[0], left, ref, 'left panel'), (axes[1], right, ref2, 'right panel')):
            expect_curves(ax, [(times_of(tr), tr.data / r, 4 - int(tr.stats.channel)) for tr in trs], fill, what)
            if trs:
                lo, hi = ax.get_xlim()
                a, b = min(times_of(tr)[0] for tr in trs), max(times_of(tr)[-1] for tr in trs)
                if c['trim']:
                    require(np.allclose([lo, hi], c['trim']), '%s: limits %s, window %s', what, (lo, hi), c['trim'])
                else:
                    require(lo <= a and hi >= b, '%s: limits %s, samples between %s and %s', what, (lo, hi), a, b)
        labels = {t.get_text().replace('$', '').replace('\\theta', '').replace('(', '').replace(')', ''): t.get_position()[1] for t in axes[0].get_yticklabels()}
        for name, k in names.items():
            require(name in labels and abs(labels[name] - (4 - k) if name != 'constant' else labels[name] - 4) < 1e-9, 'row labels are %s', labels)
        require(c['components'] in axes[0].get_title(), 'title %r of the left panel, components are %s', axes[0].get_title(), c['components'])
        if second is not None:
            require(c['components2'] in axes[1].get_title(), 'title %r of the right panel, components are %s', axes[1].get_title(), c['components2'])
        ctx.label('two streams' if second is not None else 'unmodeled' if right else 'modeled only', 'trim' if c['trim'] else 'whole')
    finally:
        plt.close('all')


# Maps

@st.composite
def map_cases(draw):
    lat0, lon0 = draw(num(-60, 60, 2)), draw(st.one_of(num(-175, 175, 2), st.sampled_from([0., 120.])))
    near = lambda: [lat0 + draw(real(-4, 4, 2)), lon0 + draw(real(-4, 4, 2))]
    stations = [near() + [draw(st.sampled_from(['PB01', 'PB02', 'ABC', 'X1', 'HMBCX'])), draw(st.sampled_from(['CX', 'XX'])), draw(st.integers(1, 3))] for _ in range(draw(st.integers(1, 5)))]
    c = {'func': draw(st.sampled_from(['stations', 'ppoints', 'map'])), 'stations': stations, 'as': draw(st.sampled_from(['inventory', 'stream'])), 'label': draw(st.sampled_from([None, True, False])),
         'ppoints': [near() for _ in range(draw(st.integers(1, 12)))], 'array': draw(st.booleans()), 'crs': draw(st.sampled_from([None, None, 'PlateCarree', 'Mercator', 'Robinson', 'ax'])),
         'with': [draw(st.booleans()), draw(st.booleans())], 'kw': draw(st.sampled_from([{}, {}, {'zorder': 7}, {'alpha': 0.5}, {'linewidth': 3.5}])), 'own': draw(st.booleans()),
         'profile': {'latlon': [lat0, lon0], 'azimuth': draw(num(0, 359, 0)), 'edges': sorted({round(x, 1) for x in draw(st.lists(num(-200, 300, 1), min_size=2, max_size=6))}), 'width': draw(st.sampled_from([50., 200.]))}}
    return c


def displayed(ax, latlons):
    from cartopy.crs import PlateCarree
    p = ax.projection.transform_points(PlateCarree(), np.array([x[1] for x in latlons]), np.array([x[0] for x in latlons]))[:, :2]
    return ax.transData.transform(p)


def markers(ax, coll):
    return np.asarray(coll.get_offset_transform().transform(np.ma.getdata(coll.get_offsets())))


def same_points(got, want, what):
    require(len(got) == len(want), '%s: %d points, expected %d', what, len(got), len(want))
    left = list(range(len(got)))
    for w in want:
        for j in left:
            if np.all(np.abs(got[j] - w) < 1e-2):
                left.remove(j)
                break
        else:
            require(False, '%s: no point at %s, points are %s', what, w, got.tolist())


@CHECK.sub(map_cases, quick=100, thorough=1500, rule='stations of inventories or streams, piercing points and boxes in five projections, new and given axes; always non-trivial')
def maps(c, ctx):
    import cartopy.crs as ccrs
    import matplotlib.pyplot as plt
    from cartopy.mpl.feature_artist import FeatureArtist
    from cartopy.mpl.geoaxes import GeoAxes
    from matplotlib.collections import PathCollection
    from obspy.core.inventory import Inventory, Network, Station
    from rf.imaging import plot_ppoints, plot_profile_map, plot_stations
    if len(c['profile']['edges']) < 2 and c['func'] == 'map':
        ctx.nontrivial(False)
        return
    if c['as'] == 'inventory':
        nets = {}
        for la, lo, name, net, k in c['stations']:
            nets.setdefault(net, []).append(Station(name, la, lo, 100. * k))
        inv = Inventory(networks=[Network(n, stations=nets[n]) for n in sorted(nets)], source='x')
        stations = [(la, lo, name) for la, lo, name, net, k in c['stations']]
        state = lambda: [(net.code, sta.code, float(sta.latitude), float(sta.longitude), sta.elevation) for net in inv for sta in net]
    else:
        trs = []
        for la, lo, name, net, k in c['stations']:
            for j in range(k):
                tr = trace(np.arange(4.), 1., id='%s.%s..BH%s' % (net, name, 'ZNE'[j]))
                tr.stats.update({'station_latitude': la, 'station_longitude': lo})
                trs.append(tr)
        inv = stream(trs)
        stations = sorted({(la, lo, name) for la, lo, name, net, k in c['stations']})
        state = lambda: snap(inv)
    pp = [tuple(x) for x in c['ppoints']]
    ppoints = np.array(pp) if c['array'] else list(pp)
    boxes = globe.boxes(c['profile']) if c['func'] == 'map' else []
    shape = lambda: [plain({k: v if k != 'poly' else v.wkt for k, v in b.items()}) for b in boxes]
    before = (state(), [tuple(x) for x in ppoints], shape())
    plt.close('all')
    try:
        kw = dict(c['kw'])
        ax = None
        if c['crs'] == 'ax':
            plt.figure(figsize=(4, 4))
            ax = kw['ax'] = plt.axes(projection=ccrs.PlateCarree())
            plt.figure()  # another figure is the current one
        elif c['crs']:
            kw['crs'] = getattr(ccrs, c['crs'])()
        if c['label'] is not None:
            kw['label_stations'] = c['label']
        has_sta, has_pp = c['func'] == 'stations' or c['with'][0], c['func'] == 'ppoints' or c['func'] == 'map' and c['with'][1]
        if c['func'] == 'stations':
            if c['own']:
                kw.update(c='blue', marker='o', s=31)
            got = plot_stations(inv, **kw)
        elif c['func'] == 'ppoints':
            if c['own']:
                kw.update(color='green', marker='+', s=31)
            if has_sta:
                kw['inventory'] = inv
            got = plot_ppoints(ppoints, **kw)
        else:
            if c['own']:
                kw.update(facecolor='green', edgecolor='blue')
            if has_sta:
                kw['inventory'] = inv
            if has_pp:
                kw['ppoints'] = ppoints
            got = plot_profile_map(boxes, **kw)
        require((state(), [tuple(x) for x in ppoints], shape()) == before, 'the input of plot_%s was changed', c['func'])
        require(isinstance(got, GeoAxes) and (ax is None or got is ax), 'plot_%s returns %r', c['func'], got)
        if c['crs'] and c['crs'] != 'ax':
            require(got.projection == kw['crs'], 'projection is %s', got.projection)
        if ax is not None:
            require(not any(f.axes for f in map(plt.figure, plt.get_fignums()) if f is not ax.figure), 'something was plotted outside of the given axes')
        got.figure.canvas.draw()
        colls = [x for x in got.collections if isinstance(x, PathCollection) and not isinstance(x, FeatureArtist)]
        points = np.concatenate([markers(got, x) for x in colls]) if colls else np.zeros((0, 2))
        want = np.concatenate([displayed(got, p) for p in ([stations] if has_sta else []) + ([pp] if has_pp else [])] + [np.zeros((0, 2))])
        same_points(points, want, 'plot_%s, markers' % c['func'])
        texts = [t for t in got.texts if t.get_text()]
        labeled = has_sta and c['label'] is not False
        require(sorted(t.get_text() for t in texts) == (sorted(x[2] for x in stations) if labeled else []), 'labels %s, stations %s', [t.get_text() for t in texts], [x[2] for x in stations])
        for name in sorted({x[2] for x in stations}) if labeled else []:
            sel = [t for t in texts if t.get_text() == name]
            pos = np.array([t.xycoords.transform([t.xy])[0] if hasattr(t.xycoords, 'transform') else displayed(got, [t.xy[::-1]])[0] for t in sel])
            same_points(pos, displayed(got, [x for x in stations if x[2] == name]), 'label %s' % name)
        if boxes:
            arts = [x for x in got.get_children() if isinstance(x, FeatureArtist)]
            geoms = [g for x in arts for g in x._feature.geometries()]
            require(len(geoms) == len(boxes), '%d boxes are drawn, expected %d', len(geoms), len(boxes))
            for b in boxes:
                require(any(g.equals(b['poly']) for g in geoms), 'box at %s is not drawn', b['pos'])
            require(all(x._feature.crs == ccrs.PlateCarree() for x in arts), 'boxes have other coordinates')
            look = [(x.get_facecolor(), x.get_edgecolor()) for x in arts]
        if c['own'] and c['func'] != 'map':
            col = {'stations': 'blue', 'ppoints': 'green'}[c['func']]
            ok = [x for x in colls if len(x.get_facecolor()) + len(x.get_edgecolor()) and rgba(col)[:3] in [tuple(y[:3]) for y in list(x.get_facecolor()) + list(x.get_edgecolor())] and list(x.get_sizes()) == [31]]
            require(len(ok) == 1, 'color and size of the call are not used')
        if 'zorder' in kw:
            z = [x.get_zorder() for x in (arts if boxes else colls)]
            require(7 in z, 'zorder is %s', z)
        ctx.label(c['func'], c['as'] if has_sta else 'no stations', 'crs %s' % c['crs'])
    finally:
        plt.close('all')
