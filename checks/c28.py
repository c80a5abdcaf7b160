"""C28 The receiver function plot shows the data it is given."""
import os
import re
import struct
import warnings

import numpy as np
from hypothesis import strategies as st

from vf.core import Check, require, scratch
from vf.gen import diff, num, real, seeds, snap, stream, trace, wave, waves

CHECK = Check('C28', assumptions=['no trace is zero everywhere in the plotted window', 'some trace has data in the trimmed window', 'the trimmed window is judged by the properties of slice2'])

COLORS = ['black', 'gray', 'C3', (0.25, 0.5, 0.75), '#ff8000']
INFO = ['default', None, [], [['slowness', 'slow', 'C1']], [['distance', 'dist', 'red'], ['back_azimuth', 'baz', 'k']], [['event_magnitude', 'mag', '#ff0000']], [['back_azimuth', 'azi', 'C2'], ['event_depth', 'z', 'navy']]]


@st.composite
def cases(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 6, 9, 13, 24, 24]))
    same = draw(st.booleans())
    equal = draw(st.integers(0, 2)) > 0 if same else False
    sr = draw(st.sampled_from([1., 4., 10., 7.3]))
    L = draw(st.integers(20, 120))
    pre = draw(num(-3, 12, 1))
    traces = []
    for k in range(n):
        traces.append({'id': 'NE.STA.00.BHQ' if same else draw(st.sampled_from(['NE.STA.00.BHQ', 'NE.STA.00.BHL', 'NE.STB..BHQ', 'NF.STA.00.BHQ'])),
                       'n': L if equal or draw(st.integers(0, 6)) else draw(st.integers(20, 120)), 'pre': pre if draw(st.integers(0, 4)) else draw(num(-3, 12, 4)), 'wave': draw(waves),
                       'scale': draw(st.sampled_from([1., 1., 1e-6, 30.])), 'baz': draw(real(0, 360, 1)), 'dist': draw(real(30, 95, 1)), 'start': draw(num(0, 1e5, 2))})
    opt = {}
    for k, v in (('fig_width', [4., 9.5]), ('trace_height', [0.2, 1.1]), ('stack_height', [0.3, 1.5]), ('dpi', [60, 133]), ('trace_scale', [True, False]), ('scale_factor', [0.3, 2, 5.]),
                 ('fillcolors', [[None, None], [0, None], [None, 1], [0, 1], [2, 3], [4, 0]]), ('show_traces', [True, True, False]), ('show_vlines', [True, False])):
        if draw(st.integers(0, 2)) == 0:
            opt[k] = draw(st.sampled_from(v))
    if draw(st.integers(0, 2)) == 0:
        a = draw(num(-5, 6, 1))
        opt['trim'] = [a, a + draw(num(4, 25, 1))]
    return {'sr': sr, 'traces': traces, 'opt': opt, 'info': draw(st.sampled_from(INFO)), 'file': draw(st.sampled_from([None, None, None, None, 'png', 'pdf', 'svg'])), 'method': draw(st.booleans())}


def build(c):
    out = []
    for t in c['traces']:
        tr = trace(wave(t['n'], t['wave']) * t['scale'], c['sr'], id=t['id'])
        tr.stats.starttime += t['start']
        tr.stats.onset = tr.stats.starttime + t['pre']
        tr.stats.update({'back_azimuth': t['baz'], 'distance': t['dist'], 'slowness': 5 + t['dist'] / 50, 'event_magnitude': 5 + t['baz'] / 100, 'event_depth': t['dist'] * 3, 'phase': 'P', 'type': 'rf', 'moveout': 'Ps'})
        out.append(tr)
    return stream(out)


def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(to_rgba(c))


def area(path):
    v = path.vertices
    if path.codes is not None:  # the closing vertex is no point
        v = v[path.codes != 79]
    x, y = v[:, 0], v[:, 1]
    x0, y0 = x[0], y[0]
    x, y = x - x0, y - y0
    return abs(float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))) / 2


def one_sided(d, dt, sign):
    """Area under the samples of one sign."""
    m = d >= 0 if sign > 0 else d < 0
    b = m[1:] & m[:-1]
    return float(np.sum((np.abs(d[1:]) + np.abs(d[:-1]))[b]) / 2 * dt)


def expect_curves(ax, want, fill, what):
    """Exactly the lines (x, y) and the areas between them and their base lines."""
    lines = [np.array(line.get_xydata(), float) for line in ax.lines]
    require(len(lines) == len(want), '%s: %d curves, expected %d', what, len(lines), len(want))
    left = list(range(len(lines)))
    for i, (t, d, base) in enumerate(want):
        for j in left:
            a = lines[j]
            if a.shape[0] == len(t) and np.allclose(a[:, 0], t, rtol=0, atol=1e-5) and np.allclose(a[:, 1], d + base, rtol=0, atol=1e-9 * max(1, np.max(np.abs(d)), abs(base))):
                left.remove(j)
                break
        else:
            near = [a[:3].tolist() for a in lines[:3]]
            require(False, '%s: no curve for trace %d (base %s): expected to start with %s, first curves start with %s', what, i, base, [[t[k], d[k] + base] for k in range(min(3, len(t)))], near)
    for k, sign in ((0, 1), (1, -1)):
        col = fill[k]
        if col is None:
            continue
        if fill[0] is not None and fill[1] is not None:
            require(rgba(fill[0]) != rgba(fill[1]), 'colors of the case')
        cs = [x for x in ax.collections if len(x.get_facecolor()) and np.allclose(x.get_facecolor()[0], rgba(col))]
        got = sorted((sum(area(p) for p in x.get_paths()) for x in cs))
        total = sum(got)
        exp = sum(one_sided(d, t[1] - t[0], sign) for t, d, base in want)
        require(abs(total - exp) <= 1e-4 * max(exp, 1e-9) + 1e-9, '%s: filled area of color %s is %s, expected %s', what, col, total, exp)
        for x in cs:
            for p in x.get_paths():
                y = p.vertices[:, 1]
                b = round(float(np.min(y) if sign > 0 else np.max(y)))
                ok = any(abs(base - (np.min(y) if sign > 0 else np.max(y))) < 1e-6 for _, _, base in want)
                require(ok, '%s: area of color %s does not end at a base line but at %s', what, col, b)
    used = {rgba(f) for f in fill if f is not None}
    others = [tuple(x.get_facecolor()[0]) for x in ax.collections if len(x.get_facecolor()) and x.get_paths() and not any(np.allclose(x.get_facecolor()[0], u) for u in used)]
    require(not others, '%s: areas of other colors %s', what, others)


@CHECK.sub(cases, quick=240, thorough=4000,
           rule='streams of up to 24 traces of equal or different ids, lengths and onsets and random subsets of all plot options; non-trivial if at least two traces or one option')
def plot(c, ctx):
    import matplotlib.pyplot as plt
    from rf.imaging import plot_rf
    s = build(c)
    opt = dict(c['opt'])
    fill = [None, None]
    if 'fillcolors' in opt:
        fill = [None if k is None else COLORS[k] for k in opt['fillcolors']]
        opt['fillcolors'] = tuple(fill)
    if c['info'] != 'default':
        opt['info'] = None if c['info'] is None else [tuple(x) for x in c['info']]
    if 'trim' in opt and len(s) and not len(s.copy().slice2(*opt['trim'], reftime='onset')):
        ctx.nontrivial(False)
        return
    before = snap(s)
    plt.close('all')
    with scratch() as folder, warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        fname = os.path.join(folder, 'plot.' + c['file']) if c['file'] else None
        args = (fname,) if fname else ()
        fig = s.plot_rf(*args, **opt) if c['method'] else plot_rf(s, *args, **opt)
        require(not diff(before, snap(s)), 'plot_rf changed the stream: %s', diff(before, snap(s)))
        if fname and len(s):
            require(fig is None and not plt.get_fignums(), 'figure is still open after it was saved')
            with open(fname, 'rb') as f:
                head = f.read(400)
            require({'png': head[1:4] == b'PNG', 'pdf': head[:4] == b'%PDF', 'svg': b'<svg' in head or b'<?xml' in head}[c['file']], 'no %s file: %r', c['file'], head[:20])
            if c['file'] == 'png':
                w, h = struct.unpack('>II', head[16:24])
                dpi = opt.get('dpi', 100)
                require(abs(w - opt.get('fig_width', 7.) * dpi) <= 1.5, 'image is %d pixels wide, width is %s inches, dpi %s', w, opt.get('fig_width', 7.), dpi)
            ctx.label('file')
            fig = s.plot_rf(**opt)
    try:
        if not len(s):
            require(fig is None and not plt.get_fignums(), 'plot of an empty stream')
            ctx.nontrivial(False)
            return
        look(c, ctx, s, opt, fill, fig, caught)
    finally:
        plt.close('all')


def look(c, ctx, s, opt, fill, fig, caught):
    show = opt.get('show_traces', True)
    if 'trim' in opt:
        s = s.copy()
        s = s.slice2(*opt['trim'], reftime='onset')
    N = len(s)
    if any(len(tr) < 2 or not np.any(tr.data) for tr in s):
        ctx.nontrivial(False)
        return
    times = [np.arange(len(tr)) * tr.stats.delta + (tr.stats.starttime - tr.stats.onset) for tr in s]
    top = max(np.max(np.abs(tr.data)) for tr in s)
    factor = opt.get('scale_factor', 1)
    info = {'default': [['back_azimuth', u'baz (\u00b0)', 'C0'], ['distance', u'dist (\u00b0)', 'C3']], None: []}[c['info']] if c['info'] in ('default', None) else c['info']
    if not show:
        info = []
    axes = list(fig.axes)
    labels = [x[1] for x in info]
    main = [ax for ax in axes if ax.get_xlabel() == 'time (s)']
    side = [ax for ax in axes if ax.get_xlabel() in labels]
    stack = [ax for ax in axes if ax not in main and ax not in side]
    require(len(main) == bool(show), '%d axes with traces, show_traces is %s', len(main), show)
    require(len(side) == len(info), 'axes with labels %s, expected %s', [ax.get_xlabel() for ax in side], labels)
    width, height = fig.get_size_inches()
    require(abs(width - opt.get('fig_width', 7.)) < 1e-6, 'figure is %s inches wide', width)
    if 'dpi' in opt:
        require(fig.dpi == opt['dpi'], 'dpi of the figure is %s', fig.dpi)
    size = lambda ax: ax.get_position().height * height
    if show:
        ax = main[0]
        want = [(t, tr.data / (np.max(np.abs(tr.data)) if opt.get('trace_scale') else top) * factor, i + 1) for i, (t, tr) in enumerate(zip(times, s))]
        expect_curves(ax, want, fill, 'traces')
        lo, hi = ax.get_ylim()
        require(lo < 1 and hi > N, 'limits %s of the vertical axis do not show %d traces', (lo, hi), N)
        require(abs(size(ax) / (hi - lo) - opt.get('trace_height', 0.5)) < 1e-6, 'height of one trace is %s inches', size(ax) / (hi - lo))
        limits(ax, times, 'traces')
        grid(ax, opt, 'traces')
        for e, (header, label, color) in enumerate(info):
            ax2 = [x for x in side if x.get_xlabel() == label]
            require(len(ax2) == 1, '%d axes with label %s', len(ax2), label)
            lines = [line.get_xydata() for line in ax2[0].lines]
            val = [tr.stats[header] for tr in s]
            require(len(lines) == 1 and np.shape(lines[0]) == (N, 2) and np.allclose(lines[0], np.array([val, np.arange(N) + 1]).T), 'header %s is shown as %s, values are %s', header, [x.tolist() for x in lines], val)
            require(rgba(ax2[0].lines[0].get_markeredgecolor()) == rgba(color), 'color of %s is %s', header, ax2[0].lines[0].get_markeredgecolor())
            for x, label_ in zip(ax2[0].get_xticks(), ax2[0].get_xticklabels()):
                m = re.search(r'-?[\d.]+$', label_.get_text().replace('\u2212', '-'))
                require(ax2[0].xaxis.get_offset_text().get_text() or not m or abs(float(m.group()) - x) <= 0.01 * abs(x) + 1e-9, '%s: tick at %s is labeled %s', header, x, label_.get_text())
            require(np.allclose(ax2[0].get_ylim(), ax.get_ylim()), 'header %s has limits %s, traces have %s', header, ax2[0].get_ylim(), ax.get_ylim())
        texts = ' '.join(t.get_text() for a in axes for t in a.texts)
        require('%d traces' % N in texts, 'title %r does not show the number of traces %d', texts, N)
        if len({tr.id for tr in s}) == 1:
            require(s[0].id in texts, 'title %r does not show %s', texts, s[0].id)
    single = len({tr.id for tr in s}) == 1
    equal = len({len(tr) for tr in s}) == 1
    if not single and not equal:
        require(not stack, 'stack of different traces is plotted')
        return
    if single and equal:
        require(len(stack) == 1, '%d axes with the stack', len(stack))
        ax = stack[0]
        mean = np.mean([tr.data for tr in s], axis=0)
        # onsets of the traces may have different fractions of a sample: the time is that of one of the traces
        got = np.array(ax.lines[0].get_xdata(), float) if len(ax.lines) else np.zeros(0)
        t = [t for t in times if len(t) == len(got) and np.allclose(t, got, rtol=0, atol=1e-5)]
        require(bool(t), 'times of the stack %s... are those of no trace', got[:2])
        expect_curves(ax, [(t[0], mean, 0)], fill, 'stack')
        require(abs(size(ax) - opt.get('stack_height', 0.5)) < 1e-6, 'height of the stack is %s inches', size(ax))
        limits(ax, [t[0]], 'stack')
        grid(ax, opt, 'stack')
        if show:
            require(ax.get_position().y0 > main[0].get_position().y1 - 1e-9, 'stack is not above the traces')
        ctx.label('stack')
    else:
        require(not stack, 'stack of %s is plotted', 'traces of different length' if single else 'different channels')
        require(any('stack' in str(w.message) for w in caught), 'no warning about the missing stack')
        ctx.label('different length' if single else 'different ids')
    ctx.label(*(list(opt) + (['subset info'] if c['info'] != 'default' else [])))
    ctx.nontrivial(N > 1 or len(opt) > 0)


def limits(ax, times, what):
    """All samples are visible, and the axis does not extend further than the samples and the onset."""
    lo, hi = ax.get_xlim()
    a, b = min(t[0] for t in times), max(t[-1] for t in times)
    require(lo <= a + 1e-6 and hi >= b - 1e-6, '%s: limits %s of the time axis, samples between %s and %s', what, (lo, hi), a, b)
    m = 0.06 * (b - a)
    require(what == 'stack' or lo >= min(a, 0) - m - 1e-6 and hi <= max(b, 0) + m + 1e-6, '%s: limits %s of the time axis, samples between %s and %s', what, (lo, hi), a, b)


def grid(ax, opt, what):
    g = any(line.get_visible() for line in ax.get_xgridlines())
    require(g == opt.get('show_vlines', False), '%s: vertical lines are %s', what, 'shown' if g else 'not shown')
