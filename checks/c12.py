"""C12 Deconvolution puts the source at the onset and respects scaling."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, require
from vf.gen import quake, seeds, stream, trace, wave

CHECK = Check('C12')
METHODS = ['time', 'waterlevel', 'iterative', 'multitaper']


def build(c, scale=1., shift=0, order=None, drop=None, flip=(), mix=None):
    n, sr, on = c['n'], c['sr'], c['onset']
    data = {x: c.get('amp', 1.) * quake(n, on, c['seed'] + i) * (1 if i == 0 else 0.6)
            for i, x in enumerate(c['comps'])}
    if mix:
        a, b = mix
        x, y = c['comps'][1], c['comps'][2]
        data[y] = a * data[x] + b * data[y]
    traces = []
    for x in (order or c['comps']):
        if x == drop:
            continue
        d = data[x] * scale * (-1 if x in flip else 1)
        tr = trace(d, sr, id='NE.STA..BH' + x)
        tr.stats.starttime += shift
        tr.stats.onset = tr.stats.starttime + on / sr
        traces.append(tr)
    return stream(traces)


def run(c, s):
    kw = dict(c['kw'])
    if c['method'] == 'multitaper':
        kw['T'] = c['T']
    if c['win'] is not None:
        kw['winsrc'] = tuple(c['win'])
    if c['path'] == 'rf':
        s.rf(c['type'], rotate=None, deconvolve=c['method'], **kw)
    else:
        s.deconvolve(c['method'], source_components='LZ' if c['type'] == 'P' else 'QR', **kw)
    return {tr.stats.channel[-1]: tr.data for tr in s}


@st.composite
def cases(draw):
    method = draw(st.sampled_from(METHODS))
    typ = draw(st.sampled_from('PPS'))
    sr = draw(st.sampled_from([2., 4., 5.] if method == 'multitaper' else [1., 2., 4., 5., 20., 50., 100.] if method == 'time' else [1., 2., 4., 5.]))
    src = draw(st.sampled_from('LZ' if typ == 'P' else 'QR'))
    others = ''.join(x for x in {'L': 'QT', 'Z': 'RT', 'Q': 'LT', 'R': 'ZT'}[src])
    comps = src + others
    c = {'method': method, 'type': typ, 'sr': sr, 'comps': comps, 'seed': draw(seeds),
         'path': draw(st.sampled_from(['rf', 'deconvolve'])), 'amp': draw(st.sampled_from([1., 1., 1e-7, 1e6])),
         'kw': {}, 'win': None, 'T': 8}
    if method == 'multitaper':
        c['onset'] = draw(st.integers(int(16 * sr), int(25 * sr)))
        c['win'] = draw(st.sampled_from([[-4, 16, 2], [-2, 12, 1]]))
        c['n'] = draw(st.integers(c['onset'] + int(20 * sr), c['onset'] + int(45 * sr)))
    else:
        c['onset'] = draw(st.integers(4, 50))
        c['n'] = draw(st.integers(c['onset'] + 30, c['onset'] + 90))
        if draw(st.booleans()):
            k = draw(st.integers(0, c['onset']))
            # window starts whose product with the sampling rate is not exact
            odd = [i for i in range(c['onset'] + 1) if int(i / sr * sr) != i]
            if odd and draw(st.booleans()):
                k = draw(st.sampled_from(odd))
            c['win'] = [-k / sr, draw(st.integers(20, 25)) / sr, draw(st.sampled_from([0, 1 / sr]))]
    if method == 'iterative':
        c['kw']['itmax'] = draw(st.sampled_from([3, 20]))
    if method == 'time' and draw(st.booleans()):
        c['kw']['spiking'] = draw(st.sampled_from([0.1, 5.]))
    if method == 'waterlevel' and draw(st.booleans()):
        c['kw']['waterlevel'] = draw(st.sampled_from([0.01, 0.3]))
    if method != 'time' and draw(st.booleans()):
        c['kw']['gauss'] = draw(st.sampled_from([0.3, 1.5]))
    c['rel'] = draw(st.sampled_from(['scale', 'scale any', 'shift', 'permute', 'drop', 'flip', 'linear']))
    c['scale'] = draw(st.sampled_from([2., 0.25, 1024., 2. ** -30]))
    c['any'] = draw(st.sampled_from([3., 0.1, 1e-9, 1e9]))
    c['shift'] = draw(st.integers(-10 ** 8, 10 ** 8))
    c['order'] = ''.join(draw(st.permutations(comps)))
    c['mix'] = draw(st.sampled_from([[1., 1.], [2., -1.], [0.5, 0.], [-1., 0.5]]))
    return c


@CHECK.sub(cases, quick=3000, thorough=60000,
           rule='pairs of runs related by scaling, time shift, permutation, dropped, reversed or mixed responses for all four methods; non-trivial if the relation changes the input')
def relations(c, ctx):
    ref = run(c, build(c))
    src, x, y = c['comps']
    for k, v in ref.items():
        require(np.all(np.isfinite(v)), 'component %s is not finite', k)
    rel = c['rel']
    ctx.label(c['method'], rel)
    tol = 1e-8
    if rel == 'scale':
        new = run(c, build(c, scale=c['scale']))
        want = ref
    elif rel == 'scale any':
        if c['method'] == 'iterative':  # choices may flip because of rounding
            ctx.nontrivial(False)
            return
        new = run(c, build(c, scale=c['any']))
        want = ref
    elif rel == 'shift':
        new = run(c, build(c, shift=c['shift']))
        want = ref
        tol = 1e-6
    elif rel == 'permute':
        new = run(c, build(c, order=c['order']))
        require(''.join(new) == c['order'], 'order %s for input %s', ''.join(new), c['order'])
        want = ref
        ctx.nontrivial(c['order'] != c['comps'])
    elif rel == 'drop':
        new = run(c, build(c, drop=y))
        want = {k: ref[k] for k in (src, x)}
    elif rel == 'flip':
        new = run(c, build(c, flip=x))
        want = dict(ref)
        want[x] = -ref[x]
    else:
        if c['method'] == 'iterative':
            ctx.nontrivial(False)
            return
        new = run(c, build(c, mix=c['mix']))
        a, b = c['mix']
        want = dict(ref)
        sx = -1 if c['path'] == 'rf' and x == 'Q' else 1  # rf reverses Q
        want[y] = a * sx * ref[x] + b * ref[y]
        if c['method'] == 'multitaper':
            # the noise of each response enters the denominator
            ctx.nontrivial(False)
            return
    require(set(new) == set(want), 'components %s', sorted(new))
    scale = max(np.max(np.abs(v)) for v in ref.values())
    for k in want:
        close(new[k], want[k], '%s %s: component %s' % (c['method'], rel, k), rtol=tol, scale=scale)


@st.composite
def copy_cases(draw):
    c = draw(cases())
    c['a'] = draw(st.sampled_from([1., -1., 0.5, -0.4, 0.2, 2., -3.]))
    c['d'] = draw(st.integers(0, 12))
    c['neg'] = draw(st.booleans())
    c['compact'] = draw(st.integers(4, 9))
    return c


def compact(c, n, on, seed, w):
    """Wavelet of w samples starting at the onset in a little noise"""
    rs = np.random.RandomState(seed)
    x = np.zeros(n)
    h = np.hanning(2 * w + 1)[w:-1] * np.concatenate(([1.], 0.35 * rs.randn(w - 1)))
    x[on:on + w] = h[:max(0, min(w, n - on))]
    return x + 1e-4 * rs.randn(n)


@CHECK.sub(copy_cases, quick=2500, thorough=50000,
           rule='source deconvolved from itself and from a scaled and delayed copy: peak at the onset with amplitude 1, peak of the copy at the delay with sign and amplitude; non-trivial for every case whose delay is inside the record')
def copies(c, ctx):
    n, on, sr = c['n'], c['onset'], c['sr']
    src, x, y = c['comps']
    w = c['compact']
    if c['method'] == 'iterative':
        c['kw']['itmax'] = 30
    d = c['d'] * (-1 if c['neg'] else 1)
    if c['win'] is not None and c['method'] != 'multitaper':
        c['win'] = [min(c['win'][0], -2 / sr), 20 / sr, min(2, -c['win'][0] * sr) / sr]
    if c['win'] is None and not (on >= 6 * sr and n - on - w >= 6 * sr):
        # keep the wavelet out of the taper of the default window
        c['win'] = [-min(on, 3) / sr, 20 / sr, min(on, 2) / sr]
    if c['method'] == 'multitaper':
        c['win'] = [-4, 16, 2]  # onset in the middle of the first taper
    s = compact(c, n, on, c['seed'], w)
    if not (0 <= on + d and on + d + w <= n) or (c['method'] != 'multitaper' and on < 3):
        ctx.nontrivial(False)
        return
    r = c['a'] * np.roll(s, d)
    z = compact(c, n, on, c['seed'] + 1, w)
    traces = []
    for k, dat in zip(c['comps'], (s, r, z)):
        tr = trace(dat, sr, id='NE.STA..BH' + k)
        tr.stats.onset = tr.stats.starttime + on / sr
        traces.append(tr)
    path = c['path']
    got = run(c, stream(traces))
    a = c['a']
    pos0, pos = on, on + d
    if path == 'rf':
        if 'Q' in (src, x):
            a = -a
        if c['type'] == 'S':
            pos0, pos = n - 1 - on, n - 1 - (on + d)
    ctx.label(c['method'], 'negative delay' if d < 0 else 'positive delay' if d else 'no delay', c['type'])
    p = int(np.argmax(np.abs(got[src])))
    require(abs(p - pos0) <= (c['method'] == 'multitaper'), '%s: source peaks at sample %d, onset %d', c['method'], p, pos0)
    close(got[src][p], 1., '%s: amplitude of source' % c['method'], rtol=1e-6)
    p = int(np.argmax(np.abs(got[x])))
    if c['method'] == 'multitaper':
        # sum over windows: the copy is seen with other tapers than the source
        if d < 0 or d > 2 * sr:
            return
        tol = 2
    else:
        tol = 0
    require(abs(p - pos) <= tol, '%s: delayed copy peaks at sample %d, expected %d (onset %d)', c['method'], p, pos, pos0)
    v = got[x][p]
    require(v * a > 0, '%s: sign of %s for scale factor %s', c['method'], v, a)
    rt = {'time': 0.1, 'waterlevel': 0.1, 'iterative': 0.05, 'multitaper': 0.7}[c['method']]
    if c['method'] == 'time' and not 2 * w <= on + d <= n - 3 * w:
        rt = 0.3  # the regularised inverse filter is cut off at the rims
    require(abs(v - a) <= rt * abs(a), '%s: amplitude %s, expected %s', c['method'], v, a)
