"""C11 Multitaper deconvolution equals the multitaper spectral estimate."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, require
from vf.decon import multitaper, record, taper, window
from vf.gen import noises, real, seeds, stream, trace, wave, waves

CHECK = Check('C11', assumptions=['Slepian tapers and eigenvalues of SciPy and of the multitaper package agree (both are compared through the results)'])


def valid(n, ns, nn, ntap, olap):
    """Windows of source and noise fit into the record and there is at least one of each."""
    of = 1 / (1 - olap)
    last = int((int(of * ns / ntap) - 1) * ntap / of) + ntap
    fits = [j for j in range(int(of * nn / ntap)) if int(j * ntap / of) + ntap < n]
    return (int(of * ns / ntap) >= 1 and last <= n and fits and ns < n and nn <= n and
            int(of * n / ntap) - 1 >= 1)


@st.composite
def array_cases(draw):
    ntap = draw(st.integers(8, 30))
    ns = draw(st.integers(ntap // 2, 3 * ntap))
    n = draw(st.integers(ns + ntap, ns + 4 * ntap))
    nrsp = draw(st.integers(1, 3))
    return {'n': n, 'ns': ns, 'nn': draw(st.integers(ntap, n)), 'ntap': ntap,
            'src': draw(noises), 'rsp': draw(st.lists(noises, min_size=nrsp, max_size=nrsp)),
            'nse': draw(seeds), 'level': draw(st.sampled_from([0.01, 0.1, 1.])),
            'sr': draw(st.sampled_from([1., 5., 10., 4., 20.])),
            'K': draw(st.sampled_from([None, 2, 3, 4])), 'tband': draw(st.sampled_from([None, 2.5, 3, 4])),
            'olap': draw(st.sampled_from([None, 0.5, 0.75, 0.9, 0.3])),
            'gauss': draw(st.one_of(st.sampled_from(['default', None, 2., 0.5]), real(0.3, 4))),
            'shift': draw(st.integers(0, n - 1)), 'dtype': draw(st.sampled_from(['f8', 'f8', 'f8', 'i4', 'i2'])),
            'normalize': draw(st.sampled_from(['default', None] + list(range(nrsp))))}


@CHECK.sub(array_cases, quick=2500, thorough=50000,
           rule='deconv_multitaper on random arrays against the summed taper spectra computed in a different order with SciPy tapers; non-trivial if at least one window of source, noise and response exists')
def arrays(c, ctx):
    from rf.deconvolve import deconv_multitaper
    n, sr, ntap = c['n'], c['sr'], c['ntap']
    K = 3 if c['K'] is None else c['K']
    tband = 4 if c['tband'] is None else c['tband']
    olap = 0.75 if c['olap'] is None else c['olap']
    if not valid(n, c['ns'], c['nn'], ntap, olap) or tband >= ntap / 2:
        ctx.nontrivial(False)
        return
    src = wave(c['ns'], c['src'])
    rsp = [wave(n, d) for d in c['rsp']]
    nse = [c['level'] * wave(c['nn'], ['noise', c['nse'] + i]) for i in range(len(rsp))]
    if c.get('dtype', 'f8') != 'f8':  # integer data
        ctx.label('integer data')
        src, *rsp = [(x * 1000).astype(c['dtype']) for x in [src] + rsp]
        nse = [np.round(1000 * x).astype(c['dtype']) for x in nse]
    kw = {'T': ntap / sr}
    for k in ('K', 'tband', 'olap'):
        if c[k] is not None:
            kw[k] = c[k]
    gauss = 0.5 if c['gauss'] == 'default' else c['gauss']
    if c['gauss'] != 'default':
        kw['gauss'] = gauss
    norm = 0 if c['normalize'] == 'default' else c['normalize']
    if c['normalize'] != 'default':
        kw['normalize'] = norm
    want = multitaper(rsp, src, nse, sr, c['shift'] / sr, gauss=gauss, K=K, tband=tband, T=ntap / sr, olap=olap)
    scale = np.max(np.abs(want))
    if norm is not None:
        m = np.max(np.abs(want[norm]))
        if not m > 1e-5 * scale:
            ctx.nontrivial(False)
            return
        want = [w / m for w in want]
        scale /= m
    got = deconv_multitaper([r.copy() for r in rsp], src.copy(), [e.copy() for e in nse], sr, -c['shift'] / sr, **kw)
    require(len(got) == len(rsp), 'number of results')
    ctx.label('K=%s' % c['K'], 'olap=%s' % c['olap'], 'gauss=%s' % (c['gauss'] if not isinstance(c['gauss'], float) else 'number'), 'components=%d' % len(rsp))
    for g, w in zip(got, want):
        close(g, w, 'deconvolution', rtol=1e-6, scale=scale)


@st.composite
def stream_cases(draw):
    sr = draw(st.sampled_from([1., 2., 4., 5.]))
    T = draw(st.sampled_from([10, 12, 15])) if sr < 4 else draw(st.sampled_from([None, 5, 8, 10]))
    t = 10 if T is None else T
    on = draw(st.integers(int((t + 7) * sr), int((t + 25) * sr)))
    default = draw(st.booleans())
    pre = draw(st.integers(0, 10))
    post = draw(st.integers(t, 30))
    total = (40 if default else pre + post) + t + 5
    n = draw(st.integers(max(on + int(sr * 10), int(sr * total)), on + int(sr * (total + 20))))
    return {'sr': sr, 'n': n, 'onset': on, 'frac': draw(st.sampled_from([0, 0, 0.3, -0.4])),
            'comps': draw(st.sampled_from(['LQT', 'ZRT', 'LQ', 'QLT', 'TQL', 'QTL'])),
            'seed': draw(seeds), 'kind': draw(st.sampled_from(['quake', 'quake', 'noise'])),
            'T': T, 'win': None if default else [-pre, post, draw(st.sampled_from([0, 2, 5]))],
            'K': draw(st.sampled_from([None, 2])), 'tband': draw(st.sampled_from([None, 3])),
            'olap': draw(st.sampled_from([None, 0.5])), 'gauss': draw(st.one_of(st.sampled_from([None, 1.]), real(0.5, 4))),
            'noise': draw(st.sampled_from([None, None, 'stream'])),
            'normalize': draw(st.sampled_from(['default', 'default', None, 0, 1])),
            'rc': draw(st.sampled_from([None, None, 'QT', 'QR'])),
            'rf': draw(st.booleans())}


@CHECK.sub(stream_cases, quick=2000, thorough=40000,
           rule='deconvolve/rf with method multitaper on records, with noise given or taken from the record until 5 s before the onset; non-trivial if at least one window of each exists')
def streams(c, ctx):
    n, sr, on = c['n'], c['sr'], c['onset']
    s, data = record(c)
    rsp = [x for x in c['comps'] if c['rc'] is None or x in c['rc']]
    kw, opts = {}, {}
    if not rsp:
        ctx.nontrivial(False)
        return
    for k in ('K', 'tband', 'olap', 'gauss', 'T'):
        if c[k] is not None:
            opts[k] = c[k]
    if c['win']:
        kw['winsrc'] = tuple(c['win'])
        w = c['win']
    else:
        w = (-10, 30, 5)
    i0, i1 = on + int(w[0] * sr), on + int(w[1] * sr)
    srcc = [x for x in c['comps'] if x in 'LZ'][0]
    src = taper(window(data[srcc], i0, i1), sr, w[2])
    sign = {x: -1 if c['rf'] and x == 'Q' else 1 for x in c['comps']}
    if c['noise']:
        from vf.gen import quake
        nn = int((c['T'] or 10) * sr) + 3
        nse = [0.3 * wave(nn, ['noise', c['seed'] + 100 + i]) for i, x in enumerate(c['comps'])]
        kw['noise'] = stream([trace(d, sr, id='NE.STA..BH' + x) for x, d in zip(c['comps'], nse)])
        nse = [d for x, d in zip(c['comps'], nse) if x in rsp]
    else:
        i5 = on - int(round(5 * sr))
        nse = [sign[x] * data[x][:i5 + 1] for x in rsp]
    ntap = int(round((c['T'] or 10) * sr))
    if not valid(n, len(src), len(nse[0]), ntap, c['olap'] or 0.75):
        ctx.nontrivial(False)
        return
    norm = c['normalize']
    if norm == 'default':
        norm = rsp.index(srcc) if srcc in rsp else 0
    elif norm == 1 and len(rsp) == 1:
        norm = 0
    if c['normalize'] != 'default':
        kw['normalize'] = norm
    if c['rc']:
        kw['response_components'] = c['rc']
    want = multitaper([sign[x] * data[x] for x in rsp], src, nse, sr, -w[0], **opts)
    scale = np.max(np.abs(want))
    if norm is not None:
        m = np.max(np.abs(want[norm]))
        if not m > 1e-5 * scale:
            ctx.nontrivial(False)
            return
        want = [x / m for x in want]
        scale /= m
    kw.update(opts)
    out = s.rf('P', rotate=None, deconvolve='multitaper', **kw) if c['rf'] else s.deconvolve('multitaper', **kw)
    require([tr.stats.channel[-1] for tr in out] == rsp, 'components %s, expected %s',
            [tr.stats.channel[-1] for tr in out], rsp)
    ctx.label('noise given' if c['noise'] else 'noise from record', 'default window' if not c['win'] else 'window given')
    for tr, x, r in zip(out, rsp, want):
        close(tr.data, r, 'receiver function %s (onset sample %d)' % (x, on), rtol=1e-6, scale=scale)


@st.composite
def long_cases(draw):
    c = draw(array_cases())
    ntap = draw(st.sampled_from([50, 100, 200, 400]))
    ns = draw(st.integers(ntap // 2, 4 * ntap))
    n = draw(st.integers(ns + ntap, ns + 9 * ntap))
    c.update(ntap=ntap, ns=ns, n=n, nn=draw(st.integers(ntap, n)), shift=draw(st.integers(0, n - 1)), sr=draw(st.sampled_from([10., 20., 40., 50., 100.])))
    return c


CHECK.sub(long_cases, quick=60, thorough=1200, name='long',
          rule='like arrays with some thousand samples; non-trivial if at least one window of source, noise and response exists')(arrays)
