"""C09 Water level deconvolution equals the spectral formula."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, require
from vf.decon import fast_len, record, taper, waterlevel_norm, window
from vf.gen import noises, num, real, seeds, wave, waves

CHECK = Check('C09', assumptions=['NumPy FFT and the ObsPy taper are correct'])


@st.composite
def array_cases(draw):
    n = draw(st.integers(2, 120))
    ns = draw(st.one_of(st.integers(1, n), st.just(n), st.integers(n, 2 * n)))
    nrsp = draw(st.integers(1, 3))
    length = draw(st.one_of(st.none(), st.none(), st.integers(n, 2 * n)))
    N = length or n
    nfft = draw(st.one_of(st.none(), st.none(), st.integers(max(N, ns), 2 * N + 3)))
    return {'n': n, 'ns': ns, 'src': draw(waves), 'rsp': draw(st.lists(waves, min_size=nrsp, max_size=nrsp)),
            'single': nrsp == 1 and draw(st.booleans()),
            'sr': draw(st.sampled_from([1., 10., 4., 2.5, 20., 0.2])),
            'waterlevel': draw(st.one_of(st.sampled_from([None, 0.05, 0.001, 0.5, 1., 2.]), real(0.001, 1))),
            'gauss': draw(st.one_of(st.sampled_from(['default', None, 0.5, 2., 0.1, 10.]), real(0.05, 4))),
            'tshift': draw(st.sampled_from([None, 0, 'int', 'frac', 'neg'])),
            'k': draw(st.integers(0, n)), 'length': length, 'nfft': nfft,
            'normalize': draw(st.sampled_from(['default', None, 'src'] + list(range(nrsp)))),
            'info': draw(st.integers(0, 5)) == 0, 'dtype': draw(st.sampled_from(['f8', 'f8', 'f8', 'i4', 'i2'])), 'amp': draw(st.sampled_from([1., 1., 1e-9, 1e6])), 'amp_rsp': draw(st.sampled_from([None, None, 1., 1e-6]))}


@CHECK.sub(array_cases, quick=8000, thorough=200000,
           rule='deconv_waterlevel on random arrays against the formula of the documentation; non-trivial if the trace used for normalisation has a clear positive maximum')
def arrays(c, ctx):
    from rf.deconvolve import deconv_waterlevel
    n, sr = c['n'], c['sr']
    src = wave(c['ns'], c['src'])
    rsp = [wave(n, d) for d in c['rsp']]
    if not np.any(src):
        src[0] = 1.
    src = src * c['amp']
    rsp = [r * (c['amp'] if c['amp_rsp'] is None else c['amp_rsp']) for r in rsp]
    if c.get('dtype', 'f8') != 'f8':  # integer data
        ctx.label('integer data')
        src, *rsp = [(x * (1000 / np.max(np.abs(x)) if np.any(x) else 1)).astype(c['dtype']) for x in [src] + rsp]
    kw = {}
    for k in ('waterlevel', 'length', 'nfft'):
        if c[k] is not None:
            kw[k] = c[k]
    for k in ('gauss', 'normalize'):
        if c[k] != 'default':
            kw[k] = c[k]
    t = {None: None, 0: 0., 'int': c['k'] / sr, 'frac': (c['k'] + 0.37) / sr, 'neg': -c['k'] / sr}[c['tshift']]
    if t is not None:
        kw['tshift'] = t
    want, ref = waterlevel_norm(rsp, src, sr, **kw)
    if ref is not None and not ref.max() > 1e-4 * np.max(np.abs(ref)):
        ctx.nontrivial(False)
        return
    if not np.any(rsp[0]):
        ctx.nontrivial(False)
    arg = rsp[0].copy() if c['single'] else [r.copy() for r in rsp]
    got = deconv_waterlevel(arg, src.copy(), sr, return_info=c['info'], **kw)
    if c['info']:
        got, info = got
        require(isinstance(info, dict), 'no info dictionary')
        N = c['length'] or n
        nfft = c['nfft'] or fast_len(max(N, c['ns']))
        for k, v in (('N', N), ('nfft', nfft), ('freq', np.fft.fftfreq(nfft, 1 / sr))):
            if k in info:
                close(info[k], v, 'entry %s of info' % k, rtol=1e-9)
        _, ref_src = waterlevel_norm([src], src, sr, **dict(kw, normalize='src', length=N, nfft=nfft))
        if 'rf_src' in info and ref_src.max() > 1e-4 * np.max(np.abs(ref_src)):
            close(np.real(info['rf_src']), ref_src / ref_src.max(), 'deconvolved source of info', rtol=1e-7)
        if not isinstance(got, (list, tuple)):
            got = [got]
    elif c['single']:
        require(isinstance(got, np.ndarray), 'a single array is not returned as array')
        got = [got]
    require(len(got) == len(rsp), '%d results for %d responses', len(got), len(rsp))
    ctx.label('normalize %s' % c['normalize'], 'nfft given' if c['nfft'] else 'default nfft',
              'gauss %s' % (c['gauss'] if not isinstance(c['gauss'], float) else 'number'), 'tshift %s' % c['tshift'])
    scale = np.max([np.max(np.abs(w)) for w in want])
    if kw.get('normalize', 0) is None:  # the window may contain nothing but rounding errors
        N = c['length'] or n
        nfft = c['nfft'] or fast_len(max(N, c['ns']))
        whole = waterlevel_norm(rsp, src, sr, **dict(kw, length=nfft, nfft=nfft, normalize=None))[0]
        scale = max(scale, 1e-6 * np.max(np.abs(whole)))
    for g, w in zip(got, want):
        close(np.real(g), w, 'deconvolution', rtol=1e-7, scale=scale, atol=1e-13 * min(1, scale))
    if c['normalize'] not in (None, 'src'):
        i = 0 if c['normalize'] == 'default' else c['normalize']
        close(np.max(np.real(got[i])), 1., 'maximum of normalised trace', rtol=1e-9)


@st.composite
def stream_cases(draw):
    sr = draw(st.sampled_from([1., 2., 5., 10., 4., 20., 0.5, 7.5]))
    n = draw(st.integers(10, 120))
    on = draw(st.integers(0, n - 1))
    w0 = draw(st.integers(-on - draw(st.sampled_from([3, 3, 30])), n - on - 4))
    w1 = draw(st.integers(max(w0, -on) + 2, max(max(w0, -on) + 2, n - on + 3)))
    return {'sr': sr, 'n': n, 'onset': on, 'frac': draw(st.sampled_from([0, 0, 0.3, -0.4])),
            'comps': draw(st.sampled_from(['LQT', 'ZRT', 'LQ', 'QLT', 'TQL', 'QTL'])),
            'seed': draw(seeds), 'kind': draw(st.sampled_from(['quake', 'noise', 'smooth'])),
            'win': draw(st.sampled_from([None, 'P', 'S', [w0, w1], [w0, w1]])),
            'taper': draw(st.sampled_from([0, 1, 2, 5])),
            'waterlevel': draw(st.one_of(st.sampled_from([None, 0.01, 0.3]), real(0.005, 1))),
            'gauss': draw(st.one_of(st.sampled_from(['default', None, 2.]), real(0.3, 4))),
            'nfft': draw(st.sampled_from([None, None, 0, 7])),
            'normalize': draw(st.sampled_from(['default', 'default', None, 'src', 0, 1])),
            'rc': draw(st.sampled_from([None, None, 'QT', 'RT', 'QR'])),
            'path': draw(st.sampled_from(['method', 'freq', 'rf']))}


@CHECK.sub(stream_cases, quick=6000, thorough=120000,
           rule='deconvolve/rf with method waterlevel on records against the formula with zero delay at the onset; non-trivial if windowed source is not zero and normalisation is well defined')
def streams(c, ctx):
    n, sr, on = c['n'], c['sr'], c['onset']
    s, data = record(c)
    rsp = [x for x in c['comps'] if c['rc'] is None or x in c['rc']]
    kw = {}
    if not rsp:
        ctx.nontrivial(False)
        return
    if c['win'] in (None, 'P', 'S'):
        if c['win']:
            kw['winsrc'] = c['win']
        i0, i1, tap = 0, n - 1, 5.
        if c['win'] == 'S':
            i0 = on - int(round(10 * sr))
            ctx.label('window longer than record' if n - i0 > n else 'window inside')
    else:
        i0, i1 = on + c['win'][0], on + c['win'][1]
        tap = c['taper'] / sr
        kw['winsrc'] = (c['win'][0] / sr, c['win'][1] / sr, tap)
    srcc = [x for x in c['comps'] if x in 'LZ'][0]
    src = taper(window(data[srcc], i0, i1), sr, tap)
    norm = c['normalize']
    if norm == 'default':
        norm = rsp.index(srcc) if srcc in rsp else 0
    elif norm == 1 and len(rsp) == 1:
        norm = 0
    if c['normalize'] != 'default':
        kw['normalize'] = norm
    opts = {}
    if c['waterlevel'] is not None:
        opts['waterlevel'] = c['waterlevel']
    if c['gauss'] != 'default':
        opts['gauss'] = c['gauss']
    if c['nfft'] is not None:
        opts['nfft'] = n + c['nfft']
    if c['rc']:
        kw['response_components'] = c['rc']
    if (len(src) > n and 'nfft' in opts) or not np.any(np.abs(src) > 1e-8):
        ctx.nontrivial(False)
        return
    kw.update(opts)
    sign = {x: -1 if c['path'] == 'rf' and x == 'Q' else 1 for x in c['comps']}
    want, ref = waterlevel_norm([sign[x] * data[x] for x in rsp], src, sr, tshift=(on - i0) / sr,
                                normalize=norm, **opts)
    if ref is not None and not ref.max() > 1e-4 * np.max(np.abs(ref)):
        ctx.nontrivial(False)
        return
    if c['path'] == 'rf':
        out = s.rf('P', rotate=None, deconvolve='waterlevel', **kw)
    else:
        out = s.deconvolve('waterlevel' if c['path'] == 'method' else 'freq', **kw)
    require([tr.stats.channel[-1] for tr in out] == rsp, 'components %s, expected %s',
            [tr.stats.channel[-1] for tr in out], rsp)
    ctx.label('win %s' % (c['win'] if isinstance(c['win'], str) else 'given' if c['win'] else 'default'), c['path'])
    scale = np.max([np.max(np.abs(w)) for w in want])
    for tr, x, w in zip(out, rsp, want):
        require(tr.data.dtype == float, 'dtype %s', tr.data.dtype)
        close(tr.data, w, 'receiver function %s (onset sample %d)' % (x, on), rtol=1e-7 if sr not in (7.5, 33.3) else 1e-4, scale=scale, atol=1e-13)


@st.composite
def long_cases(draw):
    c = draw(array_cases())
    n = draw(st.sampled_from([300, 999, 1500, 2500, 5000, 9000, 20000])) + draw(st.integers(0, 30))
    ns = draw(st.one_of(st.integers(20, 400), st.integers(n // 2, n), st.integers(n // 4, 2 * n)))
    length = draw(st.one_of(st.none(), st.integers(n, 2 * n)))
    c.update(n=n, ns=ns, length=length, nfft=draw(st.one_of(st.none(), st.integers(max(length or n, ns), 2 * max(length or n, ns)))),
             k=draw(st.integers(0, n)), sr=draw(st.sampled_from([1., 10., 20., 40., 50., 100., 33.3])))
    return c


CHECK.sub(long_cases, quick=200, thorough=4000, name='long',
          rule='like arrays with up to 20000 samples and sampling rates up to 100 Hz; non-trivial if the trace used for normalisation has a clear positive maximum')(arrays)


@st.composite
def long_stream_cases(draw):
    c = draw(stream_cases())
    n = draw(st.integers(200, 4000))
    on = draw(st.integers(20, n - 60))
    w0 = draw(st.integers(-on - draw(st.sampled_from([3, 3, 30])), n - on - 4))
    w1 = draw(st.integers(max(w0, -on) + 2, max(max(w0, -on) + 2, n - on + 3)))
    c.update(n=n, onset=on, win=[w0, w1] if isinstance(c['win'], list) else c['win'], sr=draw(st.sampled_from([10., 20., 40., 50., 100., 33.3])))
    return c


CHECK.sub(long_stream_cases, quick=100, thorough=2000, name='long_streams',
          rule='like streams with up to 4000 samples and sampling rates up to 100 Hz; non-trivial if windowed source is not zero and normalisation is well defined')(streams)
