"""C10 Iterative deconvolution is greedy matching pursuit of the response."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, require
from vf.decon import delay, fast_len, gaussian, pursuit, record, taper, window
from vf.gen import noises, num, real, seeds, wave, waves

CHECK = Check('C10', assumptions=['NumPy FFT and the ObsPy taper are correct',
                                  'cases in which two delays are equally good up to rounding are only checked for the monotonic misfit'])


def compare(got, nit, rms, refs, norm, what, ctx):
    """Results of all components against references; norm: index or None"""
    clear = True
    for i, (rf, n, misfit, ok) in enumerate(refs):
        if rms is not None:
            r = np.asarray(rms[i])[:nit[i]]
            require(np.all(np.diff(r) <= 1e-9) and (len(r) == 0 or r[0] <= 1 + 1e-9),
                    '%s %d: misfit increases: %s', what, i, r)
        if not ok:
            clear = False
            continue
        require(nit[i] == n, '%s %d: %s iterations, expected %d', what, i, nit[i], n)
        if rms is not None:
            close(np.asarray(rms[i])[:n], misfit, '%s %d: misfits' % (what, i), rtol=0, atol=1e-8)
    if norm is None:
        factor = 1.
    elif refs[norm][3]:
        factor = 1 / np.max(np.abs(refs[norm][0]))
    else:
        factor = None
    if norm is not None:
        close(np.max(np.abs(got[norm])), 1., 'maximum of normalised result', rtol=1e-9)
    if factor is not None:
        for i, ref in enumerate(refs):
            if ref[3]:
                close(got[i], ref[0] * factor, '%s %d' % (what, i), rtol=1e-6, atol=1e-9 * factor)
    ctx.label('clear' if clear else 'ambiguous')
    if not clear:
        ctx.nontrivial(False)


@st.composite
def array_cases(draw):
    n = draw(st.integers(4, 90))
    ns = draw(st.one_of(st.integers(2, n), st.just(n)))
    nrsp = draw(st.integers(1, 3))
    return {'n': n, 'ns': ns, 'src': draw(waves), 'rsp': draw(st.lists(waves, min_size=nrsp, max_size=nrsp)),
            'single': nrsp == 1 and draw(st.booleans()),
            'sr': draw(st.sampled_from([1., 10., 4., 2.5, 20.])),
            'gauss': draw(st.one_of(st.sampled_from(['default', 0.5, 2., 0.3]), real(0.3, 4))),
            'shift': draw(st.one_of(st.integers(0, n - 1), st.integers(0, 3))),
            'itmax': draw(st.sampled_from([None, 1, 2, 5, 20, 60])),
            'minderr': draw(st.sampled_from([None, 0.1, 1., 10.])),
            'mute': draw(st.booleans()), 'dtype': draw(st.sampled_from(['f8', 'f8', 'f8', 'i4', 'i2'])), 'amp': draw(st.sampled_from([1., 1., 1e-9, 1e6])), 'frac': draw(st.sampled_from([0, 0, 0, 0.3, 0.7])),
            'normalize': draw(st.sampled_from(['default', None] + list(range(nrsp))))}


@CHECK.sub(array_cases, quick=3000, thorough=60000,
           rule='deconv_iterative on random arrays against a direct matching pursuit (spike with the largest misfit reduction among admissible delays); non-trivial if every choice is unambiguous')
def arrays(c, ctx):
    from rf.deconvolve import deconv_iterative
    n, sr = c['n'], c['sr']
    src = wave(c['ns'], c['src'])
    rsp = [wave(n, d) for d in c['rsp']]
    if not np.any(src):
        src[0] = 1.
    for r in rsp:
        if not np.any(r):
            r[0] = 1.
    src = src * c['amp']
    rsp = [r * c['amp'] for r in rsp]
    if c.get('dtype', 'f8') != 'f8':  # integer data
        ctx.label('integer data')
        src, *rsp = [(x * 1000 / np.max(np.abs(x))).astype(c['dtype']) for x in [src] + rsp]
    tshift = (c['shift'] + c['frac']) / sr
    kw = {'tshift': tshift}
    for k in ('itmax', 'minderr'):
        if c[k] is not None:
            kw[k] = c[k]
    if c['gauss'] != 'default':
        kw['gauss'] = c['gauss'] * min(1, sr / 2)
    if c['itmax'] is None:
        kw.setdefault('minderr', 0.01)
    kw['mute_shift'] = c['mute']
    if int(tshift * sr) != c['shift']:
        ctx.nontrivial(False)
        return
    refs = [pursuit(r, src, sr, **kw) for r in rsp]
    norm = 0 if c['normalize'] == 'default' else c['normalize']
    if norm is not None and np.max(np.abs(refs[norm][0])) < 1e-6:
        ctx.nontrivial(False)
        return
    if c['normalize'] != 'default':
        kw['normalize'] = c['normalize']
    arg = rsp[0].copy() if c['single'] else [r.copy() for r in rsp]
    got, nit, rms = deconv_iterative(arg, src.copy(), sr, **kw)
    if c['single']:
        got, nit, rms = [got], [nit], [rms]
    require(len(got) == len(nit) == len(rms) == len(rsp), 'number of results')
    ctx.label('mute' if c['mute'] else 'no mute', 'limit' if any(x == kw.get('itmax', 400) for x in nit) else 'threshold')
    compare(got, nit, rms, refs, norm, 'response', ctx)


@st.composite
def stream_cases(draw):
    sr = draw(st.sampled_from([1., 2., 5., 10., 4., 20.]))
    n = draw(st.integers(12, 90))
    on = draw(st.integers(0, n - 1))
    w0 = draw(st.integers(-on, min(0, n - on - 4)))
    w1 = draw(st.integers(max(w0, -on) + 3, n - on + 2))
    return {'sr': sr, 'n': n, 'onset': on, 'frac': draw(st.sampled_from([0, 0, 0.3, -0.4])),
            'comps': draw(st.sampled_from(['LQT', 'ZRT', 'LQ', 'QLT', 'TQL', 'QTL'])),
            'seed': draw(seeds), 'kind': draw(st.sampled_from(['quake', 'noise', 'smooth'])),
            'win': draw(st.sampled_from([None, 'P', 'S', [w0, w1]])), 'taper': draw(st.sampled_from([0, 1, 3])),
            'itmax': draw(st.sampled_from([5, 30])), 'minderr': draw(st.sampled_from([None, 0.1])),
            'mute': draw(st.booleans()), 'gauss': draw(st.one_of(st.sampled_from([None, 2.]), real(0.5, 4))),
            'normalize': draw(st.sampled_from(['default', 'default', None, 0, 1])),
            'rc': draw(st.sampled_from([None, None, 'QT', 'QR'])),
            'rf': draw(st.booleans())}


@CHECK.sub(stream_cases, quick=2500, thorough=50000,
           rule='deconvolve/rf with method iterative on records against matching pursuit with zero delay at the onset; non-trivial if every choice is unambiguous')
def streams(c, ctx):
    n, sr, on = c['n'], c['sr'], c['onset']
    s, data = record(c)
    rsp = [x for x in c['comps'] if c['rc'] is None or x in c['rc']]
    if not rsp:
        ctx.nontrivial(False)
        return
    kw = {'itmax': c['itmax']}
    if c['win'] in (None, 'P', 'S'):
        if c['win']:
            kw['winsrc'] = c['win']
        i0, i1, tap = 0, n - 1, 0.
    else:
        i0, i1 = on + c['win'][0], on + c['win'][1]
        tap = c['taper'] / sr
        kw['winsrc'] = (c['win'][0] / sr, c['win'][1] / sr, tap)
    for k in ('minderr', 'gauss'):
        if c[k] is not None:
            kw[k] = c[k]
    kw['mute_shift'] = c['mute']
    opts = {k: v for k, v in kw.items() if k != 'winsrc'}
    srcc = [x for x in c['comps'] if x in 'LZ'][0]
    src = taper(window(data[srcc], i0, i1), sr, tap)
    norm = c['normalize']
    if norm == 'default':
        norm = rsp.index(srcc) if srcc in rsp else 0
    elif norm == 1 and len(rsp) == 1:
        norm = 0
    if c['normalize'] != 'default':
        kw['normalize'] = norm
    if c['rc']:
        kw['response_components'] = c['rc']
    if len(src) > n or not np.any(np.abs(src) > 1e-8) or int((on - i0) / sr * sr) != on - i0:
        ctx.nontrivial(False)
        return
    sign = {x: -1 if c['rf'] and x == 'Q' else 1 for x in c['comps']}
    refs = [pursuit(sign[x] * data[x], src, sr, tshift=(on - i0) / sr, **opts) for x in rsp]
    if norm is not None and np.max(np.abs(refs[norm][0])) < 1e-6:
        ctx.nontrivial(False)
        return
    out = s.rf('P', rotate=None, deconvolve='iterative', **kw) if c['rf'] else s.deconvolve('iterative', **kw)
    require([tr.stats.channel[-1] for tr in out] == rsp, 'components %s, expected %s',
            [tr.stats.channel[-1] for tr in out], rsp)
    compare([tr.data for tr in out], [tr.stats.iterations for tr in out], None, refs, norm, 'component', ctx)


@st.composite
def spike_cases(draw):
    sr = draw(st.sampled_from([1., 2., 5., 10., 4.]))
    w = draw(st.integers(6, 14))  # length of the source
    k = draw(st.integers(1, 4))
    gaps = draw(st.lists(st.integers(0, 10), min_size=k, max_size=k))
    amps = draw(st.lists(st.sampled_from([1., -1., 0.7, -0.5, 0.4, 0.25, -0.3, 2.]), min_size=k, max_size=k))
    return {'sr': sr, 'w': w, 'gaps': gaps, 'amps': amps, 'seed': draw(seeds),
            'shift': draw(st.integers(0, 30)), 'tail': draw(st.integers(0, 20))}


@CHECK.sub(spike_cases, quick=1500, thorough=30000,
           rule='response made of well separated scaled and delayed copies of a compact source: spikes at the delays with the amplitudes; always non-trivial')
def recovery(c, ctx):
    from rf.deconvolve import deconv_iterative
    sr, w = c['sr'], c['w']
    rs = np.random.RandomState(c['seed'])
    src = np.hanning(w) * (1 + 0.3 * rs.randn(w))
    gauss = sr * 1.0   # about no filtering: 0.88 at Nyquist frequency
    pos, p = [], 0
    for g in c['gaps']:
        p += g
        pos.append(p)
        p += 3 * w + 6
    n = p + c['tail'] + c['shift'] + w
    rsp = np.zeros(n)
    for q, a in zip(pos, c['amps']):
        rsp[q:q + w] += a * src
    tshift = c['shift'] / sr
    got, nit, _ = deconv_iterative([rsp], src, sr, tshift=tshift, gauss=gauss, normalize=None, itmax=60, minderr=1e-6)
    nfft = fast_len(2 * n)
    train = np.zeros(nfft)
    for q, a in zip(pos, c['amps']):
        train[(q + c['shift']) % nfft] = a
    want = np.fft.ifft(np.fft.fft(train) * gaussian(nfft, 1 / sr, gauss)).real[:n] * sr
    close(got[0], want, 'spike train', rtol=1e-2)
    require(nit[0] >= len(pos), '%d iterations for %d copies', nit[0], len(pos))


@st.composite
def long_cases(draw):
    c = draw(array_cases())
    n = draw(st.sampled_from([300, 700, 1500, 3000])) + draw(st.integers(0, 30))
    c.update(n=n, ns=draw(st.one_of(st.integers(20, 200), st.integers(n // 2, n))), itmax=draw(st.sampled_from([None, 5, 20, 150])), minderr=draw(st.sampled_from([None, 0.1, 0.01])),
             shift=draw(st.integers(0, n - 1)), sr=draw(st.sampled_from([10., 20., 40., 50., 100.])))
    return c


CHECK.sub(long_cases, quick=60, thorough=1200, name='long',
          rule='like arrays with up to 3000 samples; non-trivial if every choice is unambiguous')(arrays)
