"""C08 Time domain deconvolution is the damped least squares solution."""
import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vf.core import Check, Violation, close, require
from vf.decon import natural, normalized, solve, stub_toeplitz, taper, window
from vf.gen import noises, num, quake, real, seeds, stream, trace, wave, waves

CHECK = Check('C08', assumptions=['NumPy, SciPy and the ObsPy taper are correct',
                                  'the toeplitz package, which is not installed, is represented by a dense solver with the same interface'])


SOLVERS = ['toeplitz', 'scipy', 'custom', 'package']


CALLS = []


def custom_solver(a, b):
    CALLS.append(len(b))
    return np.linalg.solve(scipy.linalg.toeplitz(a), b)


def solver_arg(name):
    if name == 'custom':
        del CALLS[:]
        return custom_solver
    return {'package': 'toeplitz'}.get(name, name)


@st.composite
def array_cases(draw):
    n = draw(st.integers(1, 90))
    nrsp = draw(st.integers(1, 3))
    return {
        'n': n, 'ns': draw(st.one_of(st.integers(1, 100), st.just(n))),
        'src': draw(waves), 'rsp': draw(st.lists(noises, min_size=nrsp, max_size=nrsp)),
        'single': nrsp == 1 and draw(st.booleans()),
        'shift': draw(st.integers(-70, 70)),
        'length': draw(st.one_of(st.none(), st.integers(1, 120))),
        'spiking': draw(st.one_of(st.sampled_from([None, 1., 0.1, 10., 0.01, 0.37, 0, 1e-3]), real(0.005, 3))),
        'normalize': draw(st.sampled_from(['default', None] + list(range(nrsp)))),
        'solver': draw(st.sampled_from(SOLVERS)),
        'dtype': draw(st.sampled_from(['f8', 'f8', 'f8', 'i4']))}


@CHECK.sub(array_cases, quick=8000, thorough=200000,
           rule='deconv_time on random source and response arrays against a dense solution of the documented system; non-trivial if response and source overlap at some lag')
def arrays(c, ctx):
    from rf.deconvolve import deconv_time
    n, ns = c['n'], c['ns']
    src = (wave(ns, c['src']) * 100).astype(c['dtype'])
    if not np.any(src):
        src[0] = 1
    rsp = [(wave(n, d) * 100).astype(c['dtype']) for d in c['rsp']]
    kw = {}
    if c['spiking'] is not None:
        kw['spiking'] = c['spiking']
    if c['length'] is not None:
        kw['length'] = c['length']
    if c['normalize'] != 'default':
        kw['normalize'] = c['normalize']
    norm = 0 if c['normalize'] == 'default' else c['normalize']
    arg = rsp[0].copy() if c['single'] else [r.copy() for r in rsp]
    length = n if c['length'] is None else c['length']
    m = length + ns - n
    # the middle of the windows is between two samples if m is odd
    lags = {-(m // 2) - c['shift'], -((m + 1) // 2) - c['shift']}
    if c['length'] is None:
        lags = {-(ns // 2) - c['shift']}
    if c['spiking'] is not None and c['spiking'] < 0.05:
        ac = np.correlate(src.astype(float), src, 'full')[ns - 1:]
        ac = np.append(ac, np.zeros(length))[:length]
        if np.linalg.cond(scipy.linalg.toeplitz(ac / ac[0]) + c['spiking'] * np.eye(length)) > 1e4:
            ctx.nontrivial(False)
            return
        ctx.label('no damping' if c['spiking'] == 0 else 'small damping')
    sols = [[solve(src, r, lag, length, 1. if c['spiking'] is None else c['spiking']) for r in rsp]
            for lag in sorted(lags)]
    if norm is not None and any(np.max(np.abs(s[norm])) < 1e-6 * np.max([np.max(np.abs(x)) for x in s]) or
                                np.max(np.abs(s[norm])) < 1e-9 for s in sols):
        ctx.nontrivial(False)
        return
    ctx.nontrivial(any(np.any(s) for s in sols[0]))
    with stub_toeplitz(c['solver'] == 'package'):
        got = deconv_time(arg, src.copy(), c['shift'], solve_toeplitz=solver_arg(c['solver']), **kw)
    require(c['solver'] != 'custom' or len(CALLS) == len(rsp), 'custom solver was called %d times for %d responses', len(CALLS), len(rsp))
    if c['single']:
        require(isinstance(got, np.ndarray), 'a single array is not returned as array')
        got = [got]
    require(len(got) == len(rsp), '%d results for %d responses', len(got), len(rsp))
    ctx.label('even source' if ns % 2 == 0 else 'odd source', 'solver ' + c['solver'],
              'shifted more than half the source' if abs(c['shift']) >= ns / 2 else 'small shift',
              'length given' if c['length'] else 'length of response')
    err = None
    for s in sols:
        try:
            for g, r in zip(got, normalized(s, norm)):
                close(np.asarray(g), r, 'deconvolution', rtol=1e-6,
                      scale=np.max([np.max(np.abs(x)) for x in normalized(s, norm)]),
                      atol=1e-12 + 1e-9 * natural(src, rsp, s, norm))
            break
        except Violation as ex:
            err = err or ex
    else:
        raise err
    if norm is not None:
        close(np.max(np.abs(got[norm])), 1., 'maximum of normalised trace', rtol=1e-9)


@st.composite
def stream_cases(draw):
    sr = draw(st.sampled_from([1., 2., 5., 10., 4., 20., 0.5, 3., 7.5]))
    n = draw(st.integers(8, 90))
    on = draw(st.integers(0, n - 1))
    comps = draw(st.sampled_from(['LQT', 'ZRT', 'LQ', 'QLT', 'TQL', 'ZNE', 'RZ', 'QTL']))
    default = draw(st.integers(0, 5)) == 0
    w0 = draw(st.one_of(st.integers(-on, 0), st.integers(-on - 8, n - on - 2)))
    w1 = draw(st.integers(max(w0, -on) + 2, n - on + 8))
    return {'sr': sr, 'n': n, 'onset': on, 'frac': draw(st.sampled_from([0, 0, 0.3, -0.4])),
            'comps': comps, 'seed': draw(seeds), 'kind': draw(st.sampled_from(['quake', 'noise'])),
            'win': None if default else [w0, w1], 'wfrac': draw(st.sampled_from([[0, 0], [0, 0], [0.3, -0.2], [-0.4, 0.4]])),
            'taper': draw(st.sampled_from([0, 1, 2, 5])),
            'spiking': draw(st.one_of(st.sampled_from([None, 0.1, 1., 5.]), real(0.05, 3))),
            'normalize': draw(st.sampled_from(['default', 'default', None, 0, 1])),
            'rc': draw(st.sampled_from([None, None, 'QT', 'LQT', 'RT', 'QR', 'Z'])),
            'solver': draw(st.sampled_from(SOLVERS)),
            'path': draw(st.sampled_from(['method', 'function', 'rf']))}


@CHECK.sub(stream_cases, quick=8000, thorough=160000,
           rule='deconvolve/rf with method time on three component records against the dense solution with zero delay at the onset; non-trivial if the windowed source is not zero')
def streams(c, ctx):
    from rf.deconvolve import deconvolve
    n, sr, on = c['n'], c['sr'], c['onset']
    data = {}
    for i, comp in enumerate(c['comps']):
        data[comp] = quake(n, on, c['seed'] + i) * (1 if i == 0 else 0.5) if c['kind'] == 'quake' \
            else wave(n, ['noise', c['seed'] + i])
    traces = []
    for comp in c['comps']:
        tr = trace(data[comp], sr, id='NE.STA..BH' + comp)
        tr.stats.onset = tr.stats.starttime + min(max(on + c['frac'], 0), n - 1) / sr
        traces.append(tr)
    s = stream(traces)
    rc = c['rc']
    rsp = [x for x in c['comps'] if rc is None or x in rc]
    if not rsp:
        ctx.nontrivial(False)
        return
    kw = {}
    if c['win'] is None:
        # default of time domain deconvolution
        win = (-10., 30., 5.)
        i0, i1 = on - int(round(10 * sr)), on + int(round(30 * sr))
    else:
        w0, w1 = c['win']
        win = ((w0 + c['wfrac'][0]) / sr, (w1 + c['wfrac'][1]) / sr, c['taper'] / sr)
        i0, i1 = on + w0, on + w1
        kw['winsrc'] = win
    srcc = [x for x in c['comps'] if x in 'LZ'][0]
    src = taper(window(data[srcc], i0, i1), sr, win[2])
    if not np.any(np.abs(src) > 1e-8):
        ctx.nontrivial(False)
        return
    if c['spiking'] is not None:
        kw['spiking'] = c['spiking']
    norm = c['normalize']
    if norm == 'default':
        norm = rsp.index(srcc) if srcc in rsp else 0
    else:
        if norm is not None and norm >= len(rsp):
            norm = 0
        kw['normalize'] = norm
    if rc is not None:
        kw['response_components'] = rc
    refs = [solve(src, data[x], i0 - on, n, 1. if c['spiking'] is None else c['spiking']) for x in rsp]
    if norm is not None and np.max(np.abs(refs[norm])) < 1e-5 * np.max(np.abs(refs)):
        ctx.nontrivial(False)
        return
    atol = 1e-12 + 1e-9 * natural(src, [data[x] for x in rsp], refs, norm)
    refs = normalized(refs, norm)
    with stub_toeplitz(c['solver'] == 'package'):
        kw['solve_toeplitz'] = solver_arg(c['solver'])
        if c['path'] == 'rf':
            for x, r in zip(rsp, refs):
                if x == 'Q':  # rf reverses polarity of input Q
                    r *= -1
            out = s.rf('P', rotate=None, **kw)
        elif c['path'] == 'function':
            out = deconvolve(s, 'time', **kw)
        else:
            out = s.deconvolve('time', **kw)
    require([tr.stats.channel[-1] for tr in out] == rsp, 'components %s, expected %s',
            [tr.stats.channel[-1] for tr in out], rsp)
    ctx.label('window inside record' if 0 <= i0 and i1 < n else 'padded window',
              'window before onset' if i1 < on else 'window after onset' if i0 > on else 'window contains onset',
              c['path'], 'even window' if len(src) % 2 == 0 else 'odd window')
    for tr, x, r in zip(out, rsp, refs):
        close(tr.data, r, 'receiver function %s (onset sample %d)' % (x, on), rtol=1e-6,
              scale=np.max(np.abs(refs)), atol=atol)


@st.composite
def long_cases(draw):
    """Records of up to some thousand samples; the result is shorter for the longest."""
    c = draw(array_cases())
    n = draw(st.sampled_from([300, 999, 1500, 2500, 5000, 9000, 20000]))
    n += draw(st.integers(0, 30))
    ns = draw(st.one_of(st.integers(20, 400), st.integers(n // 2, n), st.integers(n // 4, 2 * n)))
    c.update(n=n, ns=ns, length=draw(st.integers(100, 300)) if n > 1200 else draw(st.sampled_from([None, None, 500])),
             shift=draw(st.one_of(st.integers(-50, 50), st.integers(-n // 2, n // 2))))
    return c


CHECK.sub(long_cases, quick=80, thorough=1500, name='long',
          rule='like arrays with up to 20000 samples; non-trivial if response and source overlap at some lag')(arrays)


@st.composite
def long_stream_cases(draw):
    c = draw(stream_cases())
    n = draw(st.integers(200, 1300))
    on = draw(st.integers(20, n - 60))
    w0 = draw(st.one_of(st.integers(-on, 0), st.integers(-on - 8, n - on - 2)))
    w1 = draw(st.integers(max(w0, -on) + 2, n - on + 8))
    c.update(n=n, onset=on, win=c['win'] and [w0, w1], sr=draw(st.sampled_from([10., 20., 40., 50., 100., 33.3])))
    return c


CHECK.sub(long_stream_cases, quick=60, thorough=1200, name='long_streams',
          rule='like streams with up to 1300 samples and sampling rates up to 100 Hz; non-trivial if the windowed source is not zero')(streams)
