"""C14 stream.rf() performs exactly the documented processing steps."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, raises, require
from vf.gen import decorate, decs, hdiff, header, num, quake, real, seeds, stream, trace

CHECK = Check('C14', assumptions=['ObsPy filter, trim and decimate of single traces are correct',
                                  'deconvolve() of a single record is correct (C08 to C13)'])
FILTERS = [None, None, None, {'type': 'bandpass', 'freqmin': 0.05, 'freqmax': 0.4}, {'type': 'lowpass', 'freq': 0.3},
           {'type': 'highpass', 'freq': 0.1, 'corners': 2, 'zerophase': True},
           {'type': 'bandpass', 'freqmin': 0.1, 'freqmax': 0.45, 'corners': 2, 'zerophase': True}]


@st.composite
def cases(draw):
    sr = draw(st.sampled_from([1., 2., 4., 5., 10., 20.]))
    pre, post = draw(st.integers(20, 35)), draw(st.integers(30, 50))
    rot = draw(st.sampled_from(['ZNE->LQT', 'ZNE->LQT', 'NE->RT', None, None, 'default']))
    comps = {'ZNE->LQT': ['ZNE'], 'default': ['ZNE'], 'NE->RT': ['ZNE', 'ZNE', 'NE'],
             None: ['LQT', 'ZRT', 'LQ', 'ZR', 'LQT']}[rot]
    typ = draw(st.sampled_from('PPS'))
    decon = draw(st.sampled_from(['time', 'time', 'default', 'waterlevel', 'iterative', 'func', 'func', 'func', None, None, False]))
    if typ == 'P' and comps == ['ZNE', 'ZNE', 'NE']:
        comps = ['ZNE']
    comps = ''.join(draw(st.permutations(draw(st.sampled_from(comps)))))
    trim = draw(st.sampled_from([None, None, None, [-draw(st.integers(5, 25)), draw(st.integers(10, 45))],
                                 [-draw(num(5, 25)), draw(num(10, 45))]]))
    return {'sr': sr, 'onset': int(pre * sr), 'n': int((pre + post) * sr) + 1, 'seed': draw(seeds),
            'frac': draw(st.sampled_from([0, 0, 0.3, -0.4])), 'rot': rot, 'type': typ, 'comps': comps,
            'method': draw(st.sampled_from(['arg', 'phase', 'both'])),
            'phase': draw(st.sampled_from([typ, typ, 'P' + typ, typ * 2, 'p' + typ.lower()])),
            'other': draw(st.booleans()),
            'filter': draw(st.sampled_from(FILTERS)), 'trim': trim, 'decon': decon,
            'down': draw(st.sampled_from([None, None, None, 1, 2.5, 3, 5, 10, 40, 0.75, sr])),
            'baz': draw(real(0, 360, 1)), 'inc': draw(real(0, 90, 1)),
            'dtype': draw(st.sampled_from(['float64', 'float64', 'float32', 'int32'])),
            'win': draw(st.sampled_from([None, [-5, 12, 2], [-4.5, 9, 0]])), 'wide': draw(st.booleans()),
            'rc': draw(st.sampled_from([None, None, None, 'first'])), 'band': draw(st.sampled_from(['BH', 'BH', 'QH', 'LQ', 'HL', 'TR', 'ZE'])),
            'kind': draw(st.sampled_from(['quake', 'noise'])), 'prior': draw(st.sampled_from([None, None, 'rf', 'stack', 'x'])), 'dec': draw(decs)}


def build(c):
    traces = []
    for i, x in enumerate(c['comps']):
        d = quake(c['n'], c['onset'], c['seed'] + i)
        if c['kind'] == 'noise':
            d = np.random.RandomState(c['seed'] + i).randn(c['n'])
        if c['dtype'] != 'float64':
            d = (1000 * d).astype(c['dtype'])
        tr = trace(d, c['sr'], id='NE.STA.01.' + c['band'] + x, back_azimuth=c['baz'], inclination=c['inc'],
                   slowness=6.4, distance=55.5, own='x')
        tr.stats.onset = tr.stats.starttime + (c['onset'] + c['frac']) / c['sr']
        if c['method'] != 'arg':
            tr.stats.phase = c['phase']
        elif c['other']:
            tr.stats.phase = 'PS'[c['type'] == 'P']
        if c.get('prior'):
            tr.stats.type = c['prior']
        traces.append(tr)
    decorate(traces, c.get('dec'), ('type',))
    return stream(traces)


def rotated(data, rot, baz, inc):
    b, i = np.radians(baz), np.radians(inc)
    if rot == 'ZNE->LQT':
        Z, N, E = (data[x].astype(float) for x in 'ZNE')
        return {'L': np.cos(i) * Z - np.sin(i) * (np.cos(b) * N + np.sin(b) * E),
                'Q': np.sin(i) * Z + np.cos(i) * (np.cos(b) * N + np.sin(b) * E),
                'T': np.sin(b) * N - np.cos(b) * E}
    N, E = data['N'].astype(float), data['E'].astype(float)
    out = {'R': -np.cos(b) * N - np.sin(b) * E, 'T': np.sin(b) * N - np.cos(b) * E}
    if 'Z' in data:
        out['Z'] = data['Z']
    return out


def custom(rsp, src, tshift=10, normalize=None, seen=None, gain=2.):
    """Stand-in for a deconvolution which shows what was passed"""
    if seen is not None:
        seen.append((src.copy(), tshift))
    for tr in rsp:
        tr.data = gain * tr.data + np.sum(src.data)
    return rsp


def settings(c):
    kw, seen = {}, []
    for k, v in (('filter', c['filter']), ('trim', c['trim']), ('downsample', c['down'])):
        if v is not None:
            kw[k] = v
    if c['rot'] != 'default':
        kw['rotate'] = c['rot']
    if c['decon'] != 'default':
        kw['deconvolve'] = c['decon']
    if c['method'] != 'phase':
        kw['method'] = c['type']
    dkw = {}
    if c['decon'] not in (None, False):
        if c['win'] is not None:
            dkw['winsrc'] = tuple(c['win'])
        if c['decon'] == 'func':
            dkw.update(func=custom, seen=seen, gain=-3.)
        if c['decon'] == 'iterative':
            dkw['itmax'] = 10
    return kw, dkw, seen


def expected(c, dkw):
    """Result by explicit steps: list of (component, data, starttime, rate, onset)"""
    from obspy import Trace
    traces = []
    for tr in build(c):
        t = Trace(tr.data.copy(), {'sampling_rate': c['sr'], 'starttime': tr.stats.starttime})
        if c['filter']:
            t.filter(**c['filter'])
        if c['trim']:
            t.trim(tr.stats.onset + c['trim'][0], tr.stats.onset + c['trim'][1])
        if c['down']:
            f = 1
            while c['down'] * (f + 1) <= c['sr'] * (1 + 1e-9):
                f += 1
            if c['down'] <= c['sr']:
                t.decimate(f)
        traces.append((tr.stats.channel[-1], t, tr.stats.onset))
    data = {x: t.data for x, t, _ in traces}
    t, onset = traces[0][1:]
    comps = c['comps']
    rot = 'ZNE->LQT' if c['rot'] == 'default' else c['rot']
    if rot:
        data = rotated(data, rot, c['baz'], c['inc'])
        comps = comps.translate(str.maketrans(rot[:rot.index('-')], rot[rot.index('>') + 1:]))
    if 'Q' in data:
        data['Q'] = -data['Q']
    start, sr = t.stats.starttime, t.stats.sampling_rate
    decon = 'time' if c['decon'] == 'default' else c['decon']
    src = [x for x in comps if x in ('LZ' if c['type'] == 'P' else 'QR')]
    rsp = comps
    if c['rc'] == 'first':
        rsp = comps[:1]
    if decon:
        s = stream([trace(data[x], sr, start, id='NE.STA.01.BH' + x, onset=onset) for x in comps])
        dkw = dict(dkw)
        if c['rc'] == 'first':
            dkw['response_components'] = rsp
        dkw.setdefault('winsrc', c['type'])
        s.deconvolve(decon, source_components=src[0], **dkw)
        data = {tr.stats.channel[-1]: tr.data for tr in s}
        onset = s[0].stats.onset
        comps = rsp
    if c['type'] == 'S':
        data = {x: d[::-1] for x, d in data.items()}
        onset = start + (len(t.data) - 1) / sr - (onset - start)
    return [(x, data[x], start, sr, onset) for x in comps]


@CHECK.sub(cases, quick=4000, thorough=80000,
           rule='rf() with random combination of steps against explicit steps on plain arrays with own rotation; every case in which the steps are possible counts')
def steps(c, ctx):
    kw, dkw, seen = settings(c)
    if c['decon'] in (None, False):
        c['rc'] = None
    if c['down'] and c['sr'] / c['down'] > 16:
        ctx.nontrivial(False)
        return
    if c['decon'] == 'waterlevel':
        dkw.pop('winsrc', None)
    s = build(c)
    before = build(c)
    want = expected(c, dkw)
    if len(seen):
        seen0 = seen.pop(0)
    if c['rc'] == 'first':
        rot = 'ZNE->LQT' if c['rot'] == 'default' else c['rot']
        dkw['response_components'] = want[0][0]
    kw2 = dict(kw, **dkw)
    given = repr(sorted((k, v) for k, v in kw2.items() if k != 'seen'))
    out = s.rf(**kw2)
    require(repr(sorted((k, v) for k, v in kw2.items() if k != 'seen')) == given, 'rf changes its arguments: %s, now %s', given, kw2)
    require(out is s, 'rf does not return the stream')
    ctx.label('rotate %s' % c['rot'], 'decon %s' % c['decon'], c['type'], *(k for k in ('filter', 'trim', 'down', 'rc') if c[k]))
    require([tr.stats.channel for tr in s] == [c['band'] + w[0] for w in want], 'channels %s, expected %s',
            [tr.stats.channel for tr in s], [w[0] for w in want])
    scale = max(np.max(np.abs(w[1])) for w in want)
    rtol = 1e-9 if c['dtype'] != 'float32' else 1e-5
    if c['decon'] not in (None, False, 'func'):
        rtol *= 1000
        if c['decon'] == 'iterative' and c['dtype'] == 'float32':
            ctx.nontrivial(False)  # choice of spikes within single precision
            return
    for tr, (x, d, start, sr, onset), old in zip(s, want, before):
        require(abs(tr.stats.starttime - start) < 2e-6, 'start time of %s', x)
        require(tr.stats.sampling_rate == sr, 'sampling rate %s, expected %s', tr.stats.sampling_rate, sr)
        require(abs(tr.stats.onset - onset) < 3e-6, 'onset of %s at sample %s, expected %s', x,
                (tr.stats.onset - start) * sr, (onset - start) * sr)
        if not np.all(np.isfinite(d)):
            ctx.nontrivial(False)
            continue
        close(tr.data, d, 'component %s' % x, rtol=rtol, scale=scale)
        require(tr.stats.get('type') == 'rf', 'type of %s is %r', x, tr.stats.get('type'))
        ph = tr.stats.get('phase')
        require(ph is not None and ph[-1].upper() == c['type'], 'phase of %s is %r', x, ph)
        skip = ('onset', 'processing', 'iterations', 'endtime', 'starttime', 'npts', 'delta', 'sampling_rate',
                'channel', 'type', 'phase', '_format')
        dd = hdiff(header(old, skip), header(tr, skip))
        require(dd is None, 'component %s: %s', x, dd)
    require(s.type == 'rf' and s.method == c['type'], 'stream has type %s method %s', s.type, s.method)
    if c['decon'] == 'func':
        require(len(seen) == 1, 'deconvolution called %d times', len(seen))
        close(seen[0][0].data, seen0[0].data, 'source window', rtol=rtol, scale=np.max(np.abs(seen0[0].data)))
        close(seen[0][1], seen0[1], 'time shift')


@st.composite
def invalid_cases(draw):
    return {'sr': 2., 'onset': 40, 'n': 120, 'seed': draw(seeds), 'frac': 0, 'comps': 'ZNE', 'kind': 'noise',
            'dtype': 'float64', 'band': 'BH', 'baz': 10., 'inc': 20., 'method': draw(st.sampled_from(['arg', 'phase'])),
            'type': 'P', 'other': False, 'phase': draw(st.sampled_from(['ScK', 'x', 'Pdiff'])),
            'arg': draw(st.sampled_from([None, 'X', 'p', 's', 'Sp', 'Ps']))}


@CHECK.sub(invalid_cases, quick=60, thorough=600, shards=1,
           rule='methods other than P and S; every case counts')
def invalid(c, ctx):
    s = build(c)
    raises(ValueError, lambda: s.rf(c['arg'] if c['method'] == 'arg' else None), 'unknown method')
