"""C13 Deconvolution selects components and windows as documented."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, raises, require
from vf.decon import taper, window
from vf.gen import decorate, decs, diff, header, hdiff, quake, seeds, snap, stream, trace

CHECK = Check('C13', assumptions=['The ObsPy cosine taper is correct'])
METHODS = ['time', 'waterlevel', 'freq', 'iterative', 'multitaper', 'func']
VOLATILE = ('onset', 'processing', 'iterations', 'endtime', 'type', 'phase')


@st.composite
def cases(draw):
    sr = draw(st.sampled_from([1., 2., 4., 5., 10., 2.5]))
    n = draw(st.integers(60, 140))
    on = draw(st.integers(25, n - 20))
    comps = draw(st.permutations(draw(st.sampled_from(
        ['LQT', 'ZRT', 'ZNE', 'LQ', 'ZR', 'LQT', 'ZRT', 'Z', 'Q', 'NE', 'LZT', 'LQTZ', 'LQTX', 'QT']))))
    c = {'sr': sr, 'n': n, 'onset': on, 'comps': ''.join(comps), 'seed': draw(seeds),
         'frac': draw(st.sampled_from([0, 0, 0.3, -0.45, 0.49])),
         'method': draw(st.sampled_from(METHODS + ['func'] * 6)),
         'path': draw(st.sampled_from(['method', 'function', 'rf'])),
         'type': draw(st.sampled_from('PPS')),
         'sc': draw(st.sampled_from([None] * 9 + ['L', 'Z', 'LZ', 'QR', 'T', 'LQ'])),
         'rc': draw(st.sampled_from([None] * 7 + ['LT', 'LQ', 'TZ', 'ZR', 'EZ', 'QT', 'LQT', 'RT', 'Q', 'T', 'QRTE', 'TQ', 'X', 'Z', ''])),
         'win': draw(st.sampled_from(['default', 'P', 'S', 'given', 'given', 'given'])),
         'w0': draw(st.integers(-28, 4)), 'wl': draw(st.integers(4, 40)),
         'taper': draw(st.sampled_from([0, 1, 2, 3])),
         'kwargs': draw(st.booleans()),
         'ret': draw(st.sampled_from(['same', 'scaled', 'new', 'fewer'])),
         'fracsrc': draw(st.booleans()), 'norm': draw(st.sampled_from(['absent', 'absent', 0, 1, None, 'src'])), 'dec': draw(decs)}
    return c


def build(c):
    traces = []
    for i, x in enumerate(c['comps']):
        tr = trace(quake(c['n'], c['onset'], c['seed'] + i), c['sr'], id='NE.STA.01.BH' + x,
                   event_magnitude=5.5 + i, back_azimuth=10. * i, slowness=6.4, phase=c['type'],
                   inclination=20. + i, own={'a': [i]})
        tr.stats.onset = tr.stats.starttime + (c['onset'] + c['frac']) / c['sr']
        if c['fracsrc'] and c['path'] != 'rf':  # onsets of other components do not matter
            tr.stats.onset += 0.2 * i / c['sr'] if x not in (c['sc'] or 'LZQR') else 0
        traces.append(tr)
    return stream(decorate(traces, c.get('dec'), VOLATILE + ('calib',)))


@CHECK.sub(cases, quick=6000, thorough=120000,
           rule='deconvolve with all methods and recording custom functions through the three entry points; selected components, source window, error cases and untouched headers are compared with the documentation; non-trivial if valid selection')
def selection(c, ctx):
    from rf.deconvolve import deconvolve
    sr, n, on, comps, method = c['sr'], c['n'], c['onset'], c['comps'], c['method']
    s = build(c)
    before = build(c)
    data = {tr.stats.channel[-1]: tr.data.copy() for tr in s}
    kw, sc = {}, c['sc']
    seen = []
    members = list(s)

    def func(rsp, src, tshift=10, **kwargs):
        seen.append({'rsp': snap(rsp), 'src': src.copy(), 'tshift': tshift, 'kw': kwargs, 'rsptype': type(rsp)})
        if c['ret'] == 'scaled':
            for tr in rsp:
                tr.data = tr.data * 2
        elif c['ret'] == 'new':
            rsp = rsp.copy()
            for tr in rsp:
                tr.data = tr.data + 1
        elif c['ret'] == 'fewer':
            rsp = rsp[:1]
        return rsp

    if method == 'func':
        kw['func'] = func
        if c['kwargs']:
            kw.update(alpha=3, beta=[1, 2])
        if c['norm'] != 'absent':
            kw['normalize'] = c['norm']
    if method == 'multitaper':
        kw['T'] = 12. / sr
        kw['noise'] = stream([trace(quake(20, 100, 7 + i), sr, id='NE.STA.01.BH' + x) for i, x in enumerate(comps)])
    if sc is not None:
        kw['source_components'] = sc
    elif c['path'] == 'rf':
        sc = 'LZ' if c['type'] == 'P' else 'QR'
    else:
        sc = 'LZ'
    if c['rc'] is not None:
        kw['response_components'] = c['rc']
    defaultwin = None
    if c['win'] == 'given':
        w = (c['w0'] / sr, (c['w0'] + c['wl']) / sr, c['taper'] / sr)
        kw['winsrc'] = w
    else:
        if c['win'] != 'default':
            kw['winsrc'] = c['win']
        w = (-10, 30, 5)
    srcs = [x for x in comps if x in sc]
    rsps = [x for x in comps if c['rc'] is None or x in c['rc']]
    sign = {x: -1 if x == 'Q' and c['path'] == 'rf' else 1 for x in comps}
    mirror = c['path'] == 'rf' and c['type'] == 'S'

    def call():
        if c['path'] == 'rf':
            return s.rf(c['type'], rotate=None, deconvolve=method, **kw)
        if c['path'] == 'function':
            return deconvolve(s, method=method, **kw)
        return s.deconvolve(method, **kw)

    usable = len(comps) in (2, 3) or c['path'] != 'rf'
    ok = len(srcs) == 1 and 0 < len(rsps) < 4
    ctx.label(method, c['path'])
    if usable and not ok:
        ctx.label('invalid selection')
        raises(ValueError, call, 'source components %s, response components %s of %s' % (sc, c['rc'], comps))
        return
    if method != 'func':
        # method defaults reach beyond these short records in some cases; only selection matters here
        if method == 'multitaper':
            if c['win'] != 'given' or c['wl'] < 12:
                kw['winsrc'] = (-6 / sr, 16 / sr, 0)
        elif c['win'] == 'given':
            i0 = on + c['w0']
            src = window(data[srcs[0]], i0, i0 + c['wl']) if usable else [1]
            if not np.any(src):
                ctx.nontrivial(False)
                return
            kw['normalize'] = None
            if method == 'iterative' and c['w0'] > 0:
                kw['winsrc'] = (0, c['wl'] / sr, 0)
    out = call()
    if not usable:  # not a record of two or three components
        ctx.label('not a record')
        require(not seen, 'custom function called for %d components', len(comps))
        require([tr.stats.channel[-1] for tr in out] == list(comps), 'traces changed')
        for tr in out:
            x = tr.stats.channel[-1]
            want = sign[x] * data[x]
            close(tr.data, want[::-1] if mirror else want, 'not deconvolved component %s' % x, rtol=0)
        return
    got = [tr.stats.channel[-1] for tr in out]
    want = rsps[:1] if method == 'func' and c['ret'] == 'fewer' else rsps
    require(got == want, 'result has components %s, expected %s', got, want)
    if c['path'] != 'function':
        require(out is s, '%s does not return the stream itself', c['path'])
    if c['path'] != 'rf':
        for tr, old in zip(members, before):
            if tr.stats.channel[-1] not in srcs + rsps:
                ctx.label('other trace')
                d = hdiff(header(old), header(tr))
                require(d is None and tr.data.tobytes() == old.data.tobytes(), 'trace %s, which is neither source nor response, changed: %s', tr.id, d)
    src0 = [tr for tr in before if tr.stats.channel[-1] == srcs[0]][0]
    snapped = src0.stats.starttime + on / sr
    end = src0.stats.starttime + (n - 1) / sr
    for tr in out:
        x = tr.stats.channel[-1]
        old = [tr2 for tr2 in before if tr2.stats.channel[-1] == x][0]
        d = hdiff(header(old, VOLATILE), header(tr, VOLATILE))
        require(d is None, 'component %s: %s', x, d)
        want = src0.stats.starttime + (end - snapped) if mirror else snapped
        require(abs(tr.stats.onset - want) < 2e-6, 'onset of %s is sample %s, expected %s', x,
                (tr.stats.onset - tr.stats.starttime) * sr, (want - tr.stats.starttime) * sr)
        require(len(tr) == n and np.all(np.isfinite(tr.data)) and tr.data.dtype.kind == 'f', 'data of %s', x)
    if method != 'func':
        return
    ctx.label('ret ' + c['ret'], 'win ' + c['win'])
    require(len(seen) == 1, 'custom function called %d times', len(seen))
    seen = seen[0]
    require(type(out).__name__ == 'RFStream' and seen['rsptype'].__name__ == 'RFStream', 'not an RFStream')
    norm = seen['kw'].pop('normalize', 'absent')
    if c['norm'] != 'absent':
        require(norm == c['norm'], 'normalize is %r, given %r', norm, c['norm'])
    else:  # index of the source in the responses
        require(norm == (rsps.index(srcs[0]) if srcs[0] in rsps else 'absent'), 'normalize is %r', norm)
    require(seen['kw'] == ({'alpha': 3, 'beta': [1, 2]} if c['kwargs'] else {}), 'kwargs %r', seen['kw'])
    close(seen['tshift'], -w[0], 'tshift', rtol=1e-12, atol=1e-12)
    # source
    i0 = int(np.ceil((snapped - src0.stats.starttime + w[0]) * sr - 0.5 - 1e-6))
    exact = abs((w[0] * sr) % 1 - 0.5) > 1e-6 and abs((w[1] * sr) % 1 - 0.5) > 1e-6
    src = seen['src']
    require(src.stats.channel[-1] == srcs[0], 'source is %s', src.stats.channel)
    if exact:
        i0 = on + int(round(w[0] * sr))
        i1 = on + int(round(w[1] * sr))
        wanted = taper(window(sign[srcs[0]] * data[srcs[0]], i0, i1), sr, w[2])
        close(src.data, wanted, 'source window', rtol=1e-12, scale=np.max(np.abs(data[srcs[0]])))
        require(abs(src.stats.starttime - (src0.stats.starttime + i0 / sr)) < 1e-5, 'start of source window')
    # responses
    require([t['stats']['channel'][-1] for t in seen['rsp']] == rsps, 'responses')
    for t, x in zip(seen['rsp'], rsps):
        require(t['data'] == (sign[x] * data[x]).tobytes(), 'response %s was changed before deconvolution', x)
    for tr in out:
        x = tr.stats.channel[-1]
        want = sign[x] * data[x]
        want = want * 2 if c['ret'] == 'scaled' else want + 1 if c['ret'] == 'new' else want
        close(tr.data, want[::-1] if mirror else want, 'result of custom function %s' % x, rtol=1e-14)


@st.composite
def default_cases(draw):
    sr = draw(st.sampled_from([1., 2., 4., 5.]))
    method = draw(st.sampled_from(['time', 'time', 'waterlevel', 'waterlevel', 'iterative', 'multitaper']))
    pre = draw(st.integers(12 if method == 'multitaper' else 3, 30))
    post = draw(st.integers(44 if method == 'multitaper' else 20, 60))
    return {'sr': sr, 'onset': int(pre * sr), 'n': int((pre + post) * sr) + 1, 'seed': draw(seeds), 'frac': 0,
            'comps': draw(st.sampled_from(['LQT', 'ZRT', 'QLT', 'TRZ'])), 'fracsrc': False,
            'type': draw(st.sampled_from('PPS')),
            'method': method, 'norm': draw(st.sampled_from(['absent', 'absent', 0, 1, 2, None])),
            'path': draw(st.sampled_from(['rf', 'rf', 'method'])), 'explicit': draw(st.booleans())}


@CHECK.sub(default_cases, quick=700, thorough=12000,
           rule='default source window of every method for P and S against the same window given explicitly; every case counts')
def defaults(c, ctx):
    n, sr, on = c['n'], c['sr'], c['onset']
    end = (n - 1 - on) / sr
    m, t = c['method'], c['type']
    w = {'time': (-10, 30, 5), 'multitaper': (-10, 30, 5), 'iterative': (-on / sr, end, 0),
         'waterlevel': (-on / sr if t == 'P' else -10, end, 5)}[m]
    kw = {}
    if m == 'multitaper':
        kw.update(T=14, noise=stream([trace(quake(20, 100, 7 + i), sr, id='NE.STA.01.BH' + x) for i, x in enumerate(c['comps'])]))
    if m == 'iterative':
        kw['itmax'] = 20
    if c['norm'] != 'absent':
        kw['normalize'] = c['norm']
    s1, s2 = build(c), build(c)
    if c['path'] == 'rf':
        dkw = {'winsrc': t} if c['explicit'] else {}
        s1.rf(t, rotate=None, deconvolve=m, **dict(kw, **dkw))
        s2.rf(t, rotate=None, deconvolve=m, winsrc=w, **kw)
    else:
        sc = 'LZ' if t == 'P' else 'QR'
        dkw = {'winsrc': t} if c['explicit'] or t == 'S' else {}
        s1.deconvolve(m, source_components=sc, **dict(kw, **dkw))
        s2.deconvolve(m, source_components=sc, winsrc=w, **kw)
    ctx.label(m, t, c['path'])
    for a, b in zip(s1, s2):
        require(a.stats.channel == b.stats.channel and a.stats.onset == b.stats.onset, 'headers')
        close(a.data, b.data, '%s %s component %s' % (m, t, a.stats.channel), rtol=1e-9)
    if c['norm'] is not None and m != 'waterlevel':
        ctx.label('normalised')
        i = c['norm'] if c['norm'] != 'absent' else [x in ('LZ' if t == 'P' else 'QR') for x in c['comps']].index(True)
        close(np.max(np.abs(s1[i].data)), 1, '%s: maximum of trace %d' % (m, i), rtol=1e-9)
    if c['path'] == 'rf' and t == 'P' and not c['explicit'] and c['norm'] in ('absent', None):
        # window of P is also the default of deconvolve
        s3 = build(c)
        s3.deconvolve(m, **kw)
        for a, b in zip(s1, s3):
            s = -1 if a.stats.channel[-1] == 'Q' else 1
            close(a.data, s * b.data, 'default window of deconvolve %s' % a.stats.channel, rtol=1e-9)


@st.composite
def subset_cases(draw):
    c = draw(default_cases())
    c['onset'] = max(c['onset'], int(12 * c['sr']))
    c['n'] = max(c['n'], c['onset'] + int(44 * c['sr']) + 1)
    return dict(c, rc=draw(st.sampled_from(['L', 'Q', 'T', 'LQ', 'QT', 'LT', 'Z', 'R', 'ZR', 'RT', 'ZT', 'TQ', 'TZRLQ'])),
                noise=draw(st.sampled_from(['record', 'record', 'given'])), container=draw(st.sampled_from(['str', 'list', 'tuple'])))


@CHECK.sub(subset_cases, quick=700, thorough=12000,
           rule='receiver functions without normalisation of all methods, calculated for some and for all response components, with noise from the record or given; non-trivial if a part of the components is selected')
def subset(c, ctx):
    m, sr = c['method'], c['sr']
    s1, s2 = build(c), build(c)
    s0 = list(s2)
    for i in range(3):  # different noise
        x = np.cumsum(quake(c['n'], 100, c['seed'] + 9 + i)) * 0.02 * 3 ** i
        s1[i].data, s2[i].data = s1[i].data + x, s2[i].data + x
    kw = {'source_components': 'LZ' if c['type'] == 'P' else 'QR', 'normalize': None, 'winsrc': c['type']}
    if m == 'multitaper':
        kw['T'] = 14
        if c['noise'] == 'given':
            kw['noise'] = stream([trace(quake(20, 100, 7 + i) * 3 ** i, sr, id='NE.STA.01.BH' + x) for i, x in enumerate(c['comps'])])
    elif m == 'iterative':
        kw['itmax'] = 20
    rc = [x for x in c['comps'] if x in c['rc']]
    ctx.label(m)
    ctx.nontrivial(0 < len(rc) < 3)
    if not rc:
        return
    s1.deconvolve(m, **kw)
    s2.deconvolve(m, response_components={'str': str, 'list': list, 'tuple': tuple}[c['container']](c['rc']), **kw)
    source = 'LZ' if c['type'] == 'P' else 'QR'
    for tr, old in zip(s0, build(c)):
        if tr.stats.channel[-1] not in rc and tr.stats.channel[-1] not in source:
            d = hdiff(header(old), header(tr))
            require(d is None, 'trace %s, which is neither source nor response, changed: %s', tr.id, d)
    require([tr.stats.channel[-1] for tr in s2] == rc, 'components %s, expected %s', [tr.id for tr in s2], rc)
    for b in s2:
        a = s1.select(channel=b.stats.channel)[0]
        close(b.data, a.data, '%s component %s with response components %s' % (m, b.stats.channel[-1], c['rc']), rtol=1e-9)


@st.composite
def unknown_cases(draw):
    return {'method': draw(st.sampled_from(['Time', 'wl', '', 'fft', 'frequency', 'custom', 'TIME', 'water level'])),
            'comps': draw(st.sampled_from(['LQT', 'ZR', 'Z', 'QT'])), 'sr': 1., 'n': 40, 'onset': 20,
            'seed': draw(seeds), 'frac': 0, 'fracsrc': False, 'type': 'P'}


@CHECK.sub(unknown_cases, quick=100, thorough=1000, shards=1,
           rule='unknown methods; every case counts')
def unknown(c, ctx):
    s = build(c)
    before = snap(s)
    raises(NotImplementedError, lambda: s.deconvolve(c['method']), 'method %r' % c['method'])
    d = diff(before, snap(s))
    require(d is None, 'stream changed by rejected method: %s', d)
