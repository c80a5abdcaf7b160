"""C23 Harmonic decomposition recovers the harmonics of the data."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, raises, require
from vf.gen import decorate, decs, diff, num, real, seeds, snap, stream, trace

CHECK = Check('C23', assumptions=['two component design after Park and Levin (2016) equations 44, 45, 47'])
TERMS = ['constant', 'cos', 'sin', 'cos2', 'sin2']
COMPS = ['R', 'RT', 'Q', 'QT', 'T']
METHODS = ['time', 'freq', None]
MODEL = {'components': st.sampled_from(COMPS), 'method': st.sampled_from(METHODS),
         'azim': st.one_of(st.sampled_from([0, None, 90., -30]), real(-360, 360, 1)),
         'scalars': st.sampled_from([None, None, [1, 1], [3, 0.3], [0.5, 2.], [2, 5]]),
         'n': st.integers(1, 17), 'sr': st.sampled_from([1., 10., 12.5]), 'seed': seeds,
         'onset': st.one_of(st.none(), num(0, 3, 2)), 'others': st.integers(0, 2), 'api': st.sampled_from(['method', 'function']),
         'amp': st.sampled_from([1., 1., 1e-8, 1e5]), 'equal': st.sampled_from([0, 0, 0, 1, 3]), 'dec': decs}


@st.composite
def cases(draw, minb=1):
    c = {k: draw(v) for k, v in MODEL.items()}
    baz = draw(st.lists(st.integers(0, 359), min_size=minb, max_size=max(12, minb + 6), unique=draw(st.booleans()) or minb > 1))
    if draw(st.booleans()):
        f = draw(st.lists(real(0, 0.99, 2), min_size=len(baz), max_size=len(baz)))
        baz = [min(b + x, 360.) for b, x in zip(baz, f)]
    c['baz'] = baz
    c['times'] = draw(st.permutations(range(len(baz))))
    k = len(baz)
    c['far'] = draw(st.booleans())
    c['perm'] = draw(st.permutations(range(k * (len(c['components']) + c['others']))))
    return c


def rows(baz, azim, comp, two, scalars):
    """Regression coefficients of one record for the ten (or five) terms."""
    t = np.radians(baz - azim)
    c1, s1, c2, s2 = np.cos(t), np.sin(t), np.cos(2 * t), np.sin(2 * t)
    if not two:
        return [1, c1, s1, c2, s2]
    if comp != 'T':
        return [scalars[0], c1, s1, c2, s2, 0, c1, s1, c2, s2]
    return [0, -s1, c1, -s2, c2, scalars[1], s1, -c1, s2, -c2]


def design(c):
    two = len(c['components']) == 2
    sc = c['scalars'] or [3, 0.3]
    return {comp: np.array([rows(b, c['azim'] or 0, comp, two, sc) for b in c['baz']], float) for comp in c['components']}


def build(c, data, order):
    """data: {comp: array events x samples}; other components get own noise."""
    k = len(c['baz'])
    comps = list(c['components']) + [x for x in 'LZ'][:c['others']]
    traces = []
    for comp in comps:
        for i in range(k):
            d = data[comp][i] if comp in data else c['amp'] * np.random.RandomState(c['seed'] + 77 + i).randn(c['n'])
            tr = trace(d, c['sr'], id='NE.STA..BH' + comp, back_azimuth=float(c['baz'][i]), slowness=5. + 0.01 * i,
                       inclination=20., event_magnitude=6., event_id='ev%d' % i, event_depth=10., event_latitude=1., event_longitude=2.,
                       type='rf', phase='P', station_latitude=12.5, station_longitude=-7., processing=['a'])
            tr.stats.starttime += 1e5 * c['times'][i] + 0.25 * i
            # P and PP windows or different distances: the order of the windows is not that of the events
            tr.stats.event_time = tr.stats.starttime - 400 + 0.01 * i - (1.7e5 * (i % 3) if c.get('far') else 0)
            if c['onset'] is not None:
                tr.stats.onset = tr.stats.starttime + c['onset']
            traces.append(tr)
    decorate(traces, c.get('dec'))
    return stream([traces[j] for j in order])


def call(c, s):
    from rf.harmonics import harmonics
    kw = {}
    if c['method']:
        kw['method'] = c['method']
    if c['azim'] is not None:
        kw['azim'] = c['azim']
    if c['scalars'] and len(c['components']) == 2:
        kw['scalars'] = tuple(c['scalars'])
    if c['api'] == 'method':
        return s.harmonics(c['components'], **kw)
    return harmonics(s, components=c['components'], **kw)


def labels(c, out):
    two = len(c['components']) == 2
    want = [(str(i), TERMS[i], p) for p in (['mod', 'unmod'] if two else ['mod']) for i in range(5)]
    got = [(tr.stats.channel, tr.stats.term, tr.stats.location) for tr in out]
    require(got == want, 'channel, term, part: %s, expected %s', got, want)
    for tr in out:
        s = tr.stats
        require(s.type == 'harmonic' and s.components == c['components'], '%s: type %s, components %s', tr.id, s.type, s.get('components'))
        require(s.npts == len(tr.data) == c['n'] and s.sampling_rate == c['sr'], '%s: %s samples at %s Hz', tr.id, len(tr.data), s.sampling_rate)
        require(s.station == 'STA' and s.network == 'NE' and s.phase == 'P' and s.station_latitude == 12.5, '%s: station headers', tr.id)
        require(('onset' in s) == (c['onset'] is not None), '%s: onset', tr.id)
        if 'onset' in s:
            require(abs(s.onset - s.starttime - c['onset']) < 2e-6, '%s: onset %s s after start, expected %s', tr.id, s.onset - s.starttime, c['onset'])
        left = [k for k in ('back_azimuth', 'slowness', 'event_time', 'event_id', 'inclination', 'event_magnitude') if k in s]
        require(not left, '%s: headers of a single event: %s', tr.id, left)
    ids = [id(tr.data) for tr in out]
    require(len(set(ids)) == len(ids), 'traces share data')
    return np.array([tr.data for tr in out])


def noise(c):
    rs = np.random.RandomState(c['seed'])
    data = {comp: c['amp'] * rs.randn(len(c['baz']), c['n']) for comp in c['components']}
    if c.get('equal'):  # samples which are equal in all records, zero for some
        for comp in data:
            data[comp][:, ::c['equal']] = c['amp'] * np.round(np.random.RandomState(c['seed'] + 5).randn(c['n']))[::c['equal']]
    return data


def compare(c, J, data, hd, ctx, what):
    """hd solves the least squares problem."""
    d = np.concatenate([data[x] for x in c['components']])
    A = np.concatenate([J[x] for x in c['components']])
    sv = np.linalg.svd(A, compute_uv=False)
    full = len(sv) == A.shape[1] and sv[-1] > 1e-6 * sv[0]
    require(np.all(np.isfinite(hd)), '%s: not finite', what)
    if full:
        x = np.linalg.solve(A.T.dot(A), A.T.dot(d)) if sv[-1] > 1e-3 * sv[0] else np.linalg.lstsq(A, d, rcond=None)[0]
        close(hd, x, what, rtol=1e-9 / (sv[-1] / sv[0]) ** 2 + 1e-12)
        return True
    small = sv[sv > 1e-13 * sv[0]]
    if small[-1] < 1e-6 * sv[0]:
        ctx.label('nearly singular, not judged')
        return False
    # any least squares solution
    g = A.T.dot(A.dot(hd) - d)
    close(g, 0 * g, what + ': gradient of the misfit', rtol=0, atol=1e-9 * sv[0] * np.max(np.abs(d)) / (small[-1] / sv[0]))
    return False


@CHECK.sub(lambda: cases(), quick=2500, thorough=50000,
           rule='any data, any number of events: least squares fit, order of events, other components, input untouched; non-trivial if the fit is unique')
def least_squares(c, ctx):
    data = noise(c)
    total = len(c['perm'])
    s = build(c, data, range(total))
    before = snap(s)
    hd = labels(c, call(c, s))
    d = diff(before, snap(s))
    require(d is None, 'input: %s', d)
    J = design(c)
    full = compare(c, J, data, hd, ctx, 'least squares fit')
    ctx.label(c['components'], 'full rank' if full else 'rank deficient')
    ctx.nontrivial(full)
    s2 = build(c, data, c['perm'])
    hd2 = labels(c, call(c, s2))
    if full:
        A = np.concatenate([J[x] for x in c['components']])
        sv = np.linalg.svd(A, compute_uv=False)
        close(hd2, hd, 'events in other order', rtol=1e-10 * sv[0] / sv[-1])
    else:
        compare(c, J, data, hd2, ctx, 'fit for events in other order')
    if c['others']:
        k = len(c['baz']) * len(c['components'])
        s3 = build(c, data, [j for j in c['perm'] if j < k])
        close(labels(c, call(c, s3)), hd2, 'without the other components', rtol=1e-12)


@CHECK.sub(lambda: cases(minb=7), quick=2500, thorough=50000,
           rule='records synthesised from known terms; non-trivial if the terms are determined by the back azimuths')
def recovers(c, ctx):
    J = design(c)
    A = np.concatenate([J[x] for x in c['components']])
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[-1] < 1e-4 * sv[0]:
        ctx.nontrivial(False)
        return
    rs = np.random.RandomState(c['seed'])
    terms = rs.randn(A.shape[1], c['n']) * rs.choice([0, 1, 1], A.shape[1])[:, None] * c['amp']
    data = {x: J[x].dot(terms) for x in c['components']}
    hd = labels(c, call(c, build(c, data, c['perm'])))
    close(hd, terms, 'terms', rtol=0, atol=1e-11 * c['amp'] * (sv[0] / sv[-1]) ** 2 * 10)
    ctx.label(c['components'], c['method'] or 'default')


@CHECK.sub(lambda: cases(minb=2), quick=200, thorough=2000,
           rule='components missing in the stream, not supported components and methods')
def rejects(c, ctx):
    from rf.harmonics import harmonics
    data = noise(c)
    s = build(c, data, c['perm'])
    before = snap(s)
    for bad in ('L', 'Z', 'TR', 'RQ', 'LQT'):
        raises(NotImplementedError, lambda: harmonics(s, components=bad), bad)
    missing = [x for x in COMPS if not set(x) <= set(c['components'])]
    for bad in missing:
        raises(ValueError, lambda: harmonics(s, components=bad), 'missing ' + bad)
    raises(NotImplementedError, lambda: harmonics(s, components=c['components'], method='fft'), 'method')
    d = diff(before, snap(s))
    require(d is None, 'input: %s', d)


@st.composite
def many_cases(draw):
    c = draw(cases(minb=2))
    c['size'] = draw(st.sampled_from([60, 130, 250]))
    return c


@CHECK.sub(many_cases, quick=60, thorough=1200, rule='like least_squares with up to 250 events; non-trivial if the fit is unique')
def many(c, ctx):
    rs = np.random.RandomState(c['seed'])
    k = c['size']
    total = k * (len(c['components']) + c['others'])
    least_squares(dict(c, baz=rs.randint(0, 360, k).tolist(), times=rs.permutation(k).tolist(), perm=rs.permutation(total).tolist()), ctx)
