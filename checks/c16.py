"""C16 Moveout correction moves conversions to their reference delay time."""
import numpy as np
from hypothesis import strategies as st

from vf import REPO
from vf.core import Check, close, raises, require, scratch
from vf.gen import DEG2KM, decorate, decs, hdiff, header, num, real, seeds, stream, trace
from vf.model import Ray, iasp91, make, models, write_file

CHECK = Check('C16')


@st.composite
def cases(draw):
    m = draw(st.one_of(models(deep=True), models(deep=True), models(), st.just('iasp91')))
    rec = []
    phase = draw(st.sampled_from(['Ps', 'Ps', 'Ppps', 'Ppss', 'Psss', 'ps', 'PPSS', 'Sp', 'Sp', 'SP', 'Ssps', 'Sspp', 'Sppp', 'Sssp', 'ssps']))
    ref = draw(st.one_of(st.just(6.4), real(3, 12, 2)))
    steep = draw(st.sampled_from([0] * 7 + [1]))  # only the reference ray turns inside of the model
    if steep:
        ref = draw(num(9.5, 12, 2))
    for _ in range(draw(st.integers(1, 3))):
        rec.append({'n': draw(st.integers(40, 200)), 'pre': draw(num(0.05, 0.95, 2)), 'frac': draw(st.sampled_from([0, 0, 0.3, 0.5, -0.2])),
                    'sr': draw(st.sampled_from([1., 2., 5., 10., 20., 3.7, 12.5])),
                    'slow': draw(st.one_of(real(3, 12, 2), st.just(ref), real(4, 9, 2))),
                    'seed': draw(seeds)})
        if steep:
            rec[-1].update(sr=draw(st.sampled_from([0.5, 1., 2.])), slow=draw(real(3, 8, 2)), pre=draw(num(0.05, 0.3, 2)) if phase[0] in 'Pp' else draw(num(0.7, 0.95, 2)))
    return {'model': m, 'rec': rec, 'phase': phase, 'ref': ref,
            'via': draw(st.sampled_from(['stream', 'stream', 'model'])), 'default': draw(st.booleans()), 'dec': draw(decs)}


def build(c):
    traces = []
    for r in c['rec']:
        rs = np.random.RandomState(r['seed'])
        n = r['n']
        k = int(r['pre'] * (n - 3)) + 1 + r['frac']
        tr = trace(rs.randn(n) + 3, r['sr'], slowness=r['slow'], type='rf', phase=c['phase'][0].upper(), own='x')
        tr.stats.onset = tr.stats.starttime + k / r['sr']
        traces.append(tr)
    return stream(decorate(traces, c.get('dec'), ('type', 'moveout', 'slowness_before_moveout')))


def mapping(ray, slow, ref, phase, sign):
    """Time after (sign 1) or before (sign -1) the onset of conversions, both slownesses."""
    a, b = (np.array(ray.delays(p, phase)) for p in (slow, ref))
    n = len(a)
    bad = ~np.isfinite(a + b)
    if np.any(bad):
        n = int(np.argmax(bad))
        n = max(n - 1, 1)  # up to the last but one depth that is reached
    return sign * a[:n], sign * b[:n], n < len(a)


def check(got, old, t, a, b, what, ctx):
    """Samples at times t >= 0 (increasing); a -> b is the mapping of times."""
    # corrected trace: old samples at the mapped times, linear in between
    inside = t < a[-1] * (1 - 1e-9)
    new = np.interp(t[inside], a, b)
    if len(new) < 2:
        ctx.label('too short')
        return 0
    vals = old[inside]
    tested = 0
    for k, x in enumerate(t):
        if x < new[0] - 1e-9 or x > new[-1] + 1e-9:
            continue
        i = int(np.searchsorted(new, x, side='right')) - 1
        i = min(max(i, 0), len(new) - 2)
        w = new[i + 1] - new[i]
        want = vals[i] + (vals[i + 1] - vals[i]) * (x - new[i]) / w if w > 0 else vals[i]
        tested += 1
        if abs(x - new[-1]) < 2e-6 and got[k] == 0:
            continue  # at the end of the old record up to rounding
        # tolerance: times are rounded to a nanosecond
        slope = abs(vals[i + 1] - vals[i]) / max(w, 1e-12)
        require(abs(got[k] - want) <= 1e-7 + slope * 3e-6, '%s: sample %s s from the onset: got %s, expected %s (conversion from delay %s s)',
                what, x, got[k], want, np.interp(x, b, a))
    # nothing is known beyond the end of the old record
    if new[-1] < t[-1] and len(new) == len(t):
        tail = got[t > new[-1] + 1e-6]
        require(np.all(tail == 0), '%s: values %s after the end of the data', what, tail[:3])
        if len(tail):
            ctx.label('tail')
    return tested


@CHECK.sub(cases, quick=6000, thorough=120000,
           rule='moveout correction of random traces for random models and phases; every corrected sample is compared with linear interpolation of the samples at their mapped delay times; non-trivial if samples were compared and the correction moves them')
def shift(c, ctx):
    with scratch() as d:
        if c['model'] == 'iasp91':
            m, path = iasp91(REPO), 'iasp91'
        else:
            m, path = c['model'], d + '/model.dat'
            write_file(m, path)
        ray = Ray(m)
        sign = -1 if c['phase'][0].upper() == 'S' else 1
        if any(abs(1 / v - p / DEG2KM) * v < 1e-12 for leg in set(c['phase'].upper()) for v in ray.v(leg) for p in [c['ref']] + [r['slow'] for r in c['rec']]):
            ctx.nontrivial(False)  # critical up to rounding
            return
        for r in c['rec']:
            a, b, cut = mapping(ray, r['slow'], c['ref'], c['phase'], sign)
            if len(a) < 3 or a[-1] == 0 or b[-1] == 0:
                ctx.nontrivial(False)
                return
            s = np.sign(a[-1])
            if np.any(s * np.diff(a) < 0) or np.any(s * np.diff(b) < 0) or s * b[-1] <= 0:
                ctx.nontrivial(False)  # delay is not monotonic
                return
            if min(s * a[1:][a[1:] != a[0]].min() if np.any(a[1:] != a[0]) else 0, 1) <= 0 and s > 0:
                ctx.nontrivial(False)
                return
        st_ = build(c)
        old = build(c)
        if c['via'] == 'model':
            make(m, 'array').moveout(st_, phase=c['phase'], ref=c['ref'])
        else:
            kw = {}
            if c['ref'] != 6.4 or not c['default']:
                kw['ref'] = c['ref']
            if c['phase'] not in ('Ps', 'Sp') or not c['default']:
                kw['phase'] = c['phase']
            out = st_.moveout(model=path, **kw)
            require(out is st_, 'moveout does not return the stream')
    tested = 0
    ctx.label(c['phase'].upper(), c['via'], 'iasp91' if path == 'iasp91' else 'own model')
    for tr, o, r in zip(st_, old, c['rec']):
        require(len(tr) == len(o) and np.all(np.isfinite(tr.data)), 'length or values of corrected trace')
        skip = ('moveout', 'slowness', 'slowness_before_moveout', 'processing')
        dd = hdiff(header(o, skip), header(tr, skip))
        require(dd is None, 'header: %s', dd)
        a, b, cut = mapping(ray, r['slow'], c['ref'], c['phase'], sign)
        if cut:
            ctx.label('evanescent')
        t = np.arange(len(o)) / r['sr'] + (o.stats.starttime - o.stats.onset)
        back = a[-1] < 0  # conversions before the onset
        if back:
            ctx.label('before onset')
            keep = t >= 1e-5
            got, dat, tt = tr.data[t <= 1e-9][::-1], o.data[t <= 1e-9][::-1], -t[t <= 1e-9][::-1]
            a, b = -a, -b
        else:
            keep = t < -1. / r['sr'] - 1e-5
            got, dat, tt = tr.data[t >= -1e-9], o.data[t >= -1e-9], t[t >= -1e-9]
        close(tr.data[keep], o.data[keep], 'samples on the other side of the onset', rtol=0)
        if r['slow'] == c['ref']:
            ctx.label('reference')
            inside = tt < a[-1] - 1.5 / r['sr']
            close(got[inside], dat[inside], 'trace at reference slowness', rtol=1e-5)
            if not cut and not back and a[-1] > tt[-1]:
                close(tr.data, o.data, 'trace at reference slowness', rtol=1e-5)
        if len(tt) > 1:
            tested += check(got, dat, np.maximum(tt, 0), a, b, '%s %s -> %s' % (c['phase'], r['slow'], c['ref']), ctx)
    ctx.nontrivial(tested > 3 and any(r['slow'] != c['ref'] for r in c['rec']))


@st.composite
def many_cases(draw):
    phase = draw(st.sampled_from(['Ps', 'Ppps', 'Sp', 'Sspp']))
    kinds = [{'n': draw(st.integers(40, 90)), 'pre': draw(num(0.1, 0.9, 2)), 'frac': 0, 'sr': draw(st.sampled_from([1., 2., 5.])), 'slow': draw(real(4, 9, 1)), 'seed': draw(seeds)}
             for _ in range(draw(st.integers(1, 5)))]
    return {'kinds': kinds, 'phase': phase, 'ref': draw(st.sampled_from([6.4, 5., 7.])), 'n': draw(st.sampled_from([20, 65, 129, 150, 300])), 'order': draw(seeds)}


@CHECK.sub(many_cases, quick=40, thorough=600,
           rule='streams of up to 300 traces of five kinds: every trace is corrected like alone; non-trivial with more than 100 traces')
def many(c, ctx):
    rs = np.random.RandomState(c['order'])
    pick = rs.randint(0, len(c['kinds']), c['n']).tolist()
    s = build(dict(c, rec=[c['kinds'][k] for k in pick]))
    s.moveout(phase=c['phase'], ref=c['ref'])
    want = []
    for k in c['kinds']:
        one = build(dict(c, rec=[k]))
        one.moveout(phase=c['phase'], ref=c['ref'])
        want.append(one[0])
    require(len(s) == c['n'], 'number of traces')
    for i, (tr, k) in enumerate(zip(s, pick)):
        close(tr.data, want[k].data, 'trace %d of %d' % (i, c['n']), rtol=1e-9)
        dd = hdiff(header(want[k], ('processing',)), header(tr, ('processing',)))
        require(dd is None, 'trace %d of %d: %s', i, c['n'], dd)
    ctx.nontrivial(c['n'] > 100)


@st.composite
def outside_cases(draw):
    return {'rec': [{'n': 50, 'pre': 0.5, 'frac': 0, 'sr': 5., 'slow': 6., 'seed': draw(seeds)}],
            'off': draw(st.sampled_from([-60, 60, -20, 20])), 'phase': 'Ps'}


@CHECK.sub(outside_cases, quick=40, thorough=400, shards=1,
           rule='onset outside of the trace is rejected; every case counts')
def outside(c, ctx):
    s = build(c)
    s[0].stats.onset += c['off']
    d = s[0].data.copy()
    raises(ValueError, lambda: s.moveout(), 'onset outside of the data')
    close(s[0].data, d, 'data after rejection', rtol=0)


@st.composite
def kind_cases(draw):
    n = draw(st.integers(30, 120))
    return {'n': n, 'sr': draw(st.sampled_from([1., 5., 10.])), 'pre': draw(num(0.05, 0.95, 2)), 'slow': draw(real(4, 9, 2)), 'phase': draw(st.sampled_from(['Ps', 'Ppps', 'Ppss', 'Sp', 'Sppp'])), 'ref': draw(st.sampled_from([6.4, 5.])),
            'dtype': draw(st.sampled_from(['f8', 'f4', 'i4', 'i2', 'i8', '>f8', '>i4'])), 'share': draw(st.sampled_from(['no', 'view', 'slice', 'array', 'strided', 'readonly'])), 'seed': draw(seeds)}


@CHECK.sub(kind_cases, quick=600, thorough=10000,
           rule='data of different type, byte order, or shared with other traces and arrays: same result as for an own float array, and the others do not change; non-trivial if the correction changes the data')
def kinds(c, ctx):
    n = c['n']
    data = np.round(np.random.RandomState(c['seed']).randn(n) * 500).astype(c['dtype'])
    k = int(c['pre'] * (n - 3)) + 1

    def make_trace(d):
        tr = trace(np.zeros(n), c['sr'], slowness=c['slow'], type='rf', phase=c['phase'][0])
        tr.data = d
        tr.stats.onset = tr.stats.starttime + k / c['sr']
        return tr
    ref = make_trace(data.astype(float).copy())
    stream([ref]).moveout(phase=c['phase'], ref=c['ref'])
    other, base = None, data
    if c['share'] == 'strided':
        base = np.repeat(data, 2)
        tr = make_trace(base[::2])
    elif c['share'] == 'readonly':
        base = data.copy()
        base.flags.writeable = False
        tr = make_trace(base)
    elif c['share'] == 'slice':
        other = make_trace(data.copy())
        tr = other.slice(other.stats.starttime, other.stats.endtime)
        base = other.data
    elif c['share'] == 'view':
        tr = make_trace(data)
        other = make_trace(tr.data)
    else:
        tr = make_trace(data.copy() if c['share'] == 'no' else data)
        base = tr.data if c['share'] == 'no' else data
    before = base.copy()
    stream([tr]).moveout(phase=c['phase'], ref=c['ref'])
    close(tr.data, ref.data, 'moveout of %s data (%s)' % (c['dtype'], c['share']), rtol=1e-5 if c['dtype'] == 'f4' else 1e-9)
    if c['share'] != 'no':
        close(base, before, 'array which shares the data (%s)' % c['share'], rtol=0)
    if other is not None:
        close(other.data, data.astype(c['dtype']), 'trace which shares the data (%s)' % c['share'], rtol=0)
    ctx.label(c['dtype'], c['share'], c['phase'])
    ctx.nontrivial(not np.allclose(ref.data, before[::2] if c['share'] == 'strided' else before))
