"""C06 Relative trimming and slicing equal absolute cuts per trace."""
import numpy as np
from hypothesis import strategies as st
from obspy import Trace

from vf.core import Check, raises, require
from vf.gen import T0, decorate, decs, diff, hdiff, header, num, seeds, snap, stream, trace

CHECK = Check('C06', assumptions=['absolute cuts are those of obspy.Trace.trim and obspy.Trace.slice'])
REFS = ['onset', 'starttime', 'endtime', 'event_time', 'mytime']


@st.composite
def cases(draw):
    fast = draw(st.integers(0, 4)) == 0  # high sampling rates, all times in ms
    traces = [{'n': draw(st.integers(1, 60)), 'sr': draw(st.sampled_from([1000., 2000., 5000., 1e4] if fast else [1., 2.5, 10., 100., 0.1])),
               'start': draw(num(-20, 20)), 'onset': draw(num(-10, 30)), 'event_time': draw(num(-100, 10)), 'mytime': draw(num(-5, 40)),
               'kind': draw(st.sampled_from(['float64', 'int32', 'float32'])), 'sub': draw(st.integers(0, 999))}
              for _ in range(draw(st.integers(0, 5)))]
    ref = draw(st.sampled_from(REFS + ['onset', 'fixed', 'none']))

    def bound(lo, hi):
        kinds = ['missing', 'absolute'] if ref == 'none' else ['missing', 'absolute', 'relative', 'relative', 'relative']
        k = draw(st.sampled_from(kinds))
        return [k, draw(st.one_of(num(lo, hi), st.integers(lo, hi), num(lo, hi, 6)))]
    a, b = bound(-30, 30), bound(-20, 60)
    if draw(st.booleans()) and a[0] == b[0]:
        a[1], b[1] = sorted([a[1], b[1]])
    def scaled(x):
        return round(x * 1e-3, 6) if fast else x
    for t in traces:
        for k in ('start', 'onset', 'event_time', 'mytime'):
            t[k] = scaled(t[k])
    a[1], b[1] = scaled(a[1]), scaled(b[1])
    return {'traces': traces, 'ref': ref, 'fixed': scaled(draw(num(-10, 20))), 'a': a, 'b': b, 'seed': draw(seeds),
            'nearest': draw(st.sampled_from([None, None, True, False])), 'keep': draw(st.sampled_from([None, False, True])),
            'pad': draw(st.sampled_from([None, None, 0, 3.5])), 'cls': draw(st.sampled_from(['float', 'numpy'])), 'dec': draw(decs)}


def build(c):
    out = []
    for k, t in enumerate(c['traces']):
        d = 1000 * np.random.RandomState(c['seed'] + k).randn(t['n'])
        tr = trace(d.astype(t['kind']), t['sr'], start=T0 + t['start'] + 1e-6 * t['sub'], id='NE.ST%d..BH%s' % (k % 3, 'ZNE'[k % 3]), own=k, phase='P')
        tr.stats.onset = T0 + t['onset']
        tr.stats.event_time = T0 + t['event_time']
        tr.stats.mytime = T0 + t['mytime']
        if k % 2:
            tr.stats.processing = ['a', 'b']
        out.append(tr)
    decorate(out, c.get('dec'))
    return stream(out)


def arguments(c):
    kw = {}
    if c['ref'] == 'fixed':
        kw['reftime'] = T0 + c['fixed']
    elif c['ref'] != 'none':
        kw['reftime'] = c['ref']
    for name, (kind, v) in (('starttime', c['a']), ('endtime', c['b'])):
        if kind == 'absolute':
            kw[name] = T0 + v
        elif kind == 'relative':
            kw[name] = v if c['cls'] == 'float' else np.float64(v)
    if c['nearest'] is not None:
        kw['nearest_sample'] = c['nearest']
    return kw


def times(c, tr):
    """Absolute cut of one trace."""
    out = []
    for kind, v in (c['a'], c['b']):
        if kind == 'missing':
            out.append(None)
        elif kind == 'absolute':
            out.append(T0 + v)
        else:
            out.append((T0 + c['fixed'] if c['ref'] == 'fixed' else tr.stats[c['ref']]) + v)
    return out


def same(got, want, what, before):
    require(type(got).__name__ == 'RFTrace', '%s: type %s', what, type(got).__name__)
    require(got.data.dtype == want.data.dtype, '%s: data type', what)
    require(len(got.data) == len(want.data), '%s: %d samples, absolute cut has %d', what, len(got.data), len(want.data))
    require(np.array_equal(np.ma.getdata(got.data)[~np.ma.getmaskarray(got.data)], np.ma.getdata(want.data)[~np.ma.getmaskarray(want.data)])
            and np.array_equal(np.ma.getmaskarray(got.data), np.ma.getmaskarray(want.data)), '%s: samples', what)
    d = hdiff(header(want), header(got))
    require(d is None, '%s: against absolute cut: %s', what, d)
    d = hdiff({k: v for k, v in before.items() if k not in ('starttime', 'endtime', 'npts', 'processing')},
              header(got, ('starttime', 'endtime', 'npts', 'processing')))
    require(d is None, '%s: %s', what, d)


@CHECK.sub(cases, quick=8000, thorough=200000,
           rule='streams of 0 to 5 traces with own reference times, cut by trim2 and slice2; non-trivial if some trace loses some but not all samples')
def cuts(c, ctx):
    # slice2
    s = build(c)
    before = snap(s)
    heads = [header(tr) for tr in s]
    kw = arguments(c)
    want = []
    for tr in build(c):
        t1, t2 = times(c, tr)
        plain_tr = Trace(tr.data, header=tr.stats)
        if t1 is not None and t2 is not None and t1 > t2:
            ctx.label('bounds in wrong order')
            ctx.nontrivial(False)
            raises(ValueError, lambda: s.slice2(**kw), 'slice2 with bounds in wrong order')
            d = diff(before, snap(s))
            require(d is None, 'slice2 changed the stream: %s', d)
            raises(ValueError, lambda: s.trim2(**kw), 'trim2 with bounds in wrong order')
            return
        want.append(plain_tr.slice(t1, t2, **({} if c['nearest'] is None else {'nearest_sample': c['nearest']})))
    cut = [len(w.data) for w in want]
    part = any(0 < k < len(tr.data) for k, tr in zip(cut, s))
    ctx.nontrivial(part)
    ctx.label(c['ref'], *(['empty'] if 0 in cut else []))
    kw2 = dict(kw)
    if c['keep'] is not None:
        kw2['keep_empty_traces'] = c['keep']
    out = s.slice2(**kw2)
    d = diff(before, snap(s))
    require(d is None, 'slice2 changed the stream: %s', d)
    require(type(out).__name__ == 'RFStream' and out is not s, 'result of slice2: %s', type(out))
    idx = [i for i, k in enumerate(cut) if k or c['keep']]
    require(len(out) == len(idx), 'slice2 returns %d traces, expected %d', len(out), len(idx))
    for i, tr in zip(idx, out):
        same(tr, want[i], 'slice2 of trace %d' % i, heads[i])
    # trim2
    s = build(c)
    objs = list(s)
    want = []
    kw3 = dict(kw)
    if c['pad'] is not None:
        kw3.update(pad=True, fill_value=c['pad'])
        if any(t['kind'] == 'int32' for t in c['traces']) and c['pad'] != int(c['pad']):
            kw3['fill_value'] = 3
    for tr in build(c):
        t1, t2 = times(c, tr)
        plain_tr = Trace(tr.data, header=tr.stats)
        plain_tr.trim(t1, t2, **{k: v for k, v in kw3.items() if k in ('nearest_sample', 'pad', 'fill_value')})
        want.append(plain_tr)
    r = s.trim2(**kw3)
    require(r is s, 'trim2 does not return the stream')
    idx = [i for i, w in enumerate(want) if len(w.data)]
    require([id(tr) for tr in s] == [id(objs[i]) for i in idx], 'trim2 keeps traces %s, expected %s', [objs.index(tr) if tr in objs else None for tr in s], idx)
    for i, tr in zip(idx, s):
        # trim records itself in the processing list: not part of the comparison
        w = want[i]
        w.stats.processing = tr.stats.get('processing', [])
        same(tr, w, 'trim2 of trace %d' % i, heads[i])
        if i % 2:
            require(list(tr.stats.processing[:2]) == ['a', 'b'], 'trace %d: earlier processing entries', i)


@st.composite
def many_cases(draw):
    c = draw(cases())
    c['repeat'] = draw(st.sampled_from([20, 60, 130, 260]))
    return c


@CHECK.sub(many_cases, quick=60, thorough=1200,
           rule='like cuts with streams of up to 300 traces; non-trivial if some trace loses some but not all samples')
def many(c, ctx):
    rs = np.random.RandomState(c['seed'])
    base = c['traces']
    cuts(dict(c, traces=[base[k] for k in rs.randint(0, len(base), c['repeat'])] if base else []), ctx)
