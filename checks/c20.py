"""C20 Stacking returns the mean trace of every seed id."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, raises, require
from vf.gen import decorate, decs, diff, num, plain, real, seeds, snap, stream, trace

CHECK = Check('C20')
IDS = ['NE.STA1..BHQ', 'NE.STA1..BHL', 'NE.STA1.00.BHQ', 'NE.STA10..BHQ', 'XX.STA1..BHQ', 'NE.STA2..HHT', '...Q', 'NE.STA1..BHT', 'NE.STA1..??Q', 'NE.STA?..BHQ', 'NE.*..BHQ', '...??Q', '...BHQ', 'NE.Sta1..BHQ', 'ne.STA1..BHQ', 'NE.STA1..BHq']


@st.composite
def cases(draw):
    ids = draw(st.lists(st.sampled_from(IDS), min_size=1, max_size=4, unique=True))
    groups = [{'id': i, 'n': draw(st.integers(1, 30)), 'sr': draw(st.sampled_from([1., 10., 2.5, 100., 1 / 3., 12.345, 99.9999, 0.01])),
               'onset': draw(st.one_of(st.none(), num(0, 5, 3))), 'lat': draw(real(-90, 90, 2)), 'lon': draw(real(-180, 180, 2)),
               'elev': draw(st.sampled_from([0., -10., 1234.5])), 'kind': draw(st.sampled_from(['float64', 'float32', 'int32'])),
               'phase': draw(st.sampled_from([None, 'P', 'S', 'PP'])), 'moveout': draw(st.sampled_from([None, 'Ps', 'Sp'])),
               'coords': draw(st.booleans())} for i in ids]
    order = draw(st.lists(st.integers(0, len(ids) - 1), min_size=1, max_size=12))
    return {'groups': groups, 'order': order, 'seed': draw(seeds), 'perm': draw(st.permutations(range(len(order)))),
            'bad': draw(st.integers(0, 7)) == 0, 'type': draw(st.sampled_from([None, 'rf'])),
            'proc': draw(st.sampled_from([None, ['a', 'b'], []])), 'amp': draw(st.sampled_from([1., 1e-9, 1e6])), 'dec': draw(decs)}


def build(c, order):
    traces = []
    for k, i in enumerate(c['order']):
        g = c['groups'][i]
        rs = np.random.RandomState(c['seed'] + k)
        d = c['amp'] * rs.randn(g['n'])
        d = (1000 * d).astype(g['kind']) if g['kind'] != 'float64' else d
        tr = trace(d, g['sr'], id=g['id'], slowness=4. + 0.1 * k, back_azimuth=10. * k, event_magnitude=5. + k, own=[k])
        tr.stats.starttime += 86400.123456 * k
        if c['type']:
            tr.stats.type = c['type']
        if g['coords']:
            tr.stats.update({'station_latitude': g['lat'], 'station_longitude': g['lon'], 'station_elevation': g['elev']})
        for h in ('phase', 'moveout'):
            if g[h] is not None:
                tr.stats[h] = g[h]
        if c['proc'] is not None:
            tr.stats.processing = list(c['proc'])
        if g['onset'] is not None:
            tr.stats.onset = tr.stats.starttime + g['onset']
        traces.append(tr)
    decorate(traces, c.get('dec'), ('moveout', 'type', 'station_latitude', 'station_longitude', 'station_elevation'))
    return stream([traces[k] for k in order])


@CHECK.sub(cases, quick=6000, thorough=120000,
           rule='stack of streams with up to four ids, in two orders, against own means; non-trivial if an id occurs at least twice')
def stacks(c, ctx):
    n = len(c['order'])
    s = build(c, range(n))
    before = snap(s)
    count = {i: c['order'].count(i) for i in set(c['order'])}
    if c['bad'] and max(count.values()) > 1:
        i = [i for i in count if count[i] > 1][0]
        tr = [tr for tr in s if tr.id == c['groups'][i]['id']][-1]
        tr.data = np.append(tr.data, [1, 2])
        before = snap(s)
        ctx.label('different lengths')
        raises(ValueError, s.stack, 'traces of different length')
        d = diff(before, snap(s))
        require(d is None, 'input of failed stack: %s', d)
        return
    ctx.nontrivial(max(count.values()) > 1)
    ctx.label('%d ids' % len(count))
    out = s.stack()
    d = diff(before, snap(s))
    require(d is None, 'input stream: %s', d)
    check(c, out, s, count, ctx)
    s2 = build(c, c['perm'])
    check(c, s2.stack(), s2, count, ctx)
    # the result shares nothing with the input
    for tr in out:
        tr.data[:] = 7
        if 'processing' in tr.stats:
            tr.stats.processing.append('x')
    d = diff(before, snap(s))
    require(d is None, 'input stream after changing the stack: %s', d)


def check(c, out, s, count, ctx):
    require(type(out).__name__ == 'RFStream', 'type of result')
    want = {c['groups'][i]['id']: c['groups'][i] for i in count}
    require(sorted(tr.id for tr in out) == sorted(want), 'ids of result: %s, expected %s', [tr.id for tr in out], sorted(want))
    for tr in out:
        g = want[tr.id]
        data = [t.data.astype(float) for t in s if t.id == tr.id]
        mean = sum(data) / len(data)
        rtol = 1e-12 if g['kind'] != 'float32' else 1e-5
        close(tr.data, mean, 'mean of %s' % tr.id, rtol=rtol, scale=max(np.max(np.abs(x)) for x in data))
        st_ = tr.stats
        require(st_.sampling_rate == g['sr'], '%s: sampling rate %s', tr.id, st_.sampling_rate)
        require(('onset' in st_) == (g['onset'] is not None), '%s: onset', tr.id)
        if g['onset'] is not None:
            require(abs(st_.onset - st_.starttime - g['onset']) < 2e-6, '%s: onset %s s after start, expected %s', tr.id, st_.onset - st_.starttime, g['onset'])
        for h, k in (('phase', 'phase'), ('moveout', 'moveout'), ('station_latitude', 'lat'), ('station_longitude', 'lon'), ('station_elevation', 'elev')):
            w = g[k] if k in ('phase', 'moveout') or g['coords'] else None
            require(st_.get(h) == w, '%s: %s is %r, expected %r', tr.id, h, st_.get(h), w)


@st.composite
def many_cases(draw):
    c = draw(cases())
    c['size'] = draw(st.sampled_from([60, 130, 300, 600]))
    return c


@CHECK.sub(many_cases, quick=60, thorough=1200,
           rule='like stacks with up to 600 traces; non-trivial if an id occurs at least twice')
def many(c, ctx):
    rs = np.random.RandomState(c['seed'])
    order = [int(k) for k in rs.randint(0, len(c['groups']), c['size'])]
    stacks(dict(c, order=order, perm=rs.permutation(len(order)).tolist()), ctx)
