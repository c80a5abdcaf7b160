"""C05 rfstats keeps exactly the traces inside the distance window."""
import numpy as np
from hypothesis import strategies as st
from obspy.core import AttribDict

from vf.core import Check, raises, require
from vf.gen import diff, header, hdiff, num, plain, seeds, snap, stream, trace
from vf.rays import dist_baz, event, event_headers, pairs, station, station_headers

CHECK = Check('C05', assumptions=['geographiclib geodesics are correct', 'distances within 1e-6 degrees of a bound are decided only by the exact value rfstats itself stores'])
RAY = ('distance', 'back_azimuth', 'inclination', 'onset', 'slowness', 'phase')


@st.composite
def one_cases(draw):
    c = draw(pairs(5., 110.))
    c['phase'] = draw(st.sampled_from([None, 'P', 'S', 'S', 'PP', 'p', 's']))
    d = dist_baz(c)[0]
    k = draw(st.sampled_from(['default', 'default', 'around', 'around', 'off', 'empty']))
    if c['phase'] == 'PP' and k == 'default':
        k = draw(st.sampled_from(['default', 'around']))
    if k == 'around':
        a, b = sorted([round(d + draw(num(-30, 30, 2)), 2), round(d + draw(st.one_of(num(-30, 30, 2), num(-0.01, 0.01)).map(lambda x: x)), 4)])
        c['range'] = [a, b]
    else:
        c['range'] = {'default': 'default', 'off': None, 'empty': []}[k]
    c['have'] = draw(st.sampled_from(['args', 'stats', 'station arg', 'event arg', 'override', 'override event', 'override station']))
    c['skind'] = draw(st.sampled_from(['dict', 'attrib', 'more']))
    c['cont'] = draw(st.sampled_from(['tuple', 'list']))
    return c


def window(c):
    p = (c['phase'] or 'P').upper()
    if c['range'] == 'default':
        return {'P': (30, 90), 'S': (50, 85)}.get(p, 'error')
    return tuple(c['range']) if c['range'] else None


def keywords(c):
    kw = {}
    if c['phase']:
        kw['phase'] = c['phase']
    if c['range'] != 'default':
        kw['dist_range'] = c['range'] if c['range'] is None else {'tuple': tuple, 'list': list}[c['cont']](c['range'])
    return kw


@CHECK.sub(one_cases, quick=2500, thorough=40000,
           rule='one event and station: rfstats returns None exactly outside the window, data from arguments, stats or both; non-trivial if the window limits')
def one(c, ctx):
    from rf import rfstats
    d, baz = dist_baz(c)
    w = window(c)
    have = c['have']
    ctx.label(have)
    kw = keywords(c)
    stats = None
    other = {'station_latitude': 1., 'station_longitude': 2., 'station_elevation': 3.}
    other_ev = {'event_latitude': 1., 'event_longitude': 2., 'event_depth': 3., 'event_magnitude': 4., 'event_time': event_headers(c)['event_time'] + 7, 'event_id': 'other'}
    if have in ('args', 'override', 'override event', 'override station'):
        kw.update(event=event(c), station=station(c, c['skind']))
        if have != 'args':
            stats = AttribDict(dict(other, **other_ev))
        if have == 'override event':
            stats.update(station_headers(c))
            del kw['station']
        if have == 'override station':
            stats.update(event_headers(c))
            del kw['event']
    elif have == 'stats':
        stats = AttribDict(dict(station_headers(c), **event_headers(c)))
    elif have == 'station arg':
        stats = AttribDict(event_headers(c))
        kw['station'] = station(c, c['skind'])
    else:
        stats = AttribDict(station_headers(c))
        kw['event'] = event(c)
    if stats is not None:
        stats.own = 'kept'

    def call():
        return rfstats(**kw) if stats is None else rfstats(stats, **kw)
    if w == 'error':
        raises(ValueError, call, 'default window of phase ' + str(c['phase']))
        return
    ctx.nontrivial(w is not None)
    try:
        out = call()
        err = None
    except Exception as ex:
        err, out = ex, None
    inside = w is None or w[0] <= d <= w[1]
    near = w is not None and min(abs(d - w[0]), abs(d - w[1])) < 1e-6
    if near:
        ctx.label('at the bound')
        return
    if not inside:
        ctx.label('outside')
        require(err is None and out is None, 'distance %s outside %s: %r', d, w, err or out)
        return
    ctx.label('inside')
    if err is not None:
        # no arrival
        require('not return phase' in str(err) and (d > 97 or d < 28 or (c['phase'] or 'P') in ('p', 's')) or (c['phase'] == 'PP' and d < 55), 'distance %s inside %s: %r', d, w, err)
        ctx.label('no arrival')
        return
    require(out is not None, 'distance %s inside %s: None', d, w)
    require(stats is None or out is stats, 'result is not the given stats object')
    for k, v in dict(station_headers(c), **event_headers(c)).items():
        require(plain(out[k]) == plain(v) or (isinstance(v, float) and abs(out[k] - v) < 1e-9), '%s: %r, expected %r', k, out[k], v)
    for k in RAY:
        require(k in out, 'no header %s', k)
    if stats is not None:
        require(out.own == 'kept', 'own entry of stats')
    # both ends belong to the window
    dd = float(out.distance)
    for r, want in (((dd, dd + 10), True), ((dd - 10, dd), True), ((dd + 1e-6, dd + 10), False), ((dd - 10, dd - 1e-6), False)):
        st_ = AttribDict(dict(station_headers(c), **event_headers(c)))
        kw2 = {k: v for k, v in keywords(c).items() if k == 'phase'}
        if (not want) or dd != d or c['depth'] < 100:
            got = rfstats(st_, dist_range=r, **kw2)
            require((got is not None) == want, 'distance %r, window %r: %r', dd, r, got is not None)


@st.composite
def stream_cases(draw):
    c = draw(pairs(30., 80.))
    n = draw(st.integers(0, 6))
    c['phase'] = draw(st.sampled_from([None, 'P', 'S']))
    c['more'] = [draw(pairs(21., 95.)) for _ in range(n)]
    c['same'] = [draw(st.sampled_from(['', '', 'event', 'station', 'time'])) for _ in range(n)]
    c['net'] = [draw(st.integers(0, 1)) for _ in range(n)]
    c['args'] = draw(st.sampled_from(['none', 'none', 'event', 'station']))
    c['range'] = draw(st.sampled_from(['default', 'default', [35, 60], [19, 96], [0, 1]]))
    c['cont'] = 'tuple'
    c['seed'] = draw(seeds)
    c['cls'] = draw(st.sampled_from(['RFStream', 'RFStream', 'Stream']))
    return c


@CHECK.sub(stream_cases, quick=1200, thorough=20000,
           rule='streams of up to six traces: exactly the traces inside the window remain; non-trivial if some remain and some do not')
def streams(c, ctx):
    from rf import rfstats
    from obspy import Stream
    traces, recs, n = [], [], len(c['more'])
    for k, r in enumerate(c['more']):
        r = dict(r)
        # same event, station or origin time as for the trace before
        same = c.get('same', [''] * n)[k]
        if k and same:
            r.update({x: recs[-1][x] for x in {'event': ('elat', 'elon', 'depth', 'mag', 'time', 'evid'), 'station': ('slat', 'slon', 'elev'), 'time': ('time',)}[same]})
        if c['args'] == 'event':
            r.update({x: c[x] for x in ('elat', 'elon', 'depth', 'mag', 'time', 'evid')})
        elif c['args'] == 'station':
            r.update({x: c[x] for x in ('slat', 'slon', 'elev')})
        h = dict(station_headers(r), **event_headers(r))
        if c['args'] == 'event':
            h.update({'event_latitude': 0., 'event_magnitude': 9.})
        elif c['args'] == 'station':
            h.update({'station_latitude': 10.})
        tr = trace(np.random.RandomState(c['seed'] + k).randn(5 + k), id='N%d.ST%d..BHZ' % (c.get('net', [0] * n)[k], k // 3), own=k, processing=['x'], type='rf', **h)
        traces.append(tr)
        recs.append(r)
    kw = keywords(c)
    if c['args'] == 'event':
        kw['event'] = event(c)
    elif c['args'] == 'station':
        kw['station'] = station(c)
    s = stream(traces)
    if c['cls'] == 'Stream':
        s = Stream(list(s))
    objs = list(s)
    before = snap(s)
    w = window(c)
    dists = [dist_baz(r)[0] for r in recs]
    if any(min(abs(d - w[0]), abs(d - w[1])) < 1e-6 for d in dists):
        ctx.nontrivial(False)
        return
    keep = [k for k, d in enumerate(dists) if w[0] <= d <= w[1]]
    if any(dists[k] < 19 or dists[k] > 97 for k in keep):  # there may be no arrival
        ctx.nontrivial(False)
        return
    ctx.nontrivial(0 < len(keep) < len(recs))
    ctx.label(c['args'])
    out = rfstats(s, **kw)
    require(out is s, 'rfstats does not return the stream')
    require([tr.stats.own for tr in s] == keep, 'traces %s are kept, expected %s (distances %s, window %s)', [tr.stats.own for tr in s], keep, dists, w)
    for k, tr in zip(keep, s):
        require(tr is objs[k], 'trace %d is not the trace of the stream', k)
        new = dict(station_headers(recs[k]), **event_headers(recs[k]))
        for h, v in new.items():
            require(plain(tr.stats[h]) == plain(v) or (isinstance(v, float) and abs(tr.stats[h] - v) < 1e-9), 'trace %d: %s is %r, expected %r', k, h, tr.stats[h], v)
        a, b = before[k], snap([tr])[0]
        skip = set(new) | set(RAY)
        for x in (a, b):
            x['stats'] = {h: v for h, v in x['stats'].items() if h not in skip}
        d = diff([a], [b])
        require(d is None, 'trace %d: %s', k, d)
        require(abs(tr.stats.distance - dists[k]) < 1e-6 and tr.stats.phase == (c['phase'] or 'P'), 'trace %d: distance or phase of another trace', k)


@CHECK.sub(lambda: st.fixed_dictionaries({'p': pairs(40., 80.), 'without': st.sampled_from(['origin', 'latitude', 'longitude', 'depth', 'time', 'magnitude']),
                                          'how': st.sampled_from(['args', 'stats', 'stream', 'obj2stats'])}), quick=300, thorough=3000,
           rule='events with missing origin or magnitude information are rejected with ValueError')
def incomplete(c, ctx):
    from rf import rfstats
    from rf.rfstream import obj2stats
    p = c['p']
    ev = event(dict(p, decoy='no'), without=c['without'])
    if c['how'] == 'args':
        raises(ValueError, lambda: rfstats(event=ev, station=station(p)), 'event without ' + c['without'])
    elif c['how'] == 'stats':
        raises(ValueError, lambda: rfstats(AttribDict(station_headers(p)), event=ev), 'event without ' + c['without'])
    elif c['how'] == 'obj2stats':
        raises(ValueError, lambda: obj2stats(event=ev, station=station(p)), 'event without ' + c['without'])
    else:
        s = stream([trace([1., 2.], **station_headers(p)) for _ in range(2)])
        raises(ValueError, lambda: rfstats(s, event=ev), 'event without ' + c['without'])
        require(len(s) == 2, 'failed call removes traces')


@st.composite
def many_cases(draw):
    return {'recs': [draw(pairs(21., 95.)) for _ in range(draw(st.integers(2, 6)))], 'n': draw(st.sampled_from([40, 120, 129, 150])), 'seed': draw(seeds),
            'range': draw(st.sampled_from(['default', [40, 70]])), 'phase': draw(st.sampled_from([None, 'P', 'S'])), 'cont': 'tuple', 'sorted': draw(st.booleans())}


@CHECK.sub(many_cases, quick=32, thorough=300,
           rule='streams of up to 150 traces of a few event-station pairs, also next to each other: exactly the traces inside the window remain, with the headers of their pair; non-trivial with more than 100 traces of which some remain')
def many(c, ctx):
    from rf import rfstats
    w = window(c)
    dists = [dist_baz(r)[0] for r in c['recs']]
    if any(min(abs(d - w[0]), abs(d - w[1])) < 1e-6 for d in dists):
        ctx.nontrivial(False)
        return
    pick = np.random.RandomState(c['seed']).randint(0, len(dists), c['n']).tolist()
    if c['sorted']:
        pick = sorted(pick)
    s = stream([trace([1., k], id='NE.STA..BH%s' % 'ZNE'[k % 3], own=k, **dict(station_headers(c['recs'][i]), **event_headers(c['recs'][i]))) for k, i in enumerate(pick)])
    rfstats(s, **keywords(c))
    keep = [k for k, i in enumerate(pick) if w[0] <= dists[i] <= w[1]]
    require([tr.stats.own for tr in s] == keep, 'traces %s of %s are kept, expected %s', [tr.stats.own for tr in s], pick, keep)
    ref = {}
    for tr in s:
        i = pick[tr.stats.own]
        if i not in ref:
            ref[i] = rfstats(AttribDict(dict(station_headers(c['recs'][i]), **event_headers(c['recs'][i]))), **keywords(c))
        require(tr.data[1] == tr.stats.own, 'data of trace %d', tr.stats.own)
        for h in ref[i]:
            require(plain(tr.stats[h]) == plain(ref[i][h]), 'trace %d: %s is %r, for the pair alone %r', tr.stats.own, h, tr.stats[h], ref[i][h])
    ctx.nontrivial(c['n'] > 100 and 0 < len(keep) < c['n'])
