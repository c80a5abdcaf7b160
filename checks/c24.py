"""C24 Event data iteration yields every usable event-station pair once."""
import functools

import numpy as np
from hypothesis import strategies as st
from obspy import Catalog, Inventory, Stream, Trace, UTCDateTime as UTC
from obspy.core import AttribDict
from obspy.core.event import Event, Magnitude, Origin, ResourceIdentifier
from obspy.core.inventory import Channel, Network, Station

from vf.core import Check, require
from vf.gen import hdiff, num, plain, seeds

CHECK = Check('C24', assumptions=['ray headers are those of rfstats (judged by C04 and C05)',
                                  'a usable pair has data covering the padded window; partly covered windows are not generated'])
BASE = UTC(2010, 1, 1)
CHANGE = 8.5     # day the coordinates of some stations change, in the middle of a day
GOOD = ['ok', 'ok', 'ok', 'split', 'overlap', 'int', 'order', 'wide', 'sac', 'q', 'stale', 'padgap']
BAD = ['raise', 'runtime', 'custom', 'stop', 'os', 'none', 'empty', 'two', 'one', 'four', 'gap', 'conflict', 'rates', 'outside', 'masked', 'list', 'keyerror']


class NoData(Exception):
    pass


ERRORS = {'runtime': RuntimeError, 'custom': NoData, 'stop': StopIteration, 'os': OSError}
EVENTS = ['ok', 'ok', 'ok', 'ok', 'preferred', 'noorigin', 'nolat', 'notime', 'nodepth', 'nomag']


@st.composite
def cases(draw):
    stations = []
    for k in range(draw(st.integers(1, 4))):
        stations.append({'code': draw(st.sampled_from(['A', 'B', 'AB'])) + str(k), 'net': draw(st.sampled_from(['XX', 'YY'])),
                         'loc': draw(st.sampled_from(['', '00', '10'])), 'band': draw(st.sampled_from(['BH', 'HH'])),
                         'comps': draw(st.sampled_from(['ZNE', 'Z', 'E', 'Z12', 'ZNE'])),
                         'second': draw(st.sampled_from([None, None, None, '01', 'SH'])),
                         'lat': draw(st.sampled_from([0., -20., 35., 60., -75.])), 'lon': draw(st.sampled_from([0., 90., -90., 180., -170.])),
                         'epochs': draw(st.sampled_from(['all', 'all', 'first', 'second', 'both']))})
    events = []
    for k in range(draw(st.integers(1, 4))):
        events.append({'kind': draw(st.sampled_from(EVENTS)), 'day': draw(st.sampled_from([1., 5., 8.4, 8.6, 8.6, 10., 20., 30.])) + 0.01 * k,
                       'az': draw(st.sampled_from([0., 60., 170., 300.])), 'dist': draw(st.sampled_from([10., 28., 40., 55., 70., 84., 89., 99., 120., 65.])),
                       'depth': draw(st.sampled_from([0., 10., 100., 600.])), 'to': draw(st.integers(0, 3))})
    phase = draw(st.sampled_from([None, None, 'P', 'S', 'PP', 'PcS', 'ScP', 'SP']))
    return {'stations': stations, 'events': events, 'phase': phase,
            'range': draw(st.sampled_from([None, None, [20, 95], [0, 180]])) if phase in (None, 'P', 'S') else draw(st.sampled_from([[40, 150], [60, 110]])) if phase == 'PP' else [0, 180],
            'window': draw(st.sampled_from([None, None, [-10, 30], [5.5, 25.25], [-40, -3], [0, 30], [-25, 0]])),
            'pad': draw(st.sampled_from([None, 0, 10, 2.5, 60])), 'sr': draw(st.sampled_from([1., 10., 20.])),
            'offset': draw(num(0, 0.999)), 'pbar': draw(st.booleans()), 'listed': draw(st.booleans()),
            'pp': draw(st.sampled_from([None, None, 50])), 'faults': draw(st.lists(st.sampled_from(GOOD + GOOD + BAD), min_size=16, max_size=16))}


def inventory(c):
    nets = {}
    for s in c['stations']:
        chans = []
        spans = {'all': [(None, None, 0)], 'first': [(None, CHANGE, 0)], 'second': [(CHANGE, 22, 0)], 'both': [(None, CHANGE, 0), (CHANGE, None, 0.5)]}[s['epochs']]
        codes = [(s['loc'], s['band'])]
        if s['second'] == '01':
            codes.append(('01', s['band']))
        elif s['second'] == 'SH':
            codes.append((s['loc'], 'SH'))
        for loc, band in codes:
            for comp in s['comps']:
                for t1, t2, shift in spans:
                    chans.append(Channel(band + comp, loc, latitude=s['lat'] + shift, longitude=s['lon'], elevation=100. + shift, depth=0.,
                                         start_date=BASE - 86400 * 1000 if t1 is None else BASE + 86400 * t1,
                                         end_date=None if t2 is None else BASE + 86400 * t2))
        nets.setdefault(s['net'], []).append(Station(s['code'], s['lat'], s['lon'], 100., channels=chans))
    return Inventory(networks=[Network(n, stations=x) for n, x in nets.items()], source='')


def keys(c):
    """Seed ids without component, with the coordinates at a time."""
    out = []
    for s in c['stations']:
        codes = [(s['loc'], s['band'])]
        if s['second'] == '01':
            codes.append(('01', s['band']))
        elif s['second'] == 'SH':
            codes.append((s['loc'], 'SH'))
        out.extend(('%s.%s.%s.%s' % (s['net'], s['code'], loc, band), s) for loc, band in codes)
    return out


def coords(s, day):
    e = s['epochs']
    if (e == 'first' and day >= CHANGE) or (e == 'second' and not CHANGE <= day < 22):
        return None
    shift = 0.5 if e == 'both' and day >= CHANGE else 0
    return {'latitude': s['lat'] + shift, 'longitude': s['lon'], 'elevation': 100. + shift}


@functools.lru_cache(None)
def place(lat, lon, az, dist):
    from geographiclib.geodesic import Geodesic
    p = Geodesic.WGS84.Direct(lat, lon, az, dist * 111200.)
    return round(p['lat2'], 2), round(p['lon2'], 2)


def make_event(c, k):
    e = c['events'][k]
    s = c['stations'][e['to'] % len(c['stations'])]
    lat, lon = place(s['lat'], s['lon'], e['az'], e['dist'])
    o = dict(time=BASE + 86400 * e['day'], latitude=lat, longitude=lon, depth=1000 * e['depth'])
    mags = [Magnitude(mag=5. + 0.1 * k)]
    if e['kind'] == 'noorigin':
        return Event(resource_id=ResourceIdentifier('ev%d' % k), magnitudes=mags)
    for kind, key in (('nolat', 'latitude'), ('notime', 'time'), ('nodepth', 'depth')):
        if e['kind'] == kind:
            o[key] = None
    if e['kind'] == 'nomag':
        mags = []
    origins = [Origin(**o)]
    if e['kind'] == 'preferred':
        origins.insert(0, Origin(time=BASE + 86400 * e['day'] + 50, latitude=-lat, longitude=lon, depth=5000.))
    ev = Event(resource_id=ResourceIdentifier('ev%d' % k), origins=origins, magnitudes=mags)
    if e['kind'] == 'preferred':
        ev.preferred_origin_id = origins[1].resource_id
    return ev


@functools.lru_cache(2000)
def ray(lat, lon, elev, elat, elon, depth, time_ns, mag, evid, phase, rng, pp):
    """Headers of rfstats or None."""
    from rf import rfstats
    from obspy.core import AttribDict
    kw = {} if rng is None else {'dist_range': rng}
    if phase:
        kw['phase'] = phase
    if pp is not None:
        kw['pp_depth'] = pp
    stats = AttribDict({'station_latitude': lat, 'station_longitude': lon, 'station_elevation': elev, 'event_latitude': elat,
                        'event_longitude': elon, 'event_depth': depth, 'event_magnitude': mag, 'event_time': UTC(ns=time_ns), 'event_id': evid})
    try:
        return rfstats(stats, **kw)
    except Exception:
        return None


def value(ns, comp):
    return (ns // 1000 - BASE.ns // 1000) + 0.25 * comp


def segment(c, net, sta, loc, cha, comp, t1, t2, flip=False):
    """Trace whose samples are the times of the samples."""
    dns = int(round(1e9 / c['sr']))
    start = t1.ns // 1000 * 1000
    n = int((t2.ns - start) // dns) + 1
    ns = start + dns * np.arange(n, dtype='int64')
    data = (ns // 1000 - BASE.ns // 1000) + 0.25 * comp
    if flip:
        data = -data
    return Trace(data, header={'network': net, 'station': sta, 'location': loc, 'channel': cha, 'starttime': UTC(ns=int(start)), 'sampling_rate': c['sr']})


def answer(c, fault, network, station, location, channel, starttime, endtime, comps='ZNE'):
    dt = 1 / c['sr']
    pad = 10 if c['pad'] is None else c['pad']
    if fault == 'raise':
        raise ValueError('no data')
    if fault in ERRORS:
        raise ERRORS[fault]('no data')
    if fault == 'keyerror':
        raise KeyError('no data')
    if fault == 'none':
        return None
    if fault == 'list':
        return 'no data'
    if fault == 'empty':
        return Stream()
    ext = 2 * dt + (25 if fault == 'wide' else 0)
    t1, t2 = starttime - ext + c['offset'] * dt, endtime + ext
    if fault == 'outside':
        t1, t2 = endtime + 100, endtime + 200
    mid = t1 + int((t2 - t1) / 2 * c['sr']) * dt
    out = []
    names = list(comps)
    if fault == 'order':
        names = names[::-1]
    if fault == 'two':
        names = names[:2]
    if fault == 'one':
        names = names[:1]
    if fault == 'four':
        names = names + ['X']
    for i, x in enumerate(names):
        a = (network, station, location, channel[:-1] + x, 'ZNE12X'.index(x))
        faulty = i == len(names) - 1
        if fault == 'split' or (fault == 'overlap' and faulty):
            over = 5 * dt if fault == 'overlap' else 0
            out += [segment(c, *a, t1, mid), segment(c, *a, mid + dt - over, t2)]
        elif fault == 'padgap' and faulty and pad > 12 * dt:  # outside of the window
            a1 = starttime + (3 + c['offset']) * dt  # on the grid of the samples
            out += [segment(c, *a, t1, a1), segment(c, *a, a1 + 6 * dt, t2)]
        elif fault == 'gap' and faulty:
            out += [segment(c, *a, t1, mid), segment(c, *a, mid + 4 * dt, t2)]
        elif fault == 'conflict' and faulty:
            out += [segment(c, *a, t1, mid), segment(c, *a, mid - 5 * dt, t2, flip=True)]
        elif fault == 'rates' and faulty:
            out += [segment(c, *a, t1, mid), segment(dict(c, sr=2 * c['sr']), *a, mid + dt, t2)]
        else:
            tr = segment(c, *a, t1, t2)
            if fault == 'masked' and faulty:
                m = np.zeros(len(tr.data), bool)
                m[len(m) // 2] = True
                tr.data = np.ma.masked_array(tr.data, m)
            if fault == 'sac':  # waveforms of a SAC or Q file with other values in the header
                tr.stats._format = 'SAC'
                tr.stats.sac = AttribDict({k: 11.5 for k in ('stla', 'stlo', 'stel', 'evla', 'evlo', 'evdp', 'mag', 'o', 'a', 'gcarc', 'baz', 'user0', 'user1')},
                                          b=0., nzyear=2010, nzjday=3, nzhour=1, nzmin=2, nzsec=3, nzmsec=4, kuser1='XX')
            if fault == 'q':
                tr.stats._format = 'Q'
                tr.stats.sh = AttribDict({k: 11.5 for k in ('LAT', 'LON', 'DEPTH', 'MAGNITUDE', 'DISTANCE', 'AZIMUTH', 'INCI', 'SLOWNESS')},
                                         ORIGIN=BASE, COMMENT='{"station_latitude": 4, "phase": "XX"}')
                tr.stats.sh['P-ONSET'] = BASE + 1
            if fault == 'stale':
                tr.stats.update({'onset': BASE, 'slowness': 99., 'distance': 3., 'back_azimuth': 1., 'inclination': 2., 'phase': 'XX', 'event_id': 'x', 'event_time': BASE, 'station_latitude': 4.})
            if fault == 'int':
                tr.data = np.round(tr.data * 4).astype('int64')
            out.append(tr)
    return Stream(out)


class Bar(object):
    total, seen = None, 0

    def update(self, n=1):
        self.seen += n


@CHECK.sub(cases, quick=1600, thorough=24000,
           rule='generated inventory (epochs, several channels), catalog (broken events) and one fault or none per pair; non-trivial if some pair is usable and some pair fails')
def pairs(c, ctx):
    from rf.util import iter_event_data
    phase = c['phase']
    kw = {} if c['range'] is None else {'dist_range': tuple(c['range'])}
    if phase:
        kw['phase'] = phase
    if c['window']:
        kw['request_window'] = tuple(c['window'])
    if c['pad'] is not None:
        kw['pad'] = c['pad']
    if c['pp']:
        kw['pp_depth'] = c['pp']
    w = c['window'] or ([-50, 150] if (phase or 'P')[-1] == 'P' else [-100, 50])
    pad = 10 if c['pad'] is None else c['pad']
    events = [make_event(c, k) for k in range(len(c['events']))]
    kk = keys(c)
    # expected pairs
    want, asked = [], {}
    for i, e in enumerate(c['events']):
        ev = events[i]
        for j, (key, s) in enumerate(kk):
            co = coords(s, e['day'])
            if co is None or e['kind'] not in ('ok', 'preferred'):
                ctx.label('station not running' if co is None else 'broken event')
                continue
            o = ev.preferred_origin() or ev.origins[0]
            r = ray(co['latitude'], co['longitude'], co['elevation'], o.latitude, o.longitude, o.depth / 1000, o.time.ns,
                    ev.magnitudes[0].mag, 'ev%d' % i, phase, None if c['range'] is None else tuple(c['range']), c['pp'])
            if r is None:
                ctx.label('outside or no arrival')
                continue
            net, sta, loc, cha = key.split('.')
            t1, t2 = r.onset + w[0], r.onset + w[1]
            fault = c['faults'][(i * len(kk) + j) % 16]
            k = (net, sta, loc, cha + '?', (t1 - pad).ns // 1000, (t2 + pad).ns // 1000)
            asked[k] = fault
            ctx.label(fault)
            if fault in GOOD:
                want.append((i, key, r, fault))
    calls = []

    def source(network, station, location, channel, starttime, endtime, **other):
        k = (network, station, location, channel, starttime.ns // 1000, endtime.ns // 1000)
        near = [x for x in asked if x[:4] == k[:4] and abs(x[4] - k[4]) <= 2 and abs(x[5] - k[5]) <= 2]
        require(len(near) == 1, 'data source asked for %s %s - %s; expected requests %s', k[:4], starttime, endtime, sorted(asked))
        calls.append(near[0])
        s = [s for key, s in kk if key == '.'.join(k[:4])[:-1]][0]
        comps = s['comps'] if len(s['comps']) == 3 else 'ZNE'
        return answer(c, asked[near[0]], network, station, location, channel, starttime, endtime, comps=comps)

    class Wrong(BaseException):
        pass

    def checked(**kws):
        try:
            return source(**kws)
        except AssertionError as ex:
            raise Wrong(str(ex))

    bar = Bar() if c['pbar'] else None
    if bar:
        kw['pbar'] = bar
    try:
        out = list(iter_event_data(events if c['listed'] else Catalog(events), inventory(c), checked, **kw))
    except Wrong as ex:
        require(False, '%s', ex)
    require(sorted(calls) == sorted(asked), 'requests %s, expected %s', sorted(calls), sorted(asked))
    if bar:
        require(bar.total == len(events) * len(kk) == bar.seen, 'progress bar: total %s, %s updates, %s pairs', bar.total, bar.seen, len(events) * len(kk))
    got = []
    for s in out:
        require(type(s).__name__ == 'RFStream' and len(s) == 3, 'yielded %r', s)
        key = set(tr.id[:-1] for tr in s)
        evid = set(tr.stats.get('event_id') for tr in s)
        require(len(key) == 1 and len(evid) == 1, 'pair of stream: %s %s', key, evid)
        got.append((int(evid.pop()[2:]), key.pop()))
    require(sorted(got) == sorted((i, key) for i, key, _, _ in want), 'pairs %s, expected %s', sorted(got), sorted((i, key) for i, key, _, _ in want))
    require([g[0] for g in got] == sorted(g[0] for g in got), 'not event by event: %s', got)
    order = {}
    for i, key in got:
        order.setdefault(i, []).append(key)
    dt = 1 / c['sr']
    for s, g in zip(out, got):
        r, fault = [(r, f) for i, key, r, f in want if (i, key) == g][0]
        ctx.label('yielded')
        comps = [s_['comps'] for key, s_ in kk if key == g[1]][0]
        comps = comps if len(comps) == 3 else 'ZNE'
        require(sorted(tr.id[-1] for tr in s) == sorted(comps), '%s: components %s', g, [tr.id for tr in s])
        for tr in s:
            what = 'event %d, %s' % (g[0], tr.id)
            for k in r.keys():
                if k in ('onset', 'event_time'):
                    require(abs(tr.stats[k] - r[k]) < 1e-5, '%s: %s is %s, expected %s', what, k, tr.stats[k], r[k])
                elif isinstance(r[k], float) and r[k] != r[k]:
                    require(tr.stats.get(k) != tr.stats.get(k), '%s: %s is %r, expected nan', what, k, tr.stats.get(k))
                elif isinstance(r[k], float):
                    require(abs(tr.stats.get(k, 1e99) - r[k]) < 1e-9 * (1 + abs(r[k])), '%s: %s is %r, expected %r', what, k, tr.stats.get(k), r[k])
                else:
                    require(tr.stats.get(k) == r[k], '%s: %s is %r, expected %r', what, k, tr.stats.get(k), r[k])
            a, b = tr.stats.starttime - r.onset - w[0], tr.stats.endtime - r.onset - w[1]
            require(abs(a) <= dt / 2 + 1e-5 and abs(b) <= dt / 2 + 1e-5, '%s: window starts %s s and ends %s s after the requested one', what, a, b)
            require(tr.stats.sampling_rate == c['sr'] and not np.ma.isMaskedArray(tr.data), '%s: sampling rate or mask', what)
            t = tr.stats.starttime.ns + int(round(1e9 * dt)) * np.arange(len(tr.data), dtype='int64')
            v = (t // 1000 - BASE.ns // 1000) + 0.25 * 'ZNE12X'.index(tr.id[-1])
            d = tr.data / (4. if fault == 'int' else 1.)
            require(len(d) == len(t) and np.all(np.abs(d - v) < 1.5), '%s: samples moved in time', what)
            require(np.all(np.abs((d - v) - np.round(d - v)) < 0.1), '%s: samples of another component', what)
    ctx.nontrivial(0 < len(want) < len(events) * len(kk))


@CHECK.sub(cases, quick=800, thorough=8000,
           rule='event and station pairs of the batch commands for the same inventories and catalogs (or no events), with and without progress bar; non-trivial with at least two pairs')
def metadata(c, ctx):
    from rf.util import iter_event_metadata
    events = [make_event(c, k) for k in range(len(c['events']))]
    kk = [key for key, _ in keys(c)]
    bar = Bar() if c['pbar'] else None
    none = c['pad'] == 0
    arg = None if none else events if c['listed'] else Catalog(events)
    got = list(iter_event_metadata(arg, inventory(c), **({'pbar': bar} if bar else {})))
    want, free = [], []
    for e, ev in zip(c['events'], events):
        if e['kind'] in ('noorigin', 'notime') and not none:
            continue
        t = None if none else str((ev.preferred_origin() or ev.origins[0]).time)
        (want if none or e['kind'] in ('ok', 'preferred') else free).extend((t,) + tuple(key.split('.')) for key in kk)
        if none:
            break
    have = []
    for m in got:
        require({'network', 'station', 'location', 'channel'} <= set(m) and m['channel'][-1] == '?' and ('event_time' in m) == (not none), 'metadata %s', m)
        have.append((str(m['event_time']) if 'event_time' in m else None, m['network'], m['station'], m['location'], m['channel'][:-1]))
    require(len(set(have)) == len(have) or len(set(want + free)) < len(want + free), 'pairs twice: %s', have)
    require([x for x in have if x not in free] == want or sorted(map(str, (x for x in have if x not in free))) == sorted(map(str, want)), 'pairs %s, expected %s', have, want)
    require(none or [x[0] for x in have] == sorted((x[0] for x in have), key=[str((ev.preferred_origin() or ev.origins[0]).time) if ev.origins else None for ev in events].index), 'not event by event')
    if bar:
        n = len(kk) * (1 if none else len(events))
        require(bar.total == n == bar.seen, 'progress bar: total %s, %s updates, %s pairs', bar.total, bar.seen, n)
    ctx.nontrivial(len(got) > 1)
    ctx.label('without events' if none else 'events')
