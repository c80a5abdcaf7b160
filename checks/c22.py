"""C22 Profile stacking averages each trace into its box once."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, require
from vf.gen import decorate, decs, diff, num, seeds, snap, stream, trace
from vf.globe import boxes, position, profiles, usable

CHECK = Check('C22')


@st.composite
def cases(draw):
    p = draw(profiles(maxbox=5, wide=False))
    nb = len(p['edges']) - 1
    k = draw(st.one_of(st.integers(1, 12), st.integers(10, 60)))
    return {'profile': p, 'box': [draw(st.integers(-1, nb)) for _ in range(k)],
            'frac': [draw(num(0.3, 0.7, 2)) for _ in range(k)], 'y': [draw(num(-0.2, 0.2, 2)) for _ in range(k)],
            'comp': draw(st.lists(st.sampled_from('QLTQQ' + draw(st.sampled_from(['', '', 'q12']))), min_size=k, max_size=k)),
            'sr': draw(st.sampled_from([1., 10., 12.5])), 'n': draw(st.integers(2, 20)), 'onset': draw(st.one_of(st.none(), num(0, 3, 2))),
            'slow': draw(st.sampled_from([None, 6.4, 5.])), 'moveout': draw(st.sampled_from([None, 'Ps'])),
            'phase': draw(st.sampled_from([None, 'P', 'S'])), 'seed': draw(seeds), 'perm': draw(st.permutations(range(k))),
            'how': draw(st.sampled_from(['stream', 'list', 'iterator', 'tqdm', 'method'])),
            'proc': draw(st.sampled_from([None, ['a']])), 'dtype': draw(st.sampled_from(['float64', 'float64', 'int32'])),
            'chan': draw(st.sampled_from(['BH', 'HH', 'mixed'])), 'dec': draw(decs),
            'crs': draw(st.one_of(st.none(), st.tuples(st.sampled_from(['AzimuthalEquidistant', 'LambertAzimuthalEqualArea']), st.integers(0, 1), num(-4, 4, 1), num(-4, 4, 1)).map(list)))}


class Bar(object):
    """Like a progress bar"""

    def __init__(self, iterable):
        self.iterable = iterable

    def __iter__(self):
        return iter(self.iterable)


def build(c, order):
    p = c['profile']
    e = p['edges']
    traces = []
    for k, b in enumerate(c['box']):
        if 0 <= b < len(e) - 1:
            x = e[b] + c['frac'][k] * (e[b + 1] - e[b])
        else:
            x = e[0] - 60 if b < 0 else e[-1] + 60
        lat, lon = position(p['latlon'], p['azimuth'], x, c['y'][k] * p['width'])
        d = np.random.RandomState(c['seed'] + k).randn(c['n'])
        if c['dtype'] == 'int32':
            d = (100 * d).astype('int32')
        band = c['chan'] if c['chan'] != 'mixed' else 'BHHH'[k % 2 * 2:][:2]
        tr = trace(d, c['sr'], id='NE.ST%d..%s%s' % (k % 3, band, c['comp'][k]), pp_latitude=lat, pp_longitude=lon,
                   event_magnitude=5.5, back_azimuth=10. * k, own=[k], type='rf')
        tr.stats.starttime += 1000.5 * k
        if c['onset'] is not None:
            tr.stats.onset = tr.stats.starttime + c['onset']
        for h, v in (('slowness', c['slow']), ('moveout', c['moveout']), ('phase', c['phase'])):
            if v is not None:
                tr.stats[h] = v
        if c['proc']:
            tr.stats.processing = list(c['proc'])
        traces.append(tr)
    decorate(traces, c.get('dec'), ('slowness', 'moveout', 'type', 'pp_latitude', 'pp_longitude'))
    return stream([traces[k] for k in order])


@CHECK.sub(cases, quick=2500, thorough=40000,
           rule='profile() of up to twelve traces with known boxes in two orders, given as stream, list, iterator or progress bar, against own means and headers; non-trivial if a box has at least two contributions of one component')
def stacks(c, ctx):
    from rf.profile import profile
    p = c['profile']
    if not usable(p):
        ctx.nontrivial(False)
        return
    e = p['edges']
    bb = boxes(p)
    n = len(c['box'])
    groups = {}
    for k, b in enumerate(c['box']):
        if 0 <= b < len(e) - 1:
            groups.setdefault((c['comp'][k], (e[b] + e[b + 1]) / 2), []).append(k)
    ctx.nontrivial(any(len(v) > 1 for v in groups.values()))
    ctx.label(c['how'], *(['outside'] if any(not 0 <= b < len(e) - 1 for b in c['box']) else []))
    polys = [b['poly'].wkt for b in bb]
    kws = [{}, {}]
    if c['crs'] is not None:  # another projection does not change the result
        import cartopy.crs as ccrs
        lat0, lon0 = position(p['latlon'], p['azimuth'], e[0], 0)
        center = dict(central_longitude=(lon0 + c['crs'][2] + 180) % 360 - 180, central_latitude=max(min(lat0 + c['crs'][3], 89), -89))
        kws[c['crs'][1]] = {'crs': getattr(ccrs, c['crs'][0])(**center)}
        ctx.label('projection given')
    for order, kw in zip((list(range(n)), c['perm']), kws):
        s = build(c, order)
        before = snap(s)
        if c['how'] == 'stream':
            out = profile(s, bb, **kw)
        elif c['how'] == 'method':
            out = s.profile(bb, **kw)
        elif c['how'] == 'list':
            from rf import RFStream
            out = profile(RFStream(list(s)), bb, **kw)
        elif c['how'] == 'iterator':
            out = profile(iter(s), bb, **kw)
        else:
            out = profile(Bar(s), bb, **kw)
        d = diff(before, snap(s))
        require(d is None, 'input: %s', d)
        require([b['poly'].wkt for b in bb] == polys and len(bb) == len(e) - 1, 'boxes changed')
        require(type(out).__name__ == 'RFStream', 'result is %s', type(out))
        key = [(tr.stats.channel[-1], round(tr.stats.box_pos, 6)) for tr in out]
        want = sorted((x, round(y, 6)) for x, y in groups)
        require(key == want, 'component and position of profile traces %s, expected %s', key, want)
        for tr, k in zip(out, sorted(groups)):
            idx = groups[k]
            st_ = tr.stats
            data = [np.random.RandomState(c['seed'] + i).randn(c['n']) for i in idx]
            if c['dtype'] == 'int32':
                data = [(100 * d).astype('int32') for d in data]
            close(tr.data, sum(d.astype(float) for d in data) / len(data), 'profile trace %s' % (k,), rtol=1e-12, scale=max(np.max(np.abs(d)) for d in data) + 1e-3)
            require(st_.num == len(idx), 'number of traces in %s is %s, expected %s', k, st_.num, len(idx))
            i = [j for j in range(len(e) - 1) if abs((e[j] + e[j + 1]) / 2 - k[1]) < 1e-6][0]
            h = {'box_pos': k[1], 'box_length': e[i + 1] - e[i], 'profile_latitude': p['latlon'][0], 'profile_longitude': p['latlon'][1],
                 'profile_azimuth': p['azimuth'], 'profile_length': e[-1] - e[0], 'sampling_rate': c['sr']}
            for a, v in h.items():
                require(abs(st_[a] - v) < 1e-6, '%s of %s is %s, expected %s', a, k, st_[a], v)
            lat, lon = position(p['latlon'], p['azimuth'], k[1], 0)
            require(abs(st_.box_latitude - lat) < 1e-7 and abs((st_.box_longitude - lon + 180) % 360 - 180) < 1e-7, 'coordinates of box')
            for a, v in (('slowness', c['slow']), ('moveout', c['moveout']), ('phase', c['phase']), ('type', 'profile')):
                require(st_.get(a) == v, '%s of %s is %r, expected %r', a, k, st_.get(a), v)
            require(('onset' in st_) == (c['onset'] is not None), 'onset of %s', k)
            if c['onset'] is not None:
                require(abs(st_.onset - st_.starttime - c['onset']) < 2e-6, 'onset of %s', k)
        # nothing is shared with the input
        for tr in out:
            tr.data[:] = 5
            tr.stats.setdefault('processing', []).append('x')
        d = diff(before, snap(s))
        require(d is None, 'input after changing the profile: %s', d)


@st.composite
def many_cases(draw):
    c = draw(cases())
    c['size'] = draw(st.sampled_from([130, 300, 600]))
    return c


@CHECK.sub(many_cases, quick=40, thorough=800,
           rule='like stacks with up to 600 traces; non-trivial if a box has at least two contributions of one component')
def many(c, ctx):
    rs = np.random.RandomState(c['seed'])
    k = c['size']
    pick = rs.randint(0, len(c['box']), k)
    stacks(dict(c, box=rs.randint(-1, len(c['profile']['edges']), k).tolist(), perm=rs.permutation(k).tolist(), **{x: [c[x][i] for i in pick] for x in ('frac', 'y', 'comp')}), ctx)
