"""C19 Piercing points lie on the back azimuth at the ray offset."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import REPO
from vf.core import Check, close, require, scratch
from vf.gen import decorate, decs, hdiff, header, num, real, seeds, stream, trace
from vf.model import Ray, iasp91, models, write_file

CHECK = Check('C19', assumptions=['geographiclib geodesics are correct'])

lats = st.one_of(real(-89.9, 89.9, 2), st.sampled_from([0., 89.99, -89.99, 45.]), real(-60, 60, 2))
lons = st.one_of(real(-180, 180, 2), st.sampled_from([180., -180., 179.99, -179.99, 0.]))


@st.composite
def cases(draw):
    m = draw(st.one_of(models(deep=True), st.just('iasp91')))
    rec = [{'lat': draw(lats), 'lon': draw(lons), 'baz': draw(st.one_of(real(0, 360, 1), st.sampled_from([0., 90., 180., 270., 360.]))),
            'slow': draw(real(2, 9, 2))} for _ in range(draw(st.integers(1, 4)))]
    return {'model': m, 'rec': rec, 'type': draw(st.sampled_from(['P', 'S', 'P', 'S', 'SP', 'PS', 'PcS', 'ScP', 'SKP', 'PKS', 'PP', 'ScS', 'p', 's'])),
            'depth': draw(st.one_of(real(0.5, 200, 1), st.sampled_from([5., 50., 100., 410.]))),
            'leg': draw(st.sampled_from([None, None, 'S', 'P', 'Ppp', 'Pps', 'sss'])),
            'via': draw(st.sampled_from(['stream', 'stream', 'model'])), 'old': draw(st.sampled_from(['no', 'no', 'other', 'depth'])), 'dec': draw(decs)}


@CHECK.sub(cases, quick=6000, thorough=120000,
           rule='piercing points of stations anywhere on the globe: distance and azimuth of the geodesic from the station to the point; non-trivial if the ray reaches the depth')
def points(c, ctx):
    from geographiclib.geodesic import Geodesic
    from rf.simple_model import load_model
    geo = Geodesic.WGS84
    with scratch() as d:
        if c['model'] == 'iasp91':
            m, path = iasp91(REPO), 'iasp91'
        else:
            m, path = c['model'], d + '/model.dat'
            write_file(m, path)
        ray = Ray(m)
        c['depth'] = min(c['depth'], 0.9 * ray.z[-2])
        leg = c['leg'] or {'P': 'S', 'S': 'P'}[c['type'][-1].upper()]
        want = [ray.offset(c['depth'], r['slow'], leg) for r in c['rec']]
        alt = [ray.offset_shifted(c['depth'], r['slow'], leg) for r in c['rec']]
        if not np.all(np.isfinite(want + alt)) or max(want + alt) > 2000:
            ctx.nontrivial(False)
            return
        s = stream([trace(np.arange(5.) + i, 1., phase=c['type'], type='rf', slowness=r['slow'], back_azimuth=r['baz'],
                          station_latitude=r['lat'], station_longitude=r['lon'], own=i) for i, r in enumerate(c['rec'])])
        if c['old'] in ('other', 'depth', True):
            for tr in s:
                tr.stats.update({'pp_depth': c['depth'] if c['old'] == 'depth' else 1., 'pp_latitude': 2., 'pp_longitude': 3.})
        decorate(s, c.get('dec'), ('pp_latitude', 'pp_longitude', 'pp_depth'))
        old = s.copy()
        if c['via'] == 'stream':
            got = s.ppoints(c['depth'], model=path, **({'pp_phase': c['leg']} if c['leg'] else {}))
            require(np.shape(got) == (len(s), 2), 'shape of result %s', np.shape(got))
        else:
            mod = load_model(path)
            got = [mod.ppoint(tr.stats, c['depth'], phase=leg) for tr in s]
    ctx.label(c['via'], 'default leg' if c['leg'] is None else 'leg')
    for tr, o, r, g, x, y in zip(s, old, c['rec'], got, want, alt):
        h = dict(header(o), pp_depth=c['depth'], pp_latitude=tr.stats.pp_latitude, pp_longitude=tr.stats.pp_longitude)
        dd = hdiff(h, header(tr))
        require(dd is None, 'headers: %s', dd)
        require(tr.data.tobytes() == o.data.tobytes(), 'data changed')
        lat, lon = map(float, g)
        require(-90 <= lat <= 90 and -180 <= lon <= 180, 'coordinates %s %s', lat, lon)
        require(lat == tr.stats.pp_latitude and lon == tr.stats.pp_longitude, 'headers do not agree with the result')
        e = [geo.Inverse(lat, lon, p['lat2'], p['lon2'])['s12'] / 1000 for p in
             (geo.Direct(r['lat'], r['lon'], r['baz'], 1000 * q) for q in (x, y))]
        tol = 1e-7 * (1 + x)
        if abs(r['lat']) > 85 or abs(abs(r['lon']) - 180) < 1:
            ctx.label('pole' if abs(r['lat']) > 85 else 'date line')
        if e[0] <= tol:
            continue
        if e[1] <= tol:
            ctx.known('ppoint-offset-shift', 'piercing point is %s km away from the expected position', e[0])
            continue
        inv = geo.Inverse(r['lat'], r['lon'], lat, lon)
        require(False, 'station %s %s, back azimuth %s, leg %s, depth %s: piercing point %s %s is %.4f km at azimuth %.3f, expected %.4f (or %.4f with the known shift) km',
                r['lat'], r['lon'], r['baz'], leg, c['depth'], lat, lon, inv['s12'] / 1000, inv['azi1'] % 360, x, y)


@st.composite
def many_cases(draw):
    return {'rec': [{'lat': draw(lats), 'lon': draw(lons), 'baz': draw(real(0, 360, 1)), 'slow': draw(real(4, 8, 2))} for _ in range(draw(st.integers(1, 5)))],
            'n': draw(st.sampled_from([20, 65, 129, 150, 300])), 'order': draw(seeds), 'type': draw(st.sampled_from('PS')), 'depth': draw(real(1, 100, 1))}


@CHECK.sub(many_cases, quick=40, thorough=600,
           rule='streams of up to 300 traces of five kinds: every piercing point is the one of the trace alone; non-trivial with more than 100 traces')
def many(c, ctx):
    def make(recs):
        return stream([trace(np.arange(3.), 1., phase=c['type'], type='rf', slowness=r['slow'], back_azimuth=r['baz'],
                             station_latitude=r['lat'], station_longitude=r['lon']) for r in recs])
    pick = np.random.RandomState(c['order']).randint(0, len(c['rec']), c['n']).tolist()
    s = make([c['rec'][k] for k in pick])
    got = s.ppoints(c['depth'])
    want = [make([r]).ppoints(c['depth'])[0] for r in c['rec']]
    close(got, np.array([want[k] for k in pick]), 'piercing points', rtol=1e-12)
    close([(tr.stats.pp_latitude, tr.stats.pp_longitude, tr.stats.pp_depth) for tr in s], np.array([list(want[k]) + [c['depth']] for k in pick]), 'headers', rtol=1e-12)
    ctx.nontrivial(c['n'] > 100)
