"""C21 Profile boxes tile the profile on the globe."""
import math

from hypothesis import strategies as st

from vf.core import Check, close, require
from vf.gen import num, stream, trace
from vf.globe import boxes, position, profiles, usable

CHECK = Check('C21', assumptions=['geographiclib geodesics and cartopy projections are correct',
                                  'points closer than 2 km (more far away from the profile or close to a pole) to an edge are not decided'])


def margin(p, y, lat):
    if p['edges'][-1] - p['edges'][0] < 6:  # short boxes
        return 2e-4
    return 2 + 0.003 * abs(y) + 0.2 * (1 / math.cos(math.radians(min(abs(lat), 89))) - 1)


@st.composite
def cases(draw):
    p = draw(profiles(long=True))
    pts = draw(st.lists(st.tuples(num(-0.3, 1.3), st.one_of(num(-0.5, 0.5), num(-1.2, 1.2), st.sampled_from([0., 0.01, -0.01, 0.3, -0.3, 0.46, -0.46]))).map(list),
                        min_size=1, max_size=4))
    return {'profile': p, 'points': pts, 'crs': draw(st.booleans())}


@CHECK.sub(cases, quick=4000, thorough=60000,
           rule='boxes of random profiles and assignment of points given by their distances along and across the profile; non-trivial if a point is decided')
def tiles(c, ctx):
    from geographiclib.geodesic import Geodesic
    from rf.profile import profile
    p = c['profile']
    if not usable(p, 86 if p['edges'][-1] - p['edges'][0] < 2500 else 78):
        ctx.nontrivial(False)
        return
    e = p['edges']
    bb = boxes(p)
    width = p['width'] or 2000.
    require(len(bb) == len(e) - 1, '%d boxes for %d edges', len(bb), len(e))
    g = Geodesic.WGS84
    for i, b in enumerate(bb):
        close([b['pos'], b['length']], [(e[i] + e[i + 1]) / 2, e[i + 1] - e[i]], 'position and length of box %d' % i, atol=1e-9)
        lat, lon = position(p['latlon'], p['azimuth'], (e[i] + e[i + 1]) / 2, 0)
        d = g.Inverse(lat, lon, *map(float, b['latlon']))['s12']
        require(d < 0.01, 'mid point of box %d is %.3f km away from %s %s', i, d / 1000, lat, lon)
        require(-90 <= b['latlon'][0] <= 90 and -180 <= b['latlon'][1] <= 180, 'coordinates of box %d', i)
        require(('profile' in b) == (i == 0), 'description of profile in box %d', i)
    pr = bb[0]['profile']
    require(tuple(pr['latlon']) == tuple(p['latlon']) and pr['azimuth'] == p['azimuth'], 'description of profile')
    close([pr['length'], pr['width']], [e[-1] - e[0], width], 'length and width of profile', atol=1e-9)
    if e[-1] - e[0] > 2500:
        ctx.label('long')
    ctx.label('default width' if p['width'] is None else 'wide' if width > 500 else 'narrow')
    traces, want = [], []
    for a, b in c['points']:
        x = e[0] + a * (e[-1] - e[0])
        y = b * width
        lat, lon = position(p['latlon'], p['azimuth'], x, y)
        m = margin(p, y, lat)
        inside = [i for i in range(len(e) - 1) if e[i] + m < x < e[i + 1] - m and abs(y) < width / 2 - m]
        outside = x < e[0] - m or x > e[-1] + m or abs(y) > width / 2 + m
        if not (inside or outside) or abs(lat) > 87 or abs(y) > 2500:
            continue
        ctx.label('inside' if inside else 'outside')
        if abs(lon) > 178:
            ctx.label('date line')
        want.append((bb[inside[0]]['pos'] if inside else None, x, y))
        traces.append(trace([1., 2.], id='NE.STA..BHQ', pp_latitude=lat, pp_longitude=lon))
    ctx.nontrivial(bool(want))
    for tr, (w, x, y) in zip(traces, want):
        kw = {}
        if c['crs']:
            import cartopy.crs as ccrs
            kw['crs'] = ccrs.AzimuthalEquidistant(*position(p['latlon'], p['azimuth'], (e[0] + e[-1]) / 2, 0)[::-1])
        out = profile(stream([tr]), bb, **kw)
        got = [t.stats.box_pos for t in out]
        require(got == ([] if w is None else [w]), 'point %s %s, %.1f km along and %.1f km right of profile (edges %s, width %s): boxes %s, expected %s',
                tr.stats.pp_latitude, tr.stats.pp_longitude, x, y, e, width, got, w)
