"""Profile geometry, written with geographiclib only."""
from hypothesis import strategies as st

from vf.gen import num, real


def position(latlon0, azimuth, x, y):
    """Point x km along and y km to the right of the profile."""
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84
    p = g.Direct(latlon0[0], latlon0[1], azimuth, 1000 * x)
    p = g.Direct(p['lat2'], p['lon2'], p['azi2'] + 90, 1000 * y)
    return p['lat2'], p['lon2']


@st.composite
def profiles(draw, maxbox=6, wide=True, long=False):
    if draw(st.integers(0, 4)) == 0:  # boxes of some metres, narrow
        e = [draw(st.sampled_from([0., 0., 10., -3.2, 100.25]))]
        big = draw(st.sampled_from([0.01, 0.1, 0.9]))
        for _ in range(draw(st.integers(1, maxbox))):
            e.append(round(e[-1] + draw(num(0.004, big)), 3))
        return {'latlon': [draw(real(-60, 60, 2)), draw(real(-180, 180, 2))], 'azimuth': draw(real(0, 360, 1)), 'edges': e, 'width': draw(st.sampled_from([0.05, 1., 5.]))}
    lat = draw(st.one_of(real(-60, 60, 2), real(-72, 72, 2), real(-72, 72, 2), real(-85, 85, 2)))
    lon = draw(st.one_of(real(-180, 180, 2), st.sampled_from([180., -180., 179.5, -179.5, 178., 0.])))
    edges = [draw(st.sampled_from([0., 0., 0., 10., 55.5, -100., 200.]))]
    big = draw(st.sampled_from([30., 100., 350.]))
    if long and draw(st.integers(0, 2)) == 0:
        big, maxbox = draw(st.sampled_from([3000., 8000.])), 2
    if draw(st.integers(0, 7)) == 0:  # a box with its center at the starting point
        h = draw(num(8, big, 1))
        edges = [-h, h]
    for _ in range(draw(st.integers(1, maxbox))):
        edges.append(round(edges[-1] + draw(num(8 if big < 3000 else 1200, big, 1)), 1))
    w = st.sampled_from([10., 25., 100., 250.5])
    if wide:
        w = st.one_of(w, st.sampled_from([None, None, 600., 2000., 1234.]))
    return {'latlon': [lat, lon], 'azimuth': draw(st.one_of(real(0, 360, 1), st.sampled_from([0., 90., 180., 270., -45.]))),
            'edges': edges, 'width': draw(w)}


def usable(p, limit=78):
    """The boxes are away from the poles."""
    w = p['width'] or 2000.
    e = p['edges']
    n = max(2, int((e[-1] - e[0]) / 300))
    m = 2 * max(1, int(w / 400))
    return all(abs(position(p['latlon'], p['azimuth'], e[0] + (e[-1] - e[0]) * i / n, w * (j / m - 0.5))[0]) < limit
               for i in range(n + 1) for j in range(m + 1))


def boxes(p):
    from rf.profile import get_profile_boxes
    kw = {} if p['width'] is None else {'width': p['width']}
    return get_profile_boxes(tuple(p['latlon']), p['azimuth'], p['edges'], **kw)
