"""Events, stations and distances for the checks of rfstats."""
from hypothesis import strategies as st
from obspy import UTCDateTime as UTC
from obspy.core import AttribDict
from obspy.core.event import Event, Magnitude, Origin, ResourceIdentifier

from vf.gen import DEG2KM, T0, num, real

lats = st.one_of(real(-75, 75, 2), real(-89, 89, 2), st.sampled_from([0., 45., -88.]))
lons = st.one_of(real(-180, 180, 2), st.sampled_from([180., -180., 0., 179.9]))


def geodesic():
    from geographiclib.geodesic import Geodesic
    return Geodesic.WGS84


def target(lat, lon, az, dist):
    """Point at a distance of dist degrees (111.2 km)."""
    p = geodesic().Direct(lat, lon, az, 1000 * DEG2KM * dist)
    return p['lat2'], p['lon2']


def dist_baz(c):
    """Distance in degrees and back azimuth at the station."""
    r = geodesic().Inverse(c['slat'], c['slon'], c['elat'], c['elon'])
    return r['s12'] / 1000 / DEG2KM, r['azi1'] % 360


@st.composite
def pairs(draw, lo=25., hi=97.):
    lat, lon = draw(lats), draw(lons)
    az, dist = draw(num(0, 360, 2)), draw(num(lo, hi, 2))
    fine = draw(st.booleans())
    elat, elon = target(lat, lon, az, dist)
    return {'slat': lat, 'slon': lon, 'elev': draw(st.sampled_from([0., 1234.5, -300.])), 'elat': round(elat, 3) if fine else elat, 'elon': round(elon, 3) if fine else elon,
            'depth': draw(st.one_of(st.sampled_from([0., 10., 33., 600.]), real(0, 690, 1))), 'mag': draw(num(2, 9, 1)),
            'time': draw(num(0, 1e5, 6)), 'evid': draw(st.sampled_from(['quakeml:a/b', 'ev 1', 'x'])),
            'decoy': draw(st.sampled_from(['no', 'no', 'first', 'preferred']))}


def event(c, without=None):
    o = {'latitude': c['elat'], 'longitude': c['elon'], 'depth': 1000 * c['depth'], 'time': T0 + c['time']}
    if without in o:
        o[without] = None
    mags = [] if without == 'magnitude' else [Magnitude(mag=c['mag'])]
    origins = [] if without == 'origin' else [Origin(**o)]
    if origins and c['decoy'] != 'no':
        decoy = Origin(latitude=-c['elat'] / 2, longitude=c['elon'] / 3, depth=5555., time=T0 - 5)
        origins = [decoy] + origins if c['decoy'] == 'preferred' else origins + [decoy]
        if mags:
            mags = [Magnitude(mag=1.5)] + mags if c['decoy'] == 'preferred' else mags + [Magnitude(mag=1.5)]
    ev = Event(resource_id=ResourceIdentifier(c['evid']), origins=origins, magnitudes=mags)
    if c['decoy'] == 'preferred':
        if origins:
            ev.preferred_origin_id = origins[-1].resource_id
        if mags:
            ev.preferred_magnitude_id = mags[-1].resource_id
    return ev


def station(c, kind='dict'):
    d = {'latitude': c['slat'], 'longitude': c['slon'], 'elevation': c['elev']}
    return AttribDict(d) if kind == 'attrib' else dict(d, local_depth=0.) if kind == 'more' else d


def station_headers(c):
    return {'station_latitude': c['slat'], 'station_longitude': c['slon'], 'station_elevation': c['elev']}


def event_headers(c):
    return {'event_latitude': c['elat'], 'event_longitude': c['elon'], 'event_depth': c['depth'], 'event_magnitude': c['mag'],
            'event_time': T0 + c['time'], 'event_id': c['evid']}
