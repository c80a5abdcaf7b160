"""C04 Ray parameters from rfstats match geodesy and travel times."""
import functools
import math

import numpy as np
from hypothesis import strategies as st
from obspy.core import AttribDict

from vf import REPO
from vf.core import Check, require, scratch
from vf.gen import num, plain, stream, trace
from vf.model import Ray, iasp91, models, write_file
from vf.rays import dist_baz, event, event_headers, geodesic, pairs, station, station_headers, target

CHECK = Check('C04', assumptions=['geographiclib geodesics and TauP travel times are correct',
                                  'slowness is compared with the slope of travel times to 0.05 s/deg, away from triplications'])
# phase: range of distances, wave type at the station
PHASES = {'P': (14, 94, 'P'), 'S': (14, 80, 'S'), 'PP': (60, 150, 'P'), 'ScS': (20, 60, 'S'), 'PcP': (20, 70, 'P'), 'SKS': (95, 130, 'S'), 'PcS': (10, 60, 'S'), 'ScP': (10, 60, 'P')}
# velocities at the surface of the Earth models
SURFACE = {'iasp91': (5.8, 3.36), 'ak135': (5.8, 3.46), 'jb': (5.5702, 3.3626)}


@functools.lru_cache(None)
def taup(name):
    from obspy.taup import TauPyModel
    return TauPyModel(model=name)


@st.composite
def cases(draw):
    phase = draw(st.sampled_from([None, None, 'P', 'S', 'S', 'PP', 'ScS', 'PcP', 'SKS', 'PcS', 'ScP']))
    lo, hi, _ = PHASES[phase or 'P']
    c = draw(pairs(lo, hi))
    c['phase'] = phase
    c['tt'] = draw(st.sampled_from([None, None, 'iasp91', 'ak135', 'jb']))
    c['pp'] = draw(st.sampled_from([None, None, 50, 30.5, 100., 410, 0, 0.]))
    c['leg'] = draw(st.sampled_from([None, None, 'S', 'P', 'Ppp'])) if c['pp'] is not None else None
    c['model'] = draw(st.one_of(st.none(), st.just('iasp91'), models(deep=True))) if c['pp'] is not None else None
    c['via'] = draw(st.sampled_from(['args', 'stats', 'stream', 'mixed']))
    return c


@CHECK.sub(cases, quick=2500, thorough=40000,
           rule='ray headers of one event and station on any part of the globe; non-trivial if TauP has the phase')
def rays(c, ctx):
    from rf import rfstats
    phase = c['phase'] or 'P'
    lo, hi, wave = PHASES[phase]
    d, baz = dist_baz(c)
    tt = taup(c['tt'] or 'iasp91')
    arr = tt.get_travel_times(c['depth'], d, (phase,))
    if not arr or not lo - 0.1 <= d <= hi + 0.1:
        ctx.nontrivial(False)
        return
    ctx.label(phase, c['tt'] or 'default')
    kw = {'dist_range': None}
    if c['phase']:
        kw['phase'] = c['phase']
    if c['tt']:
        kw['tt_model'] = c['tt']
    if c['pp'] is not None:
        kw['pp_depth'] = c['pp']
    if c['leg']:
        kw['pp_phase'] = c['leg']
    with scratch() as folder:
        m = None
        if c['pp'] is not None and isinstance(c['model'], dict):
            kw['pp_depth'] = c['pp'] = round(min(c['pp'], 0.9 * Ray(c['model']).z[-2]), 3)
        if c['pp'] is not None:
            if c['model'] in (None, 'iasp91'):
                m = iasp91(REPO)
                if c['model']:
                    kw['model'] = c['model']
            else:
                m = c['model']
                kw['model'] = folder + '/model.dat'
                write_file(m, kw['model'])
        if c['via'] == 'args':
            out = rfstats(event=event(c), station=station(c), **kw)
        elif c['via'] == 'mixed':
            out = rfstats(AttribDict(event_headers(c)), station=station(c), **kw)
        elif c['via'] == 'stats':
            out = rfstats(AttribDict(dict(station_headers(c), **event_headers(c))), **kw)
        else:
            s = stream([trace([0., 1.], **dict(station_headers(c), **event_headers(c)))])
            rfstats(s, **kw)
            require(len(s) == 1, 'trace is not kept')
            out = s[0].stats
    for k, v in dict(station_headers(c), **event_headers(c)).items():
        require(plain(out[k]) == plain(v) or (isinstance(v, float) and abs(out[k] - v) < 1e-9), '%s: %r, expected %r', k, out[k], v)
    require(out.phase == phase, 'phase %r', out.phase)
    require(abs(out.distance - d) < 1e-6, 'distance %r, expected %r', out.distance, d)
    db = abs((out.back_azimuth - baz + 180) % 360 - 180)
    require(db < 1e-6, 'back azimuth %r, expected %r', out.back_azimuth, baz)
    # travel time of the first arrival
    first = min(arr, key=lambda a: a.time)
    t = out.onset - out.event_time
    require(abs(t - first.time) < 1e-4, 'onset %s s after origin time, first arrival after %s s (all: %s)', t, first.time, [a.time for a in arr])
    require(abs(out.slowness - math.radians(first.ray_param)) < 1e-6, 'slowness %s s/deg, ray parameter of the first arrival %s', out.slowness, math.radians(first.ray_param))
    require(abs(out.inclination - first.incident_angle) < 1e-6, 'inclination %s, incidence angle of the first arrival %s', out.inclination, first.incident_angle)
    # slowness: slope of the travel time curve
    h = 0.25
    near = [tt.get_travel_times(c['depth'], d + x, (phase,)) for x in (-h, h)]
    if all(len(x) == 1 for x in near) and len(arr) == 1:
        slope = (near[1][0].time - near[0][0].time) / (2 * h)
        curv = abs(near[1][0].ray_param_sec_degree - near[0][0].ray_param_sec_degree)
        require(abs(out.slowness - slope) < 0.05 + curv, 'slowness %s s/deg, slope of travel times %s', out.slowness, slope)
        ctx.label('slope')
    elif len(arr) > 1:
        ctx.label('several arrivals')
    # incidence angle at the surface
    v = SURFACE[c['tt'] or 'iasp91'][wave == 'S']
    sin_i = out.slowness * 180 / math.pi * v / 6371.
    require(0 < out.inclination < 90 and abs(math.sin(math.radians(out.inclination)) - sin_i) < 2e-3,
            'incidence angle %s, expected %s', out.inclination, math.degrees(math.asin(sin_i)))
    # piercing point
    if c['pp'] is None:
        require('pp_latitude' not in out and 'pp_depth' not in out, 'piercing point without depth')
        return
    require(out.pp_depth == c['pp'], 'pp_depth %r', out.pp_depth)
    leg = c['leg'] or ('S' if wave == 'P' else 'P')
    ray = Ray(m)
    x, y = ray.offset(c['pp'], out.slowness, leg), ray.offset_shifted(c['pp'], out.slowness, leg)
    if not (math.isfinite(x) and math.isfinite(y)) or max(x, y) > 2000:
        ctx.label('ray does not reach the depth')
        return
    ctx.label('piercing point', 'default leg' if c['leg'] is None else 'leg')
    g = geodesic()
    e = [g.Inverse(out.pp_latitude, out.pp_longitude, p['lat2'], p['lon2'])['s12'] / 1000 for p in
         (g.Direct(c['slat'], c['slon'], baz, 1000 * q) for q in (x, y))]
    tol = 1e-5 * (1 + x)
    if e[0] > tol:
        require(e[1] <= tol, 'piercing point %s %s is %s km (%s km with the known shift) away from that of leg %s',
                out.pp_latitude, out.pp_longitude, e[0], e[1], leg)
        ctx.known('ppoint-offset-shift', 'piercing point is %s km away from the expected position', e[0])


@st.composite
def batches(draw):
    n = draw(st.integers(2, 4))
    return {'pairs': [draw(pairs(40, 80)) for _ in range(n)], 'phase': draw(st.sampled_from(['P', 'S'])), 'pp': draw(st.sampled_from([None, 60]))}


@CHECK.sub(batches, quick=300, thorough=5000,
           rule='rfstats of a stream of different pairs equals rfstats of each pair alone')
def together(c, ctx):
    from rf import rfstats
    s = stream([trace([0., 1.], **dict(station_headers(p), **event_headers(p))) for p in c['pairs']])
    kw = {'phase': c['phase'], 'pp_depth': c['pp'], 'dist_range': None}
    rfstats(s, **kw)
    require(len(s) == len(c['pairs']), 'number of traces')
    for p, tr in zip(c['pairs'], s):
        alone = rfstats(event=event(p), station=station(p), **kw)
        for k, v in alone.items():
            w = tr.stats.get(k)
            ok = w == v or (isinstance(v, float) and isinstance(w, float) and abs(w - v) <= 1e-8 * (1 + abs(v)) or (v != v and w != w))
            if not ok and k in ('onset', 'event_time'):
                ok = abs(w - v) < 1e-5
            require(ok, 'trace %s: %s is %r, alone %r', tr.id, k, w, v)
