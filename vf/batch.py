"""Data sets, command line calls and comparison of files for the checks of the batch tool."""
import contextlib
import functools
import importlib
import io
import os
import sys

import numpy as np
from obspy import Catalog, Inventory, Stream, Trace, UTCDateTime as UTC
from obspy.core import AttribDict
from obspy.core.event import Event, Magnitude, Origin, ResourceIdentifier
from obspy.core.inventory import Channel, Network, Station

from vf.core import close, require, scratch
from vf.gen import plain

BASE = UTC(2011, 3, 5, 2, 0, 0)
STATIONS = [('CX', 'PB01', '', -21.04, -69.49), ('CX', 'PB02', '00', -21.3, -69.9), ('XX', 'PB01', '10', -20.5, -69.), ('CX', 'PB01', '10', -21.04, -69.49)]
PLACES = [(12.3, -89.), (15., -60.), (-56., -27.), (-20.7, -176.), (-21., -69.), (40., 140.),   # these two are out of range
          (0., -20.), (-50., 0.), (20., -110.)]


def catalog(c):
    evs = []
    for k, e in enumerate(c['events']):
        la, lo = PLACES[e['place']]
        o = dict(time=BASE + e['t'], latitude=la, longitude=lo, depth=1000. * e['depth'])
        kind = e.get('kind')
        if kind in o:
            o[kind] = None
        ev = Event(resource_id=ResourceIdentifier('smi:local/ev%d' % k), origins=[] if kind == 'origin' else [Origin(**o)],
                   magnitudes=[] if kind == 'mag' else [Magnitude(mag=5. + k)])
        if kind == 'preferred':
            ev.origins.insert(0, Origin(time=BASE + e['t'] + 30, latitude=-la, longitude=lo, depth=5000.))
            ev.preferred_origin_id = ev.origins[1].resource_id
        evs.append(ev)
    return Catalog(evs)


def inventory(c):
    nets = {}
    for i in c['stations']:
        n, s, loc, la, lo = STATIONS[i]
        ch = [Channel('BH' + x, loc, latitude=la, longitude=lo, elevation=1000., depth=0., start_date=UTC(2000, 1, 1), sample_rate=c['sr']) for x in 'ZNE']
        nets.setdefault(n, []).append(Station(s, la, lo, 1000., channels=ch, creation_date=UTC(2000, 1, 1)))
    return Inventory(networks=[Network(n, stations=s) for n, s in sorted(nets.items())], source='x')


@functools.lru_cache(None)
def arrival(place, depth, i):
    from obspy.geodetics import gps2dist_azimuth, kilometer2degrees
    d = gps2dist_azimuth(*(PLACES[place] + STATIONS[i][3:]))[0]
    arr = taup().get_travel_times(depth, kilometer2degrees(d / 1000), ['P'])
    return arr[0].time if arr else None


@functools.lru_cache(None)
def taup():
    from obspy.taup import TauPyModel
    return TauPyModel('iasp91')


def waveforms(c):
    """Segments around all arrivals; samples are a function of time, so overlapping segments agree."""
    out = Stream()
    for j, i in enumerate(c['stations']):
        n, s, loc, _, _ = STATIONS[i]
        for k, e in enumerate(c['events']):
            fault = c['faults'].get('%d-%d' % (k, j)) if isinstance(c['faults'], dict) else None
            if fault == 'missing':
                continue
            t1 = int((e['t'] + 250) * c['sr'])
            kk = np.arange(t1, t1 + int(650 * c['sr']))
            if fault == 'short':   # data ends within the requested window
                a = arrival(e['place'], e['depth'], i)
                if a is not None:
                    kk = kk[:max(int((a - 250 + 31) * c['sr']), 0)]
            for m, x in enumerate('ZNE' if fault != 'two' else 'ZN'):
                a = np.sin((kk + 7919. * m + 104729. * i + c['seed'] % 1000) * 12.9898) * 43758.5453
                d = a - np.floor(a) - 0.5
                out.append(Trace(d, header={'network': n, 'station': s, 'location': loc, 'channel': 'BH' + x, 'sampling_rate': c['sr'],
                                            'starttime': BASE + t1 / c['sr'] + c['offset'] / c['sr']}))
    return out


def ask(stream, network, station, location, channel, starttime, endtime):
    """Data of the window; nothing if no data covers it."""
    s = stream.select(network=network, station=station, location=location, channel=channel).copy()
    return s.slice(starttime, endtime).copy()


@contextlib.contextmanager
def inside():
    """Work in a scratch folder."""
    old, path = os.getcwd(), list(sys.path)
    with scratch() as folder:
        os.chdir(folder)
        sys.path_importer_cache.pop('.', None)  # entry of another folder
        importlib.invalidate_caches()
        try:
            yield folder
        finally:
            os.chdir(old)
            sys.path[:] = path


def cli(args):
    """Run the command line tool. Returns exit code (None if it did not exit), stdout and stderr."""
    from rf.batch import run_cli
    out, err = io.StringIO(), io.StringIO()
    code = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            run_cli(list(args))
        except SystemExit as ex:
            code = ex.code
    return code, out.getvalue(), err.getvalue()


@contextlib.contextmanager
def figures(seen):
    """Collect the curves of all figures which are saved, by file name."""
    from matplotlib.figure import Figure
    orig = Figure.savefig

    def savefig(fig, fname, *args, **kwargs):
        if isinstance(fname, (str, os.PathLike)):
            seen[os.path.normpath(fname)] = curves(fig)
        return orig(fig, fname, *args, **kwargs)
    Figure.savefig = savefig
    try:
        yield seen
    finally:
        Figure.savefig = orig


def curves(fig):
    return [[np.array(line.get_xydata(), float) for line in ax.get_lines()] for ax in fig.axes]


def same_curves(got, want, what):
    require([len(a) for a in got] == [len(a) for a in want], '%s: axes with %s curves, expected %s', what, [len(a) for a in got], [len(a) for a in want])
    for a, b in zip(got, want):
        for k, (x, y) in enumerate(zip(a, b)):
            close(x, y, '%s: curve %d' % (what, k), rtol=1e-5, scale=1 + np.max(np.abs(y)) if y.size else 1)


def tree(path):
    """Files below path (or the single file path.h5 ...) relative to the working directory."""
    out = []
    for root, dirs, files in os.walk(path):
        out.extend(os.path.join(root, f) for f in files)
    return sorted(out)


def files():
    return sorted(os.path.normpath(f) for f in tree('.'))


TF = '%Y-%m-%dT%H:%M:%S'


def event_names(root, fmt, sta, event_time, channels):
    """Documented names of the files of one event and station."""
    sid = '%s.%s.%s' % sta
    t = event_time.strftime(TF)
    if fmt == 'Q':
        return ['%s/%s/%s_%s.%s' % (root, sid, sid, t, x) for x in ('QBN', 'QHD')]
    if fmt == 'SAC':
        return ['%s/%s/%s.%s_%s.SAC' % (root, sid, sid, cha, t) for cha in channels]
    return [root + '.h5']


def load(names, fmt):
    from rf import RFStream, read_rf
    s = RFStream()
    for n in names:
        if not n.endswith('.QBN'):
            s.extend(read_rf(n, fmt).traces)
    return s


def roundtrip(stream, fmt):
    """What the API reads after writing the stream."""
    from rf import RFStream, read_rf
    stream = stream.copy()
    with scratch() as folder:
        f = os.path.join(folder, 'f')
        if fmt == 'SAC':
            out = RFStream()
            for i, tr in enumerate(stream):
                tr.write('%s%d.SAC' % (f, i), 'SAC')
                out.extend(read_rf('%s%d.SAC' % (f, i), 'SAC').traces)
            return out
        if fmt == 'Q':
            stream.write(f, 'Q')
            return read_rf(f + '.QHD', 'Q')
        stream.write(f + '.h5', 'H5', ignore=('mseed',))
        return read_rf(f + '.h5', 'H5')


IGNORE = ('sac', 'sh', '_format', 'mseed', 'segy')


def key(tr):
    return (tr.id, str(tr.stats.get('event_time')), tr.stats.starttime.ns, tr.stats.get('box_pos', 0))


def same(got, want, what, ignore=(), rtol=1e-9):
    """Same traces in any order, headers and samples up to rounding."""
    got, want = sorted(got, key=key), sorted(want, key=key)
    require([tr.id for tr in got] == [tr.id for tr in want], '%s: traces %s, API gives %s', what, [tr.id for tr in got], [tr.id for tr in want])
    for a, b in zip(got, want):
        w = '%s: %s' % (what, a.id)
        require(len(a) == len(b), '%s: %d samples, API gives %d', w, len(a), len(b))
        scale = float(np.max(np.abs(b.data))) if len(b) else 0
        require(bool(np.all(np.abs(a.data.astype(float) - b.data) <= rtol * scale)), '%s: samples differ', w)
        ha, hb = ({k: v for k, v in tr.stats.items() if k not in IGNORE + tuple(ignore)} for tr in (a, b))
        require(sorted(ha) == sorted(hb), '%s: headers %s only in one of file and API result', w, sorted(set(ha) ^ set(hb)))
        for k in ha:
            x, y = ha[k], hb[k]
            if k == 'processing':  # entries of ObsPy depend on the data source
                x, y = ([e for e in v if e.startswith('rf ')] for v in (x, y))
            if isinstance(x, UTC) and isinstance(y, UTC):
                ok = abs(x - y) < 2e-6
            elif isinstance(x, (float, np.floating)) and isinstance(y, (float, int, np.floating)):
                ok = abs(x - y) <= 1e-9 * max(1, abs(y)) or (x != x and y != y)
            else:
                ok = plain(x) == plain(y)
            require(ok, '%s: header %s is %r, API gives %r', w, k, x, y)
