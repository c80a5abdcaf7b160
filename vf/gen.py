"""Generators (JSON descriptions) and builders shared by the checks."""
import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime as UTC
from obspy.core import AttribDict

DEG2KM = 111.2
T0 = UTC(2011, 3, 11, 5, 46, 24)

seeds = st.integers(0, 10 ** 6)


def num(lo, hi, nd=3):
    """Decimal numbers with nd digits after the point, shrinking towards lo (or 0)."""
    f = 10 ** nd
    return st.integers(int(round(lo * f)), int(round(hi * f))).map(lambda i: i / f)


def real(lo, hi, nd=3):
    """Like num, but a third of the numbers have many more digits."""
    def value(x):
        v, k = x
        v = v + k * 10 ** -nd / 10
        return float(min(max(v, lo), hi))
    return st.tuples(num(lo, hi, nd), st.sampled_from([0, 0, 0, 0, 3.137, -0.2718281, 0.00057])).map(value)


def wave(n, d):
    """Array of n samples for description [kind, seed]; never identically zero if n > 0."""
    kind, seed = d
    rs = np.random.RandomState(seed)
    if kind == 'noise':
        return rs.randn(n)
    if kind == 'smooth':
        x = rs.randn(n + 8)
        return np.convolve(x, np.hanning(11)[1:-1] / 5, 'valid')[:n] + 1e-3 * rs.randn(n)
    if kind == 'pulse':
        x = np.zeros(n)
        p = rs.randint(n)
        w = rs.uniform(0.7, 4)
        x = np.exp(-0.5 * ((np.arange(n) - p) / w) ** 2) * rs.choice([-1., 1.])
        return x + 1e-4 * rs.randn(n)
    if kind == 'int':
        return rs.randint(-1000, 1000, n) * 1.
    if kind == 'sparse':
        x = np.zeros(n)
        k = max(1, n // 8)
        x[rs.choice(n, k, replace=False)] = rs.randn(k)
        x[rs.randint(n)] += 1
        return x
    raise ValueError(kind)


waves = st.tuples(st.sampled_from(['noise', 'smooth', 'pulse', 'int', 'sparse']), seeds).map(list)
noises = st.tuples(st.sampled_from(['noise', 'smooth', 'int']), seeds).map(list)


def quake(n, onset, seed, sr=None):
    """Record with noise before and a decaying wavelet after the sample onset."""
    rs = np.random.RandomState(seed)
    t = np.arange(n) - onset
    env = np.where(t >= 0, np.exp(-np.maximum(t, 0) / max(4., n / 6.)), 0.)
    return 0.02 * rs.randn(n) + env * rs.randn(n) + 3 * np.exp(-0.5 * (t / 1.5) ** 2)


def trace(data, sr=10., start=None, id='NE.STA.00.BHZ', **headers):
    from rf.rfstream import RFTrace
    net, sta, loc, cha = id.split('.')
    tr = RFTrace(data=np.array(data), header={
        'network': net, 'station': sta, 'location': loc, 'channel': cha,
        'sampling_rate': sr, 'starttime': T0 if start is None else start})
    for k, v in headers.items():
        tr.stats[k] = v
    return tr


def stream(traces):
    from rf import RFStream
    return RFStream(traces)


decs = st.one_of(st.just(0), seeds)

_DECOYS = {
    'station_latitude': (-90, 90), 'station_longitude': (-180, 180), 'station_elevation': (-6000, 5000),
    'event_latitude': (-90, 90), 'event_longitude': (-180, 180), 'event_depth': (0, 700), 'event_magnitude': (0, 9),
    'distance': (0, 180), 'back_azimuth': (0, 360), 'inclination': (0, 90), 'slowness': (0, 15),
    'slowness_before_moveout': (0, 15), 'pp_latitude': (-90, 90), 'pp_longitude': (-180, 180), 'pp_depth': (0, 700),
    'box_pos': (-500, 500), 'box_length': (0, 100), 'num': (1, 50), 'iterations': (1, 400), 'azimuth': (0, 360),
    'corner': (0, 1), 'quality': (0, 1)}


def decorate(traces, seed, skip=()):
    """Set headers which should not matter, if they are not set (seed 0: do nothing)."""
    if not seed:
        return traces
    rs = np.random.RandomState(seed)
    some = [k for k in sorted(_DECOYS) if k not in skip and rs.rand() < 0.5]
    same = rs.rand() < 0.3
    vals = {}
    for tr in traces:
        for k in some:
            if k not in tr.stats:
                v = vals.get(k) if same and k in vals else round(rs.uniform(*_DECOYS[k]), 2)
                v = vals[k] = 0. if rs.rand() < 0.1 else v
                tr.stats[k] = v
        for k, v in (('event_time', T0 - 500 + round(rs.uniform(0, 300), 2)), ('event_id', 'smi:x/%d' % rs.randint(3)), ('type', 'rf'),
                     ('moveout', 'Ps'), ('sac', {'stla': 1., 'b': 3., 'kuser0': 'S'}), ('sh', {'COMMENT': '{"type":"x"}', 'DELTA': 5.}),
                     ('_format', 'MSEED'), ('calib', 2.), ('term', 'cos')):
            if k not in skip and rs.rand() < 0.3 and (k == 'calib' or k not in tr.stats):
                tr.stats[k] = v
    return traces


def plain(v):
    """Comparable deep copy of header values."""
    if isinstance(v, (AttribDict, dict)):
        return {k: plain(v[k]) for k in sorted(v.keys())}
    if isinstance(v, UTC):
        return ('UTC', v.ns)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v != v:
        return 'nan'
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


DERIVED = ('delta', 'endtime', 'npts')


def header(tr, without=()):
    return {k: plain(tr.stats[k]) for k in tr.stats.keys() if k not in without}


def snap(stream, without=()):
    """Deep snapshot of a stream: data bytes, dtype, headers, order."""
    out = []
    for tr in stream:
        d = tr.data
        out.append({'data': np.ma.getdata(d).tobytes(), 'dtype': str(d.dtype), 'n': len(d),
                    'mask': np.ma.getmaskarray(d).tobytes() if np.ma.isMaskedArray(d) else None,
                    'stats': header(tr, without)})
    return out


def diff(a, b):
    """First difference of two snapshots or None."""
    if len(a) != len(b):
        return 'number of traces %d -> %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        for k in ('n', 'dtype', 'data', 'mask'):
            if x[k] != y[k]:
                return 'trace %d: %s changed' % (i, k)
        d = hdiff(x['stats'], y['stats'])
        if d:
            return 'trace %d: %s' % (i, d)
    return None


def hdiff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return 'header %s appeared: %r' % (k, b[k])
        if k not in b:
            return 'header %s vanished (was %r)' % (k, a[k])
        if a[k] != b[k]:
            return 'header %s: %r -> %r' % (k, a[k], b[k])
    return None
