"""C01 Waveform files round-trip the receiver function metadata."""
import glob
import os

import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime as UTC

from vf.core import Check, require, scratch
from vf.gen import T0, diff, header, hdiff, num, plain, seeds, snap, stream, trace

CHECK = Check('C01', assumptions=['precision: SAC and Q single precision samples, SAC single precision header values and times relative to its reference time, '
                                  'Q times truncated to ms and sampling interval rounded to 1e-6 s, H5 exact',
                                  'H5 indices have a resolution of one second: traces which differ by less are not generated'])
# documented headers and their physical ranges
FLOATS = {'station_latitude': (-90, 90), 'station_longitude': (-180, 180), 'station_elevation': (-500, 6000),
          'event_latitude': (-90, 90), 'event_longitude': (-180, 180), 'event_depth': (0, 700), 'event_magnitude': (-1, 9.5),
          'distance': (0, 180), 'back_azimuth': (0, 360), 'inclination': (0, 90), 'slowness': (0, 20),
          'pp_latitude': (-90, 90), 'pp_longitude': (-180, 180), 'pp_depth': (0, 800), 'box_pos': (-2000, 5000), 'box_length': (0.1, 500)}
STRINGS = {'type': ['rf', 'profile', 'harmonic', 'x'], 'phase': ['P', 'S', 'PP', 'SKS', 'Pdiff'], 'moveout': ['Ps', 'Sp', 'Ppps', 'Psss']}
TIMES = {'onset': (-50, 200), 'event_time': (-1500, 10)}
DOCUMENTED = list(FLOATS) + list(STRINGS) + list(TIMES)
EXTRA = {'slowness_before_moveout': 5.5, 'event_id': 'quakeml:a/b?x=1', 'box_lonlat': [1.5, -2.25], 'own_int': 7, 'own_text': 'ä text', 'own_list': [1, 'a', 2.5],
         'processing': ['rf 1: deconvolve(a=1)', 'second'], 'own_time': UTC(2020, 1, 2, 3, 4, 5, 678901), 'own_array': np.array([1., 2., 3.])}


def value(k, draw, kind):
    if k in FLOATS:
        lo, hi = FLOATS[k]
        if draw(st.integers(0, 5)) == 0:
            # including numbers whose digits look like the undefined value of SAC
            v = draw(st.sampled_from([lo, hi, max(lo, 0.), max(lo, 0.) + 0.12345, min(hi, 9.) - 0.12345 / 4, max(lo, 0.) + 1.2345, min(hi, 12.345)]))
        else:
            v = draw(num(lo, hi, 4))
        return v
    if k in STRINGS:
        return draw(st.sampled_from(STRINGS[k]))
    lo, hi = TIMES[k]
    return draw(num(lo, hi, 6))


@st.composite
def headers(draw, must=()):
    p = draw(st.sampled_from([0, 0.3, 0.6, 1]))
    out = {}
    for k in DOCUMENTED:
        if k in must or p == 1 or (p and draw(st.integers(0, 9)) < 10 * p):
            out[k] = value(k, draw, None)
    return out


@st.composite
def streams(draw, max_traces=4):
    n = draw(st.integers(1, max_traces))
    same = draw(st.booleans())
    kinds = draw(st.sampled_from(['float', 'numpy', 'mixed']))
    heads = draw(headers())
    recs = []
    for k in range(n):
        recs.append({'id': draw(st.sampled_from(['NE.STA', 'NE.STA', 'XX.A', 'A.B1234'])) + '.' + draw(st.sampled_from(['', '00', '11'])) + '.'
                     + draw(st.sampled_from(['BHZ', 'BHQ', 'HHT', 'BHL'])),
                     'n': draw(st.one_of(st.integers(1, 60), st.just(1))), 'sr': draw(st.sampled_from([1., 10., 20., 100., 12.5, 40.])), 'start': 10000 * k + draw(num(0, 1000, 6)),
                     'heads': heads if same or k == 0 else draw(headers()), 'kind': draw(st.sampled_from(['float64', 'float32', 'int32'])),
                     'seed': draw(seeds), 'num': kinds})
    step = draw(st.sampled_from([10., 10., 0.25, 0.004]))
    if any(r['heads'].get('type') == 'profile' for r in recs):
        for k, r in enumerate(recs):
            # unique entries in the profile index
            r['heads'] = dict(r['heads'], **({'box_pos': round(step * k + 0.5, 4)} if 'box_pos' in r['heads'] else {}))
    special = draw(st.integers(0, 8)) if n > 1 else 9
    if special == 0:
        # as profile() returns them: only the position of the box is different
        for k, r in enumerate(recs):
            r.update(id=recs[0]['id'], start=recs[0]['start'], n=recs[0]['n'], sr=recs[0]['sr'], heads=dict(r['heads'], type='profile', box_pos=round(step * k + 0.5, 4)))
    elif special < 3:
        # several windows of one record
        for k, r in enumerate(recs[1:], 1):
            r.update(id=recs[0]['id'], start=round(recs[k - 1]['start'] + draw(num(2, 100, 6)), 6), heads=dict(r['heads'], **{h: v for h, v in recs[0]['heads'].items() if h in TIMES}), shared=True)
    elif special < 5:
        # not in the order of time
        starts = draw(st.permutations([r['start'] for r in recs]))
        for r, t in zip(recs, starts):
            r['start'] = t
    if draw(st.integers(0, 9)) == 0:
        recs = recs[:1]
        recs[0]['id'] = draw(st.sampled_from(['...BHQ', '.STA..BHZ', 'NE.STA.00.BHQ']))
    return recs


def conv(v, num_, k):
    if not isinstance(v, float):
        return v
    if num_ == 'numpy' or (num_ == 'mixed' and k % 2):
        return np.float64(v)
    if num_ == 'mixed' and v == int(v):
        return int(v)
    return v


def build(recs):
    out = []
    for r in recs:
        d = 1000 * np.random.RandomState(r['seed']).randn(r['n'])
        tr = trace(d.astype(r['kind']), r['sr'], start=T0 + r['start'], id=r['id'])
        ref = T0 + recs[0]['start'] if r.get('shared') else tr.stats.starttime
        for j, (k, v) in enumerate(r['heads'].items()):
            tr.stats[k] = ref + v if k in TIMES else conv(v, r['num'], j)
        out.append(tr)
    return stream(out)


NATIVE = ('event_latitude', 'event_longitude', 'event_depth', 'event_magnitude', 'event_time', 'onset', 'distance', 'back_azimuth', 'inclination', 'slowness')


def write(s, folder, fmt, single, **kw):
    name = {'SAC': 'f.SAC', 'Q': 'f.QHD', 'H5': 'f.h5'}[fmt]
    if fmt == 'SAC' and single:
        for k, tr in enumerate(s):
            tr.write(os.path.join(folder, 'f%03d.SAC' % k), fmt)
    else:
        s.write(os.path.join(folder, name), fmt if single else fmt.lower() if fmt in ('H5', 'Q') else fmt, **kw)


def read(folder, fmt):
    from rf import read_rf
    pat = {'SAC': 'f*.SAC', 'Q': 'f.QHD', 'H5': 'f.h5'}[fmt]
    return read_rf(os.path.join(folder, pat), **({} if fmt != 'Q' else {'format': 'Q'}))


class Tol(object):
    """Allowed deviations after a chain of formats."""

    def __init__(self):
        self.time = 0.
        self.f32 = False
        self.delta = 0.
        self.q = False

    def step(self, fmt, span):
        if fmt == 'SAC':
            self.time += 2e-6 + span * 1.3e-7
            self.f32 = True
            self.delta += 1e-7
        elif fmt == 'Q':
            self.time += 1.01e-3
            self.delta += 1e-6
            self.q = True


def compare(out, ref, tol, what):
    """ref: list of (id, start, sr, data, heads)"""
    require(len(out) == len(ref), '%s: %d traces, expected %d', what, len(out), len(ref))
    left = list(range(len(ref)))
    for tr in out:
        st_ = tr.stats
        m = [k for k in left if ref[k]['id'] == tr.id and abs(st_.starttime - ref[k]['start']) < 1]
        if 'box_pos' in st_:
            m.sort(key=lambda k: abs(ref[k]['heads'].get('box_pos', 1e9) - st_.box_pos))
        require(m, '%s: trace %s at %s was not written (written: %s)', what, tr.id, st_.starttime, [(ref[k]['id'], str(ref[k]['start'])) for k in left])
        r = ref[m[0]]
        left.remove(m[0])
        w = '%s: %s' % (what, tr.id)
        require(type(tr).__name__ == 'RFTrace', '%s: type', w)
        require(abs(st_.starttime - r['start']) <= tol.time + 1e-9, '%s: starts at %s, written %s', w, st_.starttime, r['start'])
        require(abs(st_.delta * r['sr'] - 1) <= tol.delta * (1 + r['sr']) + 1e-12, '%s: sampling rate %s, written %s', w, st_.sampling_rate, r['sr'])
        require(len(tr.data) == len(r['data']) == st_.npts, '%s: %d samples, written %d', w, len(tr.data), len(r['data']))
        d = np.asarray(r['data'], float)
        rt = 1.2e-7 if tol.f32 or tol.q else 0
        require(np.all(np.abs(tr.data - d) <= rt * np.abs(d)), '%s: samples', w)
        for k in DOCUMENTED:
            if k not in r['heads']:
                require(k not in st_, '%s: header %s = %r was not set', w, k, st_.get(k))
                continue
            v = r['heads'][k]
            require(k in st_, '%s: header %s is missing (written %r)', w, k, v)
            g = st_[k]
            if k in TIMES:
                require(isinstance(g, UTC) and abs(g - v) <= tol.time + 1e-9, '%s: %s is %s, written %s', w, k, g, v)
            elif k in STRINGS:
                require(g == v, '%s: %s is %r, written %r', w, k, g, v)
            else:
                require(abs(float(g) - float(v)) <= (1.2e-7 * abs(v) if tol.f32 else 0), '%s: %s is %r, written %r', w, k, g, v)


def reference(s):
    return [{'id': tr.id, 'start': tr.stats.starttime, 'sr': tr.stats.sampling_rate, 'data': tr.data.copy(),
             'heads': {k: tr.stats[k] for k in DOCUMENTED if k in tr.stats}} for tr in s]


def span(ref):
    return max([0] + [abs(r['heads'][k] - r['start']) for r in ref for k in TIMES if k in r['heads']]) + 1


FORMATS = ['SAC', 'Q', 'H5']


@CHECK.sub(lambda: st.fixed_dictionaries({'recs': streams(), 'format': st.sampled_from(FORMATS), 'single': st.booleans(), 'sh': st.sampled_from([False, False, True])}),
           quick=1600, thorough=30000, rule='one write and read with any subset of the documented headers; non-trivial if at least three headers are set')
def round_trip(c, ctx):
    s = build(c['recs'])
    ref = reference(s)
    ctx.nontrivial(max(len(r['heads']) for r in ref) > 2)
    ctx.label(c['format'])
    tol = Tol()
    tol.step(c['format'], span(ref))
    with scratch() as folder:
        kw = {}
        if c['sh'] and c['format'] == 'Q':
            # documented: the comment, which holds some of the headers, is left out
            kw['sh_compat'] = True
            for r in ref:
                r['heads'] = {k: v for k, v in r['heads'].items() if k in NATIVE}
            ctx.label('sh_compat')
        write(s, folder, c['format'], c['single'], **kw)
        out = read(folder, c['format'])
        require(type(out).__name__ == 'RFStream', 'type of result %s', type(out))
        compare(out, ref, tol, c['format'])


@st.composite
def chains(draw):
    recs = draw(streams(2))
    steps = []
    for _ in range(draw(st.integers(2, 4))):
        edits = []
        if draw(st.booleans()):
            for _ in range(draw(st.integers(1, 3))):
                k = draw(st.sampled_from(DOCUMENTED))
                if draw(st.booleans()):
                    edits.append([k, value(k, draw, None)])
                else:
                    edits.append([k, None])
            if draw(st.integers(0, 4)) == 0:
                edits = [[k, None] for k in DOCUMENTED] + edits
        steps.append([draw(st.sampled_from(FORMATS)), draw(st.booleans()), edits])
    return {'recs': recs, 'steps': steps}


@CHECK.sub(chains, quick=1600, thorough=30000,
           rule='chains of conversions between the formats, with headers changed, added and removed in between; non-trivial if two formats occur')
def chain(c, ctx):
    s = build(c['recs'])
    ctx.nontrivial(len(set(x[0] for x in c['steps'])) > 1)
    tols = [Tol() for _ in s]
    ref = reference(s)
    with scratch() as folder:
        tol = Tol()
        done = []
        for i, (fmt, single, edits) in enumerate(c['steps']):
            # changes of headers
            for k, v in edits:
                if k in ('type', 'box_pos') and len(c['recs']) > 1 or k in ('type', 'box_pos', 'event_time') and fmt == 'H5':
                    continue  # entries of the index, which have to be unique
                for tr in s:
                    tr.stats.pop(k, None)
                    if v is not None:
                        tr.stats[k] = tr.stats.starttime + v if k in TIMES else v
                for j, r in enumerate(ref):
                    r['heads'].pop(k, None)
                    if v is not None:
                        r['heads'][k] = r['start'] + v if k in TIMES else v
                if k in TIMES:
                    tol.time += 1e-6
                ctx.label('header set' if v is not None else 'header removed')
            tol.step(fmt, span(ref))
            sub = os.path.join(folder, str(i))
            os.mkdir(sub)
            write(s, sub, fmt, single)
            s = read(sub, fmt)
            done.append(fmt)
            compare(s, ref, tol, '-'.join(done))
        ctx.label('%s' % done[-1])


@CHECK.sub(lambda: st.fixed_dictionaries({'recs': streams(), 'extra': st.lists(st.sampled_from(sorted(EXTRA)), min_size=1, max_size=5, unique=True), 'mode': st.sampled_from(['w', 'a', 'two'])}),
           quick=500, thorough=10000, rule='entries outside the table are kept by HDF5, also if the traces are written one after the other to one file')
def h5_extra(c, ctx):
    s = build(c['recs'])
    for tr in s:
        for k in c['extra']:
            tr.stats[k] = EXTRA[k]
    ref = reference(s)
    keys = sorted(set((r['id'], r['start']) for r in c['recs']))
    if c['mode'] == 'two' and len(set(('profile' if r['heads'].get('type') == 'profile' and 'box_pos' in r['heads'] else
                                       'rf' if r['heads'].get('type', 'rf') == 'rf' and 'event_time' in r['heads'] else 'std') for r in ref)) > 1:
        ctx.label('different indices in one file')
        ctx.nontrivial(False)
        return
    with scratch() as folder:
        f = os.path.join(folder, 'f.h5')
        if c['mode'] == 'two':
            for tr in s:
                tr.write(f, 'H5', mode='a')
        else:
            s.write(f, 'H5', mode=c['mode'])
        out = read(folder, 'H5')
        compare(out, ref, Tol(), 'H5')
        for tr in out:
            for k in c['extra']:
                require(k in tr.stats, '%s: entry %s is missing', tr.id, k)
                require(plain(tr.stats[k]) == plain(EXTRA[k]), '%s: entry %s is %r, written %r', tr.id, k, tr.stats[k], EXTRA[k])


@CHECK.sub(lambda: st.fixed_dictionaries({'n': st.sampled_from([15, 40, 100, 130]), 'seed': seeds, 'format': st.sampled_from(FORMATS), 'single': st.booleans(),
                                          'profile': st.integers(0, 3).map(lambda x: x == 0), 'p': st.sampled_from([0.4, 0.9, 1])}),
           quick=45, thorough=800, rule='streams of up to 130 traces with different headers in one write; non-trivial with at least 100 traces')
def many(c, ctx):
    rs = np.random.RandomState(c['seed'])
    recs = []
    for k in range(c['n']):
        heads = {h: round(rs.uniform(*FLOATS[h]), 4) for h in FLOATS if rs.rand() < c['p']}
        heads.update({h: STRINGS[h][rs.randint(len(STRINGS[h]))] for h in STRINGS if rs.rand() < c['p'] and h != 'type'})
        heads.update({h: round(rs.uniform(*TIMES[h]), 6) for h in TIMES if rs.rand() < c['p']})
        heads['type'] = 'rf'
        if c['profile']:
            heads.update(type='profile', box_pos=round(0.5 + 2.5 * k, 2))
        recs.append({'id': 'N%d.S%d.%s.BH%s' % (rs.randint(2), rs.randint(4), ['', '00'][rs.randint(2)], 'ZQT'[k % 3]), 'n': int(rs.randint(1, 40)), 'sr': [1., 10., 40.][rs.randint(3)],
                     'start': 1000 * k + round(rs.uniform(0, 500), 6), 'heads': heads, 'kind': ['float64', 'float32', 'int32'][rs.randint(3)], 'seed': int(rs.randint(10 ** 6)), 'num': 'mixed'})
    s = build(recs)
    ref = reference(s)
    ctx.label(c['format'], 'profile' if c['profile'] else 'rf')
    ctx.nontrivial(c['n'] >= 100)
    tol = Tol()
    tol.step(c['format'], span(ref))
    with scratch() as folder:
        write(s, folder, c['format'], c['single'])
        compare(read(folder, c['format']), ref, tol, c['format'])
