"""C03 Foreign waveform files are loaded whatever their comment and user fields contain."""
import json
import math
import os
import string

import numpy as np
from hypothesis import strategies as st
from obspy import Stream, Trace, UTCDateTime as UTC, read as obspy_read
from obspy.core import AttribDict

from vf.core import Check, require, scratch
from vf.gen import T0, diff, num, plain, seeds, snap

CHECK = Check('C03', assumptions=['files are foreign files ObsPy can write and read', 'station names with two or more dots in Q files follow the convention of rf and are not generated'])

# field of the format -> header
SAC_F = {'stla': 'station_latitude', 'stlo': 'station_longitude', 'stel': 'station_elevation', 'evla': 'event_latitude', 'evlo': 'event_longitude',
         'evdp': 'event_depth', 'mag': 'event_magnitude', 'gcarc': 'distance', 'baz': 'back_azimuth', 'user0': 'inclination', 'user1': 'slowness',
         'user2': 'pp_latitude', 'user3': 'pp_longitude', 'user4': 'pp_depth', 'user5': 'box_pos', 'user6': 'box_length'}
SAC_T = {'o': 'event_time', 'a': 'onset'}
SAC_S = {'kuser0': 'type', 'kuser1': 'phase', 'kuser2': 'moveout'}
SAC_OTHER = {'kevnm': 'an event name', 'user7': 3., 'user8': -1.5, 'user9': 8., 'kt0': 'P', 't0': 4., 'f': 9., 'kinst': 'STS-2', 'cmpaz': 90., 'cmpinc': 0., 'dist': 100., 'az': 7., 'ko': 'x'}
SH_F = {'LAT': 'event_latitude', 'LON': 'event_longitude', 'DEPTH': 'event_depth', 'MAGNITUDE': 'event_magnitude', 'DISTANCE': 'distance',
        'AZIMUTH': 'back_azimuth', 'INCI': 'inclination', 'SLOWNESS': 'slowness'}
SH_T = {'ORIGIN': 'event_time', 'P-ONSET': 'onset'}
SH_C = ['station_latitude', 'station_longitude', 'station_elevation', 'type', 'phase', 'moveout', 'pp_latitude', 'pp_longitude', 'pp_depth', 'box_pos', 'box_length']
SH_OTHER = {'S-ONSET': UTC(2011, 3, 11, 5, 50), 'EVENTNO': 7, 'SIGNOISE': 2.5, 'OPINFO': 'op', 'FILTER': 'F', 'QUAL': 'q', 'PWDW': 1.5, 'MARK': 2, 'SIGN': 1}
HEADERS = sorted(set(list(SAC_F.values()) + list(SAC_T.values()) + list(SAC_S.values())))

floats = st.one_of(num(-180, 180, 2), num(0, 700, 1), st.sampled_from([0., -1., 1e-5, 6371., -12344., 99999.]))
words = st.one_of(st.sampled_from(['rf', 'P', 'S', 'Ps', '', ' ', 'abc', '{"a":1}', 'null', '-1234', '0']), st.text(string.ascii_letters + string.digits + ' -_:{}"', max_size=8))


@st.composite
def sac_cases(draw):
    recs = []
    for _ in range(draw(st.integers(1, 3))):
        f = {k: draw(floats) for k in SAC_F if draw(st.integers(0, 2)) == 0}
        f.update({k: draw(st.one_of(num(-1000, 1000, 3), st.sampled_from(['nan', 'inf', 0.]) if draw(st.integers(0, 4)) == 0 else num(-10, 100, 3))) for k in SAC_T if draw(st.integers(0, 1))})
        f.update({k: draw(words) for k in SAC_S if draw(st.integers(0, 1))})
        recs.append({'f': f, 'other': draw(st.lists(st.sampled_from(sorted(SAC_OTHER)), max_size=3, unique=True)), 'n': draw(st.integers(1, 30)),
                     'b': draw(st.sampled_from([0., 0., -20., 3.5])), 'delta': draw(st.sampled_from([1., 0.1, 0.05])),
                     'ref': draw(st.sampled_from(['ok', 'ok', 'ok', 'none', 'nzyear', 'nzmsec'])),
                     'id': draw(st.sampled_from([['NE', 'STA', '00', 'BHZ'], ['', 'STA', '', 'BHZ'], ['', '', '', ''], ['NE', 'STA', '', 'BHQ']])), 'seed': draw(seeds)})
    return {'recs': recs, 'order': draw(st.sampled_from(['little', 'big'])), 'via': draw(st.sampled_from(['name', 'name', 'format', 'glob', 'head', 'all fields']))}


def compare(out, ref, what):
    """Samples, ids and times are those of ObsPy."""
    require(len(out) == len(ref), '%s: %d traces, ObsPy reads %d', what, len(out), len(ref))
    for a, b in zip(out, ref):
        require(type(a).__name__ == 'RFTrace', '%s: type', what)
        require(a.id == b.id, '%s: id %s, ObsPy reads %s', what, a.id, b.id)
        for k in ('starttime', 'endtime', 'sampling_rate', 'npts'):
            require(a.stats[k] == b.stats[k], '%s: %s is %s, ObsPy reads %s', what, k, a.stats[k], b.stats[k])
        require(a.data.dtype == b.data.dtype and a.data.tobytes() == b.data.tobytes(), '%s: samples', what)


def wrapping(f, out, kw):
    from rf import RFStream
    from rf.rfstream import RFTrace
    ref = obspy_read(f, **kw)
    for s, what in ((RFStream(ref), 'RFStream(stream)'), (RFStream(list(ref)), 'RFStream(list)'), (RFStream([RFTrace(trace=tr) for tr in ref]), 'RFTrace(trace)')):
        d = diff(snap(out), snap(s))
        require(d is None, 'read_rf against %s: %s', what, d)
    if len(ref) == 1:
        d = diff(snap(out), snap(RFStream(ref[0])))
        require(d is None, 'read_rf against RFStream(trace): %s', d)


@CHECK.sub(sac_cases, quick=2000, thorough=40000,
           rule='SAC files with any subset of the mapped and other fields defined, undefined reference times, blank and strange strings; non-trivial if a mapped field is defined')
def sac(c, ctx):
    from obspy.io.sac import SACTrace
    from obspy.io.sac.header import INTHDRS
    from rf import read_rf
    with scratch() as folder:
        for k, r in enumerate(c['recs']):
            fields = {x: float(v) if x not in SAC_S else v for x, v in r['f'].items()}
            fields.update({x: SAC_OTHER[x] for x in r['other']})
            for x, v in zip(('knetwk', 'kstnm', 'khole', 'kcmpnm'), r['id']):
                if v:
                    fields[x] = v
            t = SACTrace(data=np.random.RandomState(r['seed']).randn(r['n']).astype('float32'), delta=r['delta'], b=r['b'], lcalda=False,
                         nzyear=2011, nzjday=70, nzhour=5, nzmin=46, nzsec=24, nzmsec=123, **fields)
            for x in ('nzyear', 'nzjday', 'nzhour', 'nzmin', 'nzsec', 'nzmsec') if r['ref'] == 'none' else () if r['ref'] == 'ok' else (r['ref'],):
                t._hi[INTHDRS.index(x)] = -12345
            t.write(os.path.join(folder, 'f%d.sac' % k), byteorder=c['order'])
        files = [os.path.join(folder, 'f%d.sac' % k) for k in range(len(c['recs']))]
        calls = [(os.path.join(folder, 'f*.sac'), {})] if c['via'] == 'glob' else [(f, {'format': {'format': 'SAC'}, 'head': {'headonly': True}, 'all fields': {'format': 'SAC', 'debug_headers': True}}.get(c['via'], {})) for f in files]
        out = []
        for f, kw in calls:
            o = read_rf(f, **kw)
            compare(o, obspy_read(f, **kw), 'SAC')
            wrapping(f, o, kw)
            out.extend(o)
        require(len(out) == len(c['recs']), 'number of traces')
        refs = [obspy_read(f)[0].stats for f in files]
    ctx.nontrivial(any(r['f'] for r in c['recs']))
    for tr, r, ref in zip(out, c['recs'], refs):
        start = ref.starttime - float(np.float32(r['b']))
        for f, h in list(SAC_F.items()) + list(SAC_T.items()) + list(SAC_S.items()):
            got = tr.stats.get(h)
            v = r['f'].get(f)
            what = 'SAC field %s (%s, reference time %s)' % (f, h, r['ref'])
            if f in SAC_T and v in ('nan', 'inf'):
                ctx.label('not finite')
                require(h not in tr.stats, '%s is %s: header %r', what, v, got)
            elif v is None:
                require(h not in tr.stats, '%s is not defined: header %r', what, got)
            elif f in SAC_T:
                ctx.label('time', 'reference ' + r['ref'])
                if r['ref'] != 'ok' and h not in tr.stats:
                    continue
                require(isinstance(got, UTC), '%s: header %r', what, got)
                require(abs(got - start - v) < 1e-4 + 1e-6, '%s: %s is %s s after the reference time, field is %s', what, h, got - start, v)
            elif f in SAC_S:
                ctx.label('string')
                require((got or '') == v.strip() or got == v or c['via'] == 'all fields' and got.strip() == v.strip(), '%s: header %r, field %r', what, got, v)
            else:
                require(isinstance(got, float) or np.isscalar(got), '%s: header %r', what, got)
                require(got == np.float32(v), '%s: header %r, field %r', what, got, v)


json_values = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10 ** 6, 10 ** 6), num(-100, 100), st.text(string.ascii_letters + ' ', max_size=6)),
                           lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.one_of(st.sampled_from(SH_C), st.text(string.ascii_letters, max_size=4)), x, max_size=3)), max_leaves=8)
comments = st.one_of(st.none(), st.text(''.join(x for x in string.printable[:95] if x != '~'), max_size=80),
                     json_values.map(lambda v: json.dumps(v)), json_values.map(lambda v: json.dumps(v)[:-1]),
                     st.dictionaries(st.sampled_from(SH_C), st.one_of(floats, st.sampled_from(['rf', 'P', '', None])), max_size=6).map(json.dumps),
                     st.sampled_from(['', '{}', '[]', 'null', 'NaN', '1', '"type"', '["type"]', '"station_latitude phase type"', '{"type":', '{"type": {"type": "rf"}}', 'a' * 200, '1' * 100, '0123', '-', '[1, {"phase": 2}]']))


@st.composite
def q_cases(draw):
    recs = []
    for _ in range(draw(st.integers(1, 4))):
        recs.append({'f': {k: draw(floats) for k in SH_F if draw(st.integers(0, 2)) == 0}, 't': {k: draw(num(-500, 500, 3)) for k in SH_T if draw(st.integers(0, 1))},
                     'comment': draw(comments), 'other': draw(st.lists(st.sampled_from(sorted(SH_OTHER)), max_size=3, unique=True)), 'n': draw(st.integers(1, 30)),
                     'sta': draw(st.sampled_from(['STA', 'X', 'NE.STA', 'A B', ''])), 'cha': draw(st.sampled_from(['BHZ', 'BHQ', 'HHT', 'BH', 'Z'])), 'seed': draw(seeds)})
    return {'recs': recs, 'via': draw(st.sampled_from(['name', 'name', 'format', 'head']))}


@CHECK.sub(q_cases, quick=2500, thorough=50000,
           rule='Q files with any subset of the fields and any comment: text, JSON of any kind, truncated JSON; non-trivial if some trace has a comment')
def q(c, ctx):
    from rf import read_rf
    st_ = Stream()
    for k, r in enumerate(c['recs']):
        sh = AttribDict({x: v for x, v in r['f'].items()})
        sh.update({x: T0 + v for x, v in r['t'].items()})
        sh.update({x: SH_OTHER[x] for x in r['other']})
        if r['comment'] is not None:
            sh['COMMENT'] = r['comment']
        st_.append(Trace(np.random.RandomState(r['seed']).randn(r['n']).astype('float32'),
                         header={'station': r['sta'], 'channel': r['cha'], 'sampling_rate': 10., 'starttime': T0 + 5 * k, 'sh': sh}))
    ctx.nontrivial(any(r['comment'] for r in c['recs']))
    with scratch() as folder:
        f = os.path.join(folder, 'f.QHD')
        st_.write(f, 'Q')
        kw = {'format': {'format': 'Q'}, 'head': {'headonly': True}}.get(c['via'], {})
        ref = obspy_read(f, **kw)
        out = read_rf(f, **kw)
        compare(out, ref, 'Q')
        wrapping(f, out, kw)
    for tr, r, o in zip(out, c['recs'], ref):
        for f, h in list(SH_F.items()) + list(SH_T.items()):
            v = o.stats.sh.get(f)
            require((h in tr.stats) == (f in o.stats.sh) == (f in r['f'] or f in r['t']), 'Q field %s: header %s is %r, field %r', f, h, tr.stats.get(h), v)
            if f in o.stats.sh:
                require(tr.stats[h] == v, 'Q field %s: header %s is %r, field %r', f, h, tr.stats[h], v)
        comment = {}
        text = o.stats.sh.get('COMMENT')
        try:
            comment = json.loads(text)
            ctx.label('JSON ' + type(comment).__name__)
        except Exception:
            ctx.label('text' if text else 'no comment')
        for h in SH_C:
            if isinstance(comment, dict) and h in comment:
                require(h in tr.stats and (plain(tr.stats[h]) == plain(comment[h])), 'comment %r: header %s is %r', text, h, tr.stats.get(h))
            else:
                require(h not in tr.stats, 'comment %r: header %s is %r', text, h, tr.stats.get(h))


@CHECK.sub(lambda: st.fixed_dictionaries({'fmt': st.sampled_from(['MSEED', 'GSE2', 'PICKLE', 'SACXY', 'SLIST', 'SH_ASC']), 'n': st.integers(5, 60), 'seed': seeds, 'k': st.integers(1, 3)}),
           quick=250, thorough=4000, rule='other formats ObsPy writes: read_rf and RFStream give what ObsPy reads')
def other_formats(c, ctx):
    from rf import read_rf
    fmt = c['fmt']
    k = 1 if fmt in ('SACXY',) else c['k']
    s = Stream([Trace(np.random.RandomState(c['seed'] + i).randint(-1000, 1000, c['n']).astype('int32' if fmt in ('MSEED', 'GSE2', 'SLIST') else 'float32'),
                      header={'network': 'NE', 'station': 'STA', 'channel': 'BH' + 'ZNE'[i], 'sampling_rate': 10., 'starttime': UTC(2011, 1, 1)}) for i in range(k)])
    if fmt == 'SACXY':
        s[0].data = s[0].data.astype('float32')
    ctx.label(fmt)
    with scratch() as folder:
        f = os.path.join(folder, 'data')
        kw = {'format': fmt} if fmt in ('PICKLE', 'SH_ASC', 'SLIST') else {}
        try:
            s.write(f, fmt)
            ref = obspy_read(f, **kw)
        except Exception:
            ctx.nontrivial(False)
            ctx.label('ObsPy cannot')
            return
        out = read_rf(f, **kw)
        compare(out, ref, fmt)
        wrapping(f, out, kw)
        for tr in out:
            bad = [h for h in HEADERS if h in tr.stats]
            require(not bad, '%s: headers %s', fmt, bad)


SETS = {'station_latitude': 1.5, 'event_depth': 2.5, 'distance': 3.5, 'back_azimuth': 4.5, 'inclination': 5.5, 'slowness': 6.5, 'pp_depth': 7.5, 'phase': 'S', 'type': 'profile', 'moveout': 'Sp', 'onset': T0 + 7, 'event_time': T0 - 99.5, 'box_pos': 1.}


@CHECK.sub(lambda: st.fixed_dictionaries({'fmt': st.sampled_from(['SAC', 'Q', 'H5']), 'file': st.lists(st.sampled_from(sorted(SETS)), max_size=8, unique=True), 'set': st.lists(st.sampled_from(sorted(SETS)), min_size=1, max_size=6, unique=True),
                                          'op': st.sampled_from(['add', 'merge', 'RFTrace', 'construct', 'copy', 'slice', 'split', 'iadd']), 'n': st.integers(4, 20), 'seed': seeds}),
           quick=800, thorough=10000, rule='headers set on traces read from a file survive merging, slicing and constructing; non-trivial if one of them was stored in the file')
def later(c, ctx):
    from rf import RFStream, read_rf
    from rf.rfstream import RFTrace
    from vf.gen import stream, trace
    old = {'onset': T0 + 1, 'event_time': T0 - 500, 'phase': 'P', 'type': 'rf', 'moveout': 'Ps'}
    s = stream([trace(np.random.RandomState(c['seed']).randn(c['n']), 10., **{k: old.get(k, 55.5) for k in c['file']})])
    ctx.nontrivial(bool(set(c['file']) & set(c['set'])))
    ctx.label(c['op'], c['fmt'])
    with scratch() as folder:
        f = os.path.join(folder, 'f' + {'SAC': '.sac', 'Q': '', 'H5': '.h5'}[c['fmt']])
        s.write(f, c['fmt'])
        s = read_rf(f + ('.QHD' if c['fmt'] == 'Q' else ''))
    for k in c['set']:
        s[0].stats[k] = SETS[k]
    want = {k: plain(s[0].stats.get(k)) for k in HEADERS}
    a, b = s.copy(), s.copy()
    t1 = s[0].stats.starttime
    a.trim(endtime=t1 + 0.15)
    b.trim(t1 + 0.2)
    out = {'add': lambda: [a[0] + b[0]], 'iadd': lambda: (a + b).traces, 'merge': lambda: (a + b).merge().traces, 'RFTrace': lambda: [RFTrace(trace=s[0])], 'construct': lambda: [RFTrace(data=s[0].data, header=s[0].stats)],
           'copy': lambda: RFStream(s.copy()).traces, 'slice': lambda: s.slice(t1 + 0.1).traces, 'split': lambda: s.split().traces}[c['op']]()
    for tr in out:
        got = {k: plain(tr.stats.get(k)) for k in HEADERS}
        bad = [k for k in HEADERS if got[k] != want[k]]
        require(not bad, '%s of traces read from %s: header %s is %r, was set to %r', c['op'], c['fmt'], bad and bad[0], bad and got[bad[0]], bad and want[bad[0]])
