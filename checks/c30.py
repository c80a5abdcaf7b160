"""C30 Stream type, method and text reflect the headers."""
import re
import warnings

import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime as UTC

from vf.core import Check, require
from vf.gen import T0, diff, num, seeds, snap, stream, trace

CHECK = Check('C30', assumptions=['traces of which only some have the header, and phases that differ but end with the same letter, are not decided'])
PHASES = ['P', 'S', 'PP', 'Pdiff P', 'SKS', 'p', 's', 'ScS']
TYPES = ['rf', 'profile', 'harmonic', 'stack', 'r', 'f', 'S', 'B', 'RF', 'rf2']


@st.composite
def unique_cases(draw):
    n = draw(st.integers(0, 6))
    same = draw(st.booleans())

    def column(values):
        if same or draw(st.booleans()):
            v = draw(st.sampled_from(values + [None]))
            return [v] * n
        return [draw(st.sampled_from(values[:3] + [None] * draw(st.integers(0, 1)))) for _ in range(n)]
    return {'n': n, 'type': column(TYPES), 'phase': column(PHASES), 'set_type': draw(st.sampled_from(TYPES)), 'set_phase': draw(st.sampled_from(PHASES))}


def get(s, name):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = getattr(s, name)
    return v, len(w)


@CHECK.sub(unique_cases, quick=6000, thorough=100000,
           rule='type and method of streams with equal, different and missing headers, and after setting them; non-trivial with at least two traces')
def unique(c, ctx):
    traces = []
    for k in range(c['n']):
        tr = trace([0., 1.], id='NE.STA..BHZ', own=k)
        if c['type'][k] is not None:
            tr.stats.type = c['type'][k]
        if c['phase'][k] is not None:
            tr.stats.phase = c['phase'][k]
        traces.append(tr)
    s = stream(traces)
    before = snap(s)
    ctx.nontrivial(c['n'] > 1)
    for name, head, conv in (('type', 'type', str), ('method', 'phase', lambda v: v[-1].upper())):
        vals = [v for v in c[head] if v is not None]
        got, warned = get(s, name)
        kinds = set(conv(v) for v in vals)
        if not vals:
            ctx.label(name + ' unset')
            require(got is None and not warned, '%s of stream without header: %r, %d warnings', name, got, warned)
        elif len(kinds) > 1:
            ctx.label(name + ' differs')
            require(got is None and warned, '%s for values %s: %r, %d warnings', name, c[head], got, warned)
        elif len(set(vals)) == 1 and len(vals) == c['n']:
            ctx.label(name + ' common')
            require(got == conv(vals[0]) and not warned, '%s for values %s: %r, %d warnings', name, c[head], got, warned)
        else:
            require(got in (None, conv(vals[0])), '%s for values %s: %r', name, c[head], got)
    d = diff(before, snap(s))
    require(d is None, 'reading type and method changed the stream: %s', d)
    s.type = c['set_type']
    s.method = c['set_phase']
    require(all(tr.stats.type == c['set_type'] and tr.stats.phase == c['set_phase'] for tr in s), 'setting type and method')
    if c['n']:
        require(get(s, 'type') == (c['set_type'], 0), 'type after setting %s: %s', c['set_type'], get(s, 'type'))
        require(get(s, 'method') == (c['set_phase'][-1].upper(), 0), 'method after setting %s: %s', c['set_phase'], get(s, 'method'))
    d = diff([dict(x, stats={k: v for k, v in x['stats'].items() if k not in ('type', 'phase')}) for x in before], snap(s, ('type', 'phase')))
    require(d is None, 'setting type and method changed something else: %s', d)


@st.composite
def text_cases(draw):
    heads = {}
    for k, lo, hi in (('event_magnitude', 0, 9.5), ('distance', 0, 180), ('back_azimuth', 0, 360), ('box_pos', -500, 500), ('slowness', 0, 20)):
        if draw(st.booleans()):
            heads[k] = draw(num(lo, hi))
    if draw(st.booleans()):
        heads['moveout'] = draw(st.sampled_from(['Ps', 'Sp', 'Ppps']))
    return {'heads': heads, 'type': draw(st.sampled_from([None] + TYPES)), 'phase': draw(st.sampled_from([None, ''] + PHASES)),
            'onset': draw(st.one_of(st.none(), num(-20, 100, 2))), 'id': draw(st.sampled_from(['NE.STA.00.BHZ', '...Q', '.STA..BHL', 'NE.STA.mod.0', '...', 'X...Q', '..mod.2', '..00.BHZ', '.A..Q', 'N..0.'])),
            'n': draw(st.integers(1, 40)), 'sr': draw(st.sampled_from([1., 10., 12.5, 0.1, 100])), 'start': draw(st.sampled_from(['T0', 'T0', 0, 0, -86400.5, -2e9, 1e-3, 86400])),
            'mask': draw(st.booleans()), 'other': draw(st.sampled_from([None, 'station_latitude', 'pp_depth', 'event_time', 'sac', '{odd}'])),
            'numtype': draw(st.sampled_from(['float', 'numpy', 'int', 'float32']))}


@CHECK.sub(text_cases, quick=8000, thorough=150000,
           rule='text of one trace and of streams for every subset of the headers; non-trivial if the onset is set')
def text(c, ctx):
    conv = {'float': float, 'numpy': np.float64, 'int': int, 'float32': np.float32}[c['numtype']]
    heads = {k: v if isinstance(v, str) else conv(v) for k, v in c['heads'].items()}
    tr = trace(np.zeros(c['n']), c['sr'], start=T0 if c['start'] == 'T0' else UTC(c['start']), id=c['id'], **heads)
    for k in ('type', 'phase'):
        if c[k] is not None:
            tr.stats[k] = c[k]
    if c['onset'] is not None:
        tr.stats.onset = tr.stats.starttime + c['onset']
    if c['other']:
        tr.stats[c['other']] = {'x': 1} if c['other'] == 'sac' else T0 if c['other'] == 'event_time' else 5.
    masked = c['mask'] and c['n'] > 2
    if masked:
        tr.data = np.ma.masked_array(tr.data, [True] + [False] * (c['n'] - 1))
    s = stream([tr, tr.copy()])
    before = snap(s)
    out = str(tr)
    require(isinstance(out, str) and '\n' not in out, 'text of trace: %r', out)
    both = str(s)
    require(out in both and '2 Trace(s)' in both, 'text of stream does not show the text of the trace: %r', both)
    s.__str__(extended=True)
    repr(tr)
    d = diff(before, snap(s))
    require(d is None, 'printing changed the stream: %s', d)
    ctx.nontrivial(c['onset'] is not None)
    if c['onset'] is None:
        ctx.label('without onset')
        require(c['id'] in out, 'id %s not in %r', c['id'], out)
        return
    words = out.replace('|', ' ').split()
    parts = [p.strip() for p in out.split('|')]
    # id and type
    if c['type'] is None:
        require(parts[0] == c['id'], 'id: %r', out)
    else:
        m = (c['phase'][-1].upper() if c['phase'] else '') + 'rf'
        w = m if c['type'] == 'rf' else m + ' ' + c['type']
        require(parts[0].startswith(w + ' '), 'type: %r, expected %s', out, w)
        rest = parts[0][len(w) + 1:]
        if c['id'].startswith('...'):
            require(rest.strip('()') == c['id'][-1], 'component: %r', out)
        else:
            require(rest == c['id'], 'id: %r', out)
    # window relative to onset
    m = re.match(r'^(-?[\d.]+)s - (-?[\d.]+)s(?: onset:(\S+))?$', parts[1])
    require(m, 'time window: %r', out)
    t1 = -c['onset']
    t2 = t1 + (c['n'] - 1) / c['sr']
    require(abs(float(m.group(1)) - t1) < 0.0501 and abs(float(m.group(2)) - t2) < 0.0501, 'window %s to %s, expected %s to %s', m.group(1), m.group(2), t1, t2)
    if c['start'] != 0:
        require(m.group(3) == str(tr.stats.onset), 'onset: %r', out)
    require(parts[2].split() == [str(tr.stats.sampling_rate), 'Hz,', str(c['n']), 'samples'], 'sampling: %r', out)
    # exactly the headers which are set
    tail = parts[3].split() if len(parts) > 3 else []
    names = {'mag': 'event_magnitude', 'dist': 'distance', 'baz': 'back_azimuth', 'pos': 'box_pos', 'slow': 'slowness'}
    found = {}
    for w in tail:
        m = re.match(r'^(mag|dist|baz|pos|slow):(-?[\d.]+)(km)?$', w)
        if m:
            require(names[m.group(1)] not in found, 'twice: %r', out)
            found[names[m.group(1)]] = float(m.group(2))
    want = {k: float(v) for k, v in heads.items() if k != 'moveout'}
    require(set(found) == set(want), 'headers shown %s, set %s: %r', sorted(found), sorted(want), out)
    for k, v in want.items():
        tol = 0.00501 if k in ('box_pos', 'slowness') else 0.0501
        require(abs(found[k] - v) < tol + 1e-5, '%s shown as %s, is %s', k, found[k], v)
    require(('moveout)' in parts[3] if len(parts) > 3 else False) == ('moveout' in heads), 'moveout: %r', out)
    if 'moveout' in heads:
        require('(%s' % heads['moveout'] in tail, 'moveout %s: %r', heads['moveout'], out)
    require(('(masked)' in out) == masked, 'masked: %r', out)
