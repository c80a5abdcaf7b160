"""C07 Component grouping is a partition of the stream."""
import numpy as np
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime as UTC

from vf.core import Check, require
from vf.gen import decorate, decs, diff, num, seeds, snap, stream, trace, T0

CHECK = Check('C07')
IDS = ['NE.STA..BH', 'NE.STA..HH', 'NE.STA.00.BH', 'NE.STA1..BH', 'N.ESTA..BH', 'NE.STAB..H', 'NE.STA..B', '..' + '.', 'NE.STA..BL', 'NE.STA.00.BN', 'NE.Sta..BH', 'ne.STA..BH']


@st.composite
def cases(draw):
    key = draw(st.sampled_from([None, None, 'onset', 'starttime', 'event_id', 'number', 'flag']))
    tr = draw(st.lists(st.tuples(st.integers(0, draw(st.integers(0, len(IDS) - 1))), st.sampled_from('ZNEZNER1'), st.integers(0, 3)).map(list), max_size=14))
    n = draw(st.sampled_from([None, None, 1, 2, 3, [2, 3], [1], [3, 1, 5], [], [2, 3, 4, 5, 6]]))
    return {'traces': tr, 'key': key, 'n': n, 'container': draw(st.sampled_from(['tuple', 'list', 'set', 'range'])),
            'cls': draw(st.sampled_from(['RFStream', 'Stream'])), 'dec': draw(decs)}


def value(key, i):
    if key in ('onset', 'starttime'):
        return T0 + [0, 1, 1.000001, 86400][i]
    if key == 'event_id':
        return ['a', 'a/b', '', 'ab'][i]
    if key == 'number':
        return [0., 1., 1.5, -1.][i]
    return [True, False, True, False][i]


@CHECK.sub(cases, quick=12000, thorough=300000,
           rule='streams of up to 14 traces with colliding codes, grouped with and without key and number of components; non-trivial if two groups and one group with two traces')
def groups(c, ctx):
    from rf.util import IterMultipleComponents
    traces = []
    for k, (i, comp, v) in enumerate(c['traces']):
        tr = trace([1. * k, 2., 3.], id=IDS[i] + comp)
        if c['key']:
            tr.stats[c['key']] = value(c['key'], v)
        tr.stats.own = k
        traces.append(tr)
    decorate(traces, c.get('dec'))
    s = stream(traces) if c['cls'] == 'RFStream' else Stream(traces)
    before = snap(s)
    # reference
    want, order = {}, []
    for k, (i, comp, v) in enumerate(c['traces']):
        g = (IDS[i], value(c['key'], v) if c['key'] else None)
        for j, h in enumerate(order):
            if h == g:
                want[j].append(k)
                break
        else:
            want[len(order)] = [k]
            order.append(g)
    n = c['n']
    if isinstance(n, list):
        if c['container'] == 'range' and n == list(range(min(n or [0]), max(n or [-1]) + 1)):
            n = range(min(n or [0]), max(n or [-1]) + 1)
        else:
            n = {'tuple': tuple, 'list': list, 'set': set, 'range': tuple}[c['container']](n)
    ok = [x for x in want.values() if n is None or (len(x) == n if isinstance(n, int) else len(x) in c['n'])]
    ctx.nontrivial(len(want) > 1 and any(len(x) > 1 for x in want.values()))
    if len(ok) < len(want):
        ctx.label('filtered')
    ctx.label(str(c['key']))
    kw = {}
    if c['key'] is not None:
        kw['key'] = c['key']
    if n is not None:
        kw['number_components'] = n
    it = IterMultipleComponents(s, **kw)
    require(len(it) == len(ok), 'length %d, expected %d groups', len(it), len(ok))
    first = list(it)
    check(first, ok, traces, c, s, 'first pass')
    check(list(it), ok, traces, c, s, 'second pass')
    # two interleaved passes
    if ok:
        a, b = iter(it), iter(it)
        x = [next(a)]
        y = list(b)
        x += list(a)
        check(x, ok, traces, c, s, 'interrupted pass')
        check(y, ok, traces, c, s, 'pass within a pass')
    require(len(it) == len(ok), 'length after the passes %d, expected %d', len(it), len(ok))
    d = diff(before, snap(s))
    require(d is None, 'stream changed: %s', d)
    # a group gives access to the traces of the stream
    for g in first:
        for tr in g:
            tr.stats.seen = tr.stats.get('seen', 0) + 1
            tr.data = tr.data + 100
    for k, tr in enumerate(s):
        m = 1 if any(k in x for x in ok) else 0
        require(tr.stats.get('seen', 0) == m and tr.data[0] == k + 100 * m, 'trace %d: change made through the groups', k)


def check(got, ok, traces, c, s, what):
    where = {id(tr): k for k, tr in enumerate(traces)}
    for g in got:
        require(isinstance(g, type(s)), '%s: group is %s', what, type(g))
        for tr in g:
            require(id(tr) in where, '%s: a trace is not of the stream', what)
    sets = [[where[id(tr)] for tr in g] for g in got]
    require(sorted(sets) == sorted(ok), '%s: groups %s, expected %s', what, sorted(sets), sorted(ok))


@st.composite
def many_cases(draw):
    return {'n': draw(st.sampled_from([None, 1, 2, 3, [2, 3]])), 'key': draw(st.sampled_from([None, 'onset', 'event_id', 'number'])), 'size': draw(st.sampled_from([40, 101, 130, 300])),
            'container': 'tuple', 'cls': draw(st.sampled_from(['RFStream', 'Stream'])), 'dec': draw(decs), 'seed': draw(seeds), 'codes': draw(st.integers(1, len(IDS)))}


@CHECK.sub(many_cases, quick=60, thorough=1200,
           rule='like groups with up to 300 traces; non-trivial if two groups and one group with two traces')
def many(c, ctx):
    rs = np.random.RandomState(c['seed'])
    groups(dict(c, traces=[[int(rs.randint(c['codes'])), 'ZNERT1'[rs.randint(6)], int(rs.randint(4))] for _ in range(c['size'])]), ctx)
