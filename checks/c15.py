"""C15 Receiver functions of one event do not depend on other records."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Check, close, require
from vf.gen import decorate, decs, hdiff, header, num, quake, real, seeds, stream, trace

CHECK = Check('C15')


@st.composite
def cases(draw):
    rot = draw(st.sampled_from(['ZNE->LQT', 'NE->RT', None]))
    full = {'ZNE->LQT': ['ZNE'], 'NE->RT': ['ZNE'], None: ['LQT', 'ZRT', 'LQ', 'ZR']}[rot]
    typ = draw(st.sampled_from('PPS'))
    if typ == 'S' and rot == 'NE->RT':
        full = full + ['NE']
    recs = []
    nrec = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(6, 12)))
    for i in range(nrec):
        kind = draw(st.sampled_from(['full'] * 4 + ['single', 'many']))
        comps = draw(st.sampled_from(full)) if kind == 'full' else draw(st.sampled_from('ZNELQRT')) if kind == 'single' else 'ZNELQT'[:draw(st.integers(4, 6))]
        recs.append({'comps': comps, 'sta': draw(st.integers(0, 2)), 'loc': draw(st.sampled_from(['', '', '00', '10'])),
                     'cha': draw(st.sampled_from(['BH', 'BH', 'HH'])), 'ev': draw(st.integers(0, 2)),
                     'sr': draw(st.sampled_from([1., 2., 4.])), 'baz': draw(real(0, 360, 1)), 'inc': draw(real(0, 60, 1)),
                     'seed': draw(seeds), 'pre': draw(st.integers(15, 30)), 'n': draw(st.integers(60, 80)),
                     'df': draw(st.sampled_from([0, 0, 0.3])), 'kind': kind})
    # one record per station, location, band and event
    keys, out = set(), []
    for r in recs:
        k = (r['sta'], r['loc'], r['cha'], r['ev'])
        if k not in keys:
            keys.add(k)
            out.append(r)
    total = sum(len(r['comps']) for r in out)
    return {'recs': out, 'order': draw(st.permutations(range(total))) if draw(st.booleans()) else list(range(total)),
            'rot': rot, 'type': typ, 'decon': draw(st.sampled_from(['time', 'waterlevel', 'iterative', 'func', 'multitaper', None])),
            'rc': draw(st.sampled_from([None, None, 'QRT'])), 'norm': draw(st.sampled_from(['default', 'default', None, 0])),
            'trim': draw(st.sampled_from([None, None, [-12, 30]])), 'down': draw(st.sampled_from([None, None, 2])),
            'flt': draw(st.booleans()), 'samestart': draw(st.booleans()), 'sameonset': draw(st.booleans()), 'dec': draw(decs)}


def traces(c):
    out = []
    for i, r in enumerate(c['recs']):
        n, on = int(r['n'] * r['sr']), int(r['pre'] * r['sr'])
        start = None
        for j, x in enumerate(r['comps']):
            tr = trace(quake(n, on, r['seed'] + j), r['sr'], id='NE.STA%d.%s.%s%s' % (r['sta'], r['loc'], r['cha'], x),
                       back_azimuth=r['baz'], inclination=r['inc'], slowness=6. + 0.1 * i, event_magnitude=5. + i, own=100 * i + j)
            # onsets of the events differ (by a little only for some cases)
            tr.stats.starttime += r['ev'] * (0.01 if c['sameonset'] else 86400 * 10)
            if not c['samestart']:
                tr.stats.starttime += 7 * r['sta']
            tr.stats.onset = tr.stats.starttime + (on + r['df']) / r['sr']
            out.append((i, tr))
    decorate([tr for _, tr in out], c.get('dec'), ('type', 'moveout', 'event_time'))
    return [out[k] for k in c['order']]


def custom(rsp, src, tshift=10, normalize=None):
    src = src.data.copy()
    for tr in rsp:
        tr.data = tr.data - 2 * np.mean(np.abs(src)) + len(rsp)
    return rsp


def run(c, trs):
    s = stream(trs)
    kw = {}
    if c['decon'] == 'func':
        kw['func'] = custom
    if c['decon'] == 'multitaper':
        kw.update(T=12, winsrc=(-4, 14, 2))
    if c['decon'] == 'iterative':
        kw['itmax'] = 8
    if c['decon'] and c.get('norm', 'default') != 'default':
        kw['normalize'] = c['norm']
    if c['rc'] and c['decon']:
        kw['response_components'] = c['rc']
    if c['flt']:
        kw['filter'] = {'type': 'lowpass', 'freq': 0.3}
    s.rf(c['type'], rotate=c['rot'], deconvolve=c['decon'], trim=c['trim'], downsample=c['down'], **kw)
    return s


@CHECK.sub(cases, quick=2500, thorough=50000,
           rule='rf() of a shuffled stream of several records (plus single traces and groups of more than three) against rf() of every record alone; non-trivial with at least two records')
def joint(c, ctx):
    if c['decon'] == 'multitaper' and c['trim']:
        c['trim'] = [-14, 35]
    trs = traces(c)
    inp = [tr.copy() for _, tr in trs]
    got = run(c, [tr.copy() for _, tr in trs])
    ctx.nontrivial(len(c['recs']) > 1)
    ctx.label('%d records' % len(c['recs']), 'shuffled' if c['order'] != sorted(c['order']) else 'ordered')
    alone = {}
    for i, r in enumerate(c['recs']):
        for tr in run(c, [tr.copy() for j, tr in trs if j == i]):
            alone[tr.stats.own] = tr
        if r['kind'] != 'full':
            ctx.label(r['kind'])
            # not a record of two or three components
            plain = dict(c, rot=None, decon=None)
            for tr in run(plain, [tr.copy() for j, tr in trs if j == i]):
                close(alone[tr.stats.own].data, tr.data, 'trace %s of a group of %d' % (tr.id, len(r['comps'])), rtol=1e-12)
                require(tr.id == alone[tr.stats.own].id, 'id of trace which does not belong to a record')
    order = [tr.stats.own for tr in got]
    want = [tr.stats.own for tr in inp if tr.stats.own in alone]
    require(order == want, 'traces %s, expected %s', order, want)
    require(len(order) == len(set(order)), 'trace returned twice')
    for tr in got:
        ref = alone[tr.stats.own]
        d = hdiff(header(ref, ('processing',)), header(tr, ('processing',)))
        require(d is None, 'trace %s: %s', tr.id, d)
        close(tr.data, ref.data, 'trace %s of record %d' % (tr.id, tr.stats.own // 100), rtol=1e-10)
    if not (c['rc'] and c['decon']):
        require(len(got) == len(inp), 'number of traces %d, expected %d', len(got), len(inp))


@st.composite
def many_cases(draw):
    return {'n': draw(st.sampled_from([15, 24, 36, 45, 70])), 'seed': draw(seeds), 'shuffle': draw(st.booleans()), 'rot': draw(st.sampled_from(['ZNE->LQT', None])),
            'type': draw(st.sampled_from('PS')), 'decon': draw(st.sampled_from(['time', 'waterlevel', 'func', 'iterative'])),
            'sameonset': draw(st.booleans()), 'samestart': draw(st.booleans()), 'down': draw(st.sampled_from([None, 2])), 'flt': draw(st.booleans())}


@CHECK.sub(many_cases, quick=24, thorough=400,
           rule='rf() of streams of up to 70 records (210 traces) against rf() of every record alone; non-trivial with more than 100 traces')
def many(c, ctx):
    rs = np.random.RandomState(c['seed'])
    recs = []
    for i in range(c['n']):
        comps = 'ZNE' if c['rot'] else ['LQT', 'ZR', 'QTL'][rs.randint(3)]
        kind = 'full'
        if rs.rand() < 0.1:
            kind, comps = 'single', comps[0]
        recs.append({'comps': comps, 'sta': i % 7, 'loc': ['', '00'][i // 7 % 2], 'cha': 'BH', 'ev': i // 14, 'sr': [1., 2.][rs.randint(2)],
                     'baz': rs.randint(3600) / 10., 'inc': rs.randint(600) / 10., 'seed': int(rs.randint(10 ** 6)), 'pre': int(rs.randint(15, 30)),
                     'n': int(rs.randint(60, 80)), 'df': 0, 'kind': kind})
    total = sum(len(r['comps']) for r in recs)
    order = rs.permutation(total).tolist() if c['shuffle'] else list(range(total))
    joint(dict(c, recs=recs, order=order, rc=None, trim=None), ctx)
    ctx.labels = {l for l in ctx.labels if 'records' not in l}
    ctx.nontrivial(total > 100)
