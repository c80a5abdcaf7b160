"""C27 Every processing step is logged once, in order, with its arguments."""
import copy

import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime as UTC

from vf.core import Check, require
from vf.gen import diff, num, plain, seeds, snap, stream, trace

CHECK = Check('C27', assumptions=['entries list the arguments given and the defaults of the signature; harmonic decomposition starts a new list',
                                  'at most 60 entries, ObsPy truncates lists of 100'])
DEFAULTS = {'deconvolve': [('method', 'time'), ('func', None), ('source_components', 'LZ'), ('response_components', None), ('winsrc', 'P')],
            'rf': [('method', None), ('filter', None), ('trim', None), ('downsample', None), ('rotate', 'ZNE->LQT'), ('deconvolve', 'time'), ('source_components', None)],
            'moveout': [('phase', None), ('ref', 6.4), ('model', 'iasp91')],
            'stack': [], 'profile': [('crs', None)], 'harmonics': [('components', 'R'), ('azim', 0), ('method', 'time')]}


def custom(rsp, src, tshift=10, gain=2., **kw):
    for tr in rsp:
        tr.data = gain * tr.data
    return rsp


def custom_new(rsp, src, tshift=10, gain=2., **kw):
    rsp = rsp.copy()
    for tr in rsp:
        tr.data = gain * tr.data
    return rsp


FUNCS = {'custom': custom, 'custom_new': custom_new}
WIN = st.sampled_from(['P', [-3, 8, 1], [-2, 6, 0.5]])
DECON = {'time': {'spiking': num(0, 2, 1), 'normalize': st.just(0)},
         'waterlevel': {'waterlevel': num(0.01, 0.5, 2), 'gauss': num(0.2, 2, 1), 'nfft': st.sampled_from([256, 512])},
         'iterative': {'itmax': st.integers(1, 5), 'gauss': num(0.2, 2, 1), 'minderr': st.sampled_from([0.001, 0.5]), 'mute_shift': st.booleans()},
         'func': {'gain': num(0.1, 3, 1), 'other': st.sampled_from([1, 'x', [1, 2], {'a': 1}, '', 0, ' ', (), None])}}


@st.composite
def decon_kw(draw, rf):
    m = draw(st.sampled_from(sorted(DECON)))
    kw = {('deconvolve' if rf else 'method'): m}
    if m == 'time' and draw(st.booleans()):
        kw = {}
    for k, v in DECON[m].items():
        if draw(st.integers(0, 2)) == 0:
            kw[k] = draw(v)
    if m == 'func':
        kw['func'] = draw(st.sampled_from(sorted(FUNCS)))
    if draw(st.integers(0, 2)) == 0:
        kw['winsrc'] = draw(WIN)
    if draw(st.integers(0, 3)) == 0:
        kw['response_components'] = draw(st.sampled_from(['all', 'QT']))
    return kw


@st.composite
def steps(draw):
    name = draw(st.sampled_from(['rf', 'rf', 'deconvolve', 'moveout', 'moveout', 'stack', 'profile', 'harmonics', 'copy', 'copy']))
    kw = {}
    if name == 'deconvolve':
        kw = draw(decon_kw(False))
    elif name == 'rf':
        kw = draw(decon_kw(True)) if draw(st.integers(0, 3)) else {'deconvolve': None}
        kw.update({k: draw(v) for k, v in {
            'method': st.sampled_from([None, 'P', 'P', 'P']), 'filter': st.sampled_from([None, {}, {'type': 'lowpass', 'freq': 0.4}, {'type': 'bandpass', 'freqmin': 0.1, 'freqmax': 0.4, 'corners': 2, 'zerophase': True}]),
            'trim': st.sampled_from([None, [-8, 30], [-9.5, 28.]]), 'downsample': st.sampled_from([None, 100, 2, 1.])}.items() if draw(st.integers(0, 3)) == 0})
    elif name == 'moveout':
        kw = {k: draw(v) for k, v in {'phase': st.sampled_from(['Ps', 'Ppps', 'Ppss', None]), 'ref': st.sampled_from([6.4, 6, 5.5, np.pi]), 'model': st.sampled_from(['iasp91', 'iasp91'])}.items() if draw(st.booleans())}
    elif name == 'profile':
        kw = {'crs': None} if draw(st.booleans()) else {}
        kw['input'] = draw(st.sampled_from(['stream', 'stream', 'list', 'iterator', 'method', 'tqdm']))
        kw['nbins'] = draw(st.integers(1, 3))
    elif name == 'harmonics':
        kw = {k: draw(v) for k, v in {'azim': st.one_of(num(-180, 180, 1), st.integers(0, 90)), 'method': st.sampled_from(['time', 'freq']), 'scalars': st.sampled_from([[1, 1], [3, 0.3]])}.items() if draw(st.booleans())}
        kw['comp'] = draw(st.integers(0, 2))
    return {'name': name, 'kw': kw, 'npos': draw(st.sampled_from([0, 0, 1, 2, 3])), 'on': draw(st.integers(0, 3)),
            'api': draw(st.sampled_from(['method', 'method', 'function'])), 'explicit': draw(st.integers(0, 3)) == 0}


@st.composite
def cases(draw):
    return {'nev': draw(st.integers(1, 3)), 'rot': draw(st.sampled_from(['ZNE->LQT', 'NE->RT'])), 'single': draw(st.booleans()), 'rotated': draw(st.booleans()),
            'pre': draw(st.sampled_from([None, [], ['a: b', 'rf x'], ['ObsPy 1: filter()']])), 'seed': draw(seeds), 'steps': draw(st.lists(steps(), min_size=1, max_size=5))}


def build(c):
    traces = []
    for e in range(c['nev']):
        for k, comp in enumerate('ZNE'):
            if c['single'] and e == c['nev'] - 1 and e > 0 and comp != 'Z':
                continue
            rs = np.random.RandomState(c['seed'] + 10 * e + k)
            d = 0.1 * rs.randn(100)
            d[24:] += rs.randn(76) * np.exp(-np.arange(76) / 9.)
            tr = trace(d, 2., id='NE.STA..BH' + comp, phase='P', back_azimuth=70. * e + 20, inclination=20., slowness=6.4 - 0.3 * e,
                       station_latitude=10., station_longitude=20., pp_latitude=10.1 + 0.3 * e, pp_longitude=20., distance=50., event_id='e%d' % e)
            tr.stats.starttime += 5000 * e
            tr.stats.onset = tr.stats.starttime + 12.2
            tr.stats.event_time = tr.stats.onset - 500
            if c['pre'] is not None:
                tr.stats.processing = list(c['pre'])
            traces.append(tr)
    return stream(traces)


def entries(tr):
    return list(tr.stats.get('processing', []))


def text(k, v):
    return {"%s='%s'" % (k, v)} if isinstance(v, str) else {'%s=%r' % (k, v)}


def check_entry(entry, name, args, what):
    import rf
    head = 'rf %s: %s(' % (rf.__version__, name)
    require(entry.startswith(head) and entry.endswith(')'), '%s: entry %r', what, entry)
    body = entry[len(head):-1]
    got = sorted(body.split('::')) if body else []
    want = sorted(list(text(k, v))[0] for k, v in args.items())
    require(got == want, '%s: entry names arguments %s, effective arguments are %s', what, got, want)


def own(es):
    return [e for e in es if not e.startswith('ObsPy')]


def tuples(v):
    return tuple(v) if isinstance(v, list) else v


@CHECK.sub(cases, quick=4000, thorough=60000,
           rule='histories of up to five steps on up to four live streams, positional, keyword and default arguments; non-trivial if a trace passes two logged steps')
def histories(c, ctx):
    from rf.deconvolve import deconvolve
    from rf.harmonics import harmonics
    from rf.profile import get_profile_boxes, profile
    from rf import RFStream
    live = [{'s': build(c), 'rot': None, 'kind': 'rf', 'n': 0}]
    if c['rotated']:
        live[0]['s'].rf(rotate=c['rot'], deconvolve=None)
        live[0]['rot'] = c['rot']
    for step in c['steps']:
        o = live[step['on'] % len(live)]
        s, name, kw = o['s'], step['name'], dict(step['kw'])
        what = '%s(%s) on stream %d' % (name, kw, step['on'] % len(live))
        groups = {}
        for tr in s:
            groups.setdefault((tr.id[:-1], str(tr.stats.onset)), []).append(tr)
        full = [g for g in groups.values() if len(g) > 1]
        if name == 'copy':
            if len(live) < 4:
                live.append(dict(o, s=s.copy()))
            continue
        if o['kind'] != 'rf':
            if name != 'moveout' or o['kind'] == 'harm':
                continue
        if name == 'deconvolve':
            if o['rot'] is None or not full or not all(any(tr.stats.channel[-1] in 'LZ' for tr in g) for g in full):
                continue
            o['s'] = s = stream(full[step['on'] % len(full)])
            groups, full = {0: s.traces}, [s.traces]
        for k in ('winsrc', 'trim', 'scalars'):
            if k in kw:
                kw[k] = tuples(kw[k])
        if 'func' in kw:
            kw['func'] = FUNCS[kw['func']]
        src = None
        if o['rot'] == 'NE->RT' or (o['rot'] is None and c['rot'] == 'NE->RT'):
            src = 'Z'
        if kw.get('response_components') == 'all':
            kw['response_components'] = 'LZQRTNE'
        elif 'response_components' in kw:
            kw['response_components'] = 'RT' if src == 'Z' else 'QT'
        order = DEFAULTS[name]
        if name == 'rf':
            if o['rot'] is None:
                if c['rot'] != 'ZNE->LQT' or step['explicit']:
                    kw['rotate'] = c['rot']
            else:
                kw['rotate'] = None
            if kw.get('deconvolve', 1) and not all(any(tr.stats.channel[-1] in 'LZ' for tr in g) for g in full):
                continue
            if any(len(g) == 2 for g in full) and o['rot'] is None:
                continue
            # the low pass needs samples, windows need data
            if any(tr.stats.sampling_rate < 1.5 for tr in s):
                kw.pop('filter', None)
                kw.pop('downsample', None)
        extra = {}
        args, call = [], dict(kw)
        target = s
        boxes = None
        if name == 'profile':
            kind, nb = kw.pop('input'), kw.pop('nbins')
            call = dict(kw)
            boxes = get_profile_boxes((10., 20.), 0., np.linspace(0, 120, nb + 1))
            extra = {'latlon': (10., 20.), 'azimuth': 0., 'length': np.linspace(0, 120, nb + 1)[-1]}
            extra['length'] = boxes[0]['profile']['length']
            boxes_before = [(b['poly'].wkt, b['pos'], b['length'], b['latlon'], repr(b.get('profile'))) for b in boxes]
            if o['kind'] != 'rf' or 'pp_latitude' not in s[0].stats:
                continue
        elif name == 'harmonics':
            comps = {'ZNE->LQT': ['Q', 'T', 'QT'], 'NE->RT': ['R', 'T', 'RT']}.get(o['rot'])
            if comps is None or len({tuple(sorted(tr.stats.channel for tr in g)) for g in groups.values()}) != 1 or len({len(tr) for tr in s}) != 1:
                continue
            comp = comps[kw.pop('comp')]
            if any(not s.select(channel='*' + x) for x in comp):
                continue
            if len(comp) == 1:
                kw.pop('scalars', None)
            if comp != 'R' or step['explicit']:
                kw['components'] = comp
            call = dict(kw)
        elif name == 'stack':
            if len({(tr.id, len(tr)) for tr in s}) != len({tr.id for tr in s}):
                continue
        elif name == 'moveout':
            if not all('onset' in tr.stats and 'slowness' in tr.stats and tr.stats.get('phase') for tr in s):
                continue
        # first arguments by position
        for k, default in order[:step['npos']]:
            args.append(call.pop(k, default))
        effective = dict(order)
        effective.update(kw)
        effective.update(extra)
        keep = copy.deepcopy({k: v for k, v in call.items() if k != 'func'})
        before = [(snap(x['s']), [entries(tr) for tr in x['s']]) for x in live]
        old = {id(tr): entries(tr) for tr in s}
        olds = [entries(tr) for tr in s]
        bybox = [(tr.id, entries(tr)) for tr in s]
        if name == 'deconvolve':
            out = s.deconvolve(*args, **call) if step['api'] == 'method' else deconvolve(s, *args, **call)
            if step['api'] != 'method':
                s.traces = out.traces
        elif name == 'rf':
            out = s.rf(*args, **call)
        elif name == 'moveout':
            out = s.moveout(*args, **call)
        elif name == 'stack':
            out = s.stack()
        elif name == 'harmonics':
            out = s.harmonics(*args, **call) if step['api'] == 'method' else harmonics(s, *args, **call)
        elif name == 'profile':
            if kind == 'method':
                out = s.profile(boxes, *args, **call)
            elif kind == 'tqdm':
                from tqdm import tqdm
                out = profile(tqdm(s, disable=True), boxes, *args, **call)
            else:
                out = profile({'stream': s, 'list': list(s), 'iterator': iter(list(s))}[kind], boxes, *args, **call)
            require(boxes_before == [(b['poly'].wkt, b['pos'], b['length'], b['latlon'], repr(b.get('profile'))) for b in boxes], '%s: boxes changed', what)
        require({k: v for k, v in call.items() if k != 'func'} == keep, '%s: keyword arguments changed to %r', what, call)
        ctx.label(name)
        inplace = name in ('rf', 'deconvolve', 'moveout')
        # all other streams (and the input of functions which return a new one) keep their state
        for x, (b, es) in zip(live, before):
            if x is o and inplace:
                continue
            require(es == [entries(tr) for tr in x['s']], '%s: entries of another stream changed', what)
            d = diff(b, snap(x['s']))
            require(d is None, '%s: another stream: %s', what, d)
        if not inplace:
            o2 = {'s': out if isinstance(out, RFStream) else RFStream(out), 'rot': o['rot'], 'kind': {'harmonics': 'harm'}.get(name, name), 'n': o['n'] + 1}
            for tr in o2['s']:
                es = entries(tr)
                require(len(es) > 0, '%s: no entry', what)
                check_entry(es[-1], name, effective, what)
                if name == 'harmonics':
                    require(len(es) == 1, '%s: entries %s', what, es)
                else:
                    cand = [e for i, e in bybox if i[-1] == tr.id[-1]]
                    require(es[:-1] in cand, '%s: earlier entries %s, of the traces %s', what, es[:-1], cand)
            if len(live) < 4:
                live.append(o2)
        else:
            o['n'] += 1
            out = o['s'].traces
            if name == 'rf':
                o['rot'] = o['rot'] or c['rot']
            n1 = {len(e) for e in olds}
            for tr in out:
                es = entries(tr)
                pre = old.get(id(tr))
                if pre is None:  # new trace of the user function: copied from a trace of its group
                    pre = [e for e in olds if es[:len(e)] == e]
                    require(pre, '%s: earlier entries are gone: %s', what, es)
                    pre = pre[0]
                require(es[:len(pre)] == pre, '%s: earlier entries changed from %s to %s', what, pre, es)
                new = own(es[len(pre):])
                require(new and es[-1] == new[-1], '%s: new entries %s', what, es[len(pre):])
                check_entry(new[-1], name, effective, what)
                if name != 'rf':
                    require(len(new) == 1 and len(es) == len(pre) + 1, '%s: new entries %s', what, es[len(pre):])
                    continue
                dec = effective['deconvolve'] and any(tr in g or tr.id[:-1] == g[0].id[:-1] and tr.stats.get('back_azimuth') == g[0].stats.back_azimuth for g in full)
                require(len(new) == 1 + bool(dec), '%s: %d entries of rf: %s', what, len(new), new)
                if dec:
                    m = effective['method'] or 'P'
                    a = dict(DEFAULTS['deconvolve'], method=effective['deconvolve'], source_components=effective['source_components'] or 'LZ', winsrc=m)
                    a.update({k: v for k, v in effective.items() if k not in dict(DEFAULTS['rf'])})
                    check_entry(new[0], 'deconvolve', a, what)
                obs = [e.split(': ')[1].split('(')[0] for e in es[len(pre):] if e.startswith('ObsPy')]
                require(obs.count('filter') == bool(effective['filter']) + obs.count('decimate'), '%s: filter entries %s', what, obs)
        ids = [id(tr.stats.processing) for x in live for tr in x['s'] if 'processing' in tr.stats]
        require(len(ids) == len(set(ids)), '%s: traces share a processing list', what)
    ctx.nontrivial(max(x['n'] for x in live) > 1)


@CHECK.sub(lambda: st.fixed_dictionaries({'name': st.sampled_from(['rf', 'deconvolve', 'moveout', 'profile', 'harmonics']), 'npos': st.integers(0, 4), 'seed': seeds, 'vals': st.booleans()}),
           quick=300, thorough=4000, rule='the same arguments by default, by position and by keyword give the same result and the same entries; always non-trivial')
def spelling(c, ctx):
    from rf.harmonics import harmonics
    from rf.profile import get_profile_boxes, profile
    from rf.deconvolve import deconvolve
    base = build({'nev': 1, 'single': False, 'pre': None, 'seed': c['seed'], 'rot': None, 'steps': []})
    name = c['name']
    ctx.label(name)
    vals = {'deconvolve': {'winsrc': (-3, 8, 1)}, 'rf': {'method': 'P', 'trim': (-8, 30)}, 'moveout': {'phase': 'Ppps', 'ref': 6}, 'harmonics': {'azim': 20}}.get(name, {}) if c['vals'] else {}
    if name in ('deconvolve', 'harmonics'):
        base.rf(rotate='NE->RT', deconvolve=None)
    full = dict(DEFAULTS[name], **vals)
    boxes = get_profile_boxes((10., 20.), 0., (0, 120))
    res = []
    for how in ('default', 'keyword', 'position', 'mixed'):
        s = base.copy()
        pos, kw = [], dict(vals)
        if how != 'default':
            kw = dict(full)
        if how != 'keyword' and how != 'default':
            for k, _ in DEFAULTS[name][:c['npos'] if how == 'mixed' else None]:
                pos.append(kw.pop(k))
        f = {'deconvolve': lambda: deconvolve(s, *pos, **kw), 'rf': lambda: s.rf(*pos, **kw), 'moveout': lambda: s.moveout(*pos, **kw),
             'profile': lambda: profile(s, boxes, *pos, **kw), 'harmonics': lambda: harmonics(s, *pos, **kw)}[name]
        res.append((how, snap(f())))
    for how, r in res[1:]:
        d = diff(res[0][1], r)
        require(d is None, '%s: arguments by default and by %s: %s', name, how, d)


@CHECK.sub(lambda: st.fixed_dictionaries({'nev': st.sampled_from([10, 25, 45, 70]), 'seed': seeds, 'rot': st.sampled_from(['ZNE->LQT', 'NE->RT', None]), 'deconvolve': st.sampled_from([None, 'func']),
                                          'order': st.booleans(), 'moveout': st.integers(0, 2), 'pre': st.sampled_from([None, ['a: b', 'rf x']])}),
           quick=24, thorough=300, rule='streams of up to 210 traces: every trace has one entry of every step; non-trivial with more than 100 traces')
def many(c, ctx):
    s = build(dict(c, single=False))
    for k, tr in enumerate(s):
        tr.stats.update({'back_azimuth': k // 3 * 7. % 360, 'slowness': 5 + 0.2 * (k // 3 % 10)})
    if c['order']:
        s.traces = [s.traces[k] for k in np.random.RandomState(c['seed']).permutation(len(s))]
    kw = {'rotate': c['rot'], 'deconvolve': c['deconvolve']}
    if c['deconvolve'] == 'func':
        kw.update(func=custom, source_components='Z' if c['rot'] != 'ZNE->LQT' else 'L')
    s.rf('P', **kw)
    for _ in range(c['moveout']):
        s.moveout(ref=5.5)
    rf_args = dict(DEFAULTS['rf'], method='P', **kw)
    for tr in s:
        es = own(entries(tr))
        pre = len(c['pre'] or [])
        require(es[:pre] == (c['pre'] or []), 'earlier entries are %s', es[:pre])
        names = [e.split(': ')[1].split('(')[0] for e in es[pre:]]
        require(names == (['deconvolve'] if c['deconvolve'] else []) + ['rf'] + ['moveout'] * c['moveout'], 'entries %s', names)
        check_entry(es[pre + bool(c['deconvolve'])], 'rf', rf_args, 'rf')
        for e in es[pre + bool(c['deconvolve']) + 1:]:
            check_entry(e, 'moveout', dict(DEFAULTS['moveout'], ref=5.5), 'moveout')
    ids = [id(tr.stats.processing) for tr in s]
    require(len(ids) == len(set(ids)), 'traces share a processing list')
    ctx.nontrivial(len(s) > 100)
