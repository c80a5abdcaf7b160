"""C31 Streams handed out are independent of each other."""
import hashlib
import json
import os

import numpy as np
from hypothesis import strategies as st

from vf.core import Check, forked, require, scratch
from vf.gen import diff, num, plain, seeds, snap, stream, trace

CHECK = Check('C31', assumptions=['wrapping (RFStream(stream)) and slicing share data by design of ObsPy and are not generated'])

MUTATIONS = ['data', 'sample', 'assign', 'header', 'new', 'delete', 'processing', 'nested', 'id', 'time', 'scale', 'sort', 'pop', 'rename']
INPLACE = ['moveout', 'trim2', 'ppoints', 'filter', 'write', 'rf', 'type', 'decimate', 'detrend', 'rfstats']


def mutate(s, kind, i, ctx):
    """Change one trace (or the list) of a stream. Returns index of the changed trace or None for all."""
    if not len(s):
        return None
    k = i % len(s)
    tr = s[k]
    if kind == 'data':
        tr.data[:] = 3 * tr.data[:] + 1
    elif kind == 'sample':
        tr.data[i % len(tr)] = 77.
    elif kind == 'assign':
        tr.data = np.arange(len(tr)) * 1.5
    elif kind == 'header':
        tr.stats.slowness = 1.25
        tr.stats.back_azimuth = -5.
    elif kind == 'new':
        tr.stats.own = {'a': [i]}
    elif kind == 'delete':
        for h in ('phase', 'onset', 'slowness', 'type'):
            tr.stats.pop(h, None)
    elif kind == 'processing':
        tr.stats.setdefault('processing', [])
        tr.stats.processing.append('own entry %d' % i)
    elif kind == 'nested':
        for h in ('sac', 'sh', 'nest'):
            if h in tr.stats:
                tr.stats[h]['own'] = i
                tr.stats[h].pop(sorted(tr.stats[h])[0], None)
        if 'nest' in tr.stats and 'l' in tr.stats.nest:
            tr.stats.nest.l.append(i)
        for h in ('arr',):
            if h in tr.stats:
                tr.stats[h][0] += 1
    elif kind == 'id':
        tr.stats.network, tr.stats.channel = 'ZZ', 'XX' + tr.stats.channel[-1:]
    elif kind == 'time':
        tr.stats.starttime += 10
        if 'onset' in tr.stats:
            tr.stats.onset += 11
    elif kind == 'scale':
        tr.stats.sampling_rate *= 2
    elif kind == 'sort':
        s.sort(['channel'], reverse=bool(i % 2))
        return None
    elif kind == 'pop':
        s.pop(k)
        return None
    elif kind == 'rename':
        for t in s:
            t.stats.station = 'NEW'
        return None
    return k


def inplace(s, kind, i):
    """Operation of the package which changes a stream in place. Failures (missing headers...) do not matter here."""
    try:
        if kind == 'moveout':
            s.moveout(ref=5.5 + 0.1 * (i % 5))
        elif kind == 'trim2':
            s.trim2(1, 9, reftime='starttime')
        elif kind == 'ppoints':
            s.ppoints(40)
        elif kind == 'filter':
            s.filter('lowpass', freq=0.4)
        elif kind == 'write':
            with scratch() as folder:
                s.write(os.path.join(folder, 'f'), ['SAC', 'Q', 'H5'][i % 3])
        elif kind == 'rf':
            s.rf(rotate='NE->RT', deconvolve=['time', 'waterlevel', 'iterative', None][i % 4], winsrc=(-3, 6, 1))
        elif kind == 'type':
            s.type = 'profile'
            s.method = 'S'
        elif kind == 'decimate':
            s.decimate(2)
        elif kind == 'detrend':
            s.detrend()
        elif kind == 'rfstats':
            from rf import rfstats
            rfstats(s)
    except Exception:
        pass


def digest(s):
    return hashlib.md5(json.dumps([[x['data'].hex(), x['dtype'], x['stats']] for x in snap(s)], sort_keys=True, default=repr).encode()).hexdigest()


GETTERS = ['rf', 'Srf', 'raw']


def getter(name):
    from rf import read_rf
    from rf.util import minimal_example_Srf, minimal_example_rf
    return {'rf': minimal_example_rf, 'Srf': minimal_example_Srf, 'raw': read_rf}[name]


REFERENCE = {}


def reference(name):
    if name not in REFERENCE:
        REFERENCE[name] = forked(lambda: digest(getter(name)()))
    return REFERENCE[name]


@st.composite
def examples_cases(draw):
    names = draw(st.sampled_from([['rf'], ['Srf'], ['raw'], ['rf', 'raw'], ['Srf', 'raw'], ['rf', 'Srf', 'raw']]))
    steps = [['get', draw(st.sampled_from(names)), 0]]
    for _ in range(draw(st.integers(1, 6))):
        what = draw(st.sampled_from(['get', 'get', 'mutate', 'mutate', 'inplace', 'derive']))
        steps.append([what, draw(st.sampled_from({'get': names, 'mutate': MUTATIONS, 'inplace': INPLACE, 'derive': ['copy', 'stack', 'profile', 'harmonics']}[what])), draw(st.integers(0, 30))])
    steps.append(['get', draw(st.sampled_from(names)), 0])
    return {'steps': steps}


def derive(s, kind, i):
    """New stream computed from another one, None if the stream does not allow it."""
    try:
        if kind == 'copy':
            return s.copy()
        if kind == 'stack':
            return s.stack()
        if kind == 'profile':
            from rf.profile import get_profile_boxes
            la, lo = s[0].stats.pp_latitude, s[0].stats.pp_longitude
            return s.profile(get_profile_boxes((la - 2, lo), 0., np.linspace(0, 444, 2 + i % 3)))
        if kind == 'harmonics':
            have = {tr.stats.channel[-1] for tr in s}
            comp = [x for x in (['R', 'Q', 'T'] if i % 2 else ['RT', 'QT', 'T']) if set(x) <= have][0]
            return s.harmonics(comp, method=['time', 'freq'][i % 2])
    except Exception:
        return None


def play(live, snaps, step, ctx):
    """One step on the list of live streams; afterwards all but the changed stream have to look as before."""
    what, name, i = step
    k = i % len(live)
    changed = k
    if what == 'mutate':
        before = [snap(live[k][j:j + 1]) if j < len(live[k]) else None for j in range(len(live[k]))]
        t = mutate(live[k], name, i // 3, ctx)
        if t is not None:
            for j, b in enumerate(before):
                if j != t:
                    d = diff(b, snap(live[k][j:j + 1]))
                    require(d is None, 'change %s of trace %d changes trace %d of the same stream: %s', name, t, j, d)
    elif what == 'inplace':
        inplace(live[k], name, i // 3)
    elif what == 'derive':
        changed = None
        new = derive(live[k], name, i // 3)
        if new is not None and len(live) < 6:
            live.append(new)
            snaps.append(snap(new))
    for j, s in enumerate(live):
        if j == changed:
            snaps[j] = snap(s)
            continue
        d = diff(snaps[j], snap(s))
        require(d is None, '%s %s on stream %d changes stream %d: %s', what, name, k, j, d)


@CHECK.sub(examples_cases, quick=200, thorough=4000,
           rule='histories of example streams in a fresh process: get, change, derive, get again; the next call returns the same as in a fresh process; non-trivial if something is changed between two calls')
def examples(c, ctx):
    names = {s[1] for s in c['steps'] if s[0] == 'get'}
    want = {n: reference(n) for n in names}
    kinds = [s[0] for s in c['steps']]
    ctx.nontrivial('mutate' in kinds or 'inplace' in kinds)
    ctx.label(*names)

    def run():
        live, snaps = [], []
        for n, step in enumerate(c['steps']):
            if step[0] == 'get':
                s = getter(step[1])()
                require(digest(s) == want[step[1]], 'call %d of the example %s returns another stream than the first call in a fresh process', n, step[1])
                live.append(s)
                snaps.append(snap(s))
                for j in range(len(live) - 1):
                    d = diff(snaps[j], snap(live[j]))
                    require(d is None, 'getting an example changes stream %d: %s', j, d)
            else:
                play(live, snaps, step, ctx)
    forked(run)


@st.composite
def object_cases(draw):
    steps = []
    for _ in range(draw(st.integers(2, 8))):
        what = draw(st.sampled_from(['mutate', 'mutate', 'inplace', 'derive', 'derive', 'derive']))
        steps.append([what, draw(st.sampled_from({'mutate': MUTATIONS, 'inplace': INPLACE, 'derive': ['copy', 'stack', 'profile', 'harmonics']}[what])), draw(st.integers(0, 60))])
    return {'nev': draw(st.integers(1, 4)), 'comps': draw(st.sampled_from(['ZRT', 'LQT', 'ZNE', 'Q', 'RT'])), 'n': draw(st.sampled_from([1, 5, 40, 60])), 'dtype': draw(st.sampled_from(['float64', 'float32', 'int32'])),
            'coords': draw(st.booleans()), 'extra': draw(st.booleans()), 'same': draw(st.booleans()), 'seed': draw(seeds), 'steps': steps}


def build(c):
    traces = []
    for e in range(c['nev']):
        for k, comp in enumerate(c['comps']):
            d = (100 * np.random.RandomState(c['seed'] + 10 * e + k).randn(c['n'])).astype(c['dtype'])
            tr = trace(d, 4., id='NE.STA..BH' + comp, phase='P', back_azimuth=80. * e + 20, inclination=20., slowness=6.4 - 0.3 * e, type='rf',
                       station_latitude=10., station_longitude=20., distance=50., event_id='e%d' % e, processing=['x', 'y'])
            if c['coords']:
                tr.stats.update({'pp_latitude': 10.1 + (0 if c['same'] else 0.8) * e, 'pp_longitude': 20., 'pp_depth': 50.})
            if c['extra']:
                tr.stats.nest = {'l': [1, 2], 'd': {'x': 1}}
                tr.stats.sac = {'user9': 1., 'kuser0': 'a'}
                tr.stats.arr = np.arange(3)
            tr.stats.starttime += 5000 * e
            tr.stats.onset = tr.stats.starttime + 3.
            tr.stats.event_time = tr.stats.onset - 500
            traces.append(tr)
    return stream(traces)


@CHECK.sub(object_cases, quick=3500, thorough=80000,
           rule='histories of derived streams (copy, stack, profile, harmonics) and changes; non-trivial if a stream is derived and one is changed')
def objects(c, ctx):
    s = build(c)
    live, snaps = [s], [snap(s)]
    for step in c['steps']:
        n = len(live)
        play(live, snaps, step, ctx)
        if step[0] == 'derive' and len(live) > n:
            ctx.label(step[1])
            # the same call once more gives the same, whatever happens to the first result
            new = live[-1]
            k = step[2] % n
            want = snap(new)
            for j in range(len(new)):
                for kind in ('data', 'processing', 'nested', 'time', 'header'):
                    mutate(new, kind, j, ctx)
            for m in range(n):
                d = diff(snaps[m], snap(live[m]))
                require(d is None, 'changing the result of %s changes stream %d: %s', step[1], m, d)
            again = derive(live[k], step[1], step[2] // 3)
            d = diff(want, snap(again))
            require(d is None, '%s called again after its result was changed: %s', step[1], d)
            live[-1] = again
            snaps[-1] = snap(again)
    kinds = [x[0] for x in c['steps']]
    ctx.nontrivial(len(live) > 1 and ('mutate' in kinds or 'inplace' in kinds))


@CHECK.sub(lambda: st.fixed_dictionaries({'method': st.sampled_from(['time', 'waterlevel', 'iterative', 'multitaper']), 'n': st.integers(100, 180), 'ns': st.integers(30, 79), 'k': st.integers(1, 3),
                                          'single': st.booleans(), 'alias': st.booleans(), 'container': st.sampled_from(['list', 'tuple', 'array']), 'dtype': st.sampled_from(['float64', 'float64', 'float32', 'int32']), 'normalize': st.sampled_from([0, None, 'last', 'src']),
                                          'layout': st.sampled_from(['own', 'rows', 'strided', 'reversed']), 'opt': st.booleans(), 'seed': seeds}),
           quick=3000, thorough=50000, rule='array level deconvolution functions: inputs keep their bytes, results share no memory with them; always non-trivial')
def arrays(c, ctx):
    from rf.deconvolve import deconv_iterative, deconv_multitaper, deconv_time, deconv_waterlevel
    rs = np.random.RandomState(c['seed'])
    m = c['method']
    n, ns, k = c['n'], c['ns'], c['k']

    def arr(size):
        d = (1000 * rs.randn(size) * np.exp(-np.arange(size) / 30.)).astype(c['dtype'])
        if c['layout'] == 'strided':
            x = np.zeros(2 * size, d.dtype)
            x[::2] = d
            return x[::2]
        return d[::-1].copy()[::-1] if c['layout'] == 'reversed' else d
    src = arr(ns)
    rsp = [arr(n) for _ in range(k)]
    nse = [arr(n // 2) for _ in range(k)]
    if c['layout'] == 'rows':
        rsp = list(np.array(rsp))
    if c['alias'] and m != 'multitaper':
        src = rsp[0]
    single = c['single'] and m != 'multitaper'
    arg = rsp[0] if single else {'list': rsp, 'tuple': tuple(rsp), 'array': rsp}[c['container']]
    norm = {'last': 0 if single else k - 1}.get(c['normalize'], c['normalize'])
    if norm == 'src' and m != 'waterlevel':
        norm = 0
    before = [a.tobytes() for a in [src] + rsp + nse]
    ids = [id(a) for a in rsp]
    opt = c['opt']
    if m == 'time':
        out = deconv_time(arg, src, rs.randint(-10, 10), spiking=0.5, normalize=norm, solve_toeplitz='scipy' if opt else lambda a, b: b / (1 + a[0]))
    elif m == 'waterlevel':
        out = deconv_waterlevel(arg, src, 5., tshift=3., normalize=norm, return_info=opt)
        if opt:
            out = out[0]
            single = False
    elif m == 'iterative':
        out = deconv_iterative(arg, src, 5., tshift=3., itmax=4, mute_shift=opt, normalize=norm)[0]
    else:
        out = deconv_multitaper(arg, src, nse, 5., 3., T=2 if opt else 4, normalize=norm, **({'tband': 2.} if opt else {}))
    out = [out] if single else list(out)
    ctx.label(m)
    require(len(out) == (1 if single else len(rsp) if not c['single'] or m == 'multitaper' else 1), '%s: %d results', m, len(out))
    after = [a.tobytes() for a in [src] + rsp + nse]
    require(before == after and ids == [id(a) for a in rsp], 'deconv_%s modifies input arrays', m)
    for i, o in enumerate(out):
        require(not any(np.shares_memory(o, a) for a in [src] + rsp + nse), 'deconv_%s: result %d shares memory with an input', m, i)
        for o2 in out[i + 1:]:
            require(not np.shares_memory(o, o2), 'deconv_%s: results share memory', m)


@CHECK.sub(lambda: st.fixed_dictionaries({'deconvolve': st.sampled_from(['time', 'waterlevel', 'iterative', 'multitaper', 'func', None]), 'rotate': st.sampled_from(['ZNE->LQT', 'NE->RT', None]), 'method': st.sampled_from(['P', 'S']),
                                          'nev': st.integers(1, 2), 'n': st.sampled_from([120, 121]), 'share': st.booleans(), 'response': st.booleans(), 'seed': seeds, 'mut': st.lists(st.tuples(st.sampled_from(MUTATIONS[:-3]), st.integers(0, 20)).map(list), min_size=1, max_size=3)}),
           quick=600, thorough=10000, rule='traces of computed receiver functions are independent of each other and of the copy of the raw data; always non-trivial')
def computed(c, ctx):
    s = build(dict(c, comps='ZNE', dtype='float64', coords=False, extra=False, same=True))
    if c['rotate'] is None:
        for tr in s:
            tr.stats.channel = tr.stats.channel[:-1] + dict(zip('ZNE', 'LQT'))[tr.stats.channel[-1]]
    s.method = c['method']
    raw = s.copy()
    b0 = snap(raw)
    kw = {'func': {'func': lambda rsp, src, tshift=10, **k: rsp}}.get(c['deconvolve'], {})
    if c['deconvolve'] is not None:
        kw['winsrc'] = (-2, 15, 1)
        if c['deconvolve'] == 'multitaper':
            kw.update(T=4., noise=s.copy().trim2(0, 15, 'starttime'))
        s.rf(rotate=c['rotate'], deconvolve=c['deconvolve'], source_components={None: 'L' if c['method'] == 'P' else 'Q', 'ZNE->LQT': 'L' if c['method'] == 'P' else 'Q'}.get(c['rotate'], 'Z' if c['method'] == 'P' else 'R'), **kw)
    else:
        s.rf(rotate=c['rotate'], deconvolve=None)
    ctx.label(str(c['deconvolve']))
    d = diff(b0, snap(raw))
    require(d is None, 'rf changes a copy of the stream: %s', d)
    live, snaps = [raw, s], [b0, snap(s)]
    for kind, i in c['mut']:
        play(live, snaps, ['mutate', kind, 6 * i + 1], ctx)
        play(live, snaps, ['mutate', kind, 6 * i], ctx)
