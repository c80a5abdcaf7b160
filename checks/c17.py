"""C17 Results of moveout and piercing do not depend on earlier calls."""
import numpy as np
from hypothesis import strategies as st

from vf import REPO
from vf.core import Check, close, require, scratch
from vf.gen import decorate, decs, hdiff, header, num, plain, real, seeds, stream, trace
from vf.model import Ray, fresh_module, iasp91, make, models, write_file

CHECK = Check('C17')
PS = ['Ps', 'Ppps', 'Ppss', 'Psss', 'PPSS']
SP = ['Sp', 'Ssps', 'Sspp', 'Sppp']
op = st.fixed_dictionaries({
    'op': st.sampled_from(['moveout'] * 5 + ['again', 'ppoints', 'ppoints', 'delays', 'stretch', 'distance', 'load']),
    'stream': st.integers(0, 3), 'model': st.integers(0, 2),
    'phase': st.integers(-2, 4), 'ref': st.sampled_from([None, 6.4, 6.4, 5., 7.5, 8.3, 6.41, 6.4003]),
    'depth': st.sampled_from([5., 20., 30., 0.5, 12.5, 20.0004]), 'leg': st.sampled_from([None, 'S', 'P', 'Ppp', 'Sss'])})


@st.composite
def cases(draw):
    slow = draw(st.lists(real(4, 9, 1), min_size=8, max_size=8))
    for k in range(1, 8):
        if draw(st.integers(0, 3)) == 0:  # nearly the slowness of another trace
            slow[k] = slow[draw(st.integers(0, k - 1))] + draw(st.sampled_from([0, 3e-5, 0.004, -0.0006]))
    return {'models': draw(st.lists(models(deep=True), min_size=2, max_size=2)),
            'seed': draw(seeds), 'share': draw(st.booleans()),
            'slow': slow,
            'ops': draw(st.lists(op, min_size=2, max_size=8)), 'dec': draw(decs)}


def streams(c):
    out = []
    for i in range(4):
        typ = 'PSPS'[i]
        traces = []
        for j in range(2):
            rs = np.random.RandomState(c['seed'] + 10 * i + j)
            tr = trace(rs.randn(80 + 10 * j) + 2, 4., slowness=c['slow'][2 * i + j], type='rf', phase=typ,
                       back_azimuth=40. * i + j, station_latitude=-20. + i, station_longitude=179. + j)
            tr.stats.onset = tr.stats.starttime + 10 + 0.3 * j + (5 if typ == 'S' else 0)
            traces.append(tr)
        decorate(traces, c.get('dec'))
        out.append(stream(traces))
    return out


def apply(o, s, model):
    """The operation with the low level functions on a fresh model."""
    typ = s[0].stats.phase[-1]
    if o['op'] in ('moveout', 'again'):
        phase = phase_of(o, typ)
        model.moveout(s, phase=phase or {'P': 'Ps', 'S': 'Sp'}[typ], ref=6.4 if o['ref'] is None else o['ref'])
        return [tr.data for tr in s]
    if o['op'] == 'ppoints':
        return [np.array(model.ppoint(tr.stats, o['depth'], phase=o['leg'] or {'P': 'S', 'S': 'P'}[typ])) for tr in s]
    return [calls(o, typ, model)]


def phase_of(o, typ):
    if o['phase'] < 0:
        return None
    return (PS if typ == 'P' else SP)[o['phase'] % (5 if typ == 'P' else 4)]


def calls(o, typ, model):
    if o['op'] == 'delays':
        return np.asarray(model.calculate_delay_times(o['ref'] or 6., phase_of(o, typ) or 'Ps'))
    if o['op'] == 'stretch':
        return np.hstack(model.stretch_delay_times(5.5 + o['depth'] / 100, phase=phase_of(o, typ) or 'Ps', ref=o['ref'] or 6.4))
    if o['op'] == 'distance':
        return np.array([model.ppoint_distance(o['depth'], o['ref'] or 6., phase=o['leg'] or 'S')])
    return np.array(model.z)


@CHECK.sub(cases, quick=2500, thorough=50000,
           rule='histories of 2 to 8 moveout, piercing point and model calls on four streams and three models in one process; each result is compared with the same call on a model made for this call only in a fresh instance of the module, headers with the documentation; non-trivial if a model is used at least twice')
def histories(c, ctx):
    from rf.simple_model import load_model
    with scratch() as d:
        paths, ms = ['iasp91'], [iasp91(REPO)]
        for i, m in enumerate(c['models']):
            if c['share']:  # same depths, other velocities
                m = dict(m, z=c['models'][0]['z'], n=c['models'][0]['n'])
                k = len(m['z'])
                m['vp'] = (m['vp'] + [m['vp'][-1]] * k)[:k]
                m['vs'] = (m['vs'] + [m['vs'][-1]] * k)[:k]
            paths.append('%s/m%d.dat' % (d, i))
            ms.append(m)
            write_file(m, paths[-1])
        ray_depth = [Ray(m).z[-2] for m in ms]
        ss = streams(c)
        used = [o['model'] for o in c['ops']]
        ctx.nontrivial(len(set(used)) < len(used))
        last = [None] * 4
        for step, o in enumerate(c['ops']):
            i = o['stream']
            o = dict(o)
            o['depth'] = min(o['depth'], 0.9 * ray_depth[o['model']])
            if o['op'] == 'again':  # second correction to the same reference
                if last[i] is None:
                    continue
                o.update({k: last[i][k] for k in ('phase', 'ref', 'model')})
            what = 'step %d (%s)' % (step, o['op'])
            ctx.label(o['op'])
            s = ss[i]
            ref = s.copy()
            other = [[tr.data.tobytes() for tr in t] for j, t in enumerate(ss) if j != i]
            fresh = make(ms[o['model']], 'array', module=fresh_module())
            path = paths[o['model']]
            typ = s[0].stats.phase[-1]
            want = apply(o, ref, fresh)
            before = s.copy()
            if o['op'] in ('moveout', 'again'):
                kw = {'model': path}
                if o['ref'] is not None:
                    kw['ref'] = o['ref']
                if phase_of(o, typ) is not None:
                    kw['phase'] = phase_of(o, typ)
                if path == 'iasp91' and o['phase'] == -1:
                    del kw['model']
                s.moveout(**kw)
                got = [tr.data for tr in s]
                r = 6.4 if o['ref'] is None else o['ref']
                ph = phase_of(o, typ) or {'P': 'Ps', 'S': 'Sp'}[typ]
                for tr, b in zip(s, before):
                    want_h = dict(header(b, ('processing',)), moveout=ph, slowness_before_moveout=b.stats.slowness, slowness=r)
                    dd = hdiff(want_h, header(tr, ('processing',)))
                    require(dd is None, '%s: header: %s', what, dd)
                    if o['op'] == 'again' and b.stats.slowness == r:
                        t = tr.times() + (tr.stats.starttime - tr.stats.onset)
                        z = fresh.calculate_delay_times(r, ph)
                        z = z[np.isfinite(z)]
                        if np.any(np.diff(z) < 0) and np.any(np.diff(z) > 0):
                            continue  # delay is not monotonic
                        z = np.abs(z)
                        m = np.abs(t) < z[-1] - 0.5 if len(z) > 3 else np.zeros(len(t), dtype=bool)
                        close(tr.data[m], b.data[m], '%s: second correction to the same reference' % what, rtol=1e-9)
                last[i] = o
            elif o['op'] == 'ppoints':
                kw = {} if o['leg'] is None else {'pp_phase': o['leg']}
                got = s.ppoints(o['depth'], model=path, **kw)
                require(np.shape(got) == (2, 2), 'shape of piercing points')
                for tr, b, w in zip(s, before, want):
                    h = dict(header(b), pp_depth=o['depth'], pp_latitude=w[0].item(), pp_longitude=w[1].item())
                    dd = hdiff(h, header(tr))
                    require(dd is None, '%s: header: %s', what, dd)
                    require(tr.data.tobytes() == b.data.tobytes(), '%s: data changed', what)
            else:
                got = [calls(o, typ, load_model(path))]
            for g, w in zip(got, want):
                require(np.shape(g) == np.shape(w), '%s: shape', what)
                ok = np.isfinite(w)
                require(np.all(np.isfinite(g) == ok), '%s: other samples are not finite', what)
                close(np.asarray(g)[ok], np.asarray(w)[ok], what + ' differs from the result of a fresh model', rtol=1e-9)
            now = [[tr.data.tobytes() for tr in t] for j, t in enumerate(ss) if j != i]
            require(now == other, '%s: another stream changed', what)
