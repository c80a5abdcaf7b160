"""C25 The batch tool computes what the Python API computes."""
import glob
import json
import os
import sys

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from vf import batch
from vf.batch import BASE, STATIONS, cli, event_names, files, inside, load, roundtrip, same
from vf.core import Check, raises, require
from vf.gen import num, seeds

CHECK = Check('C25', assumptions=['one instrument per station and location, event times differ in the full second (names cannot distinguish others)',
                                  'event times have a precision of ms', 'the API results are judged by the other properties'])
FORMATS = ['Q', 'SAC', 'H5']
RF = [{}, {'deconvolve': 'waterlevel'}, {'filter': {'type': 'bandpass', 'freqmin': 0.1, 'freqmax': 0.9}, 'trim': [-15, 25]}, {'rotate': 'NE->RT', 'deconvolve': 'time', 'spiking': 2},
      {'deconvolve': 'iterative', 'itmax': 3}, {'trim': [-18, 30], 'winsrc': [-4, 12, 2]}]
MOVEOUT = [{}, {'ref': 5.5}, {'phase': 'Ppps'}, {'phase': 'Ps', 'ref': 6.4}]
OPTIONS = [{'request_window': [-20, 40]}, {'request_window': [-20.5, 35.], 'pp_depth': 50}, {'request_window': [-25, 40], 'pad': 2, 'phase': 'P'}, {'request_window': [-20, 40], 'pp_depth': 30, 'dist_range': [20, 85]}]


@st.composite
def datasets(draw):
    ns = draw(st.integers(1, 3))
    stations = draw(st.permutations(range(4)))[:ns]
    events = []
    for k in range(draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5]))):
        t = draw(st.integers(0, 86399)) + 86400 * k
        if k and draw(st.integers(0, 3)) == 0:
            t = int(events[0]['t']) + 40 + 30 * k   # overlapping windows
        events.append({'t': t + draw(st.sampled_from([0, 0, 0.5, 0.123, 0.999, 0.001])), 'place': draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4])), 'depth': draw(st.sampled_from([10., 33.5, 200.])),
                       # event without origin, incomplete event, or two origins
                       'kind': draw(st.sampled_from([None] * 9 + ['origin', 'time', 'latitude', 'depth', 'mag', 'preferred']))})
    faults = {}
    for k in range(len(events)):
        for j in range(ns):
            f = draw(st.sampled_from([None] * 8 + ['missing', 'missing', 'two', 'short', 'short']))
            if f:
                faults['%d-%d' % (k, j)] = f
    if 'short' in faults.values():
        # components of one record would have different time spans if windows overlap
        faults = {k: 'missing' if f == 'two' else f for k, f in faults.items()}
    return {'stations': list(stations), 'events': events, 'faults': faults, 'sr': 4., 'offset': draw(st.sampled_from([0., 0.3, 0.25])), 'seed': draw(seeds),
            'source': draw(st.sampled_from(['glob', 'glob', 'plugin', 'plugin', 'sds', 'one'])), 'format': draw(st.sampled_from(FORMATS)),
            'options': draw(st.sampled_from(OPTIONS)), 'rf': draw(st.sampled_from(RF)), 'moveout': draw(st.sampled_from(MOVEOUT)),
            'listed': draw(st.booleans())}


@st.composite
def cases(draw):
    c = draw(datasets())
    steps = [['data', draw(st.sampled_from([[], [], ['calc'], ['calc'], ['calc', 'moveout'], ['calc', 'moveout'], ['moveout'], ['moveout', 'calc']])), 0]]
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(['calc', 'moveout', 'moveout', 'stack', 'profile', 'convert', 'convert', 'damage', 'plot', 'print', 'again', 'again']))
        if k == 'plot' and draw(st.integers(0, 3)):
            k = 'moveout'
        a = {'calc': st.sampled_from([[], ['moveout']]), 'convert': st.sampled_from(FORMATS + ['sac', 'q', 'h5']), 'damage': st.sampled_from(['remove', 'garbage', 'empty'])}.get(k, st.none())
        steps.append([k, draw(a), draw(st.integers(0, 5))])
    c['steps'] = steps
    c['bins'] = draw(st.sampled_from([[0, 300, 4], [-100, 200, 2], [0, 100, 11]]))
    c['azimuth'] = draw(st.sampled_from([0, 90, 350]))
    return c


MODULE = '''
from obspy import read
def func(**kwargs):
    event = kwargs.pop('event', None)
    w = {'network': kwargs['network'], 'station': kwargs['station'], 'location': kwargs['location'], 'channel': kwargs['channel']}
    st = read('wave/*.pickle', 'PICKLE').select(**w).slice(kwargs['starttime'], kwargs['endtime'])
    if len(st) == 0:
        raise IndexError('no data for %s' % w['station'])
    return st
'''


def setup(c, stream):
    """Write events, inventory, data and configuration."""
    batch.catalog(c).write('ev.xml', 'QUAKEML')
    batch.inventory(c).write('inv.xml', 'STATIONXML')
    os.mkdir('wave')
    conf = {'events': ['ev.xml', 'QUAKEML'] if c['listed'] else 'ev.xml', 'inventory': 'inv.xml', 'format': c['format'], 'options': c['options'], 'rf': c['rf'],
            'moveout': c['moveout'], 'boxbins': c.get('bins', [0, 10, 2]), 'boxes': {'latlon0': [-21.5, -69.6], 'azimuth': c.get('azimuth', 0)}, 'plot': {'trim': [-5, 22]}}
    module = None
    for k, tr in enumerate(stream):
        if c['source'] == 'sds':
            folder = 'sds/%d/%s/%s/%s.D' % (tr.stats.starttime.year, tr.stats.network, tr.stats.station, tr.stats.channel)
            os.makedirs(folder, exist_ok=True)
            # files of one day, arrivals do not cross midnight by much: the file of every touched day has the segment
            for d in {tr.stats.starttime.julday, tr.stats.endtime.julday}:
                f = '%s/%s.D.%d.%03d' % (folder, tr.id, tr.stats.starttime.year, d)
                with open(f, 'ab') as fh:
                    tr.write(fh, 'MSEED')
        elif c['source'] != 'one':
            tr.write('wave/%03d.pickle' % k, 'PICKLE')
    if c['source'] == 'one' and len(stream):
        stream.write('wave/all.mseed', 'MSEED')
    if c['source'] == 'glob':
        conf['data'] = 'wave/*.pickle'
    elif c['source'] == 'one':
        conf['data'] = 'wave/all.mseed'
    elif c['source'] == 'sds':
        os.makedirs('sds', exist_ok=True)
        conf['data'], conf['client_options'] = 'filesystem.sds', {'sds_root': 'sds'}
    else:
        module = 'vf_plugin_%d_%d' % (os.getpid(), setup.count)
        setup.count += 1
        with open(module + '.py', 'w') as f:
            f.write(MODULE)
        conf['data'], conf['plugin'] = 'plugin', module + ' : func'
    with open('conf.json', 'w') as f:
        f.write('# configuration\n' + json.dumps(conf, indent=1))
    return module


setup.count = 0


def station(tr):
    return (tr.stats.network, tr.stats.station, tr.stats.location)


def read_pairs(root, fmt, c):
    """Streams of the files of every event and station, read with the API."""
    from rf import RFStream
    out = {}
    if fmt == 'H5':
        s = load([root + '.h5'], fmt) if os.path.exists(root + '.h5') else []
        for tr in s:
            out.setdefault((tr.stats.event_time.strftime(batch.TF), station(tr)), RFStream()).append(tr)
        return out
    for e in c['events']:
        for i in c['stations']:
            sta = STATIONS[i][:3]
            t = BASE + e['t']
            if fmt == 'Q':
                names = [event_names(root, fmt, sta, t, [])[1]]
            else:
                names = sorted(glob.glob(event_names(root, fmt, sta, t, ['???'])[0]))
            try:
                s = load(names, fmt)
            except Exception:
                continue
            if len(s):
                out[(t.strftime(batch.TF), sta)] = s
    return out


def names_of(pairs, root, fmt):
    out = set()
    for (t, sta), s in pairs.items():
        out.update(event_names(root, fmt, sta, batch.UTC(t), [tr.stats.channel for tr in s]))
    return sorted(out)


def expect_pairs(want, root, fmt, c, what):
    got_files = batch.tree(root) + ([root + '.h5'] if os.path.exists(root + '.h5') else [])
    require(got_files == names_of(want, root, fmt), '%s: files %s, expected %s', what, got_files, names_of(want, root, fmt))
    got = read_pairs(root, fmt, c)
    require(sorted(got) == sorted(want), '%s: events and stations %s, expected %s', what, sorted(got), sorted(want))
    for k in sorted(want):
        same(got[k], roundtrip(want[k], fmt), '%s, event %s, station %s' % (what, k[0], '.'.join(k[1])))
    return got


def tup(kw):
    return {k: tuple(v) if isinstance(v, list) else v for k, v in kw.items()}


def process(s, cmds, c):
    for cmd in cmds:
        if cmd == 'calc':
            s.rf(**json.loads(json.dumps(c['rf'])))
        elif cmd == 'moveout':
            s.moveout(**c['moveout'])
    return s


@CHECK.sub(cases, quick=700, thorough=2500,
           rule='data sets of up to three events and stations with missing data, sequences of up to five commands in three formats; non-trivial if some pair has data and one command uses the files of another')
def commands(c, ctx):
    from obspy import read_events, read_inventory
    from rf import iter_event_data
    with inside():
        stream = batch.waveforms(c)
        if len(stream) == 0:
            ctx.nontrivial(False)
            return
        module = setup(c, stream)
        try:
            play(c, ctx, stream, read_events('ev.xml'), read_inventory('inv.xml'), iter_event_data)
        finally:
            sys.modules.pop(module, None)


def play(c, ctx, stream, events, inv, iter_event_data):
    from rf import RFStream
    from rf.profile import get_profile_boxes, profile
    opt = tup(c['options'])
    api = {}
    for s in iter_event_data(events, inv, lambda **kw: batch.ask(stream, **kw), **opt):
        api[(s[0].stats.event_time.strftime(batch.TF), station(s[0]))] = s
    sets = []  # (root, format, pairs, calculated?)
    done = 0
    profiles = []
    ctx.label('source ' + c['source'], 'format ' + c['format'])
    for n, (cmd, arg, pick) in enumerate(c['steps']):
        root = 'out%d' % n
        if cmd == 'data':
            code, out, err = cli(['data'] + arg + [root])
            require(code is None, 'data exits with %s: %s', code, err[-300:])
            want = {k: process(s.copy(), arg, c) for k, s in api.items()}
            fmt = c['format']
            expect_pairs(want, root, fmt, c, 'data %s' % arg)
            sets.append({'root': root, 'fmt': fmt, 'rf': 'calc' in arg})
            ctx.label('data ' + ' '.join(arg))
            continue
        use = [x for x in sets if cmd not in ('calc',) or not x['rf']]
        use = [x for x in use if cmd not in ('stack', 'plot') or x['rf']]
        if not use:
            continue
        x = use[pick % len(use)]
        fmt = x['fmt']
        pairs = read_pairs(x['root'], fmt, c)
        before = {f: open(f, 'rb').read() for f in batch.tree(x['root'])}
        what = '%s of %s files' % (cmd, fmt)
        if cmd == 'again':  # other options, same output
            first = c['steps'][0][1]
            if 'calc' not in first:
                continue
            rf = {k: v for k, v in c['rf'].items() if k in ('filter', 'trim', 'rotate', 'winsrc')}
            rf['deconvolve'] = [m for m in ('waterlevel', 'time', 'iterative') if m != c['rf'].get('deconvolve', 'time')][pick % 2]
            code, out, err = cli(['--rf', json.dumps(rf), 'data'] + first + [sets[0]['root']])
            require(code is None, 'data exits with %s: %s', code, err[-300:])
            want = {k: process(s.copy(), first, dict(c, rf=rf)) for k, s in api.items()}
            expect_pairs(want, sets[0]['root'], c['format'], c, 'data %s again with %s' % (first, rf))
            ctx.label('again')
            continue
        if cmd == 'damage':
            fs = [f for f in before if fmt != 'H5' and f.endswith(('QHD', 'SAC'))]
            if not fs:
                continue
            f = fs[pick % len(fs)]
            if arg == 'remove':
                os.remove(f)
                if f.endswith('QHD'):
                    os.remove(f[:-3] + 'QBN')
            else:
                # the other channels of a damaged SAC file are not used either
                open(f, 'wb').write(b'garbage' if arg == 'garbage' else b'')
            ctx.label('damaged file')
            continue
        if cmd in ('calc', 'moveout'):
            cmds = [cmd] + (arg or [])
            code, out, err = cli(['--format', fmt, cmd] + (arg or []) + [x['root'], root])
            require(code is None, '%s exits with %s: %s', what, code, err[-300:])
            want = {}
            for k, s in pairs.items():
                want[k] = process(s, cmds, c)
            expect_pairs(want, root, fmt, c, what)
            sets.append({'root': root, 'fmt': fmt, 'rf': x['rf'] or cmd == 'calc'})
        elif cmd == 'convert':
            new = arg.upper()
            code, out, err = cli(['--format', fmt, 'convert', x['root'], root, arg])
            require(code is None, '%s exits with %s: %s', what, code, err[-300:])
            expect_pairs(pairs, root, new, c, what + ' to ' + arg)
            sets.append({'root': root, 'fmt': new, 'rf': x['rf']})
        elif cmd == 'stack':
            if fmt != 'H5' and any('garbage' in str(before[f][:10]) or not before[f] for f in before):
                continue  # one damaged file makes the files of the whole station unreadable
            if len({(tr.id, len(tr)) for s in pairs.values() for tr in s}) != len({tr.id for s in pairs.values() for tr in s}):
                # records of different length have no mean, also on the command line
                raises(ValueError, lambda: cli(['--format', fmt, 'stack', x['root'], root]), 'stack of records of different length')
                ctx.label('stack of different lengths')
                continue
            code, out, err = cli(['--format', fmt, 'stack', x['root'], root])
            require(code is None, '%s exits with %s: %s', what, code, err[-300:])
            want, names = [], []
            for sta in sorted({k[1] for k in pairs}):
                s = RFStream(sum((pairs[k].traces for k in sorted(pairs) if k[1] == sta), []))
                stack = s.stack()
                want.extend(roundtrip(stack, fmt).traces)
                sid = '%s/%s.%s.%s' % ((root,) + sta)
                names.extend({'Q': [sid + '.QBN', sid + '.QHD'], 'SAC': ['%s.%s.SAC' % (sid, tr.stats.channel) for tr in stack], 'H5': [root + '.h5']}[fmt])
            got_files = batch.tree(root) + ([root + '.h5'] if os.path.exists(root + '.h5') else [])
            require(got_files == sorted(set(names)), '%s: files %s, expected %s', what, got_files, sorted(set(names)))
            same(load(got_files, fmt), want, what, ignore=('onset',), rtol=1e-6)
        elif cmd == 'profile':
            trs = [tr for e in c['events'] for i in c['stations'] for k in [((BASE + e['t']).strftime(batch.TF), STATIONS[i][:3])] if k in pairs for tr in pairs[k]]
            if not all('pp_latitude' in tr.stats for tr in trs) or len({(tr.stats.channel, len(tr)) for tr in trs}) != len({tr.stats.channel for tr in trs}):
                continue
            code, out, err = cli(['--format', fmt, 'profile', x['root'], root])
            require(code is None, '%s exits with %s: %s', what, code, err[-300:])
            prof = profile(RFStream(trs), get_profile_boxes((-21.5, -69.6), c['azimuth'], np.linspace(*c['bins'])))
            got_files = batch.tree(root) + [f for f in (root + '.h5', root + '.QHD', root + '.QBN') if os.path.exists(f)]
            names = [] if not len(prof) else {'H5': [root + '.h5'], 'Q': [root + '.QHD', root + '.QBN'],
                                              'SAC': ['%s/profile_%s_%s.SAC' % (root, tr.stats.channel[2], tr.stats.box_pos) for tr in prof]}[fmt]
            require(sorted(got_files) == sorted(names), '%s: files %s, expected %s', what, got_files, names)
            if len(prof):
                same(load(got_files, fmt), roundtrip(prof, fmt), what, ignore=('onset', 'slowness', 'processing'), rtol=1e-6)
                if pick == 0:
                    kw = {} if 'moveout' in prof[0].stats else {'moveout_model': None}
                    kw['scale'] = [1, 2.5][n % 2]
                    with batch.figures({}) as seen:
                        code, out, err = cli(['--format', fmt, '--plot-profile', json.dumps(kw), 'plot-profile', root, root + 'plot'])
                    require(code is None, 'plot-profile exits with %s: %s', code, err[-300:])
                    names = sorted({'%splot/profile_%s.pdf' % (root, tr.stats.channel[2]) for tr in prof})
                    require(batch.tree(root + 'plot') == names, 'plot-profile: files %s, expected %s', batch.tree(root + 'plot'), names)
                    p2 = RFStream(load(got_files, fmt))
                    for f in names:
                        s = RFStream([tr for tr in p2 if '%splot/profile_%s.pdf' % (root, tr.stats.channel[2]) == f])
                        if f in seen:
                            fig = s.plot_profile(**kw)
                            # in any order
                            got, want = [[sorted(a, key=lambda xy: tuple(np.round(np.sum(xy, axis=0), 3))) for a in fg] for fg in (seen[f], batch.curves(fig))]
                            batch.same_curves(got, want, 'plot-profile: ' + f)
                            plt.close(fig)
                    ctx.label('plot-profile')
        elif cmd == 'plot':
            if fmt != 'H5' and any('garbage' in str(before[f][:10]) or not before[f] for f in before):
                continue
            with batch.figures({}) as seen:
                code, out, err = cli(['--format', fmt, 'plot', x['root'], root])
            require(code is None, '%s exits with %s: %s', what, code, err[-300:])
            names = sorted({'%s/%s.pdf' % (root, tr.id) for s in pairs.values() for tr in s})
            require(batch.tree(root) == names, '%s: files %s, expected %s', what, batch.tree(root), names)
            require(all(open(f, 'rb').read(5) == b'%PDF-' for f in names), '%s: no PDF', what)
            for f in names:
                s = RFStream([tr for k in sorted(pairs) for tr in pairs[k] if '%s/%s.pdf' % (root, tr.id) == f])
                if f not in seen or len({tr.stats.back_azimuth for tr in s}) != len(s):
                    continue
                s.traces.sort(key=lambda tr: tr.stats.back_azimuth)
                fig = s.plot_rf(trim=[-5, 22])
                batch.same_curves(seen[f], batch.curves(fig), '%s: %s' % (what, f))
                plt.close(fig)
                ctx.label('plot of %s' % ('many traces' if len(s) > 3 else 'up to 3 traces'))
        elif cmd == 'print':
            fs = [f for f in batch.tree(x['root']) if not f.endswith('.QBN')] or ([x['root'] + '.h5'] if os.path.exists(x['root'] + '.h5') else [])
            fs = [f for f in fs if os.path.getsize(f) > 20]
            if not fs:
                continue
            code, out, err = cli(['print'] + fs)
            require(code is None, 'print exits with %s', code)
            s = load(fs, None)
            require(out.strip() == s.__str__(True).strip(), 'print of %s shows %r, stream is %r', fs, out, s.__str__(True))
        after = {f: open(f, 'rb').read() for f in batch.tree(x['root'])}
        require(before == after, '%s changed its input files', what)
        ctx.label(cmd)
        done += bool(pairs)
    ctx.nontrivial(done > 0 and len(api) > 0)


@CHECK.sub(datasets, quick=40, thorough=600, rule='run_commands with Catalog, Inventory and function objects instead of files; always non-trivial')
def objects(c, ctx):
    from rf import iter_event_data
    from rf.batch import run_commands
    with inside():
        stream = batch.waveforms(c)
        calls = []

        def gw(**kw):
            calls.append(kw)
            s = batch.ask(stream, **kw)
            if len(s) == 0 and len(calls) % 2:
                raise ValueError('no data')
            return s
        events, inv = batch.catalog(c), batch.inventory(c)
        run_commands('data', ['calc'], events=list(events) if c['listed'] else events, inventory=inv, get_waveforms=gw, path_out='out', format=c['format'], options=dict(c['options']), rf=dict(c['rf']))
        want = {}
        for s in iter_event_data(events, inv, lambda **kw: batch.ask(stream, **kw), **tup(c['options'])):
            want[(s[0].stats.event_time.strftime(batch.TF), station(s[0]))] = process(s, ['calc'], c)
        ctx.label('%d pairs' % len(want))
        expect_pairs(want, 'out', c['format'], c, 'data calc')


@st.composite
def picture_cases(draw):
    c = draw(datasets())
    if draw(st.integers(0, 3)):
        c['faults'] = {}
    c['options'] = OPTIONS[draw(st.sampled_from([1, 3]))]
    places = draw(st.permutations([0, 1, 2, 3, 6, 7, 8]))
    for k in range(len(c['events']), draw(st.sampled_from([0, 5, 6, 6]))):
        c['events'].append({'t': 86400 * k + draw(st.integers(0, 80000)), 'depth': 33.5, 'kind': None})
    for e, p in zip(c['events'], places):
        e['place'] = p
    c['steps'] = [['data', draw(st.sampled_from([['calc'], ['calc', 'moveout'], ['calc', 'moveout']])), 0], ['plot', None, 0], ['profile', None, 0]]
    c['bins'] = draw(st.sampled_from([[-200, 300, 4], [-100, 200, 2], [-50, 100, 11]]))
    c['azimuth'] = draw(st.sampled_from([0, 90, 350]))
    return c


@CHECK.sub(picture_cases, quick=60, thorough=600, rule='receiver functions of up to five events, plotted and stacked to a plotted profile; non-trivial if there are records of some pair')
def pictures(c, ctx):
    commands(c, ctx)
