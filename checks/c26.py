"""C26 Command line options and configuration are combined as documented."""
import contextlib
import io
import json
import os
import sys

import numpy as np
from hypothesis import strategies as st

from checks.c25 import expect_pairs, process, read_pairs, station, tup
from vf import batch
from vf.batch import cli, files, inside
from vf.core import Check, Violation, require
from vf.gen import seeds

CHECK = Check('C26', assumptions=['the phase option of the file is not given together with an option dictionary with phase on the command line',
                                  'the result of the API calls is judged by the other properties'])

TEXT = st.text('ab#"\'\\{}],: =\u00e9\u6c49', min_size=1, max_size=8).filter(lambda s: '://' not in s and not s.isspace() and s.strip(' ') == s)
COMMENT = st.text('ab #"\'\\{}[],:\t\u00e9\u2028/*', max_size=12)
GAP = st.one_of(st.just(''), st.just(''), st.sampled_from([' ', '\n', '\t', '\n\n  ']), COMMENT.map(lambda s: ' #%s\n' % s), COMMENT.map(lambda s: '\n# %s\n#\n' % s))

RF = [{}, {'deconvolve': 'waterlevel'}, {'filter': {'freqmax': 0.9, 'freqmin': 0.1, 'type': 'bandpass'}, 'trim': [-15, 25]}, {'rotate': 'NE->RT', 'deconvolve': 'time', 'spiking': 2}, {'trim': [-12, 30]}]
MOVEOUT = [{}, {'ref': 5.5}, {'phase': 'Ppps'}, {'phase': 'Ps', 'ref': 6.9}]
OPTIONS = [{'request_window': [-20, 40], 'pp_depth': 70}, {'request_window': [-25, 45], 'pp_depth': 50}, {'request_window': [-20, 40], 'dist_range': [20, 85], 'pad': 3, 'pp_depth': 10},
           {'request_window': [-20, 45], 'phase': 'P', 'pp_depth': 30}, {'request_window': [-20, 30], 'phase': 'S', 'dist_range': [25, 85]}]
BOXES = [{'latlon0': [-21.5, -69.6], 'azimuth': 0}, {'latlon0': [-21., -70.], 'azimuth': 90, 'width': 900}, {'latlon0': [-21.5, -69.6], 'azimuth': 0, 'bins': [0, 5]}, {'latlon0': [-21.5, -69.6], 'azimuth': 0, 'bins': [-50, 0, 80, 200]}]
BINS = [[0, 300, 3], [-200, 200, 5], [0, 90, 2]]
PROFILE = [{}, {'crs': None}]
PLOT = [{}, {'trim': [-5, 22]}, {'trim': [-8, 10], 'fillcolors': ['black', 'gray']}, {'fig_width': 5., 'trace_height': 0.7}, {'scale_factor': 2.5}]
PLOT_PROFILE = [{}, {'trim': [-5, 10]}, {'scale': 3, 'moveout_model': None}, {'figsize': [6, 3], 'top': 'hist'}]
VALUES = {'rf': RF, 'moveout': MOVEOUT, 'options': OPTIONS, 'boxes': BOXES, 'boxbins': BINS, 'profile': PROFILE, 'plot': PLOT, 'plot_profile': PLOT_PROFILE,
          'format': ['Q', 'H5', 'SAC'], 'phase': ['P', 'S'], 'moveout_phase': ['Ps', 'Ppps', 'Ppss']}
WRONG = {'rf': {'nonsense': 1}, 'moveout': {'nonsense': 1}, 'options': {'nonsense': [1]}, 'boxes': {'nonsense': 1}, 'boxbins': [0, 'x'], 'profile': {'nonsense': 1}, 'plot': {'nonsense': 1},
         'plot_profile': {'nonsense': 1}, 'format': 'nonsense', 'phase': 'X', 'moveout_phase': 'nonsense', 'events': 'nonsense.xml', 'inventory': ['nonsense.xml', 'nonsense'], 'data': 'filesystem.nonsense'}


@st.composite
def conf_text(draw, conf):
    """Text of the configuration with white space and comments between the tokens."""
    out = []

    def emit(s):
        out.append(draw(GAP))
        out.append(s)

    def value(v):
        if isinstance(v, dict):
            emit('{')
            for i, k in enumerate(v):
                if i:
                    emit(',')
                emit(json.dumps(k, ensure_ascii=draw(st.booleans())))
                emit(':')
                value(v[k])
            emit('}')
        elif isinstance(v, list):
            emit('[')
            for i, x in enumerate(v):
                if i:
                    emit(',')
                value(x)
            emit(']')
        else:
            emit(json.dumps(v, ensure_ascii=draw(st.booleans())))
    value(conf)
    return ''.join(out) + draw(st.one_of(GAP, COMMENT.map(lambda s: '#' + s)))


@st.composite
def cases(draw):
    c = {'stations': [0, 1][:draw(st.integers(1, 2))], 'events': [{'t': 1000.5, 'place': 0, 'depth': 33.5}, {'t': 90000., 'place': 1, 'depth': 10.}][:draw(st.integers(1, 2))],
         'faults': {}, 'sr': 2., 'offset': 0., 'seed': draw(seeds)}
    eff, conf, over = {}, {}, {}
    names = {k: draw(st.one_of(st.just(k), TEXT)) for k in ('ev', 'inv', 'sds')}
    names = names if len(set(names.values())) == 3 and all(v not in ('.', '..') for v in names.values()) else {k: k for k in names}
    source = draw(st.sampled_from(['sds', 'glob', 'plugin']))
    base = {'events': draw(st.sampled_from([names['ev'] + '.xml', [names['ev'] + '.xml', 'QUAKEML']])), 'inventory': draw(st.sampled_from([names['inv'] + '.xml', [names['inv'] + '.xml', 'STATIONXML']])),
            'data': {'sds': 'filesystem.sds', 'plugin': 'plugin', 'glob': 'wave*.mseed'}[source]}
    if source == 'sds':
        base['client_options'] = {'sds_root': names['sds']}
    for k in ('options', 'boxes'):
        base[k] = draw(st.sampled_from(VALUES[k]))
    for k in ('rf', 'moveout', 'boxbins', 'profile', 'plot', 'plot_profile', 'format', 'phase', 'moveout_phase'):
        if k == 'boxbins' and ('bins' not in base['boxes'] or draw(st.booleans())) or k != 'boxbins' and draw(st.integers(0, 2)) == 0:
            base[k] = draw(st.sampled_from(VALUES[k]))
    for k, v in base.items():
        # file, command line, or a different value in the file and the command line wins
        where = draw(st.sampled_from(['file', 'file', 'both', 'cli']))
        if isinstance(v, list) and k in ('events', 'inventory'):
            where = 'file'
        if k == 'boxbins' and 'bins' in base['boxes']:  # command line wins over the bins of the boxes
            where = 'cli'
        if where != 'cli':
            conf[k] = v
        if where != 'file':
            over[k] = v
        if where == 'both':
            conf[k] = draw(st.sampled_from([WRONG.get(k, {'nonsense': 1})] + VALUES.get(k, [])))
    if 'phase' in conf and 'phase' not in over and 'options' in over:
        del conf['phase']
    if 'moveout_phase' in conf and 'moveout_phase' not in over and 'moveout' in over:
        del conf['moveout_phase']
    if source == 'plugin':
        conf['plugin'] = draw(st.sampled_from(['%s:func', '%s : func', ' %s :func ']))
    keys = draw(st.permutations(sorted(conf)))
    conf = {k: conf[k] for k in keys}
    c.update({'names': names, 'source': source, 'conf': conf, 'over': over, 'text': draw(conf_text(conf)), 'confname': draw(st.sampled_from([None, 'conf.json', 'other.json', 'sub/conf.json', 'a#b.json'])),
              'cmds': draw(st.sampled_from([[], ['calc'], ['calc', 'moveout'], ['calc', 'moveout'], ['calc', 'moveout'], ['moveout']])), 'then': draw(st.sampled_from(['profile', 'profile', 'plot', 'none'])),
              'api': draw(st.integers(0, 3)) == 0})
    return c


MODULE = '''
from obspy import read
def func(network, station, location, channel, starttime, endtime, event=None):
    return read('wave*.mseed').select(network=network, station=station, location=location, channel=channel).slice(starttime, endtime)
'''
_count = [0]


def write_data(c, folder='.'):
    names = c['names']
    batch.catalog(c).write(names['ev'] + '.xml', 'QUAKEML')
    batch.inventory(c).write(names['inv'] + '.xml', 'STATIONXML')
    stream = batch.waveforms(c)
    if c['source'] == 'sds':
        for tr in stream:
            folder = '%s/%d/%s/%s/%s.D' % (names['sds'], tr.stats.starttime.year, tr.stats.network, tr.stats.station, tr.stats.channel)
            os.makedirs(folder, exist_ok=True)
            for d in {tr.stats.starttime.julday, tr.stats.endtime.julday}:
                with open('%s/%s.D.%d.%03d' % (folder, tr.id, tr.stats.starttime.year, d), 'ab') as fh:
                    tr.write(fh, 'MSEED')
    else:
        for k, tr in enumerate(stream):
            tr.write('wave%d.mseed' % k, 'MSEED')
    module = None
    if c['source'] == 'plugin':
        module = 'vf_conf_%d_%d' % (os.getpid(), _count[0])
        _count[0] += 1
        with open(module + '.py', 'w') as f:
            f.write(MODULE)
    return stream, module


@contextlib.contextmanager
def figures():
    """Figures saved in the block: (name, axes limits, number of axes, size)."""
    from matplotlib.figure import Figure
    out = []
    old = Figure.savefig

    def savefig(self, fname, *args, **kw):
        out.append((str(fname), look(self)))
        return old(self, fname, *args, **kw)
    Figure.savefig = savefig
    try:
        yield out
    finally:
        Figure.savefig = old


def look(fig):
    out = [tuple(np.round(fig.get_size_inches(), 6))]
    for ax in fig.axes:
        out.append((tuple(np.round(ax.get_xlim(), 6)), tuple(np.round(ax.get_ylim(), 6)), len(ax.lines), len(ax.patches),
                    tuple(tuple(np.round(x.get_facecolor(), 3).flatten()) for x in ax.collections),
                    tuple(np.round(np.sum(np.abs(line.get_xydata()), axis=0), 6).tolist() for line in ax.lines).__repr__()))
    return out


def argv(c, sub):
    """Command line with the overriding options in front of the command."""
    out = []
    if c['confname'] not in (None, 'conf.json') or c['seed'] % 2:
        out.extend([['-c', '--conf'][c['seed'] % 3 // 2], c['confname'] or 'conf.json'])
    for k, v in c['over'].items():
        o = '--' + k.replace('_', '-')
        v = v if isinstance(v, str) else json.dumps(v)
        out.extend([o, v] if c['seed'] % 5 and not v.startswith('-') else [o + '=' + v])
    return out + sub


def call(c, command, sub, **kw):
    """Command line tool or function run."""
    if not c['api']:
        code, out, err = cli(argv(c, [command] + sub))
        require(code is None, '%s exits with %s: %s', command, code, err[-300:])
        return out
    from rf.batch import run
    out = io.StringIO()
    kw.update(json.loads(json.dumps(c['over'])))
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        run(command, conf=c['confname'] or 'conf.json', **kw)
    return out.getvalue()


@CHECK.sub(cases, quick=400, thorough=2500,
           rule='configurations with comments and odd names, options split over file and command line, commands data, profile, plot and plot-profile compared to API calls with the reference merge; non-trivial if data was processed and some option came from the command line or a comment was present')
def merge(c, ctx):
    with inside():
        stream, module = write_data(c)
        try:
            _merge(c, ctx, stream, module)
        finally:
            sys.modules.pop(module, None)


def _merge(c, ctx, stream, module):
    from rf import RFStream, iter_event_data
    from rf.profile import get_profile_boxes, profile
    name = c['confname'] or 'conf.json'
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(name))
    text = c['text']
    if module:
        text = text.replace(json.dumps(c['conf']['plugin']), json.dumps(c['conf']['plugin'] % module))
    with open(name, 'w', encoding='utf-8') as f:
        f.write(text)
    eff = json.loads(json.dumps(dict(c['conf'], **c['over'])))
    opt = tup(eff['options'])
    if 'phase' in eff:
        opt['phase'] = eff['phase']
    mout = dict(eff.get('moveout', {}))
    if 'moveout_phase' in eff:
        mout['phase'] = eff['moveout_phase']
    s_phase = opt.get('phase', 'P')[-1] == 'S'
    if s_phase and ('calc' in c['cmds'] or 'moveout' in c['cmds']):
        if mout.get('phase', 'Sp')[0] != 'S':
            c = dict(c, cmds=[x for x in c['cmds'] if x != 'moveout'])
        if 'rotate' in eff.get('rf', {}):
            c = dict(c, cmds=[])
    if 'moveout' in c['cmds'] and 'calc' not in c['cmds'] and 'phase' in mout and s_phase:
        c = dict(c, cmds=[])
    fmt = eff.get('format', 'Q')
    proc = {'rf': eff.get('rf', {}), 'moveout': mout}
    want = {}
    for s in iter_event_data(batch.catalog(c), batch.inventory(c), lambda **kw: batch.ask(stream, **kw), **opt):
        want[(s[0].stats.event_time.strftime(batch.TF), station(s[0]))] = process(s, c['cmds'], proc)
    before = files()
    call(c, 'data', c['cmds'] + ['out'], commands=list(c['cmds']), path_out='out')
    got = expect_pairs(want, 'out', fmt, c, 'data %s' % c['cmds'])
    new = [f for f in files() if f not in before]
    require(all(f.startswith('out') for f in new), 'data: files %s written', new)
    ctx.label('source ' + c['source'], 'over %d' % min(3, len(c['over'])), 'format ' + fmt, 'api' if c['api'] else 'cli', *['cli ' + k for k in c['over']])
    ctx.nontrivial(len(want) > 0 and (len(c['over']) > 0 or '#' in c['text']))
    if not got or 'calc' not in c['cmds']:
        return
    if c['then'] == 'profile' and all('pp_latitude' in tr.stats for s in got.values() for tr in s):
        order = [got[k] for k in sorted(got, key=lambda k: (k[1], k[0]))]
        trs = [tr for s in order for tr in s]
        if len({(tr.stats.channel, len(tr)) for tr in trs}) != len({tr.stats.channel for tr in trs}):
            return
        boxes = tup(eff['boxes'])
        if 'boxbins' in eff:
            boxes['bins'] = np.linspace(*eff['boxbins'])
        prof = profile(RFStream(trs), get_profile_boxes(**boxes), **eff.get('profile', {}))
        call(c, 'profile', ['out', 'prof'], path_in='out', path_out='prof')
        fs = batch.tree('prof') + [f for f in ('prof.h5', 'prof.QHD', 'prof.QBN') if os.path.exists(f)]
        require(bool(fs) == bool(len(prof)), 'profile: files %s, expected profile of %d traces', fs, len(prof))
        ctx.label('profile')
        if len(prof):
            pgot = batch.load(sorted(fs), fmt)
            batch.same(pgot, batch.roundtrip(prof, fmt), 'profile', ignore=('onset', 'slowness', 'processing'), rtol=1e-6)
            if (fmt == 'H5' or fmt == 'Q' and 'top' not in eff.get('plot_profile', {})) and ('moveout' in prof[0].stats or eff.get('plot_profile', {}).get('moveout_model', 1) is None):
                with figures() as figs:
                    call(c, 'plot-profile', ['prof', 'pplot'], path_in='prof', path_out='pplot')
                expect_figures(figs, {'pplot/profile_%s.pdf' % x.stats.channel[2]: pgot.select(channel=x.stats.channel) for x in pgot},
                               lambda s, f: s.plot_profile(f, **tup(eff.get('plot_profile', {}))), 'plot-profile')
                ctx.label('plot-profile')
    elif c['then'] == 'plot':
        trs = [tr for k in sorted(got) for tr in got[k]]
        with figures() as figs:
            call(c, 'plot', ['out', 'plot'], path_in='out', path_out='plot')
        want = {}
        for tr in trs:
            want.setdefault('plot/%s.pdf' % tr.id, RFStream()).append(tr)
        for s in want.values():
            s.sort(['back_azimuth'])
        expect_figures(figs, want, lambda s, f: s.plot_rf(f, **tup(eff.get('plot', {}))), 'plot')
        ctx.label('plot')


def expect_figures(figs, want, plot, what):
    require(sorted(f for f, _ in figs) == sorted(want), '%s: figures %s, expected %s', what, [f for f, _ in figs], sorted(want))
    for f, got in figs:
        require(os.path.getsize(f) > 0, '%s: empty file %s', what, f)
        with figures() as ref:
            plot(want[f], os.path.basename(f))
        require(got[0] == ref[0][1][0] and len(got) == len(ref[0][1]), '%s: size or number of axes %s, API gives %s', what, got[0], ref[0][1][0])
        for a, b in zip(got[1:], ref[0][1][1:]):
            require(a[:5] == b[:5], '%s: limits, number and colors of artists %s, API gives %s', what, a[:5], b[:5])


BAD_TEXT = ['{', '{"events": "ev.xml",}', '[]', '3', '"text"', 'null', '', '# only comment', '{"events": "ev.xml"', '{"events" "ev.xml"}', "{'events': 'ev.xml'}", '{"options": {"phase": P}}', '{"data": "a\nb"}',
            '{} {}', '{"a": 1}}', '["events", "ev.xml"]', '\ufeff{"events": "ev.xml"}', '// x\n{}', '{"rf": {"trim": [-5, 10}}', 'binary']
COMMANDS = [['data', 'out'], ['data', 'calc', 'moveout', 'out'], ['calc', 'in', 'out'], ['calc', 'moveout', 'in', 'out'], ['moveout', 'in', 'out'], ['stack', 'in', 'out'],
            ['profile', 'in', 'out'], ['convert', 'in', 'out', 'H5'], ['plot', 'in', 'out'], ['plot-profile', 'prof', 'out'], ['print', 'events'], ['print', 'stations']]


@st.composite
def rejected_cases(draw):
    kind = draw(st.sampled_from(['text', 'text', 'missing', 'unknown', 'unknown', 'unknown', 'twice', 'twice', 'json', 'json', 'events', 'inventory', 'data']))
    c = {'kind': kind, 'cmd': draw(st.sampled_from(COMMANDS)), 'api': draw(st.booleans()), 'format': draw(st.sampled_from(['Q', 'H5']))}
    if kind == 'text':
        t = draw(st.sampled_from(BAD_TEXT))
        c['text'] = t if t == 'binary' else draw(st.sampled_from(['', '# comment "\n', '\n'])) + t if t else ''
    elif kind == 'missing':
        c['text'] = draw(st.sampled_from(['nofile', 'directory']))
    elif kind == 'unknown':
        c['key'] = draw(st.one_of(st.sampled_from(['option', 'rf_options', 'Rf', 'boxbin', 'moveout-phase', 'plot-profile', 'filter', 'trim', 'config', '', '# rf', 'deconvolve', 'request_window']), st.text('abcdefgh_', min_size=1, max_size=8)))
        c['value'] = draw(st.sampled_from([{}, 1, 'x', None, [1]]))
        c['first'] = draw(st.booleans())
    elif kind == 'twice':
        c['cmd'] = draw(st.sampled_from([['data', 'calc', 'calc', 'out'], ['data', 'moveout', 'moveout', 'out'], ['data', 'calc', 'moveout', 'calc', 'out'], ['data', 'moveout', 'calc', 'moveout', 'out'], ['data', 'calc', 'moveout', 'moveout', 'out'],
                                         ['calc', 'moveout', 'moveout', 'in', 'out'], ['data', 'calc', 'calc', 'calc', 'out'], ['data', 'calc', 'moveout', 'calc', 'moveout', 'out']]))
    elif kind == 'json':
        c['key'] = draw(st.sampled_from(['rf', 'options', 'moveout', 'client_options', 'boxes', 'profile', 'plot', 'plot_profile', 'boxbins']))
        c['value'] = draw(st.sampled_from(['{', '{"a": }', 'trim=5', '', "{'phase': 'P'}", '{"a": 1,}', '[1, 2', 'nothing']))
        c['where'] = draw(st.sampled_from(['cli', 'cli', 'file']))
    elif kind == 'data':
        c['cmd'] = draw(st.sampled_from(COMMANDS[:2]))
        c['value'] = draw(st.sampled_from(['nothing*.mseed', 'filesystem.sds', 'plugin', 'plugin']))
    else:
        c['cmd'] = draw(st.sampled_from([x for x in COMMANDS if x[0] in ('data', 'calc', 'convert')]))
        c['value'] = draw(st.sampled_from(['nothing.xml', 'other', ['ev.xml', 'SC3ML'], 'garbage']))
    return c


_prepared = {}


def prepared(fmt):
    """Content of a folder with data, receiver functions and a profile, made with the tool once per process."""
    if fmt not in _prepared:
        c = {'stations': [0], 'events': [{'t': 1000.5, 'place': 0, 'depth': 33.5}], 'faults': {}, 'sr': 2., 'offset': 0., 'seed': 3, 'source': 'glob', 'names': {'ev': 'ev', 'inv': 'inv'}}
        with inside():
            write_data(c)
            with open('conf.json', 'w') as f:
                json.dump(dict(GOOD, format=fmt), f)
            for a in (['data', 'in'], ['data', 'calc', 'moveout', 'rfs'], ['profile', 'rfs', 'prof']):
                code, out, err = cli(a)
                require(code is None, '%s exits with %s: %s', a, code, err[-300:])
            _prepared[fmt] = {f: open(f, 'rb').read() for f in files() if f != 'conf.json'}
    return _prepared[fmt]


GOOD = {'events': 'ev.xml', 'inventory': 'inv.xml', 'data': 'wave*.mseed', 'options': {'request_window': [-20, 40], 'pp_depth': 50}, 'boxes': {'latlon0': [-21.5, -69.6], 'azimuth': 0}, 'boxbins': [-300, 300, 3]}


def content():
    return {f: open(f, 'rb').read() for f in files()}


@CHECK.sub(rejected_cases, quick=160, thorough=2500,
           rule='malformed configurations, unknown options, repeated commands, broken JSON options and unreadable inputs, for every command and both interfaces; always non-trivial')
def rejected(c, ctx):
    kind, cmd = c['kind'], list(c['cmd'])
    fmt = c['format']
    base = prepared(fmt)
    conf = dict(GOOD, format=fmt)
    args = []
    if kind == 'unknown':
        if c['key'] in list(conf) + ['rf', 'moveout', 'profile', 'plot', 'plot_profile', 'client_options', 'plugin', 'phase', 'moveout_phase']:
            ctx.nontrivial(False)
            return
        conf = dict([(c['key'], c['value'])] + list(conf.items())) if c['first'] else dict(conf, **{c['key']: c['value']})
    elif kind in ('events', 'inventory'):
        v = c['value']
        conf[kind] = {'other': {'events': 'inv.xml', 'inventory': 'ev.xml'}[kind], 'garbage': 'wave0.mseed'}.get(v, v) if isinstance(v, str) else v
        if v == ['ev.xml', 'SC3ML']:
            conf[kind] = [{'events': 'ev.xml', 'inventory': 'inv.xml'}[kind], 'nonsense']
    elif kind == 'data':
        conf['data'] = c['value']
        if c['value'] == 'plugin':
            conf['plugin'] = ['os_nonsense : func', 'os : nonsense', 'os'][len(fmt) % 3]
        elif c['value'] == 'filesystem.sds':
            conf['client_options'] = {'nonsense': 1}
    elif kind == 'json':
        if c['where'] == 'file':
            conf[c['key']] = c['value']
        else:
            args = ['--%s=%s' % (c['key'].replace('_', '-'), c['value'])]
    text = json.dumps(conf)
    name = 'conf.json'
    if kind == 'text':
        text = c['text']
    with inside():
        for f, d in base.items():
            os.makedirs(os.path.dirname(f) or '.', exist_ok=True)
            with open(f, 'wb') as fh:
                fh.write(d)
        if kind == 'missing':
            if c['text'] == 'directory':
                os.mkdir(name)
        else:
            with open(name, 'wb') as fh:
                fh.write(b'\xff\xfe\x00{' if text == 'binary' else text.encode('utf-8'))
        before = content()
        api = c['api'] and kind not in ('twice',) and not (kind == 'json' and c['where'] == 'cli')
        err = None
        if api:
            from rf.batch import ParseError, run
            kw = {}
            if cmd[0] in ('data', 'calc'):
                kw['commands'] = [x for x in cmd[1:] if x in ('calc', 'moveout')]
            if cmd[0] == 'print':
                kw['objects'] = cmd[1:]
            elif cmd[0] == 'data':
                kw['path_out'] = 'out'
            else:
                kw.update(path_in=[x for x in cmd[1:] if x in ('in', 'prof')][0], path_out='out')
                if cmd[0] == 'convert':
                    kw['newformat'] = 'H5'
            buf = io.StringIO()
            code = None
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                try:
                    run(cmd[0], conf=name, **kw)
                except ParseError as ex:
                    code, err = 2, str(ex)
            out = buf.getvalue()
        else:
            code, out, err = cli(args + cmd)
        after = content()
        what = '%s with %s' % (' '.join(args + cmd), {k: c[k] for k in c if k in ('text', 'key', 'value', 'kind', 'where')})
        require(after == before, '%s wrote %s', what, sorted(set(after) ^ set(before)) or 'into its input')
        if kind in ('unknown', 'twice', 'json'):
            require(code == 2 and err and err.strip(), '%s: exit code %s, message %r', what, code, err)
        else:
            require(code is None and out.strip(), '%s: exit code %s, message %r', what, code, out)
        if kind == 'unknown' and c['key']:
            require(c['key'] in err, '%s: message %r does not name the option', what, err)
        ctx.label(kind, 'api' if api else 'cli', cmd[0])


@st.composite
def create_cases(draw):
    return {'conf': draw(st.sampled_from([None, 'conf.json', 'x.json', 'sub/y.json'])), 'tutorial': draw(st.booleans()), 'show': draw(st.sampled_from(['events', 'stations'])),
            'none': draw(st.sampled_from(['None', 'none', 'null', '']))}


@CHECK.sub(create_cases, quick=16, thorough=48, rule='create, print of the created files and runs without configuration; always non-trivial', shards=2)
def create(c, ctx):
    import obspy
    import rf
    with inside():
        if c['conf'] and '/' in c['conf']:
            os.mkdir('sub')
        pre = ['-c', c['conf']] if c['conf'] else []
        code, out, err = cli(pre + ['create'] + (['-t'] if c['tutorial'] else []))
        require(code is None, 'create exits with %s: %s', code, err)
        name = c['conf'] or 'conf.json'
        folder = os.path.dirname(name)
        ex = ['example_events.xml', 'example_inventory.xml', 'example_data.mseed']
        want = sorted([name] + ([os.path.join(folder, x) for x in ex] if c['tutorial'] else []))
        require(files() == want, 'create: files %s, expected %s', files(), want)
        src = os.path.join(os.path.dirname(rf.__file__), 'example')
        for f in want:
            s = 'conf.json' if f == name else os.path.basename(f)
            require(open(f, 'rb').read() == open(os.path.join(src, s), 'rb').read(), 'create: %s differs from the example', f)
        exp = {'events': lambda: obspy.read_events(os.path.join(src, ex[0])).__str__(True), 'stations': lambda: str(obspy.read_inventory(os.path.join(src, ex[1])))}[c['show']]()
        if c['tutorial']:
            if folder:
                os.chdir(folder)
                pre = ['-c', os.path.basename(name)]
            code, out, err = cli(pre + ['print', c['show']])
            require(code is None and out.strip() == exp.strip(), 'print %s shows %r', c['show'], out[:300])
        opt = {'events': 'events', 'stations': 'inventory'}[c['show']]
        path = os.path.join(src, ex[c['show'] == 'stations'])
        # no configuration file
        code, out, err = cli(['-c', c['none'], '--' + opt, path, 'print', c['show']])
        require(code is None and out.strip() == exp.strip(), 'print %s without configuration shows %r, %r', c['show'], out[:300], err[-300:])
        ctx.label('tutorial' if c['tutorial'] else 'conf')
