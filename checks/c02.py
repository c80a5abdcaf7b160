"""C02 Writing a stream never changes it, even if writing fails."""
import os

import numpy as np
from hypothesis import strategies as st
from obspy import Stream

from checks.c01 import DOCUMENTED, STRINGS, TIMES, build as build_recs, streams
from vf.core import Check, require, scratch
from vf.gen import diff, snap, stream, trace

CHECK = Check('C02', assumptions=['format specific entries (stats.sac, stats.sh) may be set by writing',
                                  'HDF5 files are compared by the names of their entries and by content read back'])
FORMATS = ['SAC', 'Q', 'H5']
FAIL = ['missing directory', 'is a directory', 'unknown format', 'masked', 'exists', 'bad argument', 'complex', 'no file name']
SUFFIX = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5', 'MSEED': '.mseed'}


@st.composite
def cases(draw):
    ns = draw(st.integers(1, 3))
    ss = [draw(streams(3)) for _ in range(ns)]
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append([draw(st.integers(0, ns - 1)), draw(st.sampled_from(FORMATS + ['H5', 'Q'])), draw(st.sampled_from(['ok', 'ok'] + FAIL)),
                    draw(st.sampled_from(['stream', 'stream', 'trace', 'lower', 'sh']))])
    return {'streams': ss, 'ops': ops, 'index': draw(st.sampled_from(['standard', 'standard', 'flat', 'nested']))}


def skip(s):
    return snap(s, ('sac', 'sh', '_format'))


def do(s, folder, fmt, fault, how):
    """One write; returns the exception."""
    name = os.path.join(folder, 'f' + SUFFIX[fmt])
    kw = {}
    fm = fmt
    if fault == 'missing directory':
        name = os.path.join(folder, 'no', 'f' + SUFFIX[fmt])
    elif fault == 'is a directory':
        for n in ('f' + SUFFIX[fmt], 'f.QBN', 'f01.SAC', 'f02.SAC', 'f1.SAC', 'f001.SAC'):
            os.makedirs(os.path.join(folder, n), exist_ok=True)
    elif fault == 'unknown format':
        fm = 'NOFORMAT'
    elif fault == 'exists' and fmt == 'H5':
        try:
            build_copy(s).write(name, 'H5')
        except Exception:
            pass
        kw = {'mode': 'a', 'override': 'raise'}
    elif fault == 'bad argument':
        kw = {'byteorder': 'x' * 3} if fmt != 'H5' else {'override': 'nothing'}
    elif fault == 'no file name':
        name = None
    if how == 'lower' and fault != 'unknown format':
        fm = fm.lower()
    if how == 'sh' and fmt == 'Q':
        kw['sh_compat'] = True
    try:
        if how == 'trace' and len(s):
            s[0].write(name, fm, **kw)
        else:
            s.write(name, fm, **kw)
    except Exception as ex:
        return ex


def build_copy(s):
    return stream([tr.copy() for tr in s])


def content(folder, fmt):
    """What is on the disk."""
    out = {}
    for root, _, files in os.walk(folder):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith('.h5'):
                out[os.path.relpath(p, folder)] = h5(p)
            else:
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, folder)] = fh.read()
    return out


def h5(path):
    import h5py
    from rf import read_rf
    names = []
    with h5py.File(path, 'r') as f:
        index = f.attrs.get('index')
        f.visititems(lambda n, o: names.append(n) if isinstance(o, h5py.Dataset) else None)
    return (sorted(names), index, skip(read_rf(path)) if names else None)


def same(a, b, what):
    require(sorted(a) == sorted(b), '%s: files %s, expected %s', what, sorted(a), sorted(b))
    for k in a:
        if k.endswith('.h5'):
            require(a[k][:2] == b[k][:2], '%s: entries of HDF5 file %s, expected %s', what, a[k][:2], b[k][:2])
            if a[k][2] is not None:
                d = diff(b[k][2], a[k][2])
                require(d is None, '%s: %s', what, d)
        else:
            require(a[k] == b[k], '%s: content of %s differs (%d and %d bytes)', what, k, len(a[k]), len(b[k]))


INDEX = {'standard': 'standard', 'flat': '{id}_{starttime.datetime:%Y%m%d%H%M%S}', 'nested': 'mine/{network}/{station}/{channel}/{starttime.datetime:%Y%m%d%H%M%S}'}


@CHECK.sub(cases, quick=1200, thorough=25000,
           rule='histories of one to five successful and failing writes over up to three streams; non-trivial if a write fails or a stream is written twice')
def histories(c, ctx):
    import obspyh5
    obspyh5.set_index(INDEX[c['index']])
    try:
        with scratch() as folder:
            run(c, ctx, folder)
    finally:
        obspyh5.set_index('standard')


def run(c, ctx, folder):
    count = [0]

    def new():
        count[0] += 1
        d = os.path.join(folder, str(count[0]))
        os.mkdir(d)
        return d

    # what a first write of every stream gives
    first = {}
    other = Stream([trace([1., 2., 3.], id='XX.OTHER.00.BHZ', own=5)])
    d = new()
    other.write(os.path.join(d, 'f.h5'), 'H5')
    plain_first = content(d, 'H5')
    used = set((i, f) for i, f, _, _ in c['ops']) | set((i, f) for i, _, _, _ in c['ops'] for f in FORMATS)
    for i, fmt in sorted(used):
        d = new()
        ex = do(build_recs(c['streams'][i]), d, fmt, 'ok', 'stream')
        first[i, fmt] = (content(d, fmt), None if ex is None else type(ex).__name__)
    ss = [build_recs(r) for r in c['streams']]
    seen = set()
    failed = False
    for n, (i, fmt, fault, how) in enumerate(c['ops']):
        s = ss[i]
        good = None
        if fault == 'masked':
            good = s[0].data
            s[0].data = np.ma.masked_array(good, [k == 0 for k in range(len(good))])
        elif fault == 'complex':
            good = s[0].data
            s[0].data = good.astype(complex)
        objs = list(s)
        before = skip(s)
        ex = do(s, new(), fmt, fault, how)
        what = 'write %d of stream %d (%s, %s, %s: %s)' % (n, i, fmt, fault, how, 'ok' if ex is None else type(ex).__name__)
        ctx.label(fault if ex is not None else 'ok', fmt)
        failed = failed or ex is not None or (i in seen)
        seen.add(i)
        require(fault != 'ok' or (ex is None) == (first[i, fmt][1] is None) or how == 'trace', '%s: %r, first write: %s', what, ex, first[i, fmt][1])
        require(len(s) == len(objs) and all(a is b for a, b in zip(s, objs)), '%s: traces of the stream', what)
        dd = diff(before, skip(s))
        require(dd is None, '%s: %s', what, dd)
        if good is not None:
            s[0].data = good
        # this stream and others are written as if nothing had happened
        for j, f in ((i, fmt), (c['ops'][(n + 1) % len(c['ops'])][0], FORMATS[(n + i) % 3])):
            d = new()
            t = build_copy(ss[j])
            ex = do(t, d, f, 'ok', 'stream')
            require((None if ex is None else type(ex).__name__) == first[j, f][1], '%s: later write of stream %d as %s: %r', what, j, f, ex)
            same(content(d, f), first[j, f][0], '%s: later write of stream %d as %s' % (what, j, f))
        d = new()
        other.copy().write(os.path.join(d, 'f.h5'), 'H5')
        same(content(d, 'H5'), plain_first, '%s: later HDF5 write of an ObsPy stream' % what)
    ctx.nontrivial(failed)
