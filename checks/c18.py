"""C18 Delay times and offsets equal the ray integrals of the model."""
import numpy as np
from hypothesis import strategies as st

from vf import REPO
from vf.core import Check, close, raises, require, scratch
from vf.gen import DEG2KM, num, real
from vf.model import Ray, iasp91, make, models

CHECK = Check('C18')
PHASES = ['Ps', 'Ppps', 'Ppss', 'Psss', 'PS', 'ppps', 'Sp', 'Ssps', 'Sspp', 'Sppp', 'Ppppps', 'SP']
LEGS = ['S', 'P', 'p', 's', 'Ppp', 'Pps', 'PSS', 'Sss', 'sps', 'Ppppp']


@st.composite
def cases(draw):
    m = draw(st.one_of(models(), models(), models(), st.just('iasp91')))
    return {'model': m, 'how': draw(st.sampled_from(['array', 'list', 'file'])),
            'slow': draw(st.sampled_from([[1, 12], [1, 12], [12, 40]]).flatmap(lambda x: real(*x))),
            'phase': draw(st.sampled_from(PHASES)), 'leg': draw(st.sampled_from(LEGS)),
            'depths': draw(st.lists(num(0, 1, 6), min_size=1, max_size=4)),
            'knots': draw(st.booleans())}


def get(c, d):
    if c['model'] == 'iasp91':
        from rf.simple_model import load_model
        return load_model(), iasp91(REPO)
    return make(c['model'], c['how'], d + '/model.dat'), c['model']


@CHECK.sub(cases, quick=8000, thorough=160000,
           rule='delay times and vertical slownesses of random models (arrays, lists, files, iasp91) at all support points against explicit sums over the layers; non-trivial if the ray propagates in the first layer')
def delays(c, ctx):
    with scratch() as d:
        model, m = get(c, d)
    ray = Ray(m)
    ctx.label('iasp91' if c['model'] == 'iasp91' else c['how'], 'n' if m['n'] is not None else 'no n')
    close(model.z, ray.z[:-1], 'depths', rtol=1e-12)
    ph = c['phase'].upper()
    want = np.array(ray.delays(c['slow'], ph))
    got = np.asarray(model.calculate_delay_times(c['slow'], c['phase']))
    require(got.shape == (len(ray.z) - 1,), 'shape of delay times %s', got.shape)
    ok = np.isfinite(want[:-1])
    ctx.nontrivial(np.sum(ok) > 1)
    if not np.all(ok):
        ctx.label('evanescent')
    # the ray may be critical in a layer up to rounding
    crit = [i for leg in set(ph) for i, v in enumerate(ray.v(leg)[:-1]) if abs(1 / v - c['slow'] / DEG2KM) * v < 1e-12]
    n = min(crit) + 1 if crit else len(ok)
    ok, got, want = ok[:n], got[:n], want[:n + 1]
    require(np.all(np.isfinite(got) == ok), 'delay times are not finite exactly where the ray does not propagate')
    close(got[ok], want[:-1][ok], 'delay times of %s' % c['phase'], rtol=1e-9, atol=1e-12)
    p = c['slow'] / DEG2KM
    for phase in ('PS', 'P', 's', c['phase']):
        q = model.calculate_vertical_slowness(c['slow'], phase=phase)
        for leg, got in zip('PS', q):
            if leg in phase.upper():
                v = np.array(ray.v(leg)[:-1])
                got = np.asarray(got)
                x = 1 / v ** 2 - p ** 2
                require(np.all(np.isnan(got[x < -1e-9])), 'vertical slowness of evanescent wave')
                close(got[x > 1e-9], np.sqrt(x[x > 1e-9]), 'vertical slowness of %s' % leg, rtol=1e-9)


@CHECK.sub(cases, quick=10000, thorough=200000,
           rule='ppoint_distance at random depths inside the model against explicit sums; non-trivial if the ray propagates down to the depth')
def offsets(c, ctx):
    with scratch() as d:
        model, m = get(c, d)
    ray = Ray(m)
    zmax = ray.z[-2]
    zz = sorted(set(ray.z[:-1]))
    if len(zz) < 2 or zmax <= 0:
        ctx.nontrivial(False)
        return
    if c['model'] == 'iasp91':
        zmax = 1200.
        zz = [z for z in zz if z < zmax]
    ctx.label('iasp91' if c['model'] == 'iasp91' else c['how'])
    some = False
    for x in c['depths']:
        depth = min(x * zmax, zz[-1] - 1e-6 * zmax)
        if c['knots']:
            depth = zz[int(x * (len(zz) - 1.001))]
        want = ray.offset(depth, c['slow'], c['leg'])
        shifted = ray.offset_shifted(depth, c['slow'], c['leg'])
        if np.isnan(want) and np.isnan(shifted):
            crit = min(abs(c['slow'] / DEG2KM * v - 1) for leg in set(c['leg'].upper()) for v in ray.v(leg))
            if crit > 1e-9:
                ctx.label('no ray')
                got = model.ppoint_distance(depth, c['slow'], phase=c['leg'])
                require(np.isnan(got), 'offset of %s at depth %s for slowness %s: got %s, but there is no such ray', c['leg'], depth, c['slow'], got)
            continue
        if not (np.isfinite(want) and np.isfinite(shifted)) or max(want, shifted) > 1e5:
            continue
        some = True
        got = model.ppoint_distance(depth, c['slow'], phase=c['leg'])
        if abs(got - want) <= 1e-7 * (abs(want) + 1):
            continue
        if abs(got - shifted) <= 1e-7 * (abs(shifted) + 1):
            ctx.known('ppoint-offset-shift', 'offset of %s at %s km: got %s, expected %s', c['leg'], depth, got, want)
            continue
        require(False, 'offset of %s at depth %s for slowness %s: got %s, expected %s (or %s with the known shift by one layer)',
                c['leg'], depth, c['slow'], got, want, shifted)
    ctx.nontrivial(some)


@st.composite
def invalid_cases(draw):
    return {'slow': draw(num(1, 8)), 'depth': draw(num(1, 100)), 'leg': draw(st.sampled_from(['PP', 'PS', 'pS', 'SSSS'])),
            'phase': draw(st.sampled_from(['P', 'Pps', 'SSS', 'Sppps']))}


@CHECK.sub(invalid_cases, quick=100, thorough=500, shards=1,
           rule='legs with an even and phases with an odd number of letters are rejected; every case counts')
def parity(c, ctx):
    from rf.simple_model import load_model
    m = load_model()
    raises(ValueError, lambda: m.ppoint_distance(c['depth'], c['slow'], phase=c['leg']), 'leg %s' % c['leg'])
    raises(ValueError, lambda: m.stretch_delay_times(c['slow'], phase=c['phase']), 'phase %s' % c['phase'])
