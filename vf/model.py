"""Reference ray integrals for layered models, written with explicit loops."""
import bisect
import math

import numpy as np

from vf.gen import DEG2KM


def support(z, vp, vs, n):
    """Support points: n[i] points between depth i - 1 and i."""
    if n is None:
        return list(map(float, z)), list(map(float, vp)), list(map(float, vs))
    out = [], [], []
    for i in range(1, len(z)):
        k = n[i] + 1
        for j in range(k):
            for o, v in zip(out, (z, vp, vs)):
                o.append(v[i - 1] + (v[i] - v[i - 1]) * j / k)
    for o, v in zip(out, (z, vp, vs)):
        o.append(float(v[-1]))
    return out


def vertical(v, p):
    x = v ** -2. - p ** 2
    return math.sqrt(x) if x >= 0 else float('nan')


class Ray(object):
    """Velocity between support points is that of the upper one."""

    def __init__(self, model):
        self.z, self.vp, self.vs = support(model['z'], model['vp'], model['vs'], model['n'])

    def v(self, leg):
        return self.vp if leg == 'P' else self.vs

    def delays(self, slowness, phase):
        """Time after the direct wave of a conversion at all support points."""
        p = slowness / DEG2KM
        phase = phase.upper()
        out = [0.]
        for i in range(len(self.z) - 1):
            dz = self.z[i + 1] - self.z[i]
            t = 0.
            q = {leg: vertical(self.v(leg)[i], p) for leg in set(phase)}
            for leg in phase:
                t += q[leg]
            out.append(out[-1] + dz * (t - 2 * q[phase[0]]))
        return out

    def offsets(self, slowness, leg):
        p = slowness / DEG2KM
        out = [0.]
        for i in range(len(self.z) - 1):
            q = vertical(self.v(leg)[i], p)
            out.append(out[-1] + (self.z[i + 1] - self.z[i]) * (p / q if q else float('inf')))
        return out

    def _at(self, x, z, depth):
        i = bisect.bisect_right(z, depth) - 1
        i = min(i, len(z) - 2)
        if z[i + 1] == z[i]:
            return x[i]
        return x[i] + (x[i + 1] - x[i]) * (depth - z[i]) / (z[i + 1] - z[i])

    def offset(self, depth, slowness, phase):
        """Horizontal offset at a depth."""
        return sum(self._at(self.offsets(slowness, leg), self.z, depth) for leg in phase.upper())

    def offset_shifted(self, depth, slowness, phase):
        """The known finding: offset at the bottom of each layer assigned to its top."""
        return sum(self._at(self.offsets(slowness, leg)[1:], self.z[:-1], depth) for leg in phase.upper())


def iasp91(repo):
    """The model file, parsed here."""
    rows = []
    with open(repo + '/rf/data/iasp91.dat') as f:
        for line in f:
            if not line.startswith('#') and line.strip():
                rows.append([float(x) for x in line.split()])
    z, vp, vs, n = zip(*rows)
    return {'z': list(z), 'vp': list(vp), 'vs': list(vs), 'n': [int(i) for i in n]}


def models(deep=False):
    from hypothesis import strategies as st
    from vf.gen import num

    @st.composite
    def build(draw):
        nl = draw(st.integers(2, 8))
        z, vp, vs, n = [0.], [], [], [0]
        for i in range(nl):
            d = draw(st.one_of(st.sampled_from([0., 10., 20.]), num(1, 60, 1)))
            if i == 0 or (i == nl - 1):
                d = max(d, 5.)
            z.append(round(z[-1] + d, 3))
            n.append(0 if d == 0 else draw(st.sampled_from([0, 0, 1, 2, 5, 10])))
        if draw(st.integers(0, 19)) == 0:  # hundreds of layers
            rs = np.random.RandomState(draw(st.integers(0, 1000)))
            nl = draw(st.integers(60, 700))
            z = [0.] + [round(x, 3) for x in np.cumsum(rs.uniform(0.05, 120. / nl, nl)).tolist()]
            n = [0] + rs.randint(0, 3, nl).tolist()
        if deep:
            z.append(z[-1] + 600.)
            n.append(30)
        v = draw(num(3.5, 6, 2))
        for i in range(len(z)):
            vp.append(round(v, 3))
            vs.append(round(v / (draw(st.sampled_from([1.7, 1.73, 1.8, 1.65, 2.])) if nl < 60 else 1.7 + 0.01 * (i % 5)), 4))
            v += draw(st.sampled_from([0., 0., 0.1, 0.5, 1.2, -0.3])) if nl < 60 else 4. / nl + 0.01 * (i % 7 - 3)
            v = min(max(v, 3.5), 8.4)
        if nl < 60 and draw(st.integers(0, 11)) == 0:  # integers
            z = [int(round(x)) for x in z]
            vp = [int(np.ceil(v)) for v in vp]
            vs = [max(2, int(round(v))) for v in vs]
        n = draw(st.sampled_from([n, n, None]))
        return {'z': z, 'vp': vp, 'vs': vs, 'n': n}
    return build()


def write_file(m, path, ncol=4):
    with open(path, 'w') as f:
        f.write('#depth vp vs n\n')
        for i in range(len(m['z'])):
            row = [m['z'][i], m['vp'][i], m['vs'][i]] + ([m['n'][i]] if m['n'] is not None else [])
            f.write(' '.join(repr(x) for x in row) + '\n')


_CODE = []


def fresh_module():
    """New instance of the module rf.simple_model, sharing no state with the imported one."""
    import types
    from vf import REPO
    path = REPO + '/rf/simple_model.py'
    if not _CODE:
        with open(path) as f:
            _CODE.append(compile(f.read(), path, 'exec'))
    mod = types.ModuleType('rf.simple_model')
    mod.__file__ = path
    mod.__package__ = 'rf'
    exec(_CODE[0], mod.__dict__)
    return mod


def make(m, how, path=None, module=None):
    """SimpleModel from arrays, lists or a file."""
    if module is None:
        import rf.simple_model as module
    SimpleModel, load_model = module.SimpleModel, module.load_model
    if how == 'file':
        write_file(m, path)
        return load_model(path)
    conv = np.array if how == 'array' else list
    args = [conv(m[k]) for k in ('z', 'vp', 'vs')]
    if m['n'] is not None:
        args.append(conv(m['n']))
    return SimpleModel(*args)
