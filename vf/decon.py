"""Reference deconvolutions, written from the documentation."""
import sys
import types

import numpy as np
import scipy.linalg


def solve(src, rsp, lag0, length, spiking):
    """Dense solution; lag0: lag of the first sample of the result."""
    src = np.asarray(src, dtype=float)
    rsp = np.asarray(rsp, dtype=float)
    ns, nr = len(src), len(rsp)
    ac = np.zeros(length)
    for k in range(min(ns, length)):
        ac[k] = np.dot(src[:ns - k], src[k:])
    p = ac[0]
    ac = ac / p
    A = scipy.linalg.toeplitz(ac) + spiking * np.eye(length)
    b = np.zeros(length)
    for k in range(length):
        lag = k + lag0
        lo, hi = max(0, -lag), min(ns, nr - lag)
        if hi > lo:
            b[k] = np.dot(rsp[lo + lag:hi + lag], src[lo:hi])
    return np.linalg.solve(A, b)


def natural(src, rsp, sols, norm):
    """Size of a receiver function of these records (rounding errors of the correlation scale with it,
    also where the correlation itself is zero)."""
    size = max(np.linalg.norm(np.asarray(r, float)) for r in rsp) * np.linalg.norm(np.asarray(src, float))
    return size / (1 if norm is None else np.max(np.abs(sols[norm])))


def normalized(refs, normalize):
    if normalize is None:
        return refs
    f = 1 / np.max(np.abs(refs[normalize]))
    return [r * f for r in refs]


class stub_toeplitz(object):
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if self.on:
            def sto_sl(a, b, job=0):
                n = (len(a) + 1) // 2
                row, col = a[:n], np.hstack((a[:1], a[n:]))
                return np.linalg.solve(scipy.linalg.toeplitz(col, row), b)
            m = types.ModuleType('toeplitz')
            m.sto_sl = sto_sl
            sys.modules['toeplitz'] = m

    def __exit__(self, *args):
        if self.on:
            sys.modules.pop('toeplitz', None)


def taper(data, sr, length):
    """ObsPy cosine taper"""
    from obspy import Trace
    tr = Trace(np.array(data, dtype=float), header={'sampling_rate': sr})
    tr.taper(max_percentage=None, max_length=length)
    return tr.data


def window(data, i0, i1):
    """Samples i0 to i1 (both included) with zeros outside of the record."""
    out = np.zeros(i1 - i0 + 1)
    for k in range(i0, i1 + 1):
        if 0 <= k < len(data):
            out[k - i0] = data[k]
    return out


def gaussian(nfft, dt, f0):
    """Documented low pass: exp(-0.5) at the cut-off frequency."""
    if f0 is None:
        return np.ones(nfft)
    f = np.fft.fftfreq(nfft, dt)
    return np.exp(-0.5 * (f / f0) ** 2)


def delay(nfft, dt, tshift):
    return np.exp(-2j * np.pi * np.fft.fftfreq(nfft, dt) * tshift)


def fast_len(n):
    """Smallest 2^a 3^b 5^c >= n."""
    while True:
        m = n
        for p in (2, 3, 5):
            while m % p == 0:
                m //= p
        if m == 1:
            return n
        n += 1


def waterlevel_norm(rsp_list, src, sr, waterlevel=0.05, gauss=0.5, tshift=10., length=None,
                    normalize=0, nfft=None):
    """Results (real part) and what the factor of the normalisation is computed from."""
    n = len(rsp_list[0]) if length is None else length
    nfft = fast_len(max(n, len(src))) if nfft is None else nfft
    dt = 1. / sr
    S = np.fft.fft(src, nfft)
    P = np.abs(S) ** 2
    F = gaussian(nfft, dt, gauss) * delay(nfft, dt, tshift) * np.conj(S) / np.maximum(P, waterlevel * P.max())
    full = [np.fft.ifft(F * np.fft.fft(r, nfft)) for r in rsp_list]
    out = [r[:n] for r in full]
    ref = None
    if normalize == 'src':
        ref = np.fft.ifft(F * S)[:n]
    elif normalize is not None:
        ref = out[normalize]
    out = [r.real for r in out]
    if ref is not None:
        if np.max(np.abs(ref.imag)) > 1e-9 * np.max(np.abs(ref)):
            # energy at the Nyquist frequency and delay between two samples
            return out, np.zeros(1)
        ref = ref.real
        if ref.max() < 1e-6 * np.max(np.abs(full)):  # nothing of the result is in the window
            return out, np.zeros(1)
        out = [r / ref.max() for r in out]
    return out, ref


def pursuit(r, src, sr, tshift=10., gauss=0.5, itmax=400, minderr=0.001, mute_shift=False,
            first=None):
    """Matching pursuit of one response.

    :return: receiver function, number of spikes, misfits, whether decisions were clear cut
    """
    n = len(r)
    nfft = fast_len(2 * n)
    dt = 1. / sr
    g = gaussian(nfft, dt, gauss)
    R = np.fft.ifft(np.fft.fft(r, nfft) * g).real
    S = np.fft.fft(src, nfft) * g
    s = np.fft.ifft(S).real
    ps, pr = np.sum(s ** 2), np.sum(R ** 2)
    allowed = np.zeros(nfft, dtype=bool)
    allowed[:n] = True
    if first is None:
        first = int(tshift * sr)
    if not mute_shift:
        allowed[max(0, nfft - max(first, 0)):] = True
    rem = R.copy()
    spikes = np.zeros(nfft)
    misfit, clear = [], True
    last = 1.
    while len(misfit) < itmax:
        c = np.where(allowed, np.fft.ifft(np.fft.fft(rem) * np.conj(S)).real / ps, 0.)
        a = np.abs(c)
        i = int(np.argmax(a))
        second = np.max(np.delete(a, i)) if nfft > 1 else 0.
        if a[i] > 1e-10 * np.sqrt(pr / ps) and a[i] - second <= 1e-7 * a[i] + 1e-13 * np.sqrt(pr / ps):
            clear = False
        spikes[i] += c[i]
        rem = rem - c[i] * np.roll(s, i)
        m = np.sum(rem ** 2) / pr
        misfit.append(m)
        gain = 100 * (last - m)
        last = m
        if abs(abs(gain) - minderr) < 1e-9 * max(1, minderr) + 1e-11:
            clear = False
        if not abs(gain) > minderr:
            break
    rf = np.fft.ifft(np.fft.fft(spikes / dt) * g * delay(nfft, dt, tshift)).real[:n]
    return rf, len(misfit), np.array(misfit), clear


def detrend(x):
    x = np.asarray(x, dtype=float)
    n = len(x)
    t = np.arange(n) - (n - 1) / 2.
    x = x - x.mean()
    if n > 1:
        x = x - t * np.dot(t, x) / np.dot(t, t)
    return x


_DPSS = {}


def tapers(ntap, tband, K):
    from scipy.signal.windows import dpss
    key = ntap, tband, K
    if key not in _DPSS:
        _DPSS[key] = dpss(ntap, tband, Kmax=K, sym=True, norm=2, return_ratios=True)
    return _DPSS[key]


def multitaper(rsp, src, nse, sr, tshift, gauss=0.5, K=3, tband=4, T=10, olap=0.75):
    """Multitaper estimate without normalisation; tshift: time of zero delay in the result"""
    n = len(rsp[0])
    dt = 1. / sr
    ntap = int(round(T / dt))
    tap, ratio = tapers(ntap, tband, K)
    step = ntap * (1 - olap)
    starts = lambda num: [int(j * ntap / (1 / (1 - olap))) for j in range(num)]

    def spectra(x, js):
        pad = np.zeros(n)
        pad[:len(x)] = x
        out = []
        for k in range(K):
            w = np.zeros(n)
            for j in js:
                w[j:j + ntap] += tap[k]
            out.append(np.fft.fft(w * pad))
        return np.array(out)
    src = detrend(src)
    count = lambda m: int(1 / (1 - olap) * m / ntap)
    nwav = len(src)
    nwin = count(nwav)
    S = spectra(src, starts(nwin)) * nwav / (nwin * n)
    out = []
    for r, e in zip(rsp, nse):
        nn = count(len(e))
        E = spectra(detrend(e), [j for j in starts(nn) if j + ntap < n]) * nwav / (nn * n)
        s0 = np.sum(np.abs(E) ** 2 / np.asarray(ratio)[:, None], axis=0)
        nr = count(n) - 1
        D = spectra(detrend(r), [j for j in starts(nr) if j + ntap < n]) / nr
        H = np.sum(np.conj(S) * D, axis=0) / (np.sum(np.abs(S) ** 2, axis=0) + s0)
        out.append(np.fft.ifft(H * gaussian(n, dt, gauss) * delay(n, dt, tshift)).real)
    return out


def record(c, scale=None):
    """Stream and data of a record described by n, sr, onset, frac, comps, seed, kind."""
    from vf.gen import quake, stream, trace, wave
    n, sr, on = c['n'], c['sr'], c['onset']
    data, traces = {}, []
    for i, comp in enumerate(c['comps']):
        if c.get('kind', 'quake') == 'quake':
            d = quake(n, on, c['seed'] + i) * (1 if i == 0 else 0.5)
        else:
            d = wave(n, [c['kind'], c['seed'] + i])
        data[comp] = d
        tr = trace(d, sr, id='NE.STA..BH' + comp)
        tr.stats.onset = tr.stats.starttime + min(max(on + c.get('frac', 0), 0), n - 1) / sr
        traces.append(tr)
    return stream(traces), data
