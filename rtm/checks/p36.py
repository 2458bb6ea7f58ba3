"""P36: compiled kernels against their plain definition, and smoothing."""

import os
import subprocess
import sys
import warnings

import numpy as np
import dsptoolbox as dsp
from dsptoolbox import tools
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff
from rtm.checks.p07 import cols

try:
    import numba
except ModuleNotFoundError:
    numba = None

PROPERTY = "P36"
D = dsp.transfer_functions.SmoothingDomain


class Out(Exception):
    pass


class Watched(np.ndarray):
    """Array that refuses accesses outside of its memory."""

    def _check(self, key):
        keys = key if isinstance(key, tuple) else (key,)
        n_real = sum(k is not None and k is not Ellipsis for k in keys)
        axis = 0
        for k in keys:
            if k is None:
                continue
            if k is Ellipsis:
                axis += self.ndim - n_real
                continue
            n = self.shape[axis]
            if isinstance(k, (int, np.integer)) and not (-n <= k < n):
                raise Out(f"index {k} of axis {axis} with {n} elements")
            axis += 1

    def __getitem__(self, key):
        self._check(key)
        return super().__getitem__(key)

    def __setitem__(self, key, value):
        self._check(key)
        super().__setitem__(key, value)


def watched(x):
    return np.array(x).view(Watched)


class Kernels:
    """Record of the calls of the kernels while a public function runs. Each call is checked on the spot: the outcome does
    not depend on the threads, and the interpreted source gives the same without leaving the arrays."""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, 0

    def spots(self):
        return [(sys.modules["dsptoolbox.transforms.transforms"], "_dft_backend"), (sys.modules["dsptoolbox.transfer_functions.transfer_functions"], "_complex_smoothing_backend"), (sys.modules["dsptoolbox.transfer_functions.transfer_functions"], "_fdw_backend")]

    def __enter__(self):
        self.saved = []
        for mod, name in self.spots():
            fn = getattr(mod, name, None)
            if fn is None:
                continue
            self.saved.append((mod, name, fn))
            setattr(mod, name, self.wrap(name, fn))
        return self

    def __exit__(self, *exc):
        for mod, name, fn in self.saved:
            setattr(mod, name, fn)

    def wrap(self, name, fn):
        ctx = self.ctx

        def arrays(args, result):
            """All that a call may deliver: what it returns and its arguments."""
            out = result if isinstance(result, tuple) else (result,)
            return [np.array(v) for v in (*out, *args) if isinstance(v, (np.ndarray, float, complex, int, np.number))]

        def fresh(v, view=np.array):
            return view(v) if isinstance(v, np.ndarray) else v

        def worst(p, q):
            if len(p) != len(q) or any(u.shape != v.shape for u, v in zip(p, q)):
                return np.inf
            w = [np.max(np.abs(u.astype(complex) - v)) / (np.max(np.abs(v), initial=0, where=np.isfinite(v)) + 1e-300) for u, v in zip(p, q) if v.size and v.dtype.kind in "fciu" and not np.array_equal(u, v, equal_nan=True)]
            return max(w, default=0)

        def call(*args, **kw):
            self.calls += 1
            before = [fresh(v) for v in args]
            kwb = {q: fresh(v) for q, v in kw.items()}
            result = fn(*args, **kw)
            r = arrays((*args, *kw.values()), result)
            if numba is not None and hasattr(fn, "py_func"):
                top = numba.config.NUMBA_NUM_THREADS
                for t in sorted({1, min(2, top), min(5, top), top}):
                    numba.set_num_threads(t)
                    a, k = [fresh(v) for v in before], {q: fresh(v) for q, v in kwb.items()}
                    other = arrays((*a, *k.values()), fn(*a, **k))
                    ctx.ok(name + "_threads", worst(other, r) <= 1e-12, f"{t} threads differ by {worst(other, r)}")
                numba.set_num_threads(top)
                a, k = [fresh(v, watched) for v in before], {q: fresh(v, watched) for q, v in kwb.items()}
                got = None
                try:
                    got = arrays((*a, *k.values()), fn.py_func(*a, **k))
                except (Out, IndexError) as e:
                    ctx.ok(name + "_in_bounds", False, str(e))
                except Exception as e:  # calls further compiled code
                    ctx.event("kernel not interpretable: " + type(e).__name__)
                if got is not None:
                    ctx.ok(name + "_interpreted", worst(got, r) <= 1e-8, f"the compiled kernel differs from its source by {worst(got, r)}")
                    ctx.event("kernel interpreted")
            ctx.event("kernel")
            return result

        return call

    def ran(self):
        self.ctx.event("kernel ran" if self.calls else "kernel not seen")


def record(ctx, n, c, fs, cls=dsp.Signal):
    kind = ctx.pick("kind", ["noise", "decay", "impulse", "dc", "tone", "tiny"])
    t = np.arange(n)[:, None]
    if kind == "noise":
        x = ctx.rng.normal(size=(n, c))
    elif kind == "decay":
        x = ctx.rng.normal(size=(n, c)) * np.exp(-t / (0.1 * n + 1))
    elif kind == "impulse":
        x = np.zeros((n, c))
        for k in range(c):
            x[ctx.int("at", 0, n - 1), k] = ctx.uniform("amp", 0.1, 2)
    elif kind == "dc":
        x = np.ones((n, c)) * (1 + np.arange(c))
    elif kind == "tone":
        x = np.sin(2 * np.pi * ctx.uniform("cyc", 0.01, 0.49) * t + np.arange(c))
    else:
        x = ctx.rng.normal(size=(n, c)) * 1e-7
    ctx.note(f"{kind} {n}x{c} fs={fs}")
    return cls(time_data=x, sampling_rate_hz=fs, **(dict(constrain_amplitude=False) if cls is not dsp.Signal else {})), x


def size(ctx, top=600):
    c = ctx.pick("c", [1, 1, 2, 3])
    return max(ctx.pick("n", [2, 3, 4, 5, 8, 9, 16, 33, 64, 100, 255, 256, ctx.int("nn", 4, top)]), c + 1), c


def dft(ctx):
    n, c = size(ctx, 1500)
    fs = ctx.pick("fs", [8000, 22050, 44100, 48000, 1000])
    s, x = record(ctx, n, c, fs)
    how = ctx.pick("f", ["bins", "random", "log", "single", "negative", "beyond", "strided", "int", "unsorted", "f32"])
    m = ctx.int("m", 1, 60)
    f = dict(
        bins=lambda: np.fft.rfftfreq(n, 1 / fs), random=lambda: np.sort(ctx.rng.uniform(0, fs / 2, m)), log=lambda: np.geomspace(1, fs / 2, m),
        single=lambda: np.array([ctx.rng.uniform(0, fs / 2)]), negative=lambda: -ctx.rng.uniform(0, fs / 2, m), beyond=lambda: ctx.rng.uniform(0, 3 * fs, m),
        strided=lambda: np.linspace(0, fs / 2, 2 * m)[::2], int=lambda: ctx.rng.integers(0, fs // 2, m), unsorted=lambda: ctx.rng.uniform(0, fs / 2, m),
        f32=lambda: ctx.rng.uniform(0, fs / 2, m).astype(np.float32),
    )[how]()
    ctx.note(f"frequencies {how} {len(f)}")
    f0, before = f.copy(), snap(s)
    with Kernels(ctx) as k:
        got = dsp.transforms.dft(s, f)
    k.ran()
    ctx.ok("dft_arguments", np.array_equal(f, f0) and diff(before, snap(s)) is None, "changed")
    ff = f.astype(np.float64)
    want = np.exp(-2j * np.pi * np.outer(ff / fs, np.arange(n))) @ s.time_data
    tol = (1e-6 if how == "f32" else 1e-9) * np.max(np.sum(np.abs(x), axis=0)) + 1e-300
    ctx.close("dft_definition", got, want, rtol=0, atol=tol * (n if how == "f32" else 1))
    if how == "bins":
        ctx.close("dft_fft", got, np.fft.rfft(s.time_data, axis=0), rtol=0, atol=tol)
    if c > 1:
        ch = ctx.int("ch", 0, c - 1)
        ctx.close("dft_channel", got[:, ch : ch + 1], dsp.transforms.dft(s.get_channels(ch), f), rtol=0, atol=tol)


def gauss(ctx):
    n, c = size(ctx)
    fs = ctx.pick("fs", [8000, 44100, 48000])
    ir, x = record(ctx, n, c, fs, dsp.ImpulseResponse)
    cycles = ctx.pick("cycles", [1, 2, 3, 5, 10, 40])
    end = ctx.pick("end", [-50.0, -20.0, -1.0, -100.0, -6, -140.0])
    ctx.note(f"cycles {cycles} end {end}")
    before = snap(ir)
    with Kernels(ctx) as k:
        sp = dsp.transfer_functions.window_frequency_dependent(ir, cycles, end)
    k.ran()
    ctx.ok("fdw_input", diff(before, snap(ir)) is None, "changed")
    f = np.fft.rfftfreq(n, 1 / fs)
    ctx.close("fdw_frequencies", sp.frequency_vector_hz, f, rtol=1e-12, atol=1e-9)
    got = np.asarray(sp.spectral_data)
    if not ctx.ok("fdw_shape", got.shape == (len(f), c) and np.all(np.isfinite(got)), f"{got.shape} finite {np.all(np.isfinite(got))}"):
        return
    x = ir.time_data
    e = 10 ** (end / 20)
    peak = np.argmax(np.abs(x), axis=0)
    t = np.arange(n)[:, None]
    d = t - peak
    scale = np.sum(np.abs(x), axis=0)
    for i in range(1, len(f)):
        exact = fs / f[i] * cycles
        ph = np.exp(-2j * np.pi * f[i] / fs * t)
        variants = [np.sum(x * ph * np.exp(np.log(e) * (d / w) ** 2), axis=0) for w in (exact, np.round(exact))]
        err = np.min([np.abs(got[i] - v) for v in variants], axis=0)
        ctx.ok("fdw_definition", np.all(err <= 1e-8 * scale), f"bin {i} of {len(f)}: error {np.max(err / scale):.2e}")
    if c > 1:
        ch = ctx.int("ch", 0, c - 1)
        one = dsp.transfer_functions.window_frequency_dependent(ir.get_channels(ch), cycles, end)
        ctx.close("fdw_channel", got[:, ch : ch + 1], one.spectral_data, rtol=0, atol=1e-9 * max(scale))


WINDOWS = [dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Blackman, dsp.Window.Boxcar, dsp.Window.Triang, dsp.Window.Bartlett]


def plain_smoothing(y, f, fraction, window):
    """Weighted mean over the band around each frequency, the window on a logarithmic axis."""
    out = np.zeros_like(y)
    proto = window(3000, True)
    px = np.linspace(-1, 1, 3000)
    F = 2 ** (0.5 / fraction)
    df = f[1] - f[0]
    n = len(f)
    for i in range(n):
        lo = i - int((f[i] - f[i] / F) / df + 0.5)
        hi = i + int((f[i] * F - f[i]) / df + 0.5) + 1
        w = np.interp(3.0 ** np.linspace(1, 0, hi - lo) - 2, px, proto) if hi - lo > 2 else None
        a, b = max(lo, 0), min(hi, n)
        if w is None or b - a <= 2:
            out[i] = y[i]
            continue
        w = w[a - lo : b - lo]
        out[i] = (w / np.sum(w)) @ y[a:b]
    return out


def complex_smoothing(ctx):
    n, c = size(ctx, 1500)
    fs = ctx.pick("fs", [8000, 44100, 48000])
    ir, x = record(ctx, n, c, fs, dsp.ImpulseResponse)
    fraction = ctx.pick("fraction", [1, 3, 6, 12, 24, 0.5, 0.25, 0.1, 2.5, 1000])
    dom = ctx.pick("domain", list(D))
    win = ctx.pick("window", WINDOWS)
    ctx.note(f"1/{fraction} {dom} {win}")
    before = snap(ir)
    with Kernels(ctx) as k:
        sp = dsp.transfer_functions.complex_smoothing(ir, fraction, dom, win)
    k.ran()
    ctx.ok("smoothing_input", diff(before, snap(ir)) is None, "changed")
    f, y = ir.get_spectrum()
    got = np.asarray(sp.spectral_data)
    ctx.close("smoothing_frequencies", sp.frequency_vector_hz, f, rtol=1e-12)
    if not ctx.ok("smoothing_shape", got.shape == y.shape and np.all(np.isfinite(got)), f"{got.shape} instead of {y.shape}, finite {np.all(np.isfinite(got))}"):
        return
    a, ph = np.abs(y), np.unwrap(np.angle(y), axis=0)
    sm = lambda v: plain_smoothing(v, f, fraction, win)
    scale = np.max(a) + 1e-300
    if dom == D.RealImaginary:
        want = sm(y)
        F = 2 ** (0.5 / fraction)
        df = f[1]
        # Localised and between the extremes of the band
        for i in ctx.rng.integers(0, len(f), 12):
            band = (f >= f[i] / F - 1.01 * df) & (f <= f[i] * F + 1.01 * df)
            for part in (np.real, np.imag):
                lo, hi = np.min(part(y[band]), axis=0), np.max(part(y[band]), axis=0)
                ctx.ok("smoothing_extremes", np.all(part(got[i]) >= lo - 1e-9 * scale) and np.all(part(got[i]) <= hi + 1e-9 * scale), f"bin {i}: {part(got[i])} outside of {lo}..{hi}")
        ctx.close("smoothing_dc", got[0], y[0], rtol=0, atol=1e-9 * scale)
    elif dom == D.MagnitudePhase:
        want = sm(a) * np.exp(1j * sm(ph))
    elif dom == D.PowerPhase:
        want = np.maximum(sm(a**2), 0) ** 0.5 * np.exp(1j * sm(ph))
    elif dom == D.Power:
        want = np.maximum(sm(a**2), 0) ** 0.5 * np.exp(1j * np.angle(y))
    elif dom == D.Magnitude:
        want = sm(a) * np.exp(1j * np.angle(y))
    else:
        want = np.maximum(sm(a**2), 0) ** 0.5 * np.exp(1j * np.angle(sm(y)))
        # The phase of values that cancel is arbitrary
        ok = np.abs(sm(y)) > 1e-9 * scale
        ctx.close("smoothing_definition_magnitude", np.abs(got), np.abs(want), rtol=0, atol=1e-8 * scale)
        want, got = want[ok], got[ok]
    amp_safe = np.min(a) > 1e-9 * scale or dom in (D.RealImaginary, D.EquivalentComplex)
    if amp_safe:
        ctx.close("smoothing_definition", got, want, rtol=0, atol=1e-7 * scale)
    else:
        ctx.close("smoothing_definition_magnitude", np.abs(got), np.abs(want), rtol=0, atol=1e-7 * scale)
    got = np.asarray(sp.spectral_data)
    if c > 1:
        ch = ctx.int("ch", 0, c - 1)
        one = dsp.transfer_functions.complex_smoothing(ir.get_channels(ch), fraction, dom, win)
        ctx.close("smoothing_channel", got[:, ch : ch + 1], one.spectral_data, rtol=0, atol=1e-9 * scale)
    # A flat response stays flat
    delta = dsp.ImpulseResponse(time_data=np.eye(n)[0] * 0.7, sampling_rate_hz=fs, constrain_amplitude=False)
    flat = dsp.transfer_functions.complex_smoothing(delta, fraction, dom, win)
    ctx.close("smoothing_constant", flat.spectral_data, 0.7 * np.ones((len(f), 1)), rtol=0, atol=1e-9)


def fractional(ctx):
    """The smoothing of real vectors."""
    n, c = ctx.pick("n", [8, 17, 64, 100, 257, 1000, ctx.int("nn", 4, 3000)]), ctx.pick("c", [0, 1, 2, 5])
    shape = (n,) if c == 0 else (n, c)
    spaced = ctx.pick("spacing", [None, None, 1 / 24, 1 / 3, 1 / 100, 0.013])
    num = ctx.pick("fractions", [1, 2, 3, 6, 12, 24, 48])
    win = ctx.pick("window", ["hann", "boxcar", "hamming", "blackman", "triang", ("gaussian", 3.0)])
    kind = ctx.pick("kind", ["noise", "impulse", "constant", "steps", "positive"])
    ctx.note(f"{shape} spacing {spaced} 1/{num} {win} {kind}")
    at = ctx.int("at", 0, n - 1)
    v = dict(noise=lambda: ctx.rng.normal(size=shape), constant=lambda: np.full(shape, ctx.rng.normal()), steps=lambda: np.repeat(ctx.rng.normal(size=(n // 8 + 1,) + shape[1:]), 8, axis=0)[:n], positive=lambda: ctx.rng.uniform(0.1, 1, size=shape), impulse=lambda: np.zeros(shape))[kind]()
    if kind == "impulse":
        v[at] = 1.0
    v0 = v.copy()
    smooth = lambda u, **kw: np.asarray(tools.fractional_octave_smoothing(u, spaced, num, win, **kw))
    got = smooth(v)
    ctx.ok("fractional_input", np.array_equal(v, v0), "changed")
    if not ctx.ok("fractional_shape", got.shape == shape and np.all(np.isfinite(got)), f"{got.shape} instead of {shape}"):
        return
    lo, hi = np.min(v, axis=0), np.max(v, axis=0)
    eps = 1e-9 * (np.max(np.abs(v)) + 1)
    ctx.ok("fractional_extremes", np.all(got >= lo - eps) and np.all(got <= hi + eps), f"{got.min()}..{got.max()} for {v.min()}..{v.max()}")
    if kind == "constant":
        ctx.close("fractional_constant", got, v, rtol=1e-9)
    a = ctx.uniform("a", -3, 3)
    if spaced is not None:
        w = ctx.rng.normal(size=shape)
        ctx.close("fractional_linear", smooth(a * v + w), a * got + smooth(w), rtol=0, atol=1e-8 * (1 + abs(a)))
    ctx.close("fractional_affine", smooth(a * v + 2), a * got + 2, rtol=0, atol=1e-8 * (1 + abs(a)))
    clipped = smooth(v, clip_values=True)
    ctx.close("fractional_clip", clipped, np.maximum(got, 0), rtol=0, atol=1e-10)
    if c > 1:
        k = ctx.int("k", 0, c - 1)
        ctx.close("fractional_channel", got[:, k], smooth(v[:, k].copy()), rtol=0, atol=eps)
    # Localised: only the neighbourhood of a value matters
    u = v.copy()
    u[at] += 1.0
    changed = np.abs(smooth(u) - got)
    if changed.ndim == 1:
        changed = changed[:, None]
    idx = np.arange(n)
    if spaced is None:
        beta = np.log2(n) / (n - 1)
        l1 = idx + 1.0
        # The steps of the logarithmic axis, its interpolation and the one back
        half = 0.5 / num + 3 * beta
        reach = (l1 >= (l1[at] - 2) * 2**-half - 1.01) & (l1 <= (l1[at] + 2) * 2**half + 1.01)
    else:
        reach = np.abs(idx - at) * spaced <= 0.5 / num + 1.01 * spaced
        wanted = np.abs(idx - at) * spaced <= 0.25 / num - 1.01 * spaced
        ctx.ok("fractional_bandwidth", np.all(changed[wanted] > 1e-6) , f"value {at} does not reach {idx[wanted][np.any(changed[wanted] <= 1e-6, axis=1)]}")
    ctx.ok("fractional_localised", np.all(changed[~reach] < 1e-8), f"value {at} of {n} reaches {idx[~reach][np.any(changed[~reach] >= 1e-8, axis=1)][:10]}")


def series(ctx):
    """Smoothing of time series."""
    n = ctx.int("n", 20, 1500)
    c = ctx.pick("c", [0, 1, 2, 4])
    fs = ctx.pick("fs", [100, 1000, 8000, 48000])
    shape = (n,) if c == 0 else (n, c)
    kind = ctx.pick("kind", ["noise", "step", "constant", "ints", "walk"])
    v = dict(noise=lambda: ctx.rng.normal(size=shape), step=lambda: (np.arange(n) >= n // 4).astype(float).reshape((n,) + (1,) * (len(shape) - 1)) * np.ones(shape), constant=lambda: np.full(shape, 0.3), ints=lambda: ctx.rng.integers(-5, 5, size=shape), walk=lambda: np.cumsum(ctx.rng.normal(size=shape), axis=0))[kind]()
    up = ctx.logu("up", 1 / fs, n / fs) * ctx.pick("up0", [1, 1, 1, 0])
    down = ctx.pick("down", [None, "same", "other", "other", "zero"])
    down = None if down is None else up if down == "same" else 0.0 if down == "zero" else ctx.logu("dn", 1 / fs, n / fs)
    if up == 0 and down == 0:
        down = 5 / fs
    ctx.note(f"{shape} {kind} fs {fs} up {up} down {down}")
    v0 = v.copy()
    got = np.asarray(tools.time_smoothing(v, fs, up, down))
    ctx.ok("series_input", np.array_equal(v, v0), "changed")
    if not ctx.ok("series_shape", got.shape == shape, f"{got.shape} instead of {shape}"):
        return
    factor = lambda t: 1.0 if t == 0 else 1 - 0.05 ** (1 / (t * fs))
    x = v.reshape(n, -1).astype(float)
    y = np.zeros_like(x)
    y[0] = x[0]
    fu, fd = factor(up), factor(up if down is None else down)
    for i in range(1, n):
        k = np.where(x[i] > y[i - 1], fu, fd)
        y[i] = k * x[i] + (1 - k) * y[i - 1]
    ctx.close("series_definition", got.reshape(n, -1), y, rtol=0, atol=1e-9 * (np.max(np.abs(x)) + 1))
    if kind == "step" and up > 0 and (1 + n // 4 + up * fs) < n - 1:
        k = n // 4 + up * fs - 1
        z = got.reshape(n, -1)
        ctx.ok("series_time", np.all(z[int(np.floor(k))] <= 0.95 + 1e-9) and np.all(z[int(np.ceil(k))] >= 0.95 - 1e-9), f"{z[int(np.floor(k))], z[int(np.ceil(k))]} around {up} s after the step")
    if c > 1:
        ctx.close("series_transposed", np.asarray(tools.time_smoothing(np.ascontiguousarray(v.T), fs, up, down)).T if n > c else got, got, rtol=0, atol=1e-12)
    t = ctx.logu("t", 1e-4, 10)
    acc = ctx.uniform("acc", 0.05, 0.999)
    al = float(tools.get_smoothing_factor_ema(t, fs, acc))
    ctx.close("smoothing_factor", al, 1 - (1 - acc) ** (1 / (t * fs)), rtol=1e-9, atol=1e-12)


def spectrum_smoothing(ctx):
    """Smoothing as a setting of the signal."""
    n, c = ctx.pick("n", [64, 255, 1024, ctx.int("nn", 40, 3000)]), ctx.pick("c", [1, 2, 3])
    fs = 48000
    scal = ctx.pick("scaling", list(dsp.SpectrumScaling))
    method = ctx.pick("method", [dsp.SpectrumMethod.FFT, dsp.SpectrumMethod.WelchPeriodogram])
    if scal.outputs_complex_spectrum(method) and method == dsp.SpectrumMethod.WelchPeriodogram:
        scal = dsp.SpectrumScaling.PowerSpectralDensity
    num = ctx.pick("num", [1, 3, 6, 12, 24])
    s, x = record(ctx, n, c, fs)
    ctx.note(f"{method} {scal} 1/{num}")
    s.set_spectrum_parameters(method, smoothing=0, scaling=scal, **(dict(window_length_samples=32) if method == dsp.SpectrumMethod.WelchPeriodogram else {}))
    f, raw = s.get_spectrum()
    s.spectrum_smoothing = num
    f2, got = s.get_spectrum()
    ctx.close("setting_frequencies", f2, f, rtol=1e-12)
    if not ctx.ok("setting_shape", got.shape == raw.shape and np.all(np.isfinite(got)), f"{got.shape} instead of {raw.shape}"):
        return
    a, b = np.abs(raw), np.abs(got)
    if raw.dtype.kind != "c" and not scal.is_amplitude_scaling():
        a, b = a**0.5, b**0.5
    eps = 1e-7 * (np.max(a) + 1e-300)
    # Physical scalings weight DC and nyquist differently, after the smoothing
    m = 2**0.5 if scal.has_physical_units() else 1.0
    ctx.ok("setting_extremes", np.all(b >= np.min(a, axis=0) / m - eps) and np.all(b <= np.max(a, axis=0) * m + eps), f"{b.min(axis=0)}..{b.max(axis=0)} for {a.min(axis=0)}..{a.max(axis=0)}")
    if c > 1:
        ch = ctx.int("ch", 0, c - 1)
        one = s.get_channels(ch)
        ctx.close("setting_channel", np.abs(got[:, ch : ch + 1]), np.abs(one.get_spectrum()[1]), rtol=1e-7, atol=1e-10 * np.max(np.abs(got)))
    s.spectrum_smoothing = 0
    ctx.close("setting_undone", s.get_spectrum()[1], raw, rtol=0, atol=0)


BOUNDS = r"""
import numpy as np, sys
import dsptoolbox as dsp
D = dsp.transfer_functions.SmoothingDomain
rng = np.random.default_rng(int(sys.argv[1]))
k = 0
for n in [2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 33, 64, 101, 256, 777]:
    for c in (1, 2, 3):
        if n < c + 1:
            continue
        x = rng.normal(size=(n, c))
        ir = dsp.ImpulseResponse(time_data=x, sampling_rate_hz=48000, constrain_amplitude=False)
        for fr in (0.1, 0.5, 1, 3, 24):
            if n > 3:
                dsp.transfer_functions.complex_smoothing(ir, fr, list(D)[k % len(D)])
                k += 1
        dsp.transfer_functions.window_frequency_dependent(ir, int(rng.integers(1, 10)))
        dsp.transforms.dft(ir, rng.uniform(0, 24000, int(rng.integers(1, 40))))
        k += 2
print("DONE", k)
"""


def bounds(ctx):
    """The compiled kernels, built with checks of the indices."""
    import tempfile
    import rtm.core

    if numba is None:
        ctx.event("no numba")
        ctx.ok("bounds_checked", True, "")
        return
    seed = ctx.int("seed", 0, 2**31)
    with tempfile.TemporaryDirectory() as d:
        env = os.environ | dict(NUMBA_BOUNDSCHECK="1", NUMBA_CACHE_DIR=d, PYTHONPATH=os.path.dirname(os.path.dirname(dsp.__file__)), NUMBA_NUM_THREADS=str(ctx.pick("threads", [1, 2, 4])), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", BOUNDS, str(seed)], capture_output=True, text=True, env=env, timeout=600)
    done = "DONE" in r.stdout
    if not done and "IndexError" not in r.stderr and r.returncode >= 0:
        ctx.event("child failed")
        ctx.ok("bounds_child", False, r.stderr[-1500:])
        return
    ctx.ok("bounds_checked", done, f"code {r.returncode}: " + r.stderr[-1500:])
    ctx.event(r.stdout.strip()[-20:])


FAMILIES = [

        Family("dft", dft, 120, 3000),
        Family("frequency_dependent_window", gauss, 100, 2500),
        Family("complex_smoothing", complex_smoothing, 120, 3000),
        Family("fractional_octave", fractional, 300, 8000),
        Family("time_series", series, 200, 4000),
        Family("smoothing_setting", spectrum_smoothing, 150, 4000),
        Family("bounds_checked_build", bounds, 1, 6),
    ]
