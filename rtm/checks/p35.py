"""P35: the artists of the plots against the data of the objects."""

import contextlib
import io
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
import numpy as np
from scipy import signal as sg
import dsptoolbox as dsp
from dsptoolbox import plots
from dsptoolbox import beamforming as bf
from rtm.core import Family
from rtm.snap import snap, diff
from rtm import gen
from rtm.checks.p10 import definition
from rtm.checks.p11 import resp
from rtm.checks.p20 import make as make_spectrum

PROPERTY = "P35"
N = dsp.MagnitudeNormalization
NORMS = list(N)
LAYOUT = Figure.tight_layout


def db(x, amplitude=True, floor=1e-300):
    return (20 if amplitude else 10) * np.log10(np.maximum(np.abs(x), floor))


@contextlib.contextmanager
def figures(ctx):
    """Quiet plots, closed afterwards. The layout is only done in some of the cases since it takes most of the time."""
    if not ctx.flag("layout", 0.1):
        Figure.tight_layout = lambda self, *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        Figure.tight_layout = LAYOUT
        plt.close("all")


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]


def positions(ctx, key, x, f, rng):
    """Indices in f of the drawn frequencies: contiguous and covering the range, up to a bin at each edge."""
    i0 = int(np.argmin(np.abs(f - x[0]))) if len(x) else 0
    idx = np.arange(i0, i0 + len(x))
    if not ctx.ok(key + "_axis", len(x) > 0 and idx[-1] < len(f) and np.allclose(x, f[idx], rtol=1e-9, atol=1e-9), f"{len(x)} values from {x[:1]} to {x[-1:]}, {len(f)} bins"):
        return None
    if rng is None:
        ctx.ok(key + "_all_drawn", len(x) == len(f), f"{len(x)} of {len(f)}")
    else:
        inside = np.flatnonzero((f >= min(rng)) & (f <= max(rng)))
        if len(inside) > 2:
            ctx.ok(key + "_range_drawn", idx[0] <= inside[1] and idx[-1] >= inside[-2], f"{x[0]} to {x[-1]}, range {rng}")
    return idx


def limits(ctx, key, ax, rng):
    if rng is not None:
        ctx.ok(key + "_limits", np.allclose(ax.get_xlim(), sorted(rng)) or np.allclose(ax.get_xlim(), rng), f"{ax.get_xlim()} {rng}")


def a_range(ctx, fs):
    k = ctx.pick("range", ["default", "none", "narrow", "wide", "above"])
    if k == "default":
        return [20.0, 20e3]
    if k == "none":
        return None
    if k == "narrow":
        return [ctx.uniform("lo", 0.05, 0.1) * fs, ctx.uniform("hi", 0.2, 0.4) * fs]
    if k == "wide":
        return [1.0, fs / 2]
    return (ctx.uniform("lo", 0.15, 0.2) * fs, fs / 2)


def a_signal(ctx, cls=None, method=None, quiet=True, nmin=300):
    cls = cls or ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    fs = ctx.pick("fs", gen.FS)
    n, c = ctx.int("n", nmin, 2500), ctx.int("ch", 1, 4)
    x = ctx.normal(n, c) * ctx.logu("level", 1e-3, 0.2)
    if cls is dsp.ImpulseResponse:
        x *= np.exp(-np.arange(n) / n * 8)[:, None]
        for i in range(c):
            x[ctx.int("peak", 10, 60), i] = ctx.rng.uniform(0.5, 1) * (1 if ctx.rng.random() < 0.5 else -1)
    if quiet and ctx.flag("silent", 0.1):
        x[:, ctx.int("silent_channel", 0, c - 1)] = 0
    s = cls(None, x, fs, constrain_amplitude=False, activate_cache=ctx.flag("cache"))
    s.calibrated_signal = ctx.flag("calibrated", 0.4)
    p = gen.random_spectrum_params(ctx, n, method or (dsp.SpectrumMethod.FFT if cls is dsp.ImpulseResponse else None))
    s.set_spectrum_parameters(**p)
    s.spectrum_smoothing = s.spectrum_smoothing
    if cls is dsp.ImpulseResponse and ctx.flag("window", 0.4):
        s.set_window(np.abs(ctx.normal(n, c)))
    return s, s.time_data.copy(), fs


def plain(s):
    """Spectrum without smoothing, of a copy."""
    q = s.copy()
    q.spectrum_smoothing = 0
    return q.get_spectrum(), q.spectrum_scaling.is_amplitude_scaling()


def smoothed(a, k):
    return dsp.tools.fractional_octave_smoothing(a.copy(), num_fractions=k) if k else a


def gains(f, power, norm, idx):
    """Possible normalisations in dB per channel: (lowest, highest)."""
    c = power.shape[1]
    d = db(power, False)
    if norm in (N.OneKhz, N.OneKhzFirstChannel):
        i = min(max(int(np.searchsorted(f, 1000.0)), 1), len(f) - 1)
        pair = d[i - 1 : i + 1] if not np.any(f == 1000.0) else d[f == 1000.0]
        out = [(np.min(pair, 0), np.max(pair, 0))]
    elif norm in (N.Max, N.MaxFirstChannel):
        out = [(np.max(d[k], 0),) * 2 for k in (slice(None), idx)]
    elif norm in (N.Energy, N.EnergyFirstChannel):
        out = [(db(np.mean(power[k], 0), False),) * 2 for k in (slice(None), idx)]
    else:
        out = [(np.zeros(c),) * 2]
    if "FirstChannel" in norm.name:
        out = [(np.full(c, lo[0]), np.full(c, hi[0])) for lo, hi in out]
    return out


def compare_db(ctx, key, got, want, options, rtol=1e-6, span=150):
    """Curves in dB (list of columns) after one of the normalisations."""
    best = None
    for lo, hi in options:
        worst = 0.0
        for c, y in enumerate(got):
            w = want[:, c]
            sel = w > np.max(w) - span
            if np.max(w) < -1000:
                continue
            e = y[sel] - w[sel]
            worst = max(worst, np.max(e + lo[c]), np.max(-e - hi[c]), np.ptp(e))
        best = worst if best is None else min(best, worst)
    ctx.ok(key, best is not None and best <= rtol * 1e3, f"{best} dB")


def magnitude(ctx):
    s, x, fs = a_signal(ctx)
    rng = a_range(ctx, fs)
    norm = ctx.pick("norm", NORMS)
    k = ctx.pick("plot_smoothing", [0, 0, 1, 3, 12])
    rdb = ctx.pick("range_db", [None, [-60, 10]])
    (f, sp), amp = plain(s)
    ctx.need(norm not in (N.OneKhz, N.OneKhzFirstChannel) or np.min(np.abs(f - 1000)) < 400)
    before = snap(s)
    with figures(ctx):
        fig, ax = s.plot_magnitude(rng, norm, rdb, k, ctx.flag("info"))
        got = lines(ax)
        limits(ctx, "magnitude", ax, rng)
        if rdb is not None:
            ctx.ok("range_db", np.allclose(ax.get_ylim(), rdb))
        labels = [t.get_text() for t in ax.get_legend().get_texts()]
        unit = ax.get_ylabel()
    if not ctx.equal("one_curve_per_channel", len(got), x.shape[1]):
        return
    ctx.ok("labels", labels == [f"Channel {i}" for i in range(x.shape[1])], f"{labels}")
    ctx.ok("unit", ("FS" in unit) == (norm == N.NoNormalization and not s.calibrated_signal) and "dB" in unit, unit)
    idx = positions(ctx, "magnitude", got[0][0], f, rng)
    if idx is None:
        return
    ctx.ok("same_axis", all(np.array_equal(a, got[0][0]) for a, _ in got))
    a = smoothed(np.abs(sp) if amp else np.abs(sp) ** 0.5, k)
    w = db(a)
    if norm == N.NoNormalization and s.calibrated_signal:
        w = w - 20 * np.log10(2e-5)
    if not np.all(np.max(a, 0) > 1e-100):
        ctx.event("silent")
        if "FirstChannel" in norm.name or "Max" in norm.name or "Energy" in norm.name or "Khz" in norm.name:
            return ctx.ok("drawn", True)
    compare_db(ctx, "curves", [y for _, y in got], w[idx], gains(f, a**2, norm, idx), 1e-9 if k == 0 else 1e-6, 150 if k == 0 else 60)
    ctx.ok("no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))


def time(ctx):
    s, x, fs = a_signal(ctx)
    c = x.shape[1]
    cplx = ctx.flag("complex", 0.3)
    if cplx:
        im = ctx.normal(*x.shape)
        s = type(s)(None, x + 1j * im, fs, constrain_amplitude=False)
    win = getattr(s, "window", None)
    before = snap(s)
    with figures(ctx):
        fig, ax = s.plot_time()
        got = [lines(a) for a in ax]
        lim = [a.get_ylim() for a in ax]
    ctx.equal("one_axis_per_channel", len(got), c)
    t = s.time_vector_s
    for i, g in enumerate(got):
        n = 1 + cplx + (win is not None)
        if not ctx.equal("curves", len(g), n):
            continue
        ctx.ok("time_axis", all(np.array_equal(a, t) for a, _ in g))
        ctx.equal("samples", g[0][1], x[:, i])
        if cplx:
            ctx.equal("imaginary", g[1][1], im[:, i])
        if win is not None:
            ctx.close("window", g[-1][1], win[:, i] * np.max(np.abs(x[:, i])), 1e-9, 1e-15)
        ctx.ok("visible", lim[i][0] <= np.min(x[:, i]) and lim[i][1] >= np.max(x[:, i]))
    ctx.ok("no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))


def spl(ctx):
    s, x, fs = a_signal(ctx)
    cplx = ctx.flag("complex", 0.3)
    calibrated = s.calibrated_signal
    if cplx:
        im = ctx.normal(*x.shape) * 0.1
        s = type(s)(None, x + 1j * im, fs, constrain_amplitude=False)
        s.calibrated_signal = calibrated
    win = getattr(s, "window", None)
    norm = ctx.flag("normalize")
    dyn = ctx.pick("dyn", [None, 60.0, 100, 30])
    wl = ctx.pick("wl", [0.0, 0.0, 5 / fs, 40.3 / fs, 101 / fs])
    before = snap(s)
    with figures(ctx):
        fig, ax = s.plot_spl(norm, dyn, wl)
        got = [lines(a) for a in ax]
        lim = [a.get_ylim() for a in ax]
        unit = ax[0].get_ylabel()
    c = x.shape[1]
    if not ctx.equal("one_axis_per_channel", len(got), c):
        return
    ctx.ok("unit", unit.endswith("dBFS") == (not calibrated or norm), unit)
    offset = -20 * np.log10(2e-5) if calibrated and not norm else 0.0
    n = int(wl * fs + 0.5)

    def level(v):
        p = v**2
        if n > 1:
            full = np.apply_along_axis(lambda q: np.convolve(q, np.ones(n) / n), 0, p)
            p = full[(n - 1) // 2 : (n - 1) // 2 + len(v)]
        return p

    p = level(x)
    pk = np.max(db(p, False), 0)
    for i, g in enumerate(got):
        if not ctx.equal("curves", len(g), 1 + cplx + (win is not None)):
            continue
        off = offset - (pk[i] if norm else 0)
        if not np.any(x[:, i]):
            ctx.ok("silent_channel_low", bool(np.all(~(g[0][1] > -200)) or norm))
            continue
        for key, v, y in [("real", x, g[0][1])] + ([("imaginary", im, g[1][1])] if cplx else []):
            w = db(level(v)[:, i], False) + off
            sel = w > np.max(w) - min(40 if n > 1 else 120, 120 if dyn is None else dyn - 10)
            ctx.close(key, y[sel], w[sel], 0, 1e-6)
        if win is not None:
            w = db(win[:, i], True)
            y = g[-1][1]
            sel = (w > np.max(w) - 100) & (np.max(w) > -100)
            e = y[sel] - w[sel]
            ctx.ok("window_shape", e.size == 0 or np.ptp(e) < 1e-6)
            # the window's value 1 is drawn near the peak of the curve
            if n <= 1 and e.size:
                ctx.ok("window_level", abs(e[0] - np.max(g[0][1])) < 4, f"{e[0]} peak {np.max(g[0][1])}")
        if dyn is not None:
            ctx.ok("visible", abs(lim[i][1] - lim[i][0] - dyn) < 1e-6 and np.max(g[0][1]) <= lim[i][1] <= np.max(g[0][1]) + 2.5, f"{lim[i]} peak {np.max(g[0][1])}")
    ctx.ok("no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))


def removal(ctx, s, x, fs):
    """Latency to be removed, in samples per channel (tolerance)."""
    c = x.shape[1]
    k = ctx.pick("latency", [None, None, "peak", "min_phase", "array", "list", "scalar" if c == 1 else "array"])
    if k in ("array", "list"):
        d = ctx.rng.uniform(0, 50, c)
        return (d if k == "array" else list(d)), d
    if k == "scalar":
        d = ctx.uniform("d", 0, 40)
        return d, np.array([d])
    if k is None:
        return None, np.zeros(c)
    return ctx.pick("case", [k, k.upper()]), None


def phase(ctx):
    s, x, fs = a_signal(ctx, method=dsp.SpectrumMethod.FFT, quiet=False)
    group = ctx.flag("group_delay")
    if s.spectrum_scaling.is_amplitude_scaling() is False and not group:
        s.spectrum_scaling = ctx.pick("scaling", gen.AMPLITUDE_SCALINGS + gen.FFT_SCALINGS)
    if group and type(s) is dsp.Signal and ctx.flag("welch", 0.3):
        s.spectrum_method = dsp.SpectrumMethod.WelchPeriodogram
    rng = a_range(ctx, fs)
    k = ctx.pick("plot_smoothing", [0, 0, 0, 3])
    given, d = removal(ctx, s, x, fs)
    if d is None:
        ctx.need(isinstance(s, dsp.ImpulseResponse))
    q = s.copy()
    q.set_spectrum_parameters(dsp.SpectrumMethod.FFT, scaling=dsp.SpectrumScaling.FFTBackward, smoothing=0, **({} if group else dict(pad_to_fast_length=s._spectrum_parameters["pad_to_fast_length"])))
    f, sp = q.get_spectrum()
    before = snap(s)
    unwrap = ctx.flag("unwrap")
    with figures(ctx):
        if group:
            fig, ax = s.plot_group_delay(rng, k, given)
        else:
            fig, ax = s.plot_phase(rng, unwrap, k, given)
        got = lines(ax)
        limits(ctx, "phase", ax, rng)
        unit = ax.get_ylabel()
    if not ctx.equal("one_curve_per_channel", len(got), x.shape[1]):
        return
    ctx.ok("no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))
    idx = positions(ctx, "phase", got[0][0], f, rng)
    if idx is None:
        return
    ctx.ok("unit", "ms" in unit if group else "rad" in unit)
    y = np.stack([v for _, v in got], 1)
    if d is None:
        if given.lower() == "peak":
            d = np.argmax(np.abs(x), 0).astype(float)
        else:
            # only plausible
            return ctx.ok("finite", bool(np.all(np.isfinite(y))))
        # sub-sample position: the drawn phase differs from the integer one by a small delay
        if k == 0 and not group:
            e = np.exp(1j * y) * np.conj(np.exp(1j * np.angle(sp[idx])) * np.exp(2j * np.pi * f[idx, None] * d / fs))
            low = f[idx] < fs * 0.1
            tau = np.angle(e[low]) / (2 * np.pi * f[idx][low, None] / fs + 1e-30)
            sel = f[idx][low] > 10
            ctx.ok("peak_removed", bool(np.all(np.abs(tau[sel]) <= 1.01)), f"{np.max(np.abs(tau[sel])) if np.any(sel) else 0}")
        return
    ph = np.angle(np.exp(1j * (np.angle(sp) + 2 * np.pi * f[:, None] * d / fs)))
    if group:
        w = -np.gradient(np.unwrap(ph, axis=0), f[1] - f[0], axis=0) / 2 / np.pi
        w = smoothed(w, k)[idx] * 1e3
        # the decision of the unwrapping is not unique near pi
        near = np.abs(np.abs(np.diff(np.unwrap(ph, axis=0), axis=0)) - np.pi) < 1e-6
        ctx.need(not np.any(near))
        ctx.close("group_delay", y, w, 1e-6, 1e-9)
    elif k:
        w = smoothed(np.unwrap(ph, axis=0), k)[idx]
        e = np.angle(np.exp(1j * (y - w)))
        jumps = np.abs(np.abs(np.diff(np.unwrap(ph, axis=0), axis=0)) - np.pi) < 1e-6
        ctx.need(not np.any(jumps))
        ctx.close("smooth_phase", e, e * 0, 0, 1e-6)
    else:
        e = np.angle(np.exp(1j * (y - ph[idx])))
        sel = np.abs(sp[idx]) > 1e-9 * np.max(np.abs(sp))
        ctx.ok("phase", bool(np.max(np.abs(e[sel])) < 1e-5), f"{np.max(np.abs(e[sel]))}")
        if not unwrap:
            ctx.ok("wrapped", bool(np.max(np.abs(y)) <= np.pi + 1e-9))
    if unwrap and not group and len(y) > 1:
        ctx.ok("unwrapped", bool(np.max(np.abs(np.diff(y, axis=0))) <= np.pi + 1e-9), f"{np.max(np.abs(np.diff(y, axis=0)))}")


def bode(ctx):
    s, x, fs = a_signal(ctx, dsp.ImpulseResponse, quiet=False)
    s.spectrum_scaling = ctx.pick("scaling", gen.AMPLITUDE_SCALINGS + gen.FFT_SCALINGS)
    rng = ctx.pick("rng", [[20, 20e3], None, [100.0, 3000]])
    norm = ctx.pick("norm", NORMS)
    k = ctx.pick("smoothing", [0, 0, 6])
    given, d = removal(ctx, s, x, fs)
    gd = ctx.flag("gd")
    q = s.copy()
    q.spectrum_smoothing = k
    f, sp = q.get_spectrum()
    before = snap(s)
    with figures(ctx):
        fig, ax = s.plot_bode(rng, norm, None, gd, None, k, given)
        m, p = lines(ax[0]), lines(ax[1])
        limits(ctx, "bode", ax[0], rng)
    ctx.ok("no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))
    c = x.shape[1]
    if not (ctx.equal("magnitudes", len(m), c) and ctx.equal("phases", len(p), c)):
        return
    idx = positions(ctx, "bode", m[0][0], f, rng)
    if idx is None:
        return
    a = np.abs(sp)
    compare_db(ctx, "magnitude", [y for _, y in m], db(a)[idx], gains(f, a**2, norm, idx), 1e-9, 120)
    y = np.stack([v for _, v in p], 1)
    if d is not None:
        ph = np.angle(sp) + 2 * np.pi * f[:, None] * d / fs
        if gd:
            u = np.unwrap(np.angle(np.exp(1j * ph)), axis=0)
            ctx.need(not np.any(np.abs(np.abs(np.diff(u, axis=0)) - np.pi) < 1e-6))
            w = -np.gradient(u, f[1] - f[0], axis=0) / 2 / np.pi
            ctx.close("group_delay", y, w[idx], 1e-6, 1e-9)
        else:
            e = np.angle(np.exp(1j * (y - ph[idx])))
            sel = a[idx] > 1e-9 * np.max(a)
            ctx.ok("phase", bool(np.max(np.abs(e[sel])) < 1e-5), f"{np.max(np.abs(e[sel]))}")


def spectrogram(ctx):
    s, x, fs = a_signal(ctx, quiet=False, nmin=600)
    if ctx.flag("all_silent", 0.06):
        x = x * 0
        s = dsp.Signal(None, x, fs)
    s.set_spectrogram_parameters(**gen.random_spectrogram_params(ctx, 600))
    ch = ctx.int("channel", 0, x.shape[1] - 1)
    dyn = ctx.pick("dyn", [50, 30.0, 90])
    t, f, st = s.copy().get_spectrogram()
    amp = s._spectrogram_parameters["scaling"].is_amplitude_scaling()
    before = snap(s)
    with figures(ctx):
        fig, ax = s.plot_spectrogram(ch, ctx.flag("log"), dyn)
        im = ax.get_images()[0]
        y = np.asarray(im.get_array(), float)
        ext, lim = im.get_extent(), im.get_clim()
    ctx.ok("no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))
    k = len(f) - len(y)
    ctx.ok("frames", y.shape[1] == len(t) and k >= 0)
    ctx.ok("extent", np.allclose([ext[0], ext[1]], [t[0], t[-1]]) and abs(ext[3] - f[-1]) <= f[1] and abs(ext[2] - f[k]) <= f[1], f"{ext}")
    ctx.ok("lowest", f[k] <= max(20 + f[1], f[1] * 1.001), f"{f[k]}")
    if not np.any(x):
        return
    w = db(st[k:, :, ch], amp) - (20 * np.log10(2e-5) if s.calibrated_signal else 0)
    sel = w > np.max(w) - 150
    ctx.close("levels", y[sel], w[sel], 0, 1e-8)
    ctx.close("colours", lim, [np.max(w) - dyn, np.max(w)], 0, 1e-8)
    # waterfall
    with figures(ctx):
        kw = None if ctx.flag("own") else dict(window_length_samples=256, scaling=ctx.pick("wscale", gen.ALL_SCALINGS))
        fig, ax = dsp.transforms.plot_waterfall(s, ch, dyn, kw)
        z = ax.collections[0]._vec if hasattr(ax.collections[0], "_vec") else None
        zl = ax.get_zlim()
    ctx.ok("waterfall_no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))
    q = s.copy()
    if kw is not None:
        q.set_spectrogram_parameters(**kw)
    t, f, st = q.get_spectrogram()
    w = db(st[..., ch], q._spectrogram_parameters["scaling"].is_amplitude_scaling())
    ctx.ok("waterfall_levels", zl[0] >= np.max(w) - dyn * 1.2 - 1 and abs(zl[1] - np.max(w)) < 0.1 * dyn + 1, f"{zl} max {np.max(w)}")


def csm(ctx):
    s, x, fs = a_signal(ctx, dsp.Signal)
    ctx.need(1 < x.shape[1] < 4 and np.all(np.any(x, 0)))
    s.set_spectrum_parameters(method=ctx.pick("m", list(dsp.SpectrumMethod)), window_length_samples=128, scaling=ctx.pick("scale", gen.ALL_SCALINGS))
    f, m = s.copy().get_csm()
    amp = s.spectrum_scaling.is_amplitude_scaling()
    rng = a_range(ctx, fs)
    wp = ctx.flag("with_phase")
    before = snap(s)
    with figures(ctx):
        fig, ax = s.plot_csm(rng, wp) if rng is not None else s.plot_csm(None, with_phase=wp)
        c = x.shape[1]
        main = [[lines(ax[i, j]) for j in range(c)] for i in range(c)]
        twins = [a for a in fig.axes if a not in list(ax.ravel())]
        right = {tuple(np.round(a.get_position().bounds, 6)): lines(a) for a in twins}
        pos = {(i, j): tuple(np.round(ax[i, j].get_position().bounds, 6)) for i in range(c) for j in range(c)}
    ctx.ok("no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))
    ctx.equal("phase_axes", len(twins), c * (c - 1) if wp else 0)
    for i in range(c):
        for j in range(c):
            if not ctx.equal("curves", len(main[i][j]), 1):
                continue
            a, y = main[i][j][0]
            idx = positions(ctx, "csm", a, f, rng)
            if idx is None:
                return
            w1, w2 = db(m[idx, i, j], False), db(m[idx, i, j], True)
            w = w1 if not amp else w1
            sel = w > np.max(w) - 150
            ctx.ok("levels", np.allclose(y[sel], w[sel], atol=1e-6) or (amp and np.allclose(y[sel], w2[sel], atol=1e-6)), f"{np.max(np.abs(y[sel] - w[sel]))} {s.spectrum_scaling}")
            if wp and i != j and pos[i, j] in right:
                ph = right[pos[i, j]][0][1]
                e = np.angle(np.exp(1j * (ph - np.angle(m[idx, i, j]))))
                ctx.ok("phase", bool(np.max(np.abs(e[sel])) < 1e-6))


def filters(ctx):
    fs = ctx.pick("fs", gen.FS)
    fl, H, D = definition(ctx, fs, 0)
    n = ctx.pick("n", [512, 1000, 2048, 4096, 6001])
    rng = a_range(ctx, fs)
    before = snap(fl)
    what = ctx.pick("what", ["magnitude", "magnitude", "phase", "group_delay", "zp", "taps"])
    zp = what == "magnitude" and n > 4 * fl.order + 40 and ctx.flag("zero_phase", 0.3)
    p = fl.get_ir(n, zero_phase=zp)
    f = p.copy().get_spectrum()[0]
    w = 2 * np.pi * f / fs
    h = H(w)
    if zp:
        h = np.abs(h) ** 2
    # all of the impulse response has to fit
    tail = np.max(np.abs(p.time_data[-20:])) / np.max(np.abs(p.time_data)) if np.any(p.time_data) else 1
    if zp:
        tail = max(tail, np.max(np.abs(p.time_data[:20])) / np.max(np.abs(p.time_data)) if np.any(p.time_data) else 1)
    fits = tail < 1e-8 or (fl.is_fir and not zp)
    with figures(ctx):
        if what == "magnitude":
            ctx.need(fits)
            norm = ctx.pick("norm", NORMS)
            fig, ax = fl.plot_magnitude(n, rng, norm, zp, ctx.flag("info"))
            got = lines(ax)
            if ctx.equal("one_curve", len(got), 1):
                idx = positions(ctx, "magnitude", got[0][0], f, rng)
                if idx is not None:
                    a = np.abs(h)[:, None]
                    compare_db(ctx, "magnitude", [got[0][1]], db(a)[idx], gains(f, a**2, norm, idx), 1e-4 / 1e3 * 10, 60)
        elif what == "phase":
            ctx.need(fits)
            fig, ax = fl.plot_phase(n, rng, ctx.flag("unwrap"), ctx.flag("info"))
            got = lines(ax)
            if ctx.equal("one_curve", len(got), 1):
                idx = positions(ctx, "phase", got[0][0], f, rng)
                if idx is not None:
                    e = np.angle(np.exp(1j * got[0][1]) * np.conj(h[idx]))
                    sel = np.abs(h[idx]) > 1e-3 * np.max(np.abs(h))
                    ctx.ok("phase", bool(np.all(np.abs(e[sel]) < 1e-4)), f"{np.max(np.abs(e[sel])) if np.any(sel) else 0}")
        elif what == "group_delay":
            fig, ax = fl.plot_group_delay(n, rng, ctx.flag("info"))
            got = lines(ax)
            if ctx.equal("one_curve", len(got), 1):
                g, y = got[0]
                ctx.ok("gd_axis", len(g) > 0 and g[0] >= -1e-9 and g[-1] <= fs / 2 * 1.000001 and (rng is not None or len(g) == max(n, len(g))))
                if rng is not None:
                    step = fs / 2 / (n - 1)
                    ctx.ok("gd_range", g[0] <= max(rng[0], 0) + 2 * step and g[-1] >= min(rng[1], fs / 2) - 2 * step, f"{g[0]} {g[-1]} {rng}")
                o = 2 * np.pi * g / fs
                e = 1e-6
                ref = -np.angle(H(o + e) / H(o - e)) / (2 * e) / fs * 1e3
                hh = np.abs(H(o))
                sel = hh > 1e-3 * np.max(hh)
                lo = np.minimum(np.abs(H(np.clip(o + 0.01, 0, np.pi))), np.abs(H(np.clip(o - 0.01, 0, np.pi))))
                sel &= lo > 1e-2 * hh
                sel &= (o > 2e-3) & (o < np.pi - 2e-3)
                if fl.order < 20 or fl.is_fir:
                    # The coefficients of a polynomial lose precision with the order
                    ctx.close("group_delay", y[sel], ref[sel], 1e-4 if fl.is_fir else 1e-3, (0.005 if fl.is_fir or fl.order <= 4 else 0.1) / fs * 1e3)
        elif what == "zp":
            ctx.need(fl.order < 30)
            fig, ax = fl.plot_zp(ctx.flag("info"))
            got = lines(ax)
            z, pp = [a + 1j * b for a, b in got[:2]]
            z, pp, k = (np.atleast_1d(v) for v in (z, pp, 1))
            o = np.linspace(0.1, 3.0, 40)
            zz = np.exp(1j * o)
            num = np.prod(zz[:, None] - z, axis=1) if len(z) else np.ones(40)
            den = np.prod(zz[:, None] - pp, axis=1) if len(pp) else np.ones(40)
            r = num / den / H(o)
            ctx.ok("zeros_and_poles", bool(np.ptp(np.abs(r)) <= 1e-3 * np.max(np.abs(r))), f"{np.abs(r)[:4]}")
        else:
            if not fl.is_fir:
                ctx.raises("taps_of_iir", lambda: fl.plot_taps())
            else:
                ind = ctx.flag("in_db")
                fig, ax = fl.plot_taps(ctx.flag("info"), ind)
                got = lines(ax)
                b = np.asarray(fl.ba[0])
                ctx.close("taps_time", got[0][0], np.arange(len(b)) / fs, 1e-9)
                wb = db(b) if ind else b
                sel = np.abs(b) > 1e-200
                ctx.close("taps", got[0][1][sel], wb[sel], 1e-9)
    ctx.ok("no_effect", diff(before, snap(fl)) is None, diff(before, snap(fl)))


def banks(ctx):
    fs = ctx.pick("fs", gen.FS)
    k = ctx.int("k", 1, 4)
    fl, H = [], []
    for _ in range(k):
        a, h, _ = definition(ctx, fs, 0)
        fl.append(a), H.append(h)
    fb = dsp.FilterBank(fl)
    n = ctx.pick("n", [1024, 2048, 4096])
    asked = n
    if ctx.flag("short", 0.1) and k == 1:
        # shorter than the filter: the length is extended
        q = ctx.pick("taps", [188, 220, 260, 300, 332, 380])
        taps = ctx.rng.normal(size=q + 1) * 0.97 ** np.arange(q + 1)
        fb = dsp.FilterBank([dsp.Filter.from_ba(taps, [1.0], fs)])
        H = [lambda w: np.exp(-1j * np.outer(w, np.arange(len(taps)))) @ taps]
        asked, n = ctx.int("asked", 10, q - 1), q + 100
    rng = a_range(ctx, fs)
    mode = ctx.pick("mode", list(dsp.FilterBankMode))
    what = ctx.pick("what", ["magnitude", "phase", "group_delay"])
    irs = fb.get_ir(n, dsp.FilterBankMode.Parallel)
    f = np.fft.rfftfreq(n, 1 / fs)
    sp = np.stack([h(2 * np.pi * f / fs) for h in H], 1)
    if mode == dsp.FilterBankMode.Sequential:
        sp = np.prod(sp, 1, keepdims=True)
    elif mode == dsp.FilterBankMode.Summed:
        sp = np.sum(sp, 1, keepdims=True)
    for b in irs.bands:
        tail = np.max(np.abs(b.time_data[-len(b.time_data) // 8 :])) / max(np.max(np.abs(b.time_data)), 1e-30)
        ctx.need(tail < 1e-9)
    before = snap(fb)
    with figures(ctx):
        if what == "magnitude":
            fig, ax = fb.plot_magnitude(asked, mode, rng)
        elif what == "phase":
            unwrap = ctx.flag("unwrap")
            fig, ax = fb.plot_phase(asked, mode, rng, unwrap)
        else:
            fig, ax = fb.plot_group_delay(asked, mode, rng)
        got = lines(ax)
        limits(ctx, "bank", ax, rng)
    ctx.ok("no_effect", diff(before, snap(fb)) is None, diff(before, snap(fb)))
    if not ctx.equal("curves", len(got), sp.shape[1], f"{mode} {what}"):
        return
    idx = positions(ctx, "bank", got[0][0], f, rng)
    if idx is None:
        return
    for c, (_, y) in enumerate(got):
        a = np.abs(sp[idx, c])
        sel = a > 1e-3 * np.max(np.abs(sp[:, c]))
        if not np.any(sel):
            continue
        if what == "magnitude":
            ctx.close("magnitude", y[sel], db(a)[sel], 0, 1e-3)
        elif what == "phase":
            e = np.angle(np.exp(1j * y) * np.conj(sp[idx, c]))
            ctx.ok("phase", bool(np.max(np.abs(e[sel])) < 1e-4), f"{np.max(np.abs(e[sel]))}")
            if not unwrap:
                ctx.ok("wrapped", bool(np.max(np.abs(y)) <= np.pi + 1e-9))
            elif len(y) > 1:
                ctx.ok("unwrapped", bool(np.max(np.abs(np.diff(y))) <= np.pi + 1e-9), f"{np.max(np.abs(np.diff(y)))}")
        else:
            u = np.unwrap(np.angle(sp[:, c]))
            w = (-np.gradient(u, f[1]) / 2 / np.pi * 1e3)[idx]
            ok = np.abs(np.gradient(u)) < 2.5
            near = np.abs(sp[:, c]) > 1e-3 * np.max(np.abs(sp[:, c]))
            good = (ok & near & np.roll(near, 1) & np.roll(near, -1))[idx]
            good &= (idx > 1) & (idx < len(f) - 2)
            if np.any(good):
                ctx.close("group_delay", y[good], w[good], 1e-3, 1e-3 * n / fs * 1e3 * 0.01)


def other_banks(ctx):
    """Linkwitz-Riley banks, crossovers and the state-variable filter."""
    fs = ctx.pick("fs", [44100, 48000])
    n = ctx.pick("n", [2048, 4096])
    rng = ctx.pick("rng", [[20.0, 20e3], None, [500.0, 5000.0]])
    kind = ctx.pick("kind", ["lr", "qmf", "sv"])
    f = np.fft.rfftfreq(n, 1 / fs)
    what = ctx.pick("what", ["magnitude", "phase", "group_delay"])
    if kind == "lr":
        fc = np.sort(ctx.rng.uniform(500, 6000, ctx.int("crossovers", 1, 3)))
        while np.any(np.diff(fc) < 300):
            fc = np.sort(ctx.rng.uniform(500, 6000, len(fc)))
        fb = dsp.filterbanks.linkwitz_riley_crossovers(list(fc), [ctx.pick("order", [2, 4]) for _ in fc], fs)
        d = dsp.generators.dirac(n, fs)
        d.constrain_amplitude = False
        bands = fb.copy().filter_signal(d, dsp.FilterBankMode.Parallel)
        h = np.stack([b.time_data[:, 0] for b in bands.bands], 1)
        before = snap(fb)
        call = dict(magnitude=fb.plot_magnitude, phase=fb.plot_phase, group_delay=fb.plot_group_delay)[what]
        extra = True
        if what != "magnitude" and ctx.flag("summed", 0.3):
            plot = call
            h = np.sum(h, 1, keepdims=True)

            def call(n, range_hz):
                return plot(n, dsp.FilterBankMode.Summed, range_hz)
    elif kind == "qmf":
        fb = dsp.filterbanks.qmf_crossover(dsp.Filter.fir_filter(order=ctx.pick("order", [31, 63]), frequency_hz=fs / 4, type_of_pass=dsp.FilterPassType.Lowpass, sampling_rate_hz=fs))
        what = "magnitude"
        down = ctx.flag("downsample")
        mode = ctx.pick("mode", [dsp.FilterBankMode.Parallel, dsp.FilterBankMode.Summed])
        if not down:
            mode = dsp.FilterBankMode.Parallel
        d = dsp.generators.dirac(n, fs)
        d.constrain_amplitude = False
        out = fb.copy().filter_signal(d, mode, downsample=down)
        h = np.stack([b.time_data[:, 0] for b in out.bands], 1) if mode == dsp.FilterBankMode.Parallel else out.time_data
        f = np.fft.rfftfreq(len(h), 1 / (out.sampling_rate_hz if np.ndim(out.sampling_rate_hz) == 0 else out.sampling_rate_hz[0]))
        before = snap(fb)

        def call(n, range_hz):
            return fb.plot_magnitude(n, mode, range_hz, downsample=down)

        extra = not down
    else:
        fb = dsp.filterbanks.StateVariableFilter(ctx.uniform("fc", 300, 5000), ctx.uniform("res", 0.1, 1.0), fs)
        if ctx.flag("earlier"):
            fb.get_ir(n)
        h = fb.get_ir(n).get_all_bands().time_data
        before = None
        call = dict(magnitude=fb.plot_magnitude, phase=fb.plot_phase, group_delay=fb.plot_group_delay)[what]
        extra = False
    with figures(ctx):
        fig, ax = call(n, range_hz=rng)
        got = lines(ax)
    if before is not None:
        ctx.ok("no_effect", diff(before, snap(fb)) is None, diff(before, snap(fb)))
    sp = np.fft.rfft(h, axis=0)
    if not ctx.ok("curves", len(got) == h.shape[1] + (extra and what == "magnitude" and kind in ("lr", "qmf") and (kind == "lr" or len(got) == h.shape[1] + 1)), f"{len(got)} {h.shape} {kind} {what}"):
        return
    idx = positions(ctx, kind, got[0][0], f, rng)
    if idx is None:
        return
    for c, (_, y) in enumerate(got):
        v = sp[:, c] if c < sp.shape[1] else np.sum(sp, 1)
        a = np.abs(v[idx])
        sel = a > 1e-4 * np.max(np.abs(v))
        if what == "magnitude":
            ctx.close("magnitude", y[sel], db(a)[sel], 0, 1e-6, msg=f"{kind} {c}")
        elif what == "phase":
            e = np.angle(np.exp(1j * y) * np.conj(v[idx]))
            ctx.ok("phase", bool(np.max(np.abs(e[sel])) < 1e-6), f"{np.max(np.abs(e[sel]))}")
        else:
            u = np.unwrap(np.angle(v))
            w = (-np.gradient(u, f[1]) / 2 / np.pi * 1e3)[idx]
            ctx.close("group_delay", y[sel], w[sel], 1e-6, 1e-6)


def spectra(ctx):
    s, f, d, co = make_spectrum(ctx)
    before = snap(s)
    mag = np.abs(d)
    ctx.need(np.all(np.max(mag, 0) > 1e-6))
    norm = ctx.pick("norm", NORMS)
    ind = ctx.flag("in_db", 0.6)
    dyn = ctx.pick("dyn", [None, None, 60.0])
    if norm in (N.OneKhz, N.OneKhzFirstChannel):
        ctx.need(f[0] < 1000 < f[-1] and np.sum(f < 1000) > 3 and np.sum(f > 1000) > 3)
    with figures(ctx):
        fig, ax = s.plot_magnitude(ind, norm, dyn)
        got = lines(ax)
        unit = ax.get_ylabel()
    ctx.ok("no_effect", diff(before, snap(s)) is None, diff(before, snap(s)))
    if not ctx.equal("one_curve_per_channel", len(got), d.shape[1]):
        return
    ctx.ok("unit", unit == ("Magnitude / dB" if ind else "Magnitude / 1"), unit)
    ctx.ok("axis", all(np.array_equal(a, f) for a, _ in got))
    y = np.stack([v for _, v in got], 1)
    if not ind:
        y = db(y)
    if norm in (N.OneKhz, N.OneKhzFirstChannel):
        i = int(np.searchsorted(f, 1000.0))
        seg = db(mag)[max(i - 3, 0) : i + 3]
        slack = np.ptp(seg, 0) + 0.5
        opts = [(np.min(seg, 0) - slack, np.max(seg, 0) + slack)]
        own = db(np.abs(s.copy().get_interpolated_spectrum(np.array([1000.0]), dsp.SpectrumType.Magnitude)))[0]
        opts = [(own, own)]
        if "FirstChannel" in norm.name:
            opts = [(np.full(len(own), own[0]),) * 2]
    elif norm in (N.Energy, N.EnergyFirstChannel):
        # the mean power, over the bins or over frequency
        opts = []
        for e in (np.mean(mag**2, 0), np.trapezoid(mag**2, f, axis=0) / (f[-1] - f[0]), np.asarray(s.get_energy()) / len(f)):
            e = db(e, False)
            opts.append((np.full(len(e), e[0]) if "First" in norm.name else e,) * 2)
    else:
        opts = gains(f, mag**2, norm, slice(None))
    compare_db(ctx, "curves", list(y.T), db(mag), opts, 1e-9, 50 if dyn else 100)
    if co is not None:
        with figures(ctx):
            fig, ax = s.plot_coherence()
            got = [lines(a) for a in ax]
        ctx.equal("coherence_axes", len(got), d.shape[1])
        for i, g in enumerate(got):
            ctx.equal("coherence", g[0][1], co[:, i])
            ctx.equal("coherence_axis", g[0][0], f)


def maps(ctx):
    """Grids, maps and settings of the beamformers."""
    dims = list("xyz")
    kind = ctx.pick("kind", ["2d", "3d", "line", "points", "setting"])
    l = [np.sort(ctx.normal(ctx.int("len", 2, 7))) for _ in range(3)]
    rdb = ctx.pick("range_db", [20, 35.0])
    with figures(ctx):
        if kind == "2d":
            a, b = ctx.pick("plane", [("x", "y"), ("x", "z"), ("y", "z"), ("y", "x"), ("z", "x")])
            g = bf.Regular2DGrid(l[0], l[1], [a, b], 0.7)
            m = ctx.rng.random(g.number_of_points) + 1e-3
            mm = g.reconstruct_map_shape(m)
            ctx.need(len(l[0]) * len(l[1]) != len(l[0]))
            fig, ax = g.plot_map(m if ctx.flag("flat") else mm, rdb)
            im = ax.get_images()[0]
            y = np.asarray(im.get_array(), float)
            ext = im.get_extent()
            # value drawn for each of the points
            A = db(m, False)
            for p, v in zip(g.coordinates, A):
                r = int(np.argmin(np.abs(l[0] - p[dims.index(a)])))
                c = int(np.argmin(np.abs(l[1] - p[dims.index(b)])))
                if a > b:
                    pass
                ctx.ok("map_value", abs(y[r, c] - v) < 1e-6 or (y.shape == (len(l[1]), len(l[0])) and abs(y[c, r] - v) < 1e-6), f"{y.shape} {a}{b}")
            lab = (ax.get_xlabel(), ax.get_ylabel())
            h, vv = lab[0][0], lab[1][0]
            ctx.ok("map_labels", {h, vv} == {a, b}, f"{lab}")
            line = {a: l[0], b: l[1]}
            ctx.ok("map_extent", np.allclose(ext, [line[h][0], line[h][-1], line[vv][0], line[vv][-1]]), f"{ext}")
            ctx.ok("map_orientation", y.shape == (len(line[vv]), len(line[h])))
            ctx.ok("map_range", np.allclose(im.get_clim(), [np.max(A) - rdb, np.max(A)]))
        elif kind == "3d":
            g = bf.Regular3DGrid(*l)
            m = ctx.rng.random(g.number_of_points) + 1e-3
            third = ctx.pick("third", dims)
            k = dims.index(third)
            at = int(ctx.rng.integers(len(l[k])))
            fig, ax = g.plot_map(m if ctx.flag("flat") else g.reconstruct_map_shape(m), third, l[k][at], rdb)
            im = ax.get_images()[0]
            y = np.asarray(im.get_array(), float)
            h, vv = ax.get_xlabel()[0], ax.get_ylabel()[0]
            line = dict(zip(dims, l))
            sel = np.isclose(g.coordinates[:, k], l[k][at])
            ctx.ok("plane_labels", {h, vv} == set(dims) - {third})
            for p, v in zip(g.coordinates[sel], db(m[sel], False)):
                r = int(np.argmin(np.abs(line[vv] - p[dims.index(vv)])))
                c = int(np.argmin(np.abs(line[h] - p[dims.index(h)])))
                ctx.ok("plane_value", y.shape == (len(line[vv]), len(line[h])) and abs(y[r, c] - v) < 1e-6)
        elif kind in ("line", "points"):
            if kind == "line":
                d = ctx.pick("dim", dims)
                g = bf.LineGrid(l[0], d, 0.3, -0.2)
            else:
                g = bf.Grid(dict(x=ctx.normal(9), y=ctx.normal(9), z=ctx.pick("flat", [np.zeros(9), ctx.normal(9)])))
            pr = ctx.pick("projection", [None, "3d", "2D", "3D"])
            fig, ax = g.plot_points(pr)
            o = ax.collections[0]
            if hasattr(o, "_offsets3d"):
                p = np.stack([np.asarray(v, float) for v in o._offsets3d], 1)
                ctx.close("points_3d", p, g.coordinates, 1e-9, 1e-12)
            else:
                ctx.ok("projection", g.ndim < 3)
                p = np.asarray(o.get_offsets(), float)
                h, vv = (ax.get_xlabel()[1], ax.get_ylabel()[1])
                ctx.close("points_2d", p, g.coordinates[:, [dims.index(h), dims.index(vv)]], 1e-9, 1e-12)
        else:
            pos = dict(x=ctx.normal(6), y=ctx.normal(6), z=np.zeros(6))
            mics = bf.MicArray(pos)
            g = bf.Regular2DGrid(l[0], l[1], ["x", "y"], 0.7)
            s = dsp.Signal(None, ctx.normal(2000, 6), 8000)
            with_grid = ctx.flag("with_grid")
            b = bf.BeamformerDASFrequency(s, mics, g, bf.SteeringVector(bf.SteeringVectorType.Classic)) if with_grid else bf.BeamformerDASTime(s, mics, g)
            fig, ax = b.plot_setting()
            clouds = [np.stack([np.atleast_1d(np.asarray(v, float)) for v in o._offsets3d], 1) for o in ax.collections]
            ctx.equal("clouds", len(clouds), 3)
            if len(clouds) == 3:
                ctx.close("mics", clouds[0], mics.coordinates, 1e-9)
                ctx.close("grid", clouds[1], g.coordinates, 1e-9)
                ctx.close("center", clouds[2][0], mics.array_center_coordinates, 1e-9)
    ctx.event("maps")


def templates(ctx):
    n, c = ctx.int("n", 2, 300), ctx.int("c", 1, 5)
    m = ctx.normal(n, c) if not ctx.flag("vector", 0.2) else ctx.normal(n)
    mm = m if m.ndim == 2 else m[:, None]
    x = np.sort(ctx.rng.uniform(1, 1000, n)) if ctx.flag("x") else None
    xx = np.arange(n) if x is None else x
    log = ctx.flag("log")
    rx = ctx.pick("rx", [None, [10, 500], (5.0, 200.0)])
    ry = ctx.pick("ry", [None, [-2, 3]])
    which = ctx.pick("which", ["plot", "two", "subplots", "matrix"])
    keep = snap([m, x])
    k = mm.shape[1]
    with figures(ctx):
        if which == "plot":
            labels = ctx.pick("labels", [None, [f"L{i}" for i in range(k)], tuple(f"L{i}" for i in range(k))] + (["one"] if k == 1 else []))
            fig, ax = plots.general_plot(x, m, rx, ry, log, labels, "X", "Y", ctx.pick("info", [None, "text"]))
            axes = [(ax, mm)]
            if labels is not None:
                ctx.equal("legend", [t.get_text() for t in ax.get_legend().get_texts()], [labels] if isinstance(labels, str) else list(labels))
            ctx.ok("axis_labels", ax.get_xlabel() == "X" and ax.get_ylabel() == "Y")
        elif which == "two":
            m2 = ctx.normal(ctx.int("n2", 2, 50), ctx.int("c2", 1, 3))
            fig, ax = plots.general_plot_two_axes(x, m, None, m2, rx, ry, r2 := ctx.pick("ry2", [None, [-3.0, 7.0]]), log, l1 := ([f"L{i}" for i in range(k)] if ctx.flag("l1") else ("only" if k == 1 else None)), l2 := ctx.pick("l2", [None, [f"R{i}" for i in range(m2.shape[1])]] + (["R"] if m2.shape[1] == 1 else [])), "X", "Y1", "Y2", info_box=ctx.pick("info2", [None, "text"]))
            axes = [(ax[0], mm)]
            if r2 is not None:
                ctx.close("ry2", ax[1].get_ylim(), r2, 1e-9)
            texts = [[t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() else [] for a in ax]
            as_list = lambda l: [] if l is None else [l] if isinstance(l, str) else list(l)
            ctx.equal("legend_two", sum(texts, []), as_list(l1) + as_list(l2))
            ctx.ok("labels_two", ax[0].get_ylabel() == "Y1" and ax[1].get_ylabel() == "Y2" and ax[0].get_xlabel() == "X")
            g = lines(ax[1])
            ctx.equal("second_curves", len(g), m2.shape[1])
            for i, (a, b) in enumerate(g):
                ctx.equal("second", b, m2[:, i])
                ctx.equal("second_x", a, np.arange(len(m2)).astype(float))
        elif which == "subplots":
            xl = ctx.pick("xlabels", [None, "T", [f"T{i}" for i in range(k)], ["T"]])
            yl = ctx.pick("ylabels", [None, [f"Y{i}" for i in range(k)]])
            fig, ax = plots.general_subplots_line(x, m, ctx.flag("column"), ctx.flag("sharex"), ctx.flag("sharey"), log, xl, yl, rx, ry)
            ctx.equal("axes", len(ax), k)
            axes = [(a, mm[:, i : i + 1]) for i, a in enumerate(ax)]
            if yl is not None:
                ctx.ok("ylabels", [a.get_ylabel() for a in ax] == yl)
            if isinstance(xl, list) and len(xl) == k and k > 1:
                ctx.ok("xlabels", [a.get_xlabel() for a in ax] == xl)
            elif xl is not None:
                ctx.ok("xlabel", ax[-1].get_xlabel() == (xl if isinstance(xl, str) else xl[0]), f"{ax[-1].get_xlabel()} {xl}")
        else:
            ctx.need(k > 1)
            rz = ctx.pick("rz", [None, 1.5])
            low = ctx.flag("low")
            own = ctx.flag("extent")
            fig, ax = plots.general_matrix_plot(m, [1.0, 5.0] if own else None, [10, 200] if own else None, rz, "X", "Y", ctx.pick("zl", [None, "Z"]), ctx.flag("xlog", 0.2), ctx.flag("ylog", 0.2), ctx.flag("bar"), "viridis", low)
            im = ax.get_images()[0]
            ctx.equal("matrix", np.asarray(im.get_array(), float), mm)
            ctx.ok("origin", im.origin == ("lower" if low else "upper"))
            ctx.close("clim", im.get_clim(), [mm.min() if rz is None else mm.max() - rz, mm.max()], 1e-9)
            if own:
                ctx.close("extent", im.get_extent(), [1, 5, 10, 200], 1e-12)
            axes = []
        for ax, want in axes:
            g = lines(ax)
            if not ctx.equal("curves", len(g), want.shape[1]):
                continue
            for i, (a, b) in enumerate(g):
                ctx.equal("x", a, xx.astype(float))
                ctx.equal("y", b, want[:, i])
            if rx is not None:
                ctx.close("rx", ax.get_xlim(), rx, 1e-9)
            if ry is not None:
                ctx.close("ry", ax.get_ylim(), ry, 1e-9)
            ctx.ok("scale", ax.get_xscale() == ("log" if log else "linear"))
    ctx.ok("no_effect", diff(keep, snap([m, x])) is None)


def others(ctx):
    """Plots of effects and analysis functions."""
    which = ctx.pick("which", ["compressor", "delay", "lfo", "mel", "mfcc", "modal"])
    fs = ctx.pick("fs", [16000, 48000])
    with figures(ctx):
        if which == "compressor":
            th, ratio = ctx.uniform("th", -50, -5), ctx.uniform("ratio", 1.5, 10)
            mix = ctx.pick("mix", [100.0, 40.0])
            e = dsp.effects.Compressor(threshold_dbfs=th, attack_time_ms=10, release_time_ms=20, ratio=ratio)
            e.set_advanced_parameters(knee_factor_db=0.0, mix_percent=mix)
            fig, ax = e.show_compression()
            (a, b), (u, v) = lines(ax)[:2]
            ctx.close("identity", b, a, 1e-12)
            w = np.where(u > th, th + (u - th) / ratio, u)
            w = db(mix / 100 * 10 ** (w / 20) + (1 - mix / 100) * 10 ** (u / 20))
            ctx.close("compression", v, w, 1e-6)
        elif which == "delay":
            ms, fb = ctx.uniform("ms", 20, 300), ctx.uniform("feedback", 0.1, 0.8)
            e = dsp.effects.DigitalDelay(delay_time_ms=ms, feedback=fb)
            fig, ax = e.plot_delay()
            x, y = lines(ax)[0]
            hits = np.flatnonzero(y > -90)
            k = np.arange(len(hits))
            keep = fb**k > 1e-4
            ctx.close("repetitions", x[hits][keep], (k * ms)[keep], 0, 0.6 * np.max(k + 1) if len(k) else 1)
            ctx.close("levels", y[hits][keep], db(fb**k)[keep], 0, 1e-3)
        elif which == "lfo":
            shape = ctx.pick("shape", ["harmonic", "sawtooth", "square", "triangle"])
            fig, ax = dsp.effects.LFO(1.0, shape).plot_waveform()
            x, y = lines(ax)[0]
            ctx.ok("two_periods", len(y) == 1000 and np.max(np.abs(y)) <= 1 + 1e-9)
            ctx.close("periodic", y[:450], y[500:950], 0, 0.05 if shape != "harmonic" else 1e-6) if shape == "harmonic" else ctx.ok("bounded", np.min(y) < -0.4 and np.max(y) > 0.4)
        elif which in ("mel", "mfcc"):
            c = ctx.int("c", 1, 3)
            s = dsp.Signal(None, ctx.normal(4000, c) * 0.1, fs)
            before = snap(s)
            ch = ctx.int("ch", 0, c - 1)
            if which == "mel":
                t, f, m, fig, ax = dsp.transforms.log_mel_spectrogram(s, ch, n_bands=20)
            else:
                t, f, m, fig, ax = dsp.transforms.mfcc(s, ch)
            im = ax.get_images()[0]
            ctx.equal("matrix", np.asarray(im.get_array(), float), m[..., ch])
            ctx.close("extent", im.get_extent(), [t[0], t[-1], f[0], f[-1]], 1e-9, 1e-9)
            ctx.ok("no_effect", diff(before, snap(s)) is None)
        else:
            r = dsp.room_acoustics.ShoeboxRoom([3.0, 4.0, 2.5], t60_s=0.5)
            f = np.linspace(20, 200, 50)
            p, modes, plot = r.get_analytical_transfer_function([1.0, 1, 1], [2.0, 2, 1.5], f, 5, True)
            x, y = lines(plot[1])[0]
            ctx.close("axis", x, f, 1e-12)
            ctx.close("levels", y, db(p) - np.max(db(p)), 0, 1e-6)


FAMILIES = [
    Family("magnitude", magnitude, 200, 5000),
    Family("time", time, 80, 1500),
    Family("spl", spl, 120, 2500),
    Family("phase", phase, 160, 4000),
    Family("bode", bode, 120, 2500),
    Family("spectrogram", spectrogram, 60, 1000),
    Family("csm", csm, 60, 1000),
    Family("filters", filters, 160, 5000),
    Family("banks", banks, 110, 4000),
    Family("other_banks", other_banks, 90, 2000),
    Family("spectra", spectra, 120, 3000),
    Family("maps", maps, 120, 2500),
    Family("templates", templates, 120, 3000),
    Family("others", others, 90, 1500),
]
