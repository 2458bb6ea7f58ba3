"""P31: distance and quality measures."""

import contextlib
import io
import warnings

import numpy as np
from scipy.integrate import simpson
from scipy.signal import get_window
import dsptoolbox as dsp
from dsptoolbox import distances as di
from rtm.core import Family
from rtm.snap import snap, diff
from rtm import gen

PROPERTY = "P31"
SM, SS = dsp.SpectrumMethod, dsp.SpectrumScaling


def silent(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def sig(x, fs):
    return dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)


def pair(ctx, n=None, c=None, fs=None):
    fs = fs or ctx.pick("fs", [16000, 44100, 48000])
    n = n or ctx.int("n", 2500, 9000)
    c = c or ctx.int("ch", 1, 4)
    x = gen.content(ctx, n, c, fs, ("noise", "mixture")) + ctx.rng.normal(size=(n, c)) * 0.01
    y = x * ctx.rng.uniform(0.3, 2, c) + ctx.rng.normal(size=(n, c)) * ctx.logu("distortion", 1e-3, 0.3)
    return fs, x, y


def spectral(ctx):
    fs, x, y = pair(ctx)
    c = x.shape[1]
    method = ctx.pick("method", [SM.WelchPeriodogram, SM.FFT])
    par = ctx.pick("parameters", [None, {}, "random"])
    if par == "random":
        par = dict(scaling=ctx.pick("scaling", gen.ALL_SCALINGS), window_length_samples=ctx.pick("window", [256, 512, 1024]), detrend=False, smoothing=ctx.pick("smoothing", [0, 0, 3]) if method == SM.FFT else 0)
    norm = ctx.flag("normalize")
    rg = ctx.pick("range", [None, [100, fs * 0.4], (fs * 0.4, 200), np.array([3000.0, 500.0])])
    rb = None if rg is None else np.array(rg)
    if rg is None and not isinstance(par, dict) or par == {}:
        # The mean of each frame is removed by default: nearly no energy at DC
        par = dict(par or {}, detrend=False)
    s1, s2 = sig(x, fs), sig(y, fs)
    s1.set_spectrum_parameters(**gen.random_spectrum_params(ctx, 600))
    b1, b2, pb = snap(s1), snap(s2), None if par is None else dict(par)
    f = lambda g, a, b: silent(lambda: g(a, b, method, rg, norm, par))
    ls, it = f(di.log_spectral, s1, s2), f(di.itakura_saito, s1, s2)
    ctx.ok("input_kept", diff(b1, snap(s1)) is None and diff(b2, snap(s2)) is None and par == pb and (rg is None or np.array_equal(rb, rg)), str((diff(b1, snap(s1)), diff(b2, snap(s2)), rg))[:300])
    # Definitions on the power spectra
    P = []
    for z in (x, y):
        s = sig(z, fs)
        s.set_spectrum_parameters(method=method, **(par or {}))
        fr, sp = silent(lambda: s.get_spectrum())
        sp = np.abs(sp) ** (2 if s.spectrum_scaling not in (SS.PowerSpectrum, SS.PowerSpectralDensity) else 1)
        P.append(sp)
    lo, hi = (0, fs // 2) if rg is None else sorted(rg)
    i0, i1 = np.argmin(np.abs(fr - lo)), np.argmin(np.abs(fr - hi))
    fr = fr[i0:i1]
    A, B = (p[i0:i1] for p in P)
    if norm:
        A, B = A / np.sum(A, 0), B / np.sum(B, 0)
    if np.all(A > 0) and np.all(B > 0):
        ctx.close("log_spectral", ls, np.sqrt(simpson((10 * np.log10(A / B)) ** 2, x=fr, axis=0)), 1e-6)
        ctx.close("itakura_saito", it, simpson(A / B - np.log(A / B) - 1, x=fr, axis=0), 1e-6)
    ctx.equal("shape", (ls.shape, it.shape), ((c,), (c,)))
    ctx.ok("nonnegative", np.min(ls) >= 0 and np.min(it) >= 0, f"{ls} {it}")
    ctx.close("symmetric", f(di.log_spectral, s2, s1), ls, 1e-9)
    for g, name in ((di.log_spectral, "log_spectral"), (di.itakura_saito, "itakura_saito")):
        same = f(g, s1, sig(x, fs))
        ctx.close("zero_" + name, same, np.zeros(c), 0, atol=1e-6)
        ctx.close("same_object_" + name, f(g, s1, s1), np.zeros(c), 0, atol=1e-6)
        gain = ctx.rng.uniform(0.2, 4)
        v = f(g, s1, sig(x * gain, fs))
        if norm:
            ctx.close("gain_free_" + name, v, np.zeros(c), 0, atol=1e-4)
        else:
            w = fr[-1] - fr[0]
            ref = abs(20 * np.log10(gain)) * np.sqrt(w) if g is di.log_spectral else w * (gain**-2 + 2 * np.log(gain) - 1)
            ctx.close("gain_" + name, v, np.full(c, ref), 1e-4, atol=1e-4)
        p = ctx.rng.permutation(c)
        ctx.close("channel_order_" + name, f(g, sig(x[:, p], fs), sig(y[:, p], fs)), f(g, s1, s2)[p], 1e-9)
    ctx.raises("beyond_nyquist", lambda: di.log_spectral(s1, s2, method, [20, fs]))
    ctx.raises("negative", lambda: di.itakura_saito(s1, s2, method, [-20, 1000]))
    ctx.raises("rates", lambda: di.log_spectral(s1, sig(y, fs // 2)))
    ctx.raises("channels", lambda: di.itakura_saito(s1, sig(np.hstack([y, y]), fs)))


def ratios(ctx):
    """SNR and SI-SDR."""
    fs, x, y = pair(ctx)
    n, c = x.shape
    nz = ctx.rng.normal(size=(n, c)) * ctx.logu("noise", 1e-4, 1)
    if ctx.flag("other_length"):
        nz = nz[: ctx.int("noise_length", 10, n)]
    one = ctx.flag("single")
    if one:
        nz = nz[:, :1]
    s, no = sig(x, fs), sig(nz, fs)
    b1, b2 = snap(s), snap(no)
    v = di.snr(s, no)
    ctx.ok("input_kept", diff(b1, snap(s)) is None and diff(b2, snap(no)) is None)
    ctx.close("snr", v, np.broadcast_to(10 * np.log10(np.mean(x**2, 0) / np.mean(nz**2, 0)), (c,)), 1e-9, scale=1)
    g = ctx.logu("gain", 0.01, 10)
    ctx.close("snr_gain", di.snr(sig(x * g, fs), no), v + 20 * np.log10(g), 1e-9, scale=1)
    ctx.close("snr_noise_gain", di.snr(s, sig(nz * g, fs)), v - 20 * np.log10(g), 1e-9, scale=1)
    ctx.close("snr_itself", di.snr(s, s), np.zeros(c), 0, atol=1e-9)
    p = ctx.rng.permutation(c)
    ctx.close("snr_order", di.snr(sig(x[:, p], fs), sig(nz if one else nz[:, p], fs)), v[p], 1e-9, scale=1)
    # Scale-invariant signal to distortion
    t = x[:, :1] if one else x
    T, M = sig(t, fs), sig(y, fs)
    b1, b2 = snap(T), snap(M)
    d = di.si_sdr(T, M)
    ctx.ok("sdr_input_kept", diff(b1, snap(T)) is None and diff(b2, snap(M)) is None)
    tb = np.broadcast_to(t, y.shape)
    a = np.sum(tb * y, 0) / np.sum(tb**2, 0)
    ctx.close("si_sdr", d, 10 * np.log10(np.sum((a * tb) ** 2, 0) / np.sum((a * tb - y) ** 2, 0)), 1e-7, scale=1)
    gs = ctx.pick("sign", [-1, 1]) * ctx.logu("scale", 0.01, 10)
    ctx.close("sdr_scale_modified", di.si_sdr(T, sig(y * gs, fs)), d, 1e-7, scale=1)
    ctx.close("sdr_scale_target", di.si_sdr(sig(t * gs, fs), M), d, 1e-7, scale=1)
    best = silent(lambda: di.si_sdr(T, sig(tb * gs, fs)))
    ctx.ok("sdr_identical", np.all(best > 250), f"{best}")
    ctx.close("sdr_order", di.si_sdr(sig(t if one else t[:, p], fs), sig(y[:, p], fs)), d[p], 1e-7, scale=1)
    # Orthogonal noise: exact level, decreasing
    q = ctx.rng.normal(size=(n, c))
    q -= tb * np.sum(q * tb, 0) / np.sum(tb**2, 0)
    q *= np.sqrt(np.sum(tb**2, 0) / np.sum(q**2, 0))
    last = np.inf
    for a in np.sort(ctx.rng.uniform(0.001, 3, 4)):
        v = di.si_sdr(T, sig(tb + a * q, fs))
        ctx.close("sdr_level", v, np.full(c, -20 * np.log10(a)), 1e-6, scale=1)
        ctx.ok("sdr_decreases", np.all(v < last))
        last = v
    ctx.raises("rates", lambda: di.snr(s, sig(nz, fs * 2)))
    ctx.raises("sdr_rates", lambda: di.si_sdr(T, sig(y, fs * 2)))
    ctx.raises("sdr_length", lambda: di.si_sdr(T, sig(y[:-1], fs)))
    ctx.raises("channels", lambda: di.snr(s, sig(np.ones((n, c + 1 + (c == 0))) * 0.1, fs)))


def frames(x, xh, fs, gamma, lim, bank):
    """Direct evaluation on the bands of both channels."""
    N = int(0.075 * fs)
    N += N % 2
    w, st = get_window("hamming", N), N // 2
    K = int(np.ceil(len(x) / st))
    x, xh = (np.vstack([q, np.zeros((2 * N, q.shape[1]))]) for q in (x, xh))
    out = []
    for i in range(K):
        X, Y = (np.abs(np.fft.rfft(q[i * st : i * st + N] * w[:, None], axis=0)) for q in (x, xh))
        if not np.any(X):
            continue
        W = X**gamma
        X, Y = X / (np.sum(X, 0) + 1e-30), Y / (np.sum(Y, 0) + 1e-30)
        r = np.sum(np.log10(X**2 / (X - Y + 1e-30) ** 2) * W, 1) / np.sum(W, 1)
        out.append(np.clip(10 * np.mean(r), *lim))
    return np.array(out)


def segmental(ctx):
    fs = ctx.pick("fs", [16000, 24000])
    n = ctx.int("n", 3000, 9000)
    c = ctx.int("ch", 1, 3)
    one = ctx.flag("single") and c > 1
    x = gen.content(ctx, n, 1 if one else c, fs, ("noise", "mixture", "decay")) + ctx.rng.normal(size=(n, 1 if one else c)) * 1e-3
    quiet = ctx.flag("silence", 0.4)
    if quiet:
        x[: ctx.int("silent", 100, n // 2)] = 0
    xb = np.broadcast_to(x, (n, c))
    nz = ctx.rng.normal(size=(n, c)) * np.sqrt(np.mean(x**2))
    a = ctx.logu("noise", 0.01, 2)
    y = xb + a * nz
    rg = np.array(ctx.pick("range", [[200.0, 4000.0], [3000.0, 100.0]]))
    lim = np.array(ctx.pick("limits", [[-10, 35], [35, -10], [0, 20]]))
    gamma = ctx.pick("gamma", [0.1, 0.2, 1, 2])
    X, Y = sig(x, fs), sig(y, fs)
    b = snap(X), snap(Y), rg.copy(), lim.copy()
    f = lambda p, q: silent(lambda: di.fw_snr_seg(p, q, rg, lim, gamma))
    v = f(X, Y)
    ctx.ok("input_kept", diff(b[0], snap(X)) is None and diff(b[1], snap(Y)) is None and np.array_equal(rg, b[2]) and np.array_equal(lim, b[3]))
    ctx.equal("shape", v.shape, (c,))
    ctx.ok("finite", np.all(np.isfinite(v)), str(v))
    ctx.ok("within_limits", np.all((v >= min(lim) - 1e-9) & (v <= max(lim) + 1e-9)), f"{v}")
    bank = silent(lambda: dsp.filterbanks.auditory_filters_gammatone(np.sort(rg), 1, sampling_rate_hz=fs))
    split = lambda s: [silent(lambda: bank.filter_signal(s, dsp.FilterBankMode.Parallel)).bands]
    bx, by = split(X)[0], split(Y)[0]
    ref = [frames(np.stack([q.time_data[:, 0 if one else i] for q in bx], 1), np.stack([q.time_data[:, i] for q in by], 1), fs, gamma, np.sort(lim), bank) for i in range(c)]
    # Padding may add or omit a last frame
    for i in range(c):
        r = ref[i]
        alt = [np.mean(r), np.mean(r[:-1]), np.mean(r[:-2])]
        ctx.ok("definition", min(abs(v[i] - q) for q in alt) < 1e-4 * 40, f"{v[i]} {alt}")
    same = f(X, sig(xb, fs))
    ctx.close("identical_is_best", same, np.full(c, float(max(lim))), 1e-6)
    p = ctx.rng.permutation(c)
    ctx.close("order", f(X if one else sig(x[:, p], fs), sig(y[:, p], fs)), v[p], 1e-9, scale=1)
    worse = f(X, sig(xb + 8 * a * nz, fs))
    better = f(X, sig(xb + a / 8 * nz, fs))
    ctx.ok("more_noise_is_worse", np.all(worse <= v + 0.3) and np.all(better >= v - 0.3), f"{better} {v} {worse}")
    g = ctx.logu("gain", 0.1, 5)
    ctx.close("gain", f(X, sig(y * g, fs)), v, 1e-4, scale=10)
    ctx.raises("gamma", lambda: di.fw_snr_seg(X, Y, gamma=ctx.pick("bad", [0.01, 5])))
    ctx.raises("length", lambda: di.fw_snr_seg(X, sig(y[:-1], fs), [200, 4000]))
    ctx.raises("range", lambda: di.fw_snr_seg(X, Y, [20, fs]))
    ctx.raises("rates", lambda: di.fw_snr_seg(X, sig(y, fs * 2), [200, 4000]))


MORE = 4  # times the number of cases below in the quick tier
FAMILIES = [
    Family("spectral", spectral, 50, 1200),
    Family("ratios", ratios, 50, 1200),
    Family("segmental", segmental, 16, 300),
]
