"""P21: system identification."""

import numpy as np
import scipy.signal as sig
import dsptoolbox as dsp
from dsptoolbox import transfer_functions as tf
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff
from rtm.checks.p07 import WINS

PROPERTY = "P21"
MODES = list(tf.TransferFunctionType)


def system(ctx, L, c):
    """FIR responses of c channels with L taps."""
    kind = ctx.pick("system", ["gain", "delay", "fir", "resonant"])
    h = np.zeros((L, c))
    for k in range(c):
        g = ctx.rng.uniform(0.1, 5) * ctx.rng.choice([-1, 1])
        if kind == "gain":
            h[0, k] = g
        elif kind == "delay":
            h[int(ctx.rng.integers(0, L)), k] = g
        elif kind == "fir":
            h[:, k] = ctx.normal(L) * np.exp(-np.arange(L) / (L / 6)) * g
            h[0, k] += g
        else:
            w = ctx.rng.uniform(0.2, 2.8)
            h[:, k] = g * 0.97 ** np.arange(L) * np.cos(w * np.arange(L))
    return h


def sweep(fs, n, f0, f1, active):
    t = np.arange(active) / fs
    T = active / fs
    k = np.log(f1 / f0)
    s = np.sin(2 * np.pi * f0 * T / k * (np.exp(t / T * k) - 1))
    nf = max(8, active // 50)
    fade = np.sin(np.linspace(0, np.pi / 2, nf)) ** 2
    s[:nf] *= fade
    s[-nf:] *= fade[::-1]
    out = np.zeros(n)
    out[:active] = s
    return out


def dress(ctx, x, fs, cls=None, other=True):
    """A signal around the data whose other settings must not matter."""
    s = (cls or ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse]))(None, x.copy(), fs, constrain_amplitude=False)
    if other:
        method = gen.SM.FFT if isinstance(s, dsp.ImpulseResponse) else ctx.pick("method", list(gen.SM))
        s.set_spectrum_parameters(**gen.random_spectrum_params(ctx, 64, method))
    return s


def arrange(ctx, hmax):
    c = ctx.int("ch", 1, 4)
    multi = ctx.flag("single_input")
    return c, 1 if multi else c


def deconv_plain(ctx):
    """Without regularisation the circular system is recovered exactly; with
    padding the linear one."""
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 60, 3000)
    c, ci = arrange(ctx, n)
    L = ctx.int("L", 1, n // 2)
    h = system(ctx, L, c)
    pad = ctx.flag("padding")
    keep = ctx.flag("keep")
    if pad:
        # minimum-phase excitation: its spectrum has no deep dips
        x = np.zeros((n, ci))
        x[0] = 1.0
        m = n - L
        k = ctx.int("taps", 1, max(1, min(m, 20)))
        x[1:k] = ctx.normal(max(k - 1, 0), ci)[: len(x[1:k])] * (0.9 / max(k, 1) / 4)
        y = np.stack([np.convolve(x[:, q % ci], h[:, q])[:n] for q in range(c)], 1)
    else:
        ph = ctx.rng.uniform(-np.pi, np.pi, (n // 2 + 1, ci))
        X = ctx.rng.uniform(0.5, 2, ph.shape) * np.exp(1j * ph)
        X[0] = np.abs(X[0])
        if n % 2 == 0:
            X[-1] = np.abs(X[-1])
        x = np.fft.irfft(X, n, axis=0)
        y = np.fft.irfft(np.fft.rfft(x, axis=0) * np.fft.rfft(h, n, axis=0), n, axis=0)
    g = ctx.logu("level", 1e-4, 10)
    X, Y = dress(ctx, x * g, fs), dress(ctx, y * g, fs)
    b = snap(X), snap(Y)
    out = tf.spectral_deconvolve(Y, X, False, padding=pad, keep_original_length=keep)
    ctx.ok("inputs_kept", diff(b[0], snap(X)) is None and diff(b[1], snap(Y)) is None)
    m = n if not pad or keep else 2 * n
    ref = np.zeros((m, c))
    ref[:L] = h
    ctx.ok("plain_type", type(out) is dsp.ImpulseResponse and out.sampling_rate_hz == fs)
    ctx.close(f"plain_pad{int(pad)}", out.time_data, ref, 1e-7, scale=np.max(np.abs(ref)))
    ctx.raises("range_without_regularisation", lambda: tf.spectral_deconvolve(Y, X, False, [100, 200]))


def ratio(ctx, key, out, h, N, fs, rng, soft=None):
    """Estimate / system: one inside the range, in [0, 1] outside."""
    f = np.fft.rfftfreq(N, 1 / fs)
    E = np.fft.rfft(out.time_data, axis=0)
    H = np.fft.rfft(h, N, axis=0)
    big = np.abs(H) > 1e-3 * np.max(np.abs(H), 0)
    for k in range(h.shape[1]):
        lo, hi = rng[k]
        ins = (f >= lo) & (f <= hi) & big[:, k]
        ctx.event("bins_in_band", int(ins.sum()))
        r = E[:, k] / np.where(big[:, k], H[:, k], 1)
        ctx.close(f"{key}_in_band", r[ins], np.ones(ins.sum()), 0, atol=1e-6)
        o = big[:, k]
        if N % 2 == 0:
            o = o.copy()
            o[[0, -1]] = False
        ctx.ok(f"{key}_outside_phase", np.all(np.abs(r[o].imag) < 1e-5) and np.all(r[o].real > -1e-5) and np.all(r[o].real < 1 + 1e-5), f"{np.min(r[o].real)} {np.max(r[o].real)}")


def deconv_reg(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 1500, 9000)
    c, ci = arrange(ctx, n)
    L = ctx.int("L", 1, 200)
    h = system(ctx, L, c)
    pad = ctx.flag("padding")
    act = int((n - L) * 0.9)
    rngs = []
    x = np.zeros((n, ci))
    for k in range(ci):
        f0, f1 = fs * ctx.rng.uniform(0.01, 0.04), fs * ctx.rng.uniform(0.2, 0.45)
        x[:, k] = sweep(fs, n, f0, f1, act)
        rngs.append((f0, f1))
    y = np.stack([np.convolve(x[:, q % ci], h[:, q])[:n] for q in range(c)], 1)
    g = ctx.logu("level", 0.05, 1)
    X, Y = dress(ctx, x * g, fs), dress(ctx, y * g, fs)
    N = 2 * n if pad else n
    mode = ctx.pick("range", ["auto", "two", "four"])
    thr = ctx.pick("thr", [-10.0, -20.0, -30.0])
    df = fs / N
    if mode == "auto":
        A = np.abs(np.fft.rfft(x, N, axis=0))
        f = np.fft.rfftfreq(N, 1 / fs)
        ok = [f[A[:, k] > np.max(A[:, k]) * 10 ** (thr / 20)] for k in range(ci)]
        band = [(o[0] + df, o[-1] - df) for o in ok]
        arg = None
    else:
        lo, hi = max(r[0] for r in rngs) * 1.2, min(r[1] for r in rngs) * 0.9
        band = [(lo + df, hi - df)] * ci
        arg = [lo, hi] if mode == "two" else [lo * 0.6, lo, hi, hi * 1.1]
        if ctx.flag("array"):
            arg = np.array(arg)
    argc = None if arg is None else np.array(arg, float)
    out = tf.spectral_deconvolve(Y, X, True, arg, thr, pad, False)
    if arg is not None:
        ctx.equal("range_argument_kept", np.array(arg, float), argc)
    ctx.equal("reg_length", out.length_samples, N)
    ratio(ctx, f"reg_{mode}", out, h, N, fs, [band[k % ci] for k in range(c)])
    # far outside the range nothing is amplified
    f = np.fft.rfftfreq(N, 1 / fs)
    E = np.abs(np.fft.rfft(out.time_data, axis=0))
    Xf = np.abs(np.fft.rfft(x * g, N, axis=0))
    H = np.abs(np.fft.rfft(h, N, axis=0))
    for k in range(c):
        lo, hi = band[k % ci]
        weak = (((f < 0.6 * lo / 1.05) & (lo > 20 * df)) | (f > 1.45 * hi)) & (Xf[:, k % ci] < 1)
        i = np.argmax((E[:, k] / (H[:, k] + 1e-9)) * weak)
        ctx.ok("reg_outside", np.all(E[weak, k] <= 0.2 * H[weak, k] + 1e-9 * np.max(H)), f"f {f[i]} lo {lo} hi {hi} E {E[i, k]} H {H[i, k]} X {Xf[i, k % ci]}")
    # keep the length, scaling of the response, each channel on its own
    if pad:
        cut = tf.spectral_deconvolve(Y, X, True, arg, thr, True, True)
        ctx.close("keep_length", cut.time_data, out.time_data[:n], 1e-12)
    s = ctx.pick("scale", [2.0, -3.0, 0.01])
    o2 = tf.spectral_deconvolve(dress(ctx, y * g * s, fs), X, True, arg, thr, pad)
    ctx.close("scaling", o2.time_data, s * out.time_data, 1e-9)
    k = ctx.int("one", 0, c - 1)
    o3 = tf.spectral_deconvolve(Y.get_channels(k), X.get_channels(k % ci), True, arg, thr, pad)
    ctx.close("channel_alone", o3.time_data[:, 0], out.time_data[:, k], 1e-9, scale=np.max(np.abs(out.time_data)))


def deconv_refuse(ctx):
    fs = ctx.pick("fs", [8000, 44100])
    n = ctx.int("n", 100, 500)
    mk = lambda n, c, fs=fs: dsp.Signal(None, ctx.normal(n, c) * 0.1, fs)
    x = mk(n, 2)
    for k, (o, i) in {"length": (mk(n + 1, 2), x), "rate": (mk(n, 2, fs + 1), x), "channels": (mk(n, 3), x)}.items():
        ctx.raises(f"deconv_{k}", lambda: tf.spectral_deconvolve(o, i))
        ctx.raises(f"estimate_{k}", lambda: tf.compute_transfer_function(o, i, 64))
    ctx.raises("range_three", lambda: tf.spectral_deconvolve(mk(n, 2), x, True, [100, 200, 300]))
    ctx.raises("window_length", lambda: tf.compute_transfer_function(mk(n, 2), x, 63))


def frames(x, wl, step):
    nf = int(np.ceil(len(x) / step))
    x = np.concatenate([x, np.zeros(max((nf - 1) * step + wl - len(x), 0))])
    return np.stack([x[k * step : k * step + wl] for k in range(nf)], 1)


def cross(x, y, wl, step, w, detrend, avg):
    X, Y = [frames(v, wl, step) * w[:, None] for v in (x, y)]
    if detrend:
        X, Y = X - X.mean(0), Y - Y.mean(0)
    S = np.fft.rfft(X, axis=0).conj() * np.fft.rfft(Y, axis=0)
    if avg == "mean":
        return S.mean(1)
    return np.median(S.real, axis=1) + 1j * np.median(S.imag, axis=1)


def setup(ctx, avgs=("mean", "median")):
    win = ctx.pick("window", list(WINS))
    ov = ctx.pick("overlap", [0.0, 25.0, 50.0, 75.0])
    det = ctx.flag("detrend")
    avg = ctx.pick("avg", list(avgs))
    wl = 2 ** ctx.int("log2wl", 4, 9)
    return wl, dict(window_type=win, overlap_percent=ov, detrend=det, average=avg)


def estimator(ctx):
    """Definitions of the three estimators and the coherence."""
    fs = ctx.pick("fs", gen.FS)
    wl, p = setup(ctx)
    n = ctx.int("n", wl * 4, wl * 12)
    c, ci = arrange(ctx, n)
    x = ctx.normal(n, ci) * 0.2
    y = ctx.normal(n, c) * ctx.pick("noise", [0.0, 0.02, 0.3])
    h = system(ctx, ctx.int("L", 1, 16), c)
    for k in range(c):
        y[:, k] += np.convolve(x[:, k % ci], h[:, k])[:n]
    X = dsp.Signal(None, x, fs, constrain_amplitude=False)
    Y = dress(ctx, y, fs, dsp.Signal)
    X.set_spectrum_parameters(
        method=ctx.pick("method", list(gen.SM)), window_length_samples=2 ** ctx.int("other_wl", 4, 10),
        smoothing=ctx.pick("smoothing", [0, 3]), scaling=ctx.pick("scaling", gen.ALL_SCALINGS), **p,
    )
    b = snap(X), snap(Y)
    w = sig.get_window(WINS[p["window_type"]], wl)
    step = wl - int(p["overlap_percent"] / 100 * wl)
    res = {}
    for m in MODES:
        s = tf.compute_transfer_function(Y, X, wl, m)
        res[m.name] = s
        ctx.ok("estimate_type", type(s) is dsp.Spectrum and s.is_complex and s.has_coherence)
        ctx.close("estimate_f", s.frequency_vector_hz, np.fft.rfftfreq(wl, 1 / fs), 1e-12)
        ctx.equal("estimate_shape", s.spectral_data.shape, (wl // 2 + 1, c))
    ctx.ok("estimate_inputs_kept", diff(b[0], snap(X)) is None and diff(b[1], snap(Y)) is None)
    for k in range(c):
        a, o = x[:, k % ci], y[:, k]
        args = (wl, step, w, p["detrend"], p["average"])
        gxx, gyy, gxy = cross(a, a, *args).real, cross(o, o, *args).real, cross(a, o, *args)
        gyx = cross(o, a, *args)
        ok = (gxx > 1e-9 * gxx.max()) & (gyy > 1e-9 * gyy.max()) & (np.abs(gxy) > 1e-6 * np.sqrt(gxx * gyy)) & (np.abs(gyx) > 1e-6 * np.sqrt(gxx * gyy))
        ctx.event("bins_compared", int(ok.sum()))
        ref = {"H1": gxy / gxx, "H2": gyy / gyx, "H3": gxy / np.abs(gxy) * np.sqrt(gyy / gxx)}
        for name, r in ref.items():
            ctx.close(f"definition_{name}", (res[name].spectral_data[:, k] / np.where(ok, r, 1))[ok], np.ones(ok.sum()), 0, atol=1e-6)
            ctx.close("coherence", res[name].coherence[ok, k], (np.abs(gxy) ** 2 / gxx / gyy)[ok], 0, atol=1e-6)
    if p["average"] == "mean":
        H1, H2, H3 = [np.abs(res[q].spectral_data) for q in ("H1", "H2", "H3")]
        co = res["H1"].coherence
        ctx.ok("coherence_range", np.all(co[ok] >= 0) and np.all(co[ok] <= 1 + 1e-9))
        ctx.ok("order", np.all(H1[ok] <= H3[ok] * (1 + 1e-9)) and np.all(H3[ok] <= H2[ok] * (1 + 1e-9)))
        g = ctx.pick("gain", [3.0, -0.2])
        s2 = tf.compute_transfer_function(dress(ctx, y * g, fs, dsp.Signal), X, wl, MODES[0])
        ctx.close("estimate_scaling", s2.spectral_data[ok], g * res[MODES[0].name].spectral_data[ok], 1e-7)
        ctx.close("coherence_scaling", s2.coherence[ok], co[ok], 1e-7, atol=1e-9)


def periodic(ctx):
    """A periodic excitation and frames of whole periods: every estimator is
    exact and the coherence is one."""
    fs = ctx.pick("fs", gen.FS)
    wl = 2 ** ctx.int("log2wl", 4, 9)
    reps = ctx.int("reps", 1, 8)
    c, ci = arrange(ctx, wl)
    h = system(ctx, ctx.int("L", 1, wl), c)
    ph = ctx.rng.uniform(-np.pi, np.pi, (wl // 2 + 1, ci))
    x1 = np.fft.irfft(np.exp(1j * ph) * ctx.rng.uniform(0.5, 2, ph.shape), wl, axis=0)
    ctx.need(np.min(np.abs(np.fft.rfft(x1, axis=0))) > 1e-3)
    x1 /= np.max(np.abs(x1))
    H = np.fft.rfft(h, wl, axis=0)
    y1 = np.fft.irfft(np.fft.rfft(x1, axis=0) * H, wl, axis=0)
    x, y = np.tile(x1, (reps, 1)), np.tile(y1, (reps, 1))
    X = dsp.Signal(None, x, fs, constrain_amplitude=False)
    X.set_spectrum_parameters(window_type=dsp.Window.Boxcar, overlap_percent=0.0, detrend=False, average=ctx.pick("avg", ["mean"]), scaling=ctx.pick("scaling", gen.ALL_SCALINGS))
    Y = dress(ctx, y, fs, dsp.Signal)
    ok = np.abs(H) > 1e-4 * np.max(np.abs(H), 0)
    for m in MODES:
        s = tf.compute_transfer_function(Y, X, wl, m)
        ctx.close(f"periodic_{m.name}", s.spectral_data[ok] / H[ok], np.ones(ok.sum()), 0, atol=1e-6)
        ctx.close("periodic_coherence", s.coherence[ok], np.ones(ok.sum()), 0, atol=1e-6)


def noise_behaviour(ctx):
    """Output noise leaves H1 unbiased and raises H2, input noise lowers H1 and
    leaves H2."""
    fs = 48000
    wl, n = 64, 64 * 400
    g = ctx.rng.uniform(0.2, 4) * ctx.rng.choice([-1, 1])
    d = ctx.int("delay", 0, 3)
    snr = ctx.uniform("snr", 0.3, 3)  # power ratio signal / noise
    x = ctx.normal(n)
    y = g * np.concatenate([np.zeros(d), x[: n - d]])
    where = ctx.pick("noise", ["output", "input", "none"])
    e = ctx.normal(n)
    xo, yo = x, y
    if where == "output":
        yo = y + e * abs(g) / np.sqrt(snr)
    elif where == "input":
        xo = x + e / np.sqrt(snr)
    X, Y = dsp.Signal(None, xo, fs, constrain_amplitude=False), dsp.Signal(None, yo, fs, constrain_amplitude=False)
    q = 1 + 1 / snr
    exp = {"none": (1, 1, 1, 1), "output": (1, q, q**0.5, 1 / q), "input": (1 / q, 1, q**-0.5, 1 / q)}[where]
    sl = slice(2, -2)
    w = 2 * np.pi * np.arange(wl // 2 + 1) / wl
    for m, r in zip(MODES, exp):
        s = tf.compute_transfer_function(Y, X, wl, m)
        v = (s.spectral_data[:, 0] * np.exp(1j * w * d) / g)[sl]
        ctx.ok(f"bias_{where}_{m.name}", abs(np.mean(v) / r - 1) < (0.08 if where != "none" else 0.02), f"{np.mean(v)} {r}")
        ctx.ok(f"phase_{where}", np.max(np.abs(np.angle(v))) < (0.6 if where != "none" else 0.1))
    ctx.ok(f"coherence_{where}", abs(np.mean(s.coherence[sl]) - exp[3]) < 0.06, f"{np.mean(s.coherence[sl])} {exp[3]}")


def chain(ctx):
    """Deconvolution of a filtered excitation gives the response the filter has."""
    fs = ctx.pick("fs", [16000, 44100, 48000])
    n = ctx.int("n", 4000, 12000)
    f = gen.random_filter(ctx, fs, ("biquad", "fir", "custom_fir"))
    x = np.zeros(n)
    x[: n // 2] = ctx.normal(n // 2) * 0.1
    X = dsp.Signal(None, x, fs, constrain_amplitude=False)
    Y = f.filter_signal(X)
    out = tf.spectral_deconvolve(Y, X, False, padding=ctx.flag("padding"), keep_original_length=True)
    d = dsp.Signal(None, np.r_[1.0, np.zeros(n - 1)], fs, constrain_amplitude=False)
    ir = f.filter_signal(d).time_data
    ctx.need(np.max(np.abs(ir[n // 3 :])) < 1e-9 * np.max(np.abs(ir)))
    ctx.close("filter_recovered", out.time_data, ir, 1e-4, scale=np.max(np.abs(ir)))


MORE = 5  # times the number of cases below in the quick tier
FAMILIES = [
    Family("deconv_plain", deconv_plain, 250, 5000),
    Family("deconv_reg", deconv_reg, 200, 4000),
    Family("deconv_refuse", deconv_refuse, 20, 200),
    Family("estimator", estimator, 200, 4000),
    Family("periodic", periodic, 150, 3000),
    Family("noise_behaviour", noise_behaviour, 60, 1000),
    Family("chain", chain, 80, 1500),
]
