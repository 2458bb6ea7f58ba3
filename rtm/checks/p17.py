"""P17: delays and their estimation."""

import numpy as np
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.checks.p18 import settings, make, multiband

PROPERTY = "P17"
TF = dsp.transfer_functions


def smooth(n, c, fs, ctx, fmax=0.35):
    """Band-limited signal known in continuous time: returns fn(t) -> (len(t), c).
    A sum of sines under a smooth envelope that vanishes at both ends."""
    k = 6
    f = ctx.rng.uniform(0.01, fmax, (k, c))
    ph = ctx.rng.uniform(0, 2 * np.pi, (k, c))
    a = ctx.rng.uniform(0.2, 1, (k, c)) / k
    T = 0.8 * n

    def fn(t):  # in samples
        t = np.asarray(t, float)[:, None]
        u = (t - 0.1 * n) / T
        env = np.where((u > 0) & (u < 1), np.sin(np.pi * np.clip(u, 0, 1)) ** 4, 0)
        return env * sum(a[i] * np.sin(2 * np.pi * f[i] * t + ph[i]) for i in range(k))

    return fn


def int_delay(ctx):
    mbf = ctx.flag("multiband", 0.3)
    if mbf:
        obj, xs = multiband(ctx)
        bands = obj.bands
    else:
        obj, x = make(ctx)
        bands, xs = [obj], [x]
    n, c = xs[0].shape
    d = ctx.int("d", 0, n - 1)
    keep = ctx.flag("keep")
    chs = ctx.pick("chs", ["none", "one", "some", "perm"])
    if chs == "none":
        sel, arg = np.arange(c), None
    elif chs == "one":
        k = ctx.int("k", 0, c - 1)
        sel, arg = np.array([k]), k
    else:
        sel = ctx.rng.permutation(c)[: ctx.int("nsel", 1, c)]
        arg = sel if chs == "perm" else list(sel)
    out = dsp.delay(obj, d, arg, keep)
    ob = out.bands if mbf else [out]
    for o, b, x in zip(ob, bands, xs):
        m = n if (keep or d == 0) else n + d
        e = np.zeros((m, c), x.dtype)
        e[:n] = x
        for s in sel:
            e[:, s] = 0
            e[d:, s] = x[: m - d, s]
        ctx.equal("int_delay_samples", gen.full(o), e)
        ctx.equal("int_delay_settings", settings(o), settings(b))
    ctx.raises("int_delay_bad_channel", lambda: dsp.delay(obj, 1, c, keep))
    ctx.raises("int_delay_repeated_channel", lambda: dsp.delay(obj, 1, [0, 0], keep))
    ctx.raises("int_delay_too_large", lambda: dsp.delay(obj, n, None, True))


def frac_delay(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 300, 2500)
    c = ctx.int("ch", 1, 4)
    fn = smooth(n, c, fs, ctx)
    x = fn(np.arange(n))
    cls = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    s = cls(None, x.copy(), fs, constrain_amplitude=ctx.flag("constrain"))
    d = ctx.pick("dkind", ["small", "int", "any", "half"])
    d = {"small": ctx.uniform("ds", 0.02, 3), "int": float(ctx.int("di", 1, 60)), "any": ctx.uniform("da", 3, n * 0.5),
         "half": ctx.int("dh", 0, 40) + 0.5}[d]
    order = ctx.pick("order", [30, 31, 40, 45, 60])
    keep = ctx.flag("keep")
    nsel = ctx.int("nsel", 1, c)
    sel = ctx.rng.permutation(c)[:nsel]
    arg = None if nsel == c and ctx.flag("none") else sel
    if arg is None:
        sel = np.arange(c)
    if ctx.flag("multiband", 0.25):
        mb = dsp.MultiBandSignal([s, s.copy()], True)
        out = dsp.fractional_delay(mb, d / fs, arg, keep, order).bands[1]
    else:
        out = dsp.fractional_delay(s, d / fs, arg, keep, order)
    y = out.time_data
    m = len(y)
    if keep:
        ctx.equal("frac_delay_length", m, n)
    else:
        ctx.ok("frac_delay_long_enough", m >= n + int(d), f"{m} {n} {d}")
    e = fn(np.arange(m) - d)
    ctx.close("frac_delay_samples", y[:, sel], e[:, sel], 4e-3, scale=np.abs(x).max())
    rest = np.setdiff1d(np.arange(c), sel)
    if len(rest):
        er = np.zeros((m, c))
        er[:min(n, m)] = x[:min(n, m)]
        ctx.equal("frac_delay_rest_untouched", y[:, rest], er[:, rest])
    ctx.equal("frac_delay_settings", settings(out), settings(s))
    ctx.raises("frac_delay_negative", lambda: dsp.fractional_delay(s, -1.0 / fs))
    ctx.raises("frac_delay_bad_channel", lambda: dsp.fractional_delay(s, 1.0 / fs, c))


def latency_int(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 300, 2500)
    c = ctx.int("ch", 1, 4)
    base = ctx.normal(n, c)
    ds = ctx.rng.integers(-n // 4, n // 4, c)
    g = ctx.rng.choice([-1, 1], c) * ctx.rng.uniform(0.1, 3, c)
    pad = n // 4
    full = np.concatenate([np.zeros((pad, c)), base, np.zeros((pad, c))])
    moved = np.stack([np.roll(full[:, i], ds[i]) * g[i] for i in range(c)], axis=1)
    noise = ctx.pick("noise", [0, 0, 0.05])
    moved = moved + noise * ctx.normal(*moved.shape) * 0.1
    pts = ctx.pick("pts", [0, 0, 1, 2, 3])
    tol = 0 if pts == 0 else 0.06
    a = dsp.Signal(None, moved, fs)
    b = dsp.Signal(None, full, fs)
    if ctx.flag("shorten", 0.3) and pts == 0:
        # different lengths of the two signals
        b = dsp.Signal(None, full[: len(full) - ctx.int("cut", 1, pad)], fs)
    lag, cor = dsp.latency(a, b, pts)
    ctx.ok("latency", np.all(np.abs(lag - ds) <= tol), f"{lag} {ds}")
    if pts == 0:
        ctx.ok("latency_dtype", np.issubdtype(np.asarray(lag).dtype, np.integer))
    ctx.ok("latency_shape", np.shape(lag) == (c,) and np.shape(cor) == (c,))
    ctx.ok("latency_correlation_sign", np.all(np.sign(cor) == np.sign(g)) and np.all(np.abs(cor) > (0.9 if noise == 0 else 0.3)), f"{cor} {g}")
    ctx.ok("latency_correlation_range", np.all(np.abs(cor) <= 1 + 1e-9))
    lag2, _ = dsp.latency(b, a, pts)
    ctx.ok("latency_antisymmetric", np.all(np.abs(lag2 + ds) <= tol), f"{lag2} {ds}")


def latency_multichannel(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 300, 2000)
    c = ctx.int("ch", 2, 5)
    pad = n // 4
    x = np.concatenate([np.zeros(pad), ctx.normal(n), np.zeros(pad)])
    ds = ctx.rng.integers(-pad + 1, pad - 1, c - 1)
    g = ctx.rng.choice([-1, 1], c - 1) * ctx.rng.uniform(0.2, 3, c - 1)
    data = np.stack([x] + [g[i] * np.roll(x, ds[i]) for i in range(c - 1)], axis=1)
    pts = ctx.pick("pts", [0, 0, 1, 2])
    tol = 0 if pts == 0 else 0.06
    s = dsp.Signal(None, data, fs)
    lag, cor = dsp.latency(s, None, pts)
    ctx.ok("latency_to_first_channel", np.shape(lag) == (c - 1,) and np.all(np.abs(lag - ds) <= tol), f"{lag} {ds}")
    ctx.ok("latency_to_first_channel_correlation", np.all(np.sign(cor) == np.sign(g)) and np.all(np.abs(cor) > 0.9), f"{cor} {g}")
    mb = dsp.MultiBandSignal([s, s.copy_with_new_time_data(data[:, [0] + list(range(c - 1, 0, -1))])], True)
    lag, cor = dsp.latency(mb, None, pts)
    ctx.ok("latency_multiband_shape", lag.shape == (2, c - 1))
    ctx.ok("latency_multiband", np.all(np.abs(lag - np.stack([ds, ds[::-1]])) <= tol), f"{lag} {ds}")
    ref = dsp.MultiBandSignal([s.copy(), s.copy()], True)
    mv = dsp.delay(ref, 7)
    lag, cor = dsp.latency(mv, ref, 0)
    ctx.ok("latency_multiband_pair", lag.shape == (2, c) and np.all(lag == 7), str(lag))


def latency_frac(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 600, 2500)
    if ctx.flag("long", 0.25):
        n *= 6
    c = ctx.int("ch", 1, 3)
    # band-limited noise bursts, known in continuous time through their spectrum
    N = 4 * n
    X = np.zeros((N // 2 + 1, c), complex)
    w = np.hanning(n)[:, None] * ctx.normal(n, c)
    burst = np.zeros((N, c))
    burst[n:2 * n] = w
    X = np.fft.rfft(burst, axis=0)
    f = np.arange(N // 2 + 1) / N
    X *= (np.clip((0.40 - f) / 0.1, 0, 1) * np.clip(f / 0.02, 0, 1))[:, None]
    ds = ctx.rng.uniform(-n / 3, n / 3, c)
    g = ctx.rng.choice([-1, 1], c)
    a = np.fft.irfft(X, N, axis=0)
    b = np.fft.irfft(X * np.exp(-2j * np.pi * f[:, None] * ds), N, axis=0) * g
    pts = ctx.pick("pts", [1, 1, 2, 3])
    lag, cor = dsp.latency(dsp.Signal(None, b, fs), dsp.Signal(None, a, fs), pts)
    ctx.ok("latency_fractional", np.all(np.abs(lag - ds) < (0.06 if pts == 1 else 0.03)), f"{lag} {ds}")
    # removing the estimated latency aligns the signals again
    al = np.fft.irfft(np.fft.rfft(b, axis=0) * np.exp(2j * np.pi * f[:, None] * lag), N, axis=0) * g
    ctx.close("alignment_inverts_the_delay", al, a, 0.12)


def ir_latency(ctx):
    """Peak position of band-limited pulses at any sub-sample position."""
    fs = ctx.pick("fs", [44100, 48000])
    n = ctx.int("n", 512, 3000) * ctx.pick("long", [1, 1, 1, 6])
    c = ctx.int("ch", 1, 3)
    d = ctx.rng.uniform(60, n - 60, c)
    g = ctx.rng.choice([-1, 1], c) * ctx.rng.uniform(0.2, 1, c)
    t = np.arange(n)[:, None] - d
    x = g * np.sinc(0.8 * t) * np.exp(-0.5 * (t / 12) ** 2)
    ir = dsp.ImpulseResponse(None, x, fs)
    est = TF.find_ir_latency(ir, False)
    ctx.ok("ir_latency_peak", np.all(np.abs(est - d) < 0.12), f"{est} {d}")


def ir_latency_min_phase(ctx):
    """Latency over the minimum phase equivalent: a delayed minimum phase
    response has exactly its delay."""
    fs = 48000
    n = ctx.pick("n", [1024, 2048])
    c = ctx.int("ch", 1, 3)
    ds = ctx.rng.integers(20, n // 3, c)
    g = ctx.rng.choice([-1, 1], c) * ctx.rng.uniform(0.2, 1, c)
    x = np.zeros((n, c))
    import scipy.signal as sg

    for i in range(c):
        p = ctx.rng.uniform(0.2, 0.8) * np.exp(1j * ctx.rng.uniform(0.3, 2.8))
        z = ctx.rng.uniform(0.1, 0.7) * np.exp(1j * ctx.rng.uniform(0.3, 2.8))
        imp = np.zeros(n)
        imp[ds[i]] = 1
        x[:, i] = g[i] * sg.lfilter(np.poly([z, z.conj()]).real, np.poly([p, p.conj()]).real, imp)
    x /= np.abs(x).max()
    est = TF.find_ir_latency(dsp.ImpulseResponse(None, x, fs), True)
    ctx.ok("ir_latency_min_phase", np.all(np.abs(est - ds) < 0.1), f"{est} {ds} {g}")


MORE = 3  # times the number of cases below in the quick tier
FAMILIES = [
    Family("int_delay", int_delay, 600, 6000),
    Family("frac_delay", frac_delay, 500, 5000),
    Family("latency_int", latency_int, 300, 3000),
    Family("latency_multichannel", latency_multichannel, 200, 2000),
    Family("latency_frac", latency_frac, 150, 1500),
    Family("ir_latency", ir_latency, 200, 2000),
    Family("ir_latency_min_phase", ir_latency_min_phase, 80, 800),
]
