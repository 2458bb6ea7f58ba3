"""P23: phase manipulation."""

import numpy as np
import scipy.signal as sig
import dsptoolbox as dsp
from dsptoolbox import transfer_functions as tf
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff
from dsptoolbox.standard.enums import InterpolationEdgeHandling as IE

PROPERTY = "P23"


def roots(ctx, m, rmin=0.0, rmax=0.85, outside=0.5):
    """Real FIR coefficients and those of its minimum-phase counterpart."""
    h, hm = np.ones(1), np.ones(1)
    left = m
    while left > 0:
        r = ctx.rng.uniform(rmin, rmax)
        out = ctx.rng.random() < outside
        if left >= 2 and ctx.rng.random() < 0.7:
            th = ctx.rng.uniform(0.05, np.pi - 0.05)
            q = np.array([1, -2 * r * np.cos(th), r * r])
            left -= 2
        else:
            q = np.array([1, -r * ctx.rng.choice([-1, 1])])
            left -= 1
        hm = np.convolve(hm, q)
        h = np.convolve(h, q[::-1] if out else q)
    return h, hm


def mixed(ctx, c, n, m=None, outside=0.5):
    """Responses of n samples with c channels and their minimum phase."""
    x = np.zeros((n, c))
    y = np.zeros((n, c))
    g = np.zeros(c)
    for k in range(c):
        h, hm = roots(ctx, m or int(ctx.rng.integers(1, min(16, n - 1))), outside=outside)
        g[k] = np.exp(ctx.rng.uniform(-3, 3)) * ctx.rng.choice([-1, 1])
        x[: len(h), k] = h * g[k]
        y[: len(h), k] = hm * abs(g[k])
    return x, y


def positive(y):
    """Minimum-phase responses have a positive value at DC here."""
    return y * np.sign(np.sum(y, 0))


def response(ctx, x, fs):
    s = dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
    if ctx.flag("settings", 0.4):
        s.set_spectrum_parameters(**gen.random_spectrum_params(ctx, len(x), ctx.pick("method", list(gen.SM)) if False else gen.SM.FFT))
    return s


def min_ir(ctx):
    """Zeros outside the circle are reflected, nothing else changes."""
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 4)
    n = ctx.int("n", 20, 400)
    x, y = mixed(ctx, c, n)
    d = ctx.int("delay", 0, n // 4) if ctx.flag("delayed") else 0
    if d and np.max(np.nonzero(np.any(x, axis=1))) + d < n:
        x = np.roll(x, d, axis=0)
    alpha = ctx.pick("alpha", [1.0, 1.0, 1 - 1e-8, 1 - 1e-5])
    pf = ctx.pick("padding", [8, 16, 4])
    s = response(ctx, x, fs)
    b = snap(s)
    out = tf.min_phase_ir(s, True, pf, alpha)
    ctx.ok("min_input_kept", diff(b, snap(s)) is None)
    ctx.ok("min_type", type(out) is dsp.ImpulseResponse and out.time_data.shape == (n, c) and out.sampling_rate_hz == fs)
    tol = 1e-6 + 50 * (1 - alpha) * n
    if pf * n > 300:
        ctx.event("reflected")
        ctx.close("min_reflects", out.time_data, positive(y), tol, scale=np.max(np.abs(y)))
        X = np.abs(np.fft.rfft(x, 4 * n, axis=0))
        Y = np.abs(np.fft.rfft(out.time_data, 4 * n, axis=0))
        ctx.close("min_magnitude", Y, X, tol, scale=np.max(X))
        ex = np.cumsum(x**2, 0)
        ey = np.cumsum(out.time_data**2, 0)
        ctx.ok("min_energy_first", np.all(ey >= ex - 10 * tol * ex[-1]))
    # weighting before, unweighting afterwards
    al = ctx.pick("weight", [0.99, 0.999])
    w = al ** np.arange(n)[:, None]
    ow = tf.min_phase_ir(s, True, pf, al)
    ref = tf.min_phase_ir(dsp.ImpulseResponse(None, x * w, fs, constrain_amplitude=False), True, pf).time_data / w
    ctx.close("min_weighted", ow.time_data, ref, 1e-8)
    g = ctx.logu("gain", 1e-3, 1e3) * ctx.rng.choice([-1, 1])
    o2 = tf.min_phase_ir(dsp.ImpulseResponse(None, x * g, fs, constrain_amplitude=False), True, pf, alpha)
    ctx.close("min_gain", o2.time_data, out.time_data * abs(g), 1e-6, scale=abs(g) * np.max(np.abs(out.time_data)))


def min_symmetric(ctx):
    """The method for symmetric filters reaches the same magnitude."""
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 3)
    n = 2 * ctx.int("half", 25, 60) + 1
    tw = 6 / n
    x = np.zeros((n, c))
    for k in range(c):
        e = ctx.rng.uniform(0.1, 0.35)
        lp = ctx.rng.random() < 0.5
        x[:, k] = sig.remez(n, [0, e, e + tw, 0.5], [1, 0] if lp else [0, 1])
    s = response(ctx, x, fs)
    b = snap(s)
    out = tf.min_phase_ir(s, False)
    ctx.ok("symmetric_input_kept", diff(b, snap(s)) is None)
    ctx.ok("symmetric_shape", out.time_data.shape == (n, c))
    X = np.abs(np.fft.rfft(x, 1024, axis=0))
    Y = np.abs(np.fft.rfft(out.time_data, 1024, axis=0))
    ctx.close("symmetric_magnitude", Y, X, 0.2, scale=1.0)
    f, p = tf.minimum_phase(s, False)
    f2, p2 = tf.minimum_phase(s, True)
    ctx.close("symmetric_f", f, np.fft.rfftfreq(n, 1 / fs), 1e-12)
    e = np.exp(1j * p) - np.exp(1j * np.stack([np.interp(f, f2, np.unwrap(p2[:, k])) for k in range(c)], 1))
    H = np.abs(np.fft.rfft(x, axis=0))
    ctx.ok("symmetric_phase", np.max(np.abs(e) * (H > 0.8)) < 0.7, f"{np.max(np.abs(e) * (H > 0.8))}")


def from_mag(ctx):
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 3)
    n = ctx.int("n", 300, 1200)
    x, y = mixed(ctx, c, n)
    N = ctx.int("bins", 600, 2000) * 2 + ctx.pick("odd", [0, 0, 1])
    sp = dsp.Spectrum(np.fft.rfftfreq(N, 1 / fs), np.abs(np.fft.rfft(x, N, axis=0)))
    if ctx.flag("complex"):
        sp = dsp.Spectrum(np.fft.rfftfreq(N, 1 / fs), np.fft.rfft(x, N, axis=0))
    length = ctx.pick("length", [None, "same", "other"])
    if length == "same":
        length = N
    elif length == "other":
        length = ctx.int("L", 500, 5000)
    if N % 2 and length != N:  # no data at the highest frequency
        sp.set_interpolator_parameters(edges_handling=IE.Extend)
    b = snap(sp)
    out = tf.min_phase_from_mag(sp, fs, length)
    ctx.ok("mag_input_kept", diff(b, snap(sp)) is None)
    ctx.ok("mag_type", type(out) is dsp.ImpulseResponse and out.sampling_rate_hz == fs and out.number_of_channels == c)
    if length is not None:
        ctx.equal("mag_length", len(out), length)
    yp = positive(y)
    m = min(n, len(out))
    ref = np.zeros(out.time_data.shape)
    ref[:m] = yp[:m]
    if length == N:
        ctx.close("mag_min_phase", out.time_data, ref, 1e-6, scale=np.max(np.abs(y)))
    X = np.abs(np.fft.rfft(x, N, axis=0))
    F, Y = np.fft.rfftfreq(len(out), 1 / fs), np.abs(np.fft.rfft(out.time_data, axis=0))
    for k in range(c):
        ctx.close("mag_magnitude", Y[:, k], np.interp(F, np.fft.rfftfreq(N, 1 / fs), X[:, k]), (1e-5 if length == N else 1e-3) if sp.is_magnitude else 1e-2, scale=np.max(X[:, k]))
        e = np.cumsum(out.time_data[:, k] ** 2)
        ctx.ok("mag_energy_first", np.argmax(np.abs(out.time_data[:, k])) < 40)


def linear(ctx):
    """Constant group delay, magnitude kept, length twice the delay."""
    fs = ctx.pick("fs", [8000, 16000, 44100])
    c = ctx.int("ch", 1, 3)
    x = np.zeros((64, c))
    for k in range(c):
        h, _ = roots(ctx, int(ctx.rng.integers(1, 10)), rmax=0.7)
        x[: len(h), k] = h * np.exp(ctx.rng.uniform(-2, 4))
    auto = ctx.flag("auto")
    N = ctx.pick("N", [2048, 64]) if auto else 2048
    f = np.fft.rfftfreq(N, 1 / fs)
    X = np.abs(np.fft.rfft(x, N, axis=0))
    sp = dsp.Spectrum(f, X)
    fac = ctx.pick("factor", [1.0, 2.0])
    gd = None if auto else ctx.rng.uniform(8, 30) * 1e3 * 16 / fs if False else (None if auto else ctx.rng.uniform(6, 30))
    check = ctx.flag("check")
    b = snap(sp)
    out = tf.lin_phase_from_mag(sp, fs, gd, check, fac)
    ctx.ok("lin_input_kept", diff(b, snap(sp)) is None)
    L = len(out)
    ctx.ok("lin_type", type(out) is dsp.ImpulseResponse and out.sampling_rate_hz == fs and out.number_of_channels == c)
    if gd is not None:
        ctx.equal("lin_length", L, int(2 * gd * fs / 1000 + 0.5))
    d = np.zeros(c)
    for k in range(c):
        h = out.time_data[:, k]
        q = int(np.argmax(np.abs(h)))
        d[k] = q
        m = min(q, L - 1 - q)
        seg = h[q - m : q + m + 1]
        ctx.event("linear")
        ctx.ok("lin_symmetric", np.max(np.abs(seg - seg[::-1])) < 2e-2 * np.max(np.abs(h)), f"{np.max(np.abs(seg - seg[::-1])) / np.max(np.abs(h))}")
        H = np.abs(np.fft.rfft(h, 8 * N))[::8] if False else np.abs(sig.freqz(h, 1, 2 * np.pi * f / fs)[1])
        ctx.close("lin_magnitude", H[2:-2], X[2:-2, k], 3e-2 if N > 64 else 0.15, scale=np.max(X[:, k]))
        if gd is not None:
            ctx.ok("lin_delay", abs(q - gd * fs / 1000) <= 1.01, f"{q} {gd * fs / 1000}")
        else:
            w = np.linspace(0.01, np.pi - 0.01, 400)
            y = positive(np.stack([roots_min(x[:, k])], 1))[:, 0]
            g = sig.group_delay((y, [1.0]), w)[1]
            ctx.ok("lin_not_below_minimum", q >= np.max(g) * fac - 1, f"{q} {np.max(g)}")
            ctx.ok("lin_minimum_delay", q <= fac * (np.max(g) + 1e-3 * fs) * 1.02 + 2, f"{q} {np.max(g)}")
    if gd is None:
        ctx.ok("lin_auto_length", abs(L - 2 * np.max(d)) <= 3, f"{L} {d}")
    ctx.raises("lin_causality", lambda: tf.lin_phase_from_mag(sp, fs, 0.9, True))


def roots_min(h):
    h = np.trim_zeros(h, "b")
    r = np.roots(h)
    r = np.where(np.abs(r) > 1, 1 / r.conj(), r)
    return np.real(np.poly(r))


def gdelay(ctx):
    """Against a reference; gain and shift behave; direct and analytic agree."""
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 4)
    n = ctx.int("n", 40, 700)
    x, _ = mixed(ctx, c, n)
    last = int(np.max(np.nonzero(np.any(x, axis=1))))
    s = dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False) if ctx.flag("ir") else dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)
    s.set_spectrum_parameters(**gen.random_spectrum_params(ctx, n, gen.SM.FFT if isinstance(s, dsp.ImpulseResponse) else ctx.pick("method", list(gen.SM))))
    b = snap(s)
    f, g = tf.group_delay(s, True)
    f2, g2 = tf.group_delay(s, False)
    ctx.ok("gd_input_kept", diff(b, snap(s)) is None, str(diff(b, snap(s))))
    fr = np.fft.rfftfreq(n, 1 / fs)
    ctx.close("gd_f", f, fr, 1e-12)
    ctx.close("gd_f_direct", f2, fr, 1e-12)
    w = 2 * np.pi * fr / fs
    ref = np.zeros((len(fr), c))
    for k in range(c):
        z = np.exp(-1j * np.outer(w, np.arange(n)))
        ref[:, k] = np.real((z @ (x[:, k] * np.arange(n))) / (z @ x[:, k])) / fs
    ctx.event("delay_curve", c)
    ctx.close("gd_analytic", g, ref, 1e-7, scale=np.max(np.abs(ref)) + 1 / fs)
    # direct: differences of the phase, exact when the curve is smooth
    ph = np.unwrap(np.angle(np.fft.rfft(x, axis=0)), axis=0)
    ctx.close("gd_direct", g2, -np.gradient(ph, fr[1], axis=0) / 2 / np.pi, 1e-8, scale=1 / fs * n)
    if n > 300:
        X = np.abs(np.fft.rfft(x, axis=0))
        smooth = np.abs(np.diff(ref, 2, axis=0)) < 0.02 / fs
        e = np.abs(g2 - g)[1:-1]
        ctx.ok("gd_methods_agree", np.mean(e[smooth] > 0.3 / fs) < 0.02 if smooth.sum() > 20 else True, f"{np.mean(e[smooth] > 0.3 / fs)}")
    a = ctx.logu("gain", 1e-3, 1e3) * ctx.rng.choice([-1, 1])
    t = s.copy_with_new_time_data(x * a)
    for an, q in ((True, g), (False, g2)):
        ctx.close("gd_gain", tf.group_delay(t, an)[1], q, 1e-6, scale=n / fs)
    d = ctx.int("shift", 1, 20)
    if last + d < n:
        t = s.copy_with_new_time_data(np.roll(x, d, axis=0))
        ctx.close("gd_shift", tf.group_delay(t, True)[1], g + d / fs, 1e-6, scale=n / fs)


def pure_delay(ctx):
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 4)
    n = ctx.int("n", 60, 900)
    d = ctx.rng.integers(0, n // 2, c)
    x = np.zeros((n, c))
    g = np.exp(ctx.rng.uniform(-3, 3, c)) * ctx.rng.choice([-1, 1], c)
    x[d, np.arange(c)] = g
    s = dsp.ImpulseResponse(None, x, fs, constrain_amplitude=False)
    b = snap(s)
    sm = ctx.pick("smooth", [0, 0, 3, 12])
    for an in (True, False):
        f, q = tf.group_delay(s, an, sm)
        ctx.close("delay_is_delay", q, np.repeat(d[None] / fs, len(f), 0), 1e-6, scale=n / fs)
        f, q = tf.group_delay(s, an, sm, remove_ir_latency=True)
        one = np.where(d > 0, 1, 0) if an else np.zeros(c)
        ctx.ok("latency_removed_f", len(f) == len(q) and abs(f[-1] - fs / 2) < f[1])
        ctx.close(f"latency_removed_{int(an)}", q, np.repeat(one[None] / fs, len(f), 0), 0, atol=0.6 / fs if not an else 1e-6 / fs * n)
    f, q = tf.minimum_group_delay(s, sm)
    ctx.close("delay_minimum", q, np.zeros_like(q), 0, atol=1e-6 / fs)
    f, q = tf.excess_group_delay(s, sm, analytic_computation=ctx.flag("analytic"))
    inside = f <= fs / 2 * (1 - 2 / n) if n % 2 else f <= fs / 2
    ctx.close("delay_excess", q[inside] if sm == 0 else q[f < fs / 4], np.repeat(d[None] / fs, (inside if sm == 0 else f < fs / 4).sum(), 0), 1e-6, scale=n / fs)
    ctx.ok("delay_input_kept", diff(b, snap(s)) is None)


def minimum(ctx):
    """Minimum phase and group delay of systems with known minimum phase."""
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 4)
    n = ctx.int("n", 300, 900)
    x, y = mixed(ctx, c, n)
    pf = ctx.pick("padding", [2, 8])
    s = response(ctx, x, fs)
    b = snap(s)
    f, p = tf.minimum_phase(s, True, pf)
    w = 2 * np.pi * f / fs
    Y = np.stack([sig.freqz(positive(y)[:, k], 1, w)[1] for k in range(c)], 1)
    ctx.close("min_phase", np.exp(1j * p), Y / np.abs(Y), 1e-5, scale=1)
    ctx.ok("min_phase_f", f[0] == 0 and np.all(np.diff(f) > 0) and f[-1] <= fs / 2 * (1 + 1e-9) and f[-1] > fs / 2 - 1.01 * f[1])
    f, g = tf.minimum_group_delay(s, 0, pf)
    z = np.exp(-1j * np.outer(2 * np.pi * f / fs, np.arange(24)))
    ref = np.real((z @ (y[:24] * np.arange(24)[:, None])) / (z @ y[:24])) / fs
    ctx.event("minimum_curve", c)
    ctx.close("min_group_delay", g[2:-2], ref[2:-2], 0, atol=0.1 * (np.max(np.abs(ref)) + 0.05 / fs))
    fe, e = tf.excess_group_delay(s, analytic_computation=True)
    ft, t = tf.group_delay(s, True)
    fm, m = tf.minimum_group_delay(s, 0, 1)
    tt = np.stack([np.interp(fe, ft, t[:, k]) for k in range(c)], 1) if len(ft) != len(fe) else t
    ctx.close("excess_f", fe, fm, 1e-12)
    ins = fe <= ft[-1]
    ctx.close("total_is_sum", (e + m)[ins], tt[ins], 1e-9, scale=n / fs)
    ctx.ok("excess_nonnegative", np.all(e[ins][2:-2] > -0.15 * (np.max(np.abs(ref)) + 0.2 / fs)), f"{np.min(e[ins]) * fs}")
    ctx.ok("minimum_input_kept", diff(b, snap(s)) is None, str(diff(b, snap(s))))
    # a minimum-phase system that is delayed has exactly its delay as excess
    d = ctx.int("delay", 0, 100)
    u = dsp.ImpulseResponse(None, np.roll(y, d, axis=0) * ctx.logu("gain", 1e-3, 1e3), fs, constrain_amplitude=False)
    fe, e = tf.excess_group_delay(u, analytic_computation=True)
    ins = fe <= ft[-1]
    ctx.close("excess_is_delay", e[ins][2:-2], np.full(e[ins][2:-2].shape, d / fs), 0, atol=0.1 * (np.max(np.abs(ref)) + 0.2 / fs))


def discrete(ctx):
    """Any response, also far from decayed: on the grid of the transform the
    phase is exactly the discrete Hilbert transform of the log-magnitude."""
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 3)
    n = ctx.pick("n", [75, 81, 125, 135, 225, 243, 64, 90, 100, 128, 243, 375]) if ctx.flag("fast") else ctx.int("n2", 60, 400)
    pf = ctx.pick("padding", [1, 1, 2, 3, 5, 8])
    x = ctx.normal(n, c)
    if ctx.flag("decay"):
        x *= np.exp(-np.arange(n) * ctx.uniform("rate", 0.001, 0.2))[:, None]
    s = response(ctx, x, fs)
    b = snap(s)
    f, p = tf.minimum_phase(s, True, pf)
    N = int(round(fs / f[1]))
    if not ctx.ok("discrete_grid", N >= n * pf and len(f) == N // 2 + 1 and np.allclose(f, np.arange(len(f)) * fs / N), f"{N} {n} {len(f)}"):
        return
    ctx.event("odd_grid" if N % 2 else "even_grid")
    X = np.abs(np.fft.fft(x, N, axis=0))
    ref = -np.imag(sig.hilbert(np.log(X), axis=0))[: len(f)]
    # ends are real by definition
    err = np.abs(np.exp(1j * p) - np.exp(1j * ref))
    rng = np.max(X) / np.min(X)
    ctx.ok("discrete_phase", np.max(err) < 1e-9 * rng**0.5 + 1e-7, f"{np.max(err)} {rng}")
    g = -np.gradient(np.unwrap(p, axis=0), f[1], axis=0) / 2 / np.pi
    f2, q = tf.minimum_group_delay(s, 0, pf)
    ctx.close("discrete_group_delay_f", f2, f, 1e-12)
    ctx.close("discrete_group_delay", q, g, 1e-8, scale=N / fs)
    ctx.ok("discrete_input_kept", diff(b, snap(s)) is None)


def latency_of_ir(ctx):
    fs = ctx.pick("fs", gen.FS)
    c = ctx.int("ch", 1, 3)
    n = ctx.int("n", 300, 900)
    x, y = mixed(ctx, c, n, m=int(ctx.rng.integers(1, 6)))
    d = ctx.rng.integers(0, n // 3, c)
    z = np.stack([np.roll(positive(y)[:, k], d[k]) for k in range(c)], 1) * ctx.rng.choice([-1, 1], c)
    s = dsp.ImpulseResponse(None, z, fs, constrain_amplitude=False)
    lat = tf.find_ir_latency(s)
    ctx.close("ir_latency", np.asarray(lat, float), d, 0, atol=0.05)


MORE = 3  # times the number of cases below in the quick tier
FAMILIES = [
    Family("min_phase_ir", min_ir, 200, 4000),
    Family("min_symmetric", min_symmetric, 60, 800),
    Family("min_from_mag", from_mag, 60, 800),
    Family("linear_phase", linear, 40, 500),
    Family("group_delay", gdelay, 150, 3000),
    Family("pure_delay", pure_delay, 100, 2000),
    Family("minimum", minimum, 80, 1200),
    Family("min_discrete", discrete, 200, 4000),
    Family("ir_latency", latency_of_ir, 60, 1000),
]
