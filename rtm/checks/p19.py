"""P19: levels, gains and loudness."""

import numpy as np
import scipy.signal as sg
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen
from rtm.snap import snap, diff
from rtm.checks.p18 import settings
from rtm.checks.p10 import definition

PROPERTY = "P19"
FT = dsp.FadeType


def sig(ctx, complex_p=0.25, n=(60, 2000), ch=(1, 4), cls=None, con=None):
    fs = ctx.pick("fs", gen.FS)
    N, c = ctx.int("n", *n), ctx.int("ch", *ch)
    x = gen.content(ctx, N, c, fs) * ctx.pick("level", [1e-3, 0.2, 1.0, 5.0])
    if ctx.flag("offset", 0.3):
        x = x + ctx.uniform("dc", -0.3, 0.3)
    if complex_p and ctx.flag("complex", complex_p):
        x = x + 1j * gen.content(ctx, N, c, fs)
    cls = cls or ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])
    con = ctx.flag("constrain", 0.2) if con is None else con
    return cls(None, x, fs, constrain_amplitude=con)


def bands(ctx, complex_p=0):
    k = ctx.int("bands", 1, 3)
    s = sig(ctx, complex_p, cls=dsp.Signal, con=False)
    return dsp.MultiBandSignal([s.copy_with_new_time_data(gen.full(s) * ctx.rng.uniform(0.3, 1, s.number_of_channels)) for _ in range(k)])


def db(v):
    return 20 * np.log10(np.abs(v))


def normalize(ctx):
    s = sig(ctx)
    x = gen.full(s)
    if np.any(np.abs(s.time_data).max(0) == 0):
        return
    L = ctx.uniform("level", -40, 0) if s.constrain_amplitude else ctx.uniform("level", -60, 20)
    peak, each = ctx.flag("peak"), ctx.flag("each")
    before = snap(s)
    o = dsp.normalize(s, L, peak, each)
    y = gen.full(o) / o.amplitude_scale_factor
    lev = (np.abs(np.real(x)).max(0 if each else None) if peak else np.sqrt(np.mean(np.real(x) ** 2, axis=0 if each else None)))
    ctx.close("normalized", y, x * 10 ** (L / 20) / lev, 1e-9, 1e-15)
    if o.amplitude_scale_factor == 1:
        got = np.abs(o.time_data).max(0 if each else None) if peak else np.sqrt(np.mean(o.time_data**2, axis=0 if each else None))
        ctx.close("level", db(got), np.full_like(db(got), L), 0, 1e-8)
    ctx.ok("settings", settings(o) == settings(s) and type(o) is type(s))
    ctx.ok("input", not diff(before, snap(s)))
    if not s.constrain_amplitude:
        ctx.close("idempotent", gen.full(dsp.normalize(o, L, peak, each)), gen.full(o), 1e-9, 1e-15)
        g = ctx.pick("g", [0.01, 7.0, -3.0])
        q = dsp.normalize(s.copy_with_new_time_data(x * g), L, peak, each)
        ctx.close("gain_invariant", gen.full(q), np.sign(g) * gen.full(o), 1e-9, 1e-15)
    if ctx.flag("multiband", 0.3):
        m = bands(ctx, 0.3)
        o = dsp.normalize(m, L, peak, each)
        for a, b in zip(o.bands, m.bands):
            ctx.close("bands", gen.full(a), gen.full(dsp.normalize(b, L, peak, each)), 1e-12)


def gain(ctx):
    s = sig(ctx)
    x = gen.full(s)
    per = ctx.flag("per_channel")
    c = s.number_of_channels
    g = ctx.rng.uniform(-40, 20, c) if per else ctx.pick("as", [float, np.float64, lambda v: np.array([v])])(ctx.uniform("g", -40, 20))
    before = snap(s)
    o = dsp.apply_gain(s, g)
    ctx.close("gain", gen.full(o) / o.amplitude_scale_factor, x * 10 ** (np.asarray(g) / 20), 1e-10, 1e-15)
    if s.constrain_amplitude:
        ctx.ok("constraint", np.abs(o.time_data).max() <= 1 + 1e-12)
    else:
        ctx.ok("no_constraint", o.amplitude_scale_factor == 1.0)
    ctx.ok("settings", settings(o) == settings(s) and type(o) is type(s))
    ctx.ok("input", not diff(before, snap(s)))
    if not s.constrain_amplitude:
        with np.errstate(divide="ignore"):
            r0, r1 = dsp.rms(s), dsp.rms(o)
        ctx.close("rms_follows", r1 - r0, np.broadcast_to(np.asarray(g, float), (c,)), 0, 1e-6)
        ctx.close("undone", gen.full(dsp.apply_gain(o, -np.asarray(g))), x, 1e-10, 1e-15)
    m = bands(ctx)
    g = ctx.uniform("gb", -30, 10)
    for a, b in zip(dsp.apply_gain(m, g).bands, m.bands):
        ctx.close("gain_bands", a.time_data, b.time_data * 10 ** (g / 20), 1e-10)


def filter_gain(ctx):
    fs = 48000
    f, H, d = definition(ctx, fs)
    g = ctx.uniform("g", -40, 30)
    w = ctx.rng.uniform(0, np.pi, 20)
    warm = ctx.flag("warm")
    if warm:
        for t in dsp.FilterCoefficientsType:
            try:
                f.get_coefficients(t)
            except Exception:
                pass
    before = snap(f)
    o = dsp.apply_gain(f, g)
    lin = 10 ** (g / 20)
    ctx.close("filter_gain", o.get_transfer_function(w * fs / 2 / np.pi), H(w) * lin, 1e-6, 1e-10)
    x = dsp.Signal(None, ctx.normal(80, 2), fs)
    ctx.close("filter_gain_action", gen.full(o.filter_signal(x)), lin * gen.full(f.filter_signal(x)), 1e-8, 1e-12)
    if o.order < 9 and not np.iscomplexobj(gen.full(f.filter_signal(x))):
        b, a = o.get_coefficients(dsp.FilterCoefficientsType.Ba)
        ctx.close("filter_gain_ba", sg.freqz(b, a, w)[1], H(w) * lin, 1e-5, 1e-8)
        z, p, k = o.get_coefficients(dsp.FilterCoefficientsType.Zpk)
        _, h = sg.freqz_zpk(z, p, k, w)
        ctx.close("filter_gain_zpk", np.abs(h), np.abs(H(w)) * lin, 1e-5, 1e-8, scale=np.abs(H(w)).max() * lin)
    ctx.ok("filter_input", not diff(before, snap(f)))
    k = ctx.int("k", 1, 4)
    ds = [definition(ctx, fs, 0) for _ in range(k)]
    fb = dsp.FilterBank([q[0] for q in ds])
    gs = ctx.rng.uniform(-20, 10, k) if ctx.flag("each") else ctx.uniform("gb", -20, 10)
    o = dsp.apply_gain(fb, gs)
    for i, (q, gi) in enumerate(zip(o, np.broadcast_to(gs, (k,)))):
        ctx.close("bank_gain", q.get_transfer_function(w * fs / 2 / np.pi), ds[i][1](w) * 10 ** (gi / 20), 1e-6, 1e-10)
    ctx.raises("wrong_number_of_gains", lambda: dsp.apply_gain(fb, np.zeros(k + 1)))


def fade(ctx):
    s = sig(ctx, n=(100, 2000))
    x = gen.full(s)
    n, fs = len(s), s.sampling_rate_hz
    L = ctx.int("samples", 2, n - 2)
    kind = ctx.pick("fade", list(FT))
    st, en = ctx.pick("where", [(True, True), (True, False), (False, True)])
    if ctx.flag("default", 0.2):
        o = dsp.fade(s, kind, None, st, en)
        L = int((n - 1) / fs * 0.025 * fs)
        L2 = int(n / fs * 0.025 * fs)
        if L < 3:
            return
        tol = abs(L2 - L) + 1
    else:
        o = dsp.fade(s, kind, (L + 0.5) / fs, st, en)
        tol = 0
    y = gen.full(o)
    ctx.ok("type", type(o) is type(s) and settings(o) == settings(s))
    if kind == FT.NoFade:
        return ctx.close("no_fade", y, x, 0, 0)
    m = L + tol
    lo, hi = (m if st else 0), n - (m if en else 0)
    if lo < hi:
        ctx.close("middle_untouched", y[lo:hi], x[lo:hi], 1e-12)
    sel = np.abs(x) > 1e-9
    r = np.where(sel, y / np.where(sel, x, 1), np.nan)
    ctx.ok("gain_in_0_1", not np.any(np.abs(np.imag(r[sel])) > 1e-9) and np.nanmin(np.real(r)) >= -1e-9 and np.nanmax(np.real(r)) <= 1 + 1e-9)
    if tol:
        return
    if kind == FT.Linear:
        w = np.linspace(0, 1, L)
    elif kind == FT.Exponential:
        w = 10 ** (np.linspace(-100, 0, L) / 20)
    else:
        w = np.log10(np.linspace(1, 50 * 10**0.5, L))
        w = w / w[-1]
    e = np.array(x)
    if st:
        e[:L] *= w[:, None]
    if en:
        e[n - L:] *= w[::-1, None]
    ctx.close("fade", y, e, 1e-9, 1e-15)
    ctx.raises("too_long", lambda: dsp.fade(s, kind, (n + 2) / fs))
    ctx.raises("nothing", lambda: dsp.fade(s, kind, 2 / fs, False, False))


def levels(ctx):
    s = sig(ctx, complex_p=0)
    x = s.time_data
    r = np.sqrt(np.mean(x**2, axis=0))
    if np.any(r == 0):
        return
    before = snap(s)
    ctx.close("rms", dsp.rms(s, in_dbfs=False), r, 1e-10)
    ctx.close("rms_db", dsp.rms(s), db(r), 1e-9, 1e-9)
    p = np.abs(x).max(0)
    ctx.close("crest", dsp.crest_factor(s, False), p / r, 1e-10)
    ctx.close("crest_db", dsp.crest_factor(s, True), db(p / r), 1e-9, 1e-9)
    tp, pk = dsp.true_peak_level(s)
    ctx.close("peak", pk, db(p), 0, 1e-6)
    over = sg.resample_poly(x, 4, 1, axis=0)
    ctx.close("true_peak", tp, db(np.abs(over).max(0)), 0, 1e-2)
    ctx.ok("true_peak_not_below_peak", np.all(tp >= pk - 0.01))
    ctx.close("crest_true_peak", dsp.crest_factor(s, True, True), tp - db(r), 1e-9, 1e-9)
    ctx.ok("input", not diff(before, snap(s)))
    if not s.constrain_amplitude:
        g = ctx.uniform("g", -30, 12)
        q = dsp.apply_gain(s, g)
        ctx.close("true_peak_gain", dsp.true_peak_level(q)[0], tp + g, 0, 1e-6)
        ctx.close("crest_gain", dsp.crest_factor(q), dsp.crest_factor(s), 0, 1e-6)
    m = bands(ctx)
    for v, f in ((dsp.rms(m), dsp.rms), (dsp.crest_factor(m), dsp.crest_factor)):
        ctx.close("bands", v, np.array([f(b) for b in m.bands]), 1e-10)
    a, b = dsp.true_peak_level(m)
    for i, q in enumerate(m.bands):
        c, d = dsp.true_peak_level(q)
        ctx.close("true_peak_bands", np.r_[a[i], b[i]], np.r_[c, d], 1e-10)


def true_peak_tone(ctx):
    """Peaks between samples."""
    fs = ctx.pick("fs", gen.FS)
    n = 2000
    f = ctx.uniform("f", 0.01, 0.4) * fs
    ph = ctx.uniform("phase", 0, 6.28)
    A = ctx.logu("A", 1e-3, 2)
    w = sg.windows.tukey(n, 0.4)
    x = A * w * np.sin(2 * np.pi * f / fs * np.arange(n) + ph)
    tp, pk = dsp.true_peak_level(dsp.Signal(None, x, fs))
    ctx.ok("tone_level", db(A) - 0.6 <= tp[0] <= db(A) + 0.15, f"{tp} {db(A)}")
    x = A * w * np.sin(np.pi / 2 * np.arange(n) + np.pi / 4)
    tp, pk = dsp.true_peak_level(dsp.Signal(None, x, fs))
    ctx.close("quarter_rate_peak", pk[0], db(A) - 3.0103, 0, 0.01)
    ctx.close("quarter_rate_true_peak", tp[0], db(A), 0, 0.15)


ITU = np.array([
    [1.53512485958697, -2.69169618940638, 1.19839281085285, 1, -1.69065929318241, 0.73248077421585],
    [1.0, -2.0, 1.0, 1, -1.99004745483398, 0.99007225036621],
])


def rbj(fs):
    out = []
    w = 2 * np.pi * 1500 / fs
    A = 10 ** (4 / 40)
    al = np.sin(w) / 2 * np.sqrt(2)
    c = np.cos(w)
    q = 2 * np.sqrt(A) * al
    b = A * np.array([A + 1 + (A - 1) * c + q, -2 * (A - 1 + (A + 1) * c), A + 1 + (A - 1) * c - q])
    a = np.array([A + 1 - (A - 1) * c + q, 2 * (A - 1 - (A + 1) * c), A + 1 - (A - 1) * c - q])
    out.append(np.r_[b, a] / a[0])
    w = 2 * np.pi * 38.1 / fs
    al = np.sin(w)
    c = np.cos(w)
    b = np.array([(1 + c) / 2, -(1 + c), (1 + c) / 2])
    a = np.array([1 + al, -2 * c, 1 - al])
    out.append(np.r_[b, a] / a[0])
    return np.array(out)


def loudness(x, fs, sos, last):
    y = sg.sosfilt(sos, x, axis=0) ** 2
    G = np.array([1, 1, 1, 1.41, 1.41])[: x.shape[1]]
    N = int(0.4 * fs + 0.5)
    h = int(0.25 * N + 0.5)
    k = (len(y) - N) // h + (1 if last else 0)
    z = np.array([y[i * h: i * h + N].mean(0) for i in range(max(k, 1))])
    lj = -0.691 + 10 * np.log10(z @ G)
    a = lj > -70
    rel = -0.691 + 10 * np.log10(z[a].mean(0) @ G) - 10
    s = lj > max(rel, -70)
    return -0.691 + 10 * np.log10(z[s].mean(0) @ G)


def lufs(ctx):
    fs = ctx.pick("fs", [16000, 44100, 48000, 48000, 96000])
    c = ctx.int("ch", 1, 5)
    n = int(fs * ctx.uniform("T", 1.3, 3.5))
    x = ctx.normal(n, c) * 10 ** (ctx.rng.uniform(-25, 0, c) / 20) * 0.2
    kind = ctx.pick("kind", ["steady", "gated", "pauses", "quiet"])
    if kind == "gated":
        i = ctx.int("i", n // 4, n // 2)
        x[i:] *= 10 ** (-ctx.pick("drop", [15, 30, 80]) / 20)
    elif kind == "pauses":
        e = np.repeat(ctx.rng.uniform(0, 1, n // (fs // 4) + 1) > 0.4, fs // 4)[:n]
        e[: fs // 2] = True
        x *= np.where(e, 1, 1e-5)[:, None]
    elif kind == "quiet":
        # Around the absolute gate, which is then above the relative one
        e = np.repeat(ctx.rng.uniform(-8, 3, n // (fs // 2) + 1), fs // 2)[:n]
        e[: fs // 2] = 5
        x /= np.sqrt(np.mean(x**2) * c)
        x *= 10 ** ((e[:, None] - ctx.uniform("gate", 66, 72)) / 20)
    con = ctx.flag("constrain")
    s = dsp.Signal(None, x, fs, constrain_amplitude=con)
    if ctx.flag("read_first", 0.3):
        s.get_spectrum()
    before = snap(s)
    f0 = s.amplitude_scale_factor
    L = dsp.lufs_integrated(s)
    ctx.ok("input", not diff(before, snap(s)) and s.amplitude_scale_factor == f0)
    xs = s.time_data
    ref = [loudness(xs, fs, rbj(fs), q) for q in (True, False)]
    ctx.ok("loudness", min(abs(L - r) for r in ref) < 1e-6, f"{L} {ref}")
    if fs == 48000 and kind != "quiet":
        ref = [loudness(xs, fs, ITU, q) for q in (True, False)]
        ctx.ok("itu", min(abs(L - r) for r in ref) < 0.15, f"{L} {ref}")
    if kind not in ("pauses", "quiet") and not con:
        g = ctx.uniform("g", -12, 6)
        if kind == "steady" or L > -35:
            L2 = dsp.lufs_integrated(dsp.apply_gain(s, g))
            ctx.close("gain", L2, L + g, 0, 1e-6 if kind == "steady" else 0.5)
    if c <= 3:
        p = ctx.rng.permutation(c)
        ctx.close("front_order", dsp.lufs_integrated(s.copy_with_new_time_data(xs[:, p])), L, 0, 1e-9)
    if c == 1 and kind != "quiet":
        two = s.copy_with_new_time_data(np.repeat(xs, 2, axis=1))
        ctx.close("two_channels", dsp.lufs_integrated(two), L + 10 * np.log10(2), 0, 1e-6)
    ctx.raises("too_many", lambda: dsp.lufs_integrated(dsp.Signal(None, ctx.normal(n, 6), fs)))


def calibration(ctx):
    fs = ctx.pick("fs", [44100, 48000])
    n = fs // 5 * ctx.int("k", 1, 3)
    t = np.arange(n) / fs
    c = ctx.int("cal_ch", 1, 3)
    amps = ctx.rng.uniform(0.01, 3, c)
    spl = ctx.pick("spl", [94.0, 114.0, 80.5])
    y = amps * np.sin(2 * np.pi * 1000 * t[:, None] + ctx.rng.uniform(0, 6, c))
    high = ctx.flag("high_snr")
    if not high:
        y = y + 1e-3 * amps.min() * ctx.normal(n, c)
    src = ctx.pick("source", ["signal", "tuple", "added"])
    cs = dsp.Signal(None, y.copy(), fs)
    if src == "signal":
        cal = dsp.CalibrationData(cs, spl, high)
    elif src == "tuple":
        cal = dsp.CalibrationData((y.copy(), fs), spl, high)
    else:
        cal = dsp.CalibrationData(dsp.Signal(None, y[:, :1].copy(), fs), spl, high)
        if ctx.flag("used_before"):
            cal.calibrate_signal(dsp.Signal(None, ctx.normal(50, 2), fs))
        for i in range(1, c):
            q = y[:, i].copy()
            cal.add_calibration_channel(dsp.Signal(None, q, fs) if ctx.flag("as_signal") else (q, fs))
    before = snap(cs)
    ch = c if c > 1 else ctx.int("ch", 1, 4)
    con = ctx.flag("constrain")
    x = ctx.normal(300, ch)
    if ctx.flag("complex", 0.3):
        x = x + 1j * ctx.normal(300, ch)
    if ctx.flag("multiband", 0.3):
        s = dsp.MultiBandSignal([dsp.Signal(None, x, fs, constrain_amplitude=con), dsp.Signal(None, 2 * x, fs, constrain_amplitude=con)])
    else:
        s = ctx.pick("cls", [dsp.Signal, dsp.ImpulseResponse])(None, x, fs, constrain_amplitude=con)
    b2 = snap(s)
    e = 10 ** (spl / 20) * 20e-6 / (amps / np.sqrt(2))
    tol = 1e-5 if high else 2e-2
    for rep in range(2):
        o = cal.calibrate_signal(s)
        pairs = zip(o.bands, s.bands) if isinstance(s, dsp.MultiBandSignal) else [(o, s)]
        for a, b in pairs:
            ctx.close("calibrated", gen.full(a), gen.full(b) * e, tol, 1e-12)
            ctx.ok("flags", a.calibrated_signal and not a.constrain_amplitude and not b.calibrated_signal)
        ctx.ok("inputs", not diff(before, snap(cs)) and not diff(b2, snap(s)))
    own = cal.calibrate_signal(dsp.Signal(None, y.copy(), fs))
    ctx.close("own_level", db(dsp.rms(own, False) / 20e-6), np.full(c, spl), 0, 1e-3 if high else 0.1)
    if c > 1:
        ctx.raises("channel_number", lambda: cal.calibrate_signal(dsp.Signal(None, ctx.normal(60, c + 1), fs)))


def envelope(ctx):
    s = sig(ctx, complex_p=0, con=False)
    x = s.time_data
    n = len(s)
    i = np.arange(n)
    if ctx.flag("quiet_tail", 0.3):
        x = x.copy()
        x[n // 3:] *= 1e-10
        s.time_data = x
    d = x - np.stack([np.polyval(np.polyfit(i, x[:, k], 1), i) for k in range(x.shape[1])], axis=1)
    before = snap(s)
    e = dsp.envelope(s)
    sc = np.abs(d).max() + 1e-12
    ctx.close("analytic", e, np.abs(sg.hilbert(d, axis=0)), 0, 1e-7, scale=sc)
    w = ctx.int("window", 1, n)
    r = dsp.envelope(s, False, w)
    cs = np.concatenate([np.zeros((1, d.shape[1])), np.cumsum(d**2, axis=0)])
    lo = np.maximum(i + 1 - w, 0)
    ctx.ok("finite", np.all(np.isfinite(r)) and np.all(r >= 0), str(np.isnan(r).sum()))
    ctx.close("rms_envelope_squared", r**2, (cs[i + 1] - cs[lo]) / w, 0, 1e-9, scale=sc**2)
    ctx.ok("input", not diff(before, snap(s)))
    g = 0.37
    ctx.close("gain", dsp.envelope(s.copy_with_new_time_data(x * g)), g * e, 0, 1e-9, scale=sc)
    ramp = np.outer(i / n, ctx.rng.uniform(-1, 1, x.shape[1])) + ctx.uniform("o", -1, 1)
    ctx.close("trend_removed", dsp.envelope(s.copy_with_new_time_data(x + ramp)), e, 0, 1e-7, scale=sc + 1)
    m = bands(ctx)
    o = dsp.envelope(m)
    for k, b in enumerate(m.bands):
        ctx.close("bands", o[:, k, :], dsp.envelope(b), 1e-9, 1e-12)
    if ctx.flag("rms_bands"):
        o = dsp.envelope(m, False, 10)
        for k, b in enumerate(m.bands):
            ctx.close("bands", o[:, k, :], dsp.envelope(b, False, 10), 1e-9, 1e-12)


def detrend(ctx):
    s = sig(ctx, con=False)
    x = gen.full(s)
    n = len(s)
    k = ctx.int("order", 0, 4)
    t = np.linspace(-1, 1, n)
    V = np.polynomial.legendre.legvander(t, k)
    q, _ = np.linalg.qr(V)
    sc = np.abs(x).max() + 1e-12
    before = snap(s)
    o = dsp.detrend(s, k)
    ctx.close("detrended", gen.full(o), x - q @ (q.T @ x), 0, 1e-7, scale=sc)
    ctx.ok("settings", settings(o) == settings(s) and type(o) is type(s) and not diff(before, snap(s)))
    P = V @ ctx.rng.uniform(-1, 1, (k + 1, x.shape[1]))
    ctx.close("polynomial_removed", gen.full(dsp.detrend(s.copy_with_new_time_data(x + P), k)), gen.full(o), 0, 1e-6, scale=sc + 1)
    ctx.close("idempotent", gen.full(dsp.detrend(o, k)), gen.full(o), 0, 1e-7, scale=sc)
    m = bands(ctx)
    for a, b in zip(dsp.detrend(m, k).bands, m.bands):
        ctx.close("bands", a.time_data, dsp.detrend(b, k).time_data, 1e-9, 1e-12)
    ctx.raises("negative_order", lambda: dsp.detrend(s, -1))


def dither(ctx):
    s = sig(ctx, con=False)
    x = gen.full(s)
    eps = ctx.pick("eps", [6e-8, 1e-4, 0.01])
    tri = ctx.flag("triangular")
    before = snap(s)
    o = dsp.dither(s, tri, eps)
    e = gen.full(o) - x
    b = eps if tri else eps / 2
    parts = [np.real(e)] + ([np.imag(e)] if s.is_complex_signal else [])
    for p in parts:
        ctx.ok("bounded", np.abs(p).max() <= b * (1 + 1e-9) + 4e-16 * np.abs(x).max())
        if p.size > 1000 and eps > 1e-6:
            v = eps**2 / (6 if tri else 12)
            ctx.ok("variance", abs(p.var() / v - 1) < 0.35, f"{p.var() / v}")
            ctx.ok("mean", abs(p.mean()) < 6 * np.sqrt(v / p.size))
            ctx.ok("channels_differ", p.shape[1] == 1 or np.abs(p[:, 0] - p[:, 1]).max() > eps / 4)
    ctx.ok("settings", settings(o) == settings(s) and type(o) is type(s) and not diff(before, snap(s)))
    q = gen.full(dsp.dither(s, tri, eps, truncate=True))
    for p, y in ((np.real(q), np.real(x)), (np.imag(q), np.imag(x))):
        ctx.ok("representable", np.array_equal(p, p.astype(np.float16).astype(float)))
        ctx.ok("close_to_input", np.all(np.abs(p - y) <= b + (np.abs(y) + b) * 2**-10 + 1e-7))
    taps = ctx.normal(4)
    fb = dsp.FilterBank([dsp.Filter.from_ba(taps, [1.0], s.sampling_rate_hz)])
    e = gen.full(dsp.dither(s, tri, eps, fb)) - x
    ctx.ok("shaped_bounded", np.abs(np.real(e)).max() <= b * np.abs(taps).sum() * (1 + 1e-9) + 4e-16 * np.abs(x).max())


def activity(ctx):
    fs = ctx.pick("fs", [8000, 16000])
    n = ctx.int("n", 1500, 4000)
    c = ctx.int("ch", 1, 3)
    x = 1e-4 * ctx.normal(n, c)
    i = ctx.int("start", 200, n // 3)
    j = ctx.int("end", n // 2, n - 300)
    k = ctx.int("channel", 0, c - 1)
    A = ctx.pick("A", [0.05, 0.7])
    x[i:j, k] += A * np.sign(ctx.normal(j - i))
    s = dsp.Signal(None, x, fs)
    thr = ctx.uniform("threshold", -45, -10)
    at, rel = ctx.uniform("attack", 0.3, 8), ctx.uniform("release", 0.3, 30)
    before = snap(s)
    kw = dict(threshold_dbfs=thr, channel=k, attack_time_ms=at, release_time_ms=rel)
    d, o = dsp.activity_detector(s, **kw)
    m = np.asarray(o["signal_indices"])
    y = x[:, k]
    ctx.ok("partition", m.shape == (n,) and np.array_equal(o["noise_indices"], ~m))
    ctx.ok("samples", np.array_equal(d.time_data[:, 0], y[m]) and np.array_equal(o["noise"].time_data[:, 0], y[~m]))
    ctx.ok("types", type(d) is dsp.Signal and d.sampling_rate_hz == fs and d.number_of_channels == 1)
    # Detection follows the burst with the lag of attack and release
    sm = lambda ms: 1 - np.exp(np.log(0.05) / (ms * 1e-3) / fs)
    on = np.where(m)[0]
    p = (y / np.abs(y).max()) ** 2
    g = np.zeros(n)
    for q in range(1, n):
        co = sm(at) if p[q] > g[q - 1] else sm(rel)
        g[q] = co * p[q] + (1 - co) * g[q - 1]
    with np.errstate(divide="ignore"):
        lev = 10 * np.log10(g)
    clear = np.abs(lev - thr) > 1e-6
    ctx.ok("threshold_of_smoothed_power", np.array_equal(m[clear], (lev > thr)[clear]))
    ctx.ok("nothing_before", on.size and on[0] >= i)
    T = 10 ** (thr / 10)
    lag = np.log(1 - T) / np.log(1 - sm(at))
    ctx.ok("attack_lag", on[0] - i <= lag * 1.2 + 2, f"{on[0] - i} {lag}")
    tail = np.log(T) / np.log(1 - sm(rel))
    ctx.ok("release_lag", j + tail * 1.2 + 3 > n or abs(on[-1] - j - tail) <= 0.15 * tail + 3, f"{on[-1] - j} {tail}")
    # Invariances
    q = ctx.pick("g", [0.1, 3.0])
    ctx.ok("gain_invariant", np.mean(dsp.activity_detector(s.copy_with_new_time_data(x * q), **kw)[1]["signal_indices"] != m) < 1e-3)
    m2 = dsp.activity_detector(s, **{**kw, "threshold_dbfs": thr + 5})[1]["signal_indices"]
    ctx.ok("threshold_monotonic", not np.any(m2 & ~m))
    m3 = dsp.activity_detector(s, **{**kw, "release_time_ms": rel * 2})[1]["signal_indices"]
    ctx.ok("release_monotonic", not np.any(m & ~m3))
    d4, o4 = dsp.activity_detector(s, **{**kw, "relative_to_peak": False, "threshold_dbfs": 20 * np.log10(A) + min(thr, -10)})
    ctx.ok("absolute", abs(int(o4["signal_indices"].sum()) - int(dsp.activity_detector(s, **{**kw, "threshold_dbfs": min(thr, -10)})[1]["signal_indices"].sum())) <= 3)
    d5, o5 = dsp.activity_detector(s.copy_with_new_time_data(x * 1e-4), **{**kw, "relative_to_peak": False})
    ctx.ok("no_activity", not o5["signal_indices"].any() and d5.number_of_channels == 1 and not d5.time_data.any() and len(d5) > 0 and len(o5["noise"]) == n)
    # A filter before the detection changes what is detected but not the samples
    f = dsp.Filter.iir_filter(2, 0.2 * fs, dsp.FilterPassType.Lowpass, sampling_rate_hz=fs)
    fs_ = f.filter_signal(s, zero_phase=True)
    d6, o6 = dsp.activity_detector(s, pre_filter=f, **kw)
    m6 = np.asarray(o6["signal_indices"])
    ctx.equal("filtered_detection", m6, np.asarray(dsp.activity_detector(fs_, **kw)[1]["signal_indices"]))
    if m6.any() and not m6.all():
        ctx.ok("filtered_samples", np.array_equal(d6.time_data[:, 0], y[m6]) and np.array_equal(o6["noise"].time_data[:, 0], y[~m6]))
    # Activity everywhere
    loud = s.copy_with_new_time_data(np.tile(0.5 + 0.1 * ctx.rng.random((n, 1)), (1, c)))
    d7, o7 = dsp.activity_detector(loud, **{**kw, "threshold_dbfs": -90.0, "relative_to_peak": False})
    m7 = np.asarray(o7["signal_indices"])
    ctx.ok("all_active", m7[int(fs * at / 1000) + 5 :].all() and np.array_equal(d7.time_data[:, 0], loud.time_data[m7, k]) and len(d7) >= n - int(fs * at / 1000) - 5)
    ctx.ok("input", not diff(before, snap(s)))


MORE = 3  # times the number of cases below in the quick tier
FAMILIES = [
    Family("normalize", normalize, 300, 4000),
    Family("gain", gain, 200, 3000),
    Family("filter_gain", filter_gain, 200, 3000),
    Family("fade", fade, 300, 5000),
    Family("levels", levels, 200, 3000),
    Family("true_peak_tone", true_peak_tone, 150, 2000),
    Family("lufs", lufs, 60, 400),
    Family("calibration", calibration, 150, 2000),
    Family("envelope", envelope, 200, 3000),
    Family("detrend", detrend, 200, 3000),
    Family("dither", dither, 150, 2000),
    Family("activity", activity, 60, 500),
]
