"""P11: designed filters meet their specification."""

import numpy as np
import scipy.signal as sig
import dsptoolbox as dsp
from rtm.core import Family
from rtm import gen

PROPERTY = "P11"
FBK = dsp.filterbanks
EQ = dsp.BiquadEqType
PT = dsp.FilterPassType


def resp(f, w):
    """Response from the coefficients a user reads (sos or ba), w in rad."""
    z = np.exp(-1j * np.asarray(w, float))
    if f.has_sos:
        h = np.ones(len(z), complex)
        for s in np.asarray(f.sos):
            h = h * (s[0] + s[1] * z + s[2] * z**2) / (s[3] + s[4] * z + s[5] * z**2)
        return h
    b, a = f.ba
    return np.polynomial.polynomial.polyval(z, b) / np.polynomial.polynomial.polyval(z, a)


def poles(f):
    if f.has_sos:
        return np.concatenate([np.roots(s[3:]) for s in np.asarray(f.sos)])
    return np.roots(np.atleast_1d(f.ba[1]))


def stable(ctx, f, key):
    p = poles(f)
    ctx.ok(key + "_stable", len(p) == 0 or np.max(np.abs(p)) < 1, f"{np.max(np.abs(p)) if len(p) else 0}")


def db(h):
    return 20 * np.log10(np.maximum(np.abs(h), 1e-300))


def impulse(f, n, fs):
    x = np.zeros((n, 1))
    x[0] = 1
    return f.filter_signal(dsp.Signal(None, x, fs)).time_data[:, 0]


def action(ctx, f, key, n=4096):
    """The filter as applied to an impulse has the response of its
    coefficients (guards against a design whose coefficients are not used)."""
    y = impulse(f, n, f.sampling_rate_hz)
    p = poles(f)
    if len(p) and np.max(np.abs(p)) > 1 - 25 / n:
        return
    w = np.linspace(0.01, 3.1, 40)
    h = np.exp(-1j * np.outer(w, np.arange(n))) @ y
    ctx.close(key + "_action", h, resp(f, w), 1e-6, 1e-9)


def analog_biquad(eq, s, g_db, q):
    """Audio-EQ-cookbook prototypes, s normalised to the characteristic frequency."""
    a = 10 ** (g_db / 20)
    A = 10 ** (g_db / 40)
    N = eq.name
    if N == "Peaking":
        return (s**2 + s * A / q + 1) / (s**2 + s / (A * q) + 1)
    if N == "Lowpass":
        return a / (s**2 + s / q + 1)
    if N == "Highpass":
        return a * s**2 / (s**2 + s / q + 1)
    if N == "BandpassSkirt":
        return a * s / (s**2 + s / q + 1)
    if N == "BandpassPeak":
        return a * s / q / (s**2 + s / q + 1)
    if N == "Notch":
        return a * (s**2 + 1) / (s**2 + s / q + 1)
    if N == "Allpass":
        return a * (s**2 - s / q + 1) / (s**2 + s / q + 1)
    if N == "Lowshelf":
        return A * (s**2 + np.sqrt(A) / q * s + A) / (A * s**2 + np.sqrt(A) / q * s + 1)
    if N == "Highshelf":
        return A * (A * s**2 + np.sqrt(A) / q * s + 1) / (s**2 + np.sqrt(A) / q * s + A)
    if N == "LowpassFirstOrder":
        return a / (s + 1)
    if N == "HighpassFirstOrder":
        return a * s / (s + 1)
    if N == "AllpassFirstOrder":
        return a * (1 - s) / (1 + s)
    if N == "Inverter":
        return -a * np.ones_like(s)
    raise AssertionError(N)


def biquads(ctx):
    fs = ctx.pick("fs", gen.FS)
    eq = ctx.pick("eq", list(EQ))
    f0 = ctx.logu("f0", fs * 4e-4, fs * 0.48)
    g = ctx.pick("g", [0.0, ctx.uniform("gu", -24, 24)])
    q = ctx.logu("q", 0.2, 15)
    f = dsp.Filter.biquad(eq, f0, g, q, fs)
    ctx.equal("fs", f.sampling_rate_hz, fs)
    w0 = 2 * np.pi * f0 / fs
    w = np.concatenate([ctx.rng.uniform(0, np.pi * 0.999, 60), w0 * np.array([1, 0.5, 0.98, 1.02])])
    w = w[w < 3.139]
    s = 1j * np.tan(w / 2) / np.tan(w0 / 2)
    h = resp(f, w)
    e = analog_biquad(eq, s, g, q)
    ctx.close(f"biquad_{eq.name}", h, e, 1e-6, 1e-9)
    # parameters as promised, independently of the prototypes
    h0 = db(resp(f, [w0]))[0]
    if eq in (EQ.Peaking, EQ.BandpassPeak):
        ctx.close("centre_gain", h0, g, 0, 1e-4)
    if eq in (EQ.Lowpass, EQ.Highpass, EQ.BandpassSkirt):
        ctx.close("q_gain", h0, g + 20 * np.log10(q), 0, 1e-4)
    if eq in (EQ.LowpassFirstOrder, EQ.HighpassFirstOrder):
        ctx.close("first_order_-3dB", h0, g - 3.0103, 0, 1e-3)
    if eq in (EQ.Lowshelf, EQ.Highshelf):
        # |H(f0)|^2 = A^2 whatever q is
        ctx.close("shelf_midpoint", h0, g / 2, 0, 1e-4)
    if eq == EQ.Notch:
        ctx.ok("notch_depth", abs(resp(f, [w0])[0]) < 1e-6 * 10 ** (g / 20) * max(1, 1 / w0**2 * 1e-3), h0)
    if eq in (EQ.Allpass, EQ.AllpassFirstOrder, EQ.Inverter):
        ctx.close("allpass_magnitude", np.abs(h), np.full(len(h), 10 ** (g / 20)), 1e-7)
    if eq in (EQ.Peaking, EQ.BandpassPeak, EQ.Notch, EQ.Lowpass, EQ.Lowshelf):
        dc = np.abs(resp(f, [0.0]))[0]
        e = {"Peaking": 1, "BandpassPeak": 0, "Notch": 10 ** (g / 20), "Lowpass": 10 ** (g / 20), "Lowshelf": 10 ** (g / 20)}[eq.name]
        ctx.close("dc_gain", dc, float(e), 1e-5, 1e-6)
    if eq in (EQ.Highshelf, EQ.Highpass, EQ.HighpassFirstOrder):
        ctx.close("nyquist_gain", np.abs(resp(f, [np.pi]))[0], 10 ** (g / 20), 1e-5)
    stable(ctx, f, "biquad")
    if eq == EQ.Peaking and abs(g) > 1 and w0 < 2.5:
        # symmetric boost and cut
        f2 = dsp.Filter.biquad(eq, f0, -g, q, fs)
        ctx.close("boost_cut_inverse", h * resp(f2, w), np.ones(len(w)), 1e-6)
    if ctx.flag("action", 0.3):
        action(ctx, f, "biquad")
    # only the arguments matter
    np.random.seed(ctx.int("rs", 0, 99))
    f3 = dsp.Filter.biquad(eq, f0, g, q, fs)
    ctx.equal("repeatable", np.concatenate(f3.ba), np.concatenate(f.ba))


def iir(ctx):
    fs = ctx.pick("fs", gen.FS)
    pt = ctx.pick("pass", list(PT))
    design = ctx.pick("design", list(dsp.IirDesignMethod))
    order = ctx.int("order", 1, 8)
    band = pt in (PT.Bandpass, PT.Bandstop)
    f1 = ctx.logu("f1", fs * 0.004, fs * 0.2)
    ratio = ctx.uniform("ratio", 1.4, 2.3)
    fr = [f1, f1 * ratio] if band else f1
    if band and ctx.flag("array"):
        fr = np.array(fr)
    rp = ctx.uniform("rp", 0.1, 3)
    rs = ctx.uniform("rs", 20, 80)
    name = design.name
    f = dsp.Filter.iir_filter(order, fr, pt, fs, design, rp, rs)
    ctx.equal("iir_fs", f.sampling_rate_hz, fs)
    ctx.ok("iir_flag", f.is_iir and not f.is_fir)
    ctx.equal("iir_order", f.order, order * (2 if band else 1))
    stable(ctx, f, "iir")
    edges = np.atleast_1d(fr)
    he = db(resp(f, 2 * np.pi * edges / fs))
    t = {"Butterworth": -3.0103, "Chebyshev1": -rp, "Elliptic": -rp, "Chebyshev2": -rs}
    key = next((k for k in t if name.lower().startswith(k.lower()[:6]) and (k[-1] not in "12" or name[-1] == k[-1] or "I" in name)), None)
    if name.lower().startswith("cheb"):
        key = "Chebyshev2" if ("2" in name or "II" in name) else "Chebyshev1"
    ctx.note(name)
    if key:
        ctx.close("iir_edge_level", he, np.full(len(edges), t[key]), 0, 2e-3 + 1e-3 * abs(t[key]), msg=name)
    grid = np.linspace(0, fs / 2, 801)[1:-1]
    H = db(resp(f, 2 * np.pi * grid / fs))
    lo, hi = edges[0], edges[-1]
    passb = {PT.Lowpass: grid <= lo, PT.Highpass: grid >= lo, PT.Bandpass: (grid >= lo) & (grid <= hi),
             PT.Bandstop: (grid <= lo) | (grid >= hi)}[pt]
    ctx.ok("iir_passive", np.max(H) < 1e-3, f"{np.max(H)} {name}")
    if key in ("Butterworth", "Chebyshev1", "Elliptic"):
        ctx.ok("iir_passband", np.all(H[passb] >= t[key] - 0.01), f"{np.min(H[passb]) if passb.any() else 0} {name}")
        if key != "Elliptic" and order > 0:
            ctx.ok("iir_outside", np.all(H[~passb] <= t[key] + 0.01), name)
    if key == "Chebyshev2":
        ctx.ok("iir_stopband", np.all(H[~passb] <= -rs + 0.01), name)
    if key == "Butterworth":
        # analytic magnitude through the bilinear transform
        k = np.tan(np.pi * grid / fs)
        ke = np.tan(np.pi * edges / fs)
        if pt == PT.Lowpass:
            v = k / ke[0]
        elif pt == PT.Highpass:
            v = ke[0] / k
        else:
            v = np.abs((k**2 - ke[0] * ke[1]) / (k * (ke[1] - ke[0])))
            if pt == PT.Bandstop:
                v = 1 / np.maximum(v, 1e-300)
        e = -10 * np.log10(1 + v ** (2 * order))
        use = e > -100
        ctx.close("butterworth_magnitude", H[use], e[use], 0, 1e-3)
    if ctx.flag("action", 0.3):
        action(ctx, f, "iir")


def fir(ctx):
    fs = ctx.pick("fs", gen.FS)
    pt = ctx.pick("pass", list(PT))
    order = ctx.int("order", 8, 200)
    if pt in (PT.Highpass, PT.Bandstop):
        order += order % 2
    band = pt in (PT.Bandpass, PT.Bandstop)
    f1 = ctx.uniform("f1", fs * 0.05, fs * 0.2)
    fr = [f1, f1 * ctx.uniform("ratio", 1.5, 2.3)] if band else f1
    win = ctx.pick("win", [dsp.Window.Hamming, dsp.Window.Hann, dsp.Window.Blackman, None, "kaiser", "default"])
    if win == "kaiser":
        beta = ctx.uniform("beta", 4, 10)
        win = dsp.Window.Kaiser.with_extra_parameter(beta)
        wv = np.kaiser(order + 1, beta)
    else:
        wv = {"Hann": np.hanning, "Hamming": np.hamming, "Blackman": np.blackman}[
            "Hamming" if win in (None, "default") else win.name](order + 1)
    f = dsp.Filter.fir_filter(order, fr, pt, fs) if win == "default" else dsp.Filter.fir_filter(order, fr, pt, fs, win)
    b, a = f.ba
    ctx.ok("fir_flag", f.is_fir and not f.is_iir)
    ctx.equal("fir_order", (f.order, len(b)), (order, order + 1))
    ctx.close("fir_linear_phase", b, b[::-1], 1e-9)
    m = np.arange(order + 1) - order / 2
    e = np.atleast_1d(fr) / (fs / 2)
    lp = lambda c: c * np.sinc(c * m)
    h = {PT.Lowpass: lambda: lp(e[0]), PT.Highpass: lambda: lp(1.0) - lp(e[0]),
         PT.Bandpass: lambda: lp(e[1]) - lp(e[0]), PT.Bandstop: lambda: lp(e[0]) + lp(1.0) - lp(e[1])}[pt]() * wv
    ref = {PT.Lowpass: 0.0, PT.Bandstop: 0.0, PT.Highpass: np.pi}.get(pt, np.pi * np.mean(e))
    h = h / np.sum(h * np.cos(ref * m))
    ctx.close("fir_windowed_sinc", b, h, 1e-6)
    ctx.close("fir_unit_gain", np.abs(resp(f, [ref])), np.ones(1), 1e-9)
    if order > 150 and fs * 0.1 < f1 and (not band or e[1] - e[0] > 0.15) and win != dsp.Window.Blackman:
        H = np.abs(resp(f, np.pi * e))
        ctx.close("fir_-6dB", H, np.full(len(H), 0.5), 0, 0.03)
    action(ctx, f, "fir", 512)


def matched(ctx):
    fs = ctx.pick("fs", gen.FS)
    eq = ctx.pick("eq", [EQ.Peaking, EQ.Lowpass, EQ.Highpass, EQ.BandpassPeak, EQ.BandpassSkirt, EQ.Lowshelf, EQ.Highshelf])
    f0 = ctx.logu("f0", fs * 0.003, fs * 0.4)
    g = ctx.pick("g", [0.0, ctx.uniform("gu", -18, 18)])
    q = ctx.logu("q", 0.4, 6)
    qf = ctx.pick("qf", [None, 1.0, ctx.uniform("qfu", 0.6, 2)])
    f = FBK.matched_biquad(eq, f0, g, q, fs, qf)
    N = eq.name
    a = 10 ** (g / 20)
    w0 = 2 * np.pi * f0 / fs
    c = np.concatenate([np.asarray(f.ba[0]), np.asarray(f.ba[1])])
    if not ctx.ok("matched_finite", np.all(np.isfinite(c)), f"{N} {c}"):
        return
    stable(ctx, f, "matched")
    z = np.roots(np.trim_zeros(np.asarray(f.ba[0])))
    ctx.ok("matched_minimum_phase", np.all(np.abs(z) <= 1 + 1e-6), f"{N} {np.abs(z)}")
    h0 = np.abs(resp(f, [w0]))[0]
    dc = np.abs(resp(f, [0.0]))[0]
    if N == "Peaking":
        ctx.close("matched_peak", h0, a, 1e-4)
        ctx.close("matched_dc", dc, 1.0, 1e-4)
        w = np.linspace(0.01, 3.1, 200)
        H = np.abs(resp(f, w))
        # the designs match the prototype approximately: no gain outside the range
        ctx.ok("matched_range", np.all(H <= max(a, 1) * 1.1) and np.all(H >= min(a, 1) * 0.8), f"{H.min()} {H.max()} {a}")
    elif N == "Lowpass":
        ctx.close("matched_lp", [h0, dc], [a * q, a], 1e-4)
    elif N == "Highpass":
        ctx.close("matched_hp", [h0, dc], [a * q, 0.0], 1e-4, 1e-6)
    elif N.startswith("Band"):
        ctx.close("matched_bp", [h0, dc], [a, 0.0], 1e-3, 1e-5)
    else:
        hi = np.abs(resp(f, [np.pi]))[0]
        if N == "Lowshelf":
            ctx.close("matched_ls", dc, a, 1e-4)
            ctx.close("matched_shelf_mid", h0, a**0.5, 0.1 if f0 < 0.25 * fs else 0.3)
        else:
            ctx.close("matched_hs", dc, 1.0, 1e-4)
            ctx.close("matched_shelf_mid", h0, a**0.5, 0.1 if f0 < 0.25 * fs else 0.3)
        # analog Butterworth-type shelf of the paper at nyquist
        fc4 = (f0 / (fs / 2)) ** 4
        e = ((fc4 + a) / (fc4 + 1 / a)) ** 0.5 if N == "Highshelf" else ((fc4 + 1 / a) / (fc4 + a)) ** 0.5 * a
        if abs(g) > 0.01:
            ctx.close("matched_shelf_nyquist", hi, e, 1e-3)
    if N not in ("Lowshelf", "Highshelf", "Peaking") and f0 < fs * 0.02:
        # far below nyquist it is the ordinary analog response
        w = w0 * np.array([0.25, 0.5, 0.8, 1.25, 2.0, 4.0])
        e = np.abs(analog_biquad(EQ.BandpassPeak if N.startswith("Band") else eq, 1j * w / w0, g, q))
        ctx.close("matched_analog", np.abs(resp(f, w)), e, 0.02)
    if N == "Peaking" and qf is not None and f0 < fs * 0.02:
        # Vicanek: H = (s^2 + G s/Q + 1)/(s^2 + s/Q + 1)
        w = w0 * np.array([0.25, 0.5, 0.8, 1.25, 2.0, 4.0])
        s = 1j * w / w0
        Q = q * qf
        e = np.abs((s**2 + a * s / Q + 1) / (s**2 + s / Q + 1))
        ctx.close("matched_analog_peak", np.abs(resp(f, w)), e, 0.02)
    if N == "Peaking" and f0 < fs * 0.1:
        if qf is None:
            e = db(resp(dsp.Filter.biquad(eq, f0, g, q, fs), w))
            ctx.close("matched_like_standard", db(H), e, 0, 1.0 + 0.2 * abs(g))
    ctx.equal("matched_repeatable", np.concatenate(list(map(np.asarray, FBK.matched_biquad(eq, f0, g, q, fs, qf).ba))), c)


def weighting(ctx):
    fs = ctx.pick("fs", gen.FS + [192000])
    a = ctx.flag("A")
    f = FBK.weighting_filter(a, fs)
    stable(ctx, f, "weighting")
    w = np.exp(ctx.rng.uniform(np.log(2 * np.pi * 15 / fs), np.log(3.0), 50))
    # standard's curve at the frequency the bilinear transform maps to
    fa = 2 * fs * np.tan(w / 2) / (2 * np.pi)
    f2 = fa**2

    def curve(f2):
        r = 12194.0**2 * f2 / ((f2 + 20.6**2) * (f2 + 12194.0**2))
        if a:
            r = r * f2 / np.sqrt((f2 + 107.7**2) * (f2 + 737.9**2))
        return r

    e = db(curve(f2)) - db(curve(np.array([1e6])))
    ctx.close("weighting_curve", db(resp(f, w)), e, 0, 0.15)
    # and at the frequency itself where warping is small
    ww = w[w < 0.15]
    e = db(curve((ww * fs / 2 / np.pi) ** 2)) - db(curve(np.array([1e6])))
    ctx.close("weighting_standard", db(resp(f, ww)), e, 0, 0.25)
    if fs >= 44100:
        ctx.close("weighting_1k", db(resp(f, [2 * np.pi * 1000 / fs])), np.zeros(1), 0, 0.1)
    action(ctx, f, "weighting")


def pinking(ctx):
    fs = ctx.pick("fs", gen.FS)
    f0 = ctx.logu("f0", fs * 1e-3, fs * 0.45)
    f = FBK.pinking_filter(f0, fs)
    stable(ctx, f, "pinking")
    ctx.close("pink_0dB", np.abs(resp(f, [2 * np.pi * f0 / fs])), np.ones(1), 1e-6)
    r = np.exp(np.linspace(np.log(5e-4), np.log(0.4), 60))  # of fs
    H = db(resp(f, 2 * np.pi * r))
    slope, off = np.polyfit(np.log2(r), H, 1)
    ctx.ok("pink_slope", abs(slope + 3.01) < 0.15, slope)
    ctx.ok("pink_ripple", np.max(np.abs(H - (slope * np.log2(r) + off))) < 1.0, np.max(np.abs(H - (slope * np.log2(r) + off))))
    action(ctx, f, "pinking", 8192)


def complementary(ctx):
    fs = ctx.pick("fs", gen.FS)
    pt = ctx.pick("pass", list(PT))
    order = ctx.int("order", 20, 200)
    if pt in (PT.Highpass, PT.Bandstop):
        order += order % 2
    f1 = ctx.uniform("f1", fs * 0.1, fs * 0.2)
    fr = [f1, f1 * 1.7] if pt in (PT.Bandpass, PT.Bandstop) else f1
    f = dsp.Filter.fir_filter(order, fr, pt, fs)
    if ctx.flag("negative", 0.2):
        f = dsp.Filter.from_ba(f.ba[0] * 1.0, [1.0], fs)
    b0 = f.ba[0].copy()
    c = FBK.complementary_fir_filter(f)
    ctx.equal("complementary_input", f.ba[0], b0)
    ctx.equal("complementary_meta", (c.is_fir, len(c.ba[0]), c.sampling_rate_hz), (True, len(b0), fs))
    s = c.ba[0] + b0
    if order % 2 == 0:
        e = np.zeros(order + 1)
        e[order // 2] = 1
        ctx.close("complementary_pure_delay", s, e, 1e-12)
    else:
        w = np.linspace(0, np.pi * (1 - 12 / (order + 1)), 60)
        w = w[w > 0]
        if len(w) and order > 30:
            H = np.exp(-1j * np.outer(w, np.arange(order + 1))) @ s
            ctx.close("complementary_delay_even", H, np.exp(-1j * w * order / 2), 0.01)


def gaussian(ctx):
    fs = ctx.pick("fs", [8000, 16000, 48000])
    T = ctx.uniform("T", 20, 150) / fs
    bv = ctx.logu("bv", 1e-3, 0.3)
    order = ctx.pick("order", [2, 4, 8, 12, 20])
    f = FBK.gaussian_kernel(T, bv, order, fs)
    stable(ctx, f, "gaussian")
    ctx.close("gaussian_dc", np.abs(resp(f, [0.0])), np.ones(1), 1e-9)
    n = 4096
    x = np.zeros((n, 1))
    x[n // 2] = 1
    y = f.filter_signal(dsp.Signal(None, x, fs), zero_phase=True).time_data[:, 0]
    t = np.arange(n) - n // 2
    ctx.close("gaussian_sum", np.sum(y), 1.0, 1e-5)
    sigma2 = (T * fs) ** 2 / (2 * np.log(1 / bv))
    ctx.close("gaussian_variance", np.sum(y * t**2), sigma2, 1e-5)
    ctx.close("gaussian_even", y[1:], y[1:][::-1], 1e-6)
    if order >= 12:
        g = np.exp(-t**2 / 2 / sigma2)
        ctx.close("gaussian_shape", y / y[n // 2], g, 0, 0.12)
        ctx.close("gaussian_boundary", np.interp(T * fs, t, y / y[n // 2]), bv, 0, 0.05)


def thiran(ctx):
    fs = ctx.pick("fs", gen.FS)
    d = ctx.uniform("d", 0.02, 0.98)
    order = ctx.int("order", 1, 12)
    f = FBK.fractional_delay(d, order, fs)
    w = np.linspace(0, 3.1, 100)
    ctx.close("thiran_allpass", np.abs(resp(f, w)), np.ones(100), 1e-8)
    stable(ctx, f, "thiran")
    ctx.equal("thiran_order", f.order, order)
    w = np.linspace(0.002, 0.6, 40)
    ph = np.unwrap(np.angle(resp(f, w)))
    ctx.close("thiran_phase_delay", -ph / w, np.full(40, order + d), 0, 0.03 if order > 1 else 0.2)
    w = np.array([1e-3, 2e-3])
    ph = np.angle(resp(f, w))
    ctx.close("thiran_dc_delay", -(ph[1] - ph[0]) / 1e-3, order + d, 0, 1e-3)
    action(ctx, f, "thiran", 512)
    for bad in (0.0, 1.0, -0.2, 1.3):
        ctx.raises("thiran_range", lambda: FBK.fractional_delay(bad, order, fs))
    ctx.raises("thiran_bad_order", lambda: FBK.fractional_delay(d, 0, fs))


def arma(ctx):
    fs = ctx.pick("fs", gen.FS)
    k = ctx.int("pairs", 1, 3)
    p = ctx.rng.uniform(0.3, 0.9, k) * np.exp(1j * np.linspace(0.4, 2.6, k) * ctx.rng.uniform(0.8, 1.15))
    a = np.real(np.poly(np.concatenate([p, p.conj()])))
    gain = ctx.logu("gain", 0.05, 5)
    n = ctx.int("n", 600, 1500)
    x = np.zeros(n)
    x[0] = gain
    h = sig.lfilter([1.0], a, x)
    ir = dsp.ImpulseResponse(None, h.copy(), fs, constrain_amplitude=False)
    ob = ctx.int("ob", 0, 3)
    method = ctx.pick("method", ["yule-walker", "burg", "Yule-Walker"])
    f = FBK.arma(ir, 2 * k, ob, method)
    ctx.equal("arma_fs", f.sampling_rate_hz, fs)
    ctx.equal("arma_input", ir.time_data[:, 0], h)
    b_, a_ = f.ba
    ctx.equal("arma_len", (len(np.atleast_1d(a_)), len(np.atleast_1d(b_))), (2 * k + 1, ob + 1))
    stable(ctx, f, "arma")
    if method != "burg":
        ctx.close("arma_ar_exact", a_ / a_[0], a, 1e-5)
        if ob:
            e = np.zeros(ob + 1)
            e[0] = gain
            ctx.close("arma_ma", b_ / a_[0], e, 1e-4)
    # general response: the numerator is the least-squares optimum given a
    h = h + np.concatenate([[0], h[:-1]]) * 0.5 + sig.lfilter([1], a, ctx.normal(n) * gain * np.exp(-np.arange(n) / 4) * 0.2)
    ir = dsp.ImpulseResponse(None, h.copy(), fs, constrain_amplitude=False)
    ob = ctx.int("ob2", 1, 6)
    f = FBK.arma(ir, 2 * k, ob, method)
    stable(ctx, f, "arma2")
    b_, a_ = f.ba
    spec = np.fft.rfft(h)
    w = 2 * np.pi * np.arange(len(spec)) / n
    A = np.exp(-1j * np.outer(w, np.arange(ob + 1))) / (np.exp(-1j * np.outer(w, np.arange(len(a_)))) @ a_)[:, None]
    opt = np.linalg.lstsq(np.vstack([A.real, A.imag]), np.hstack([spec.real, spec.imag]), rcond=None)[0]
    ctx.close("arma_ma_optimal", b_, opt, 1e-4)


def octave_bank(ctx):
    fs = ctx.pick("fs", [16000, 44100, 48000])
    frac = ctx.pick("frac", [1, 3])
    lo = ctx.pick("lo", [63.0, 125.0, 250.0])
    hi = ctx.pick("hi", [1000.0, 2000.0, 4000.0])
    order = ctx.int("order", 2, 6)
    rng = [lo, hi]
    fb, fc, (fl, fu) = FBK.fractional_octave_bands(rng, frac, order, fs)
    ctx.equal("octave_count", fb.number_of_filters, len(fc))
    G = 10 ** 0.3
    ctx.ok("octave_range", fc[0] <= lo * 1.15 and fc[-1] >= hi / 1.15 and fc[0] >= lo / 1.15 and fc[-1] <= hi * 1.15, fc)
    ctx.close("octave_spacing", fc[1:] / fc[:-1], np.full(len(fc) - 1, G ** (1 / frac)), 1e-9)
    ctx.close("octave_edges_low", fl, fc * G ** (-1 / 2 / frac), 1e-9)
    ctx.close("octave_edges_high", fu, fc * G ** (1 / 2 / frac), 1e-9)
    for f, c, l, u in zip(fb.filters, fc, fl, fu):
        stable(ctx, f, "octave")
        H = db(resp(f, 2 * np.pi * np.array([l, u, c]) / fs))
        ctx.close("octave_-3dB", H[:2], np.full(2, -3.0103), 0, 0.02)
        ctx.close("octave_centre", H[2], 0.0, 0, 0.1)


def fir_designer(ctx):
    fs = ctx.pick("fs", [8000, 44100, 48000])
    n = 2 ** ctx.int("log2n", 11, 13) - ctx.int("odd", 0, 1)
    fr = np.fft.rfftfreq(n, 1 / fs)
    u = fr / fs * 2
    base = ctx.uniform("base", 30, 60)
    gd = base + ctx.uniform("amp", 0, 25) * np.cos(np.pi * u * ctx.int("k", 1, 2))  # samples
    mag_kind = ctx.pick("mag", ["one", "smooth"])
    mag = np.ones(len(u)) if mag_kind == "one" else 10 ** (ctx.uniform("dB", -12, 12) * np.exp(-((u - 0.4) / 0.2) ** 2) / 20)
    inc = ctx.pick("inc", [0.0, 20.0 / fs * 1e3])
    extra = ctx.pick("extra", [None, 100])
    trap = ctx.flag("trap")
    integer = ctx.flag("integer")
    cls = ctx.pick("cls", ["fir", "gd"])
    if cls == "gd":
        mag = np.ones(len(u))
        d = FBK.GroupDelayDesigner(gd / fs, n, fs)
    else:
        d = FBK.FirDesigner(mag, gd / fs, n, fs)
    gd0, mag0 = gd.copy(), mag.copy()
    r = d.set_parameters(inc, extra, trap, integer)
    ctx.ok("designer_chain", r is d)
    f = d.get_filter()
    ir = d.get_filter_as_ir()
    b = f.ba[0]
    ctx.equal("designer_ir_filter", ir.time_data[:, 0], b)
    ctx.equal("designer_repeat", d.get_filter().ba[0], b)
    ctx.equal("designer_inputs", np.concatenate([gd, mag]), np.concatenate([gd0, mag0]))
    ctx.equal("designer_fs", (f.sampling_rate_hz, ir.sampling_rate_hz, f.is_fir), (fs, fs, True))
    target = gd + inc * fs / 1e3
    off = designed(ctx, "designer", b, n, target, extra, integer, mag)
    ctx.ok("designer_offset", abs(off) < (1.1 if integer and n % 2 == 0 else 0.05), off)


def designed(ctx, key, b, n, target, extra, integer, mag):
    """Delay (samples, on the design's frequency grid) and magnitude of a
    designed filter; returns the mean deviation of the delay."""
    k = np.arange(len(target))
    if extra is None:
        # exact on the grid: each phase step is the mean of the two delays
        ctx.equal(key + "_length", len(b), n)
        H = np.fft.rfft(b)
        g = -np.diff(np.unwrap(np.angle(H))) * n / 2 / np.pi
        use = (k[:-1] > 3) & (k[:-1] < 0.97 * len(k))
        off = float(np.median((g - (target[1:] + target[:-1]) / 2)[use]))
        ctx.close(key + "_group_delay", g[use], (target[1:] + target[:-1])[use] / 2 + off, 0, 0.02)
        ctx.close(key + "_magnitude", np.abs(H)[1:-1], mag[1:-1], 1e-6)
        return off
    kk = np.unique(np.linspace(0.08 * len(k), 0.85 * len(k), 120).astype(int))
    w = 2 * np.pi * kk / n
    E = np.exp(-1j * np.outer(w, np.arange(len(b))))
    H = E @ b
    g = np.real((E @ (b * np.arange(len(b)))) / H)
    d = g - target[kk]
    ctx.ok(key + "_group_delay_trimmed", np.quantile(np.abs(d), 0.8) < 1.5, np.quantile(np.abs(d), 0.8))
    ctx.ok(key + "_magnitude_trimmed", np.quantile(np.abs(np.abs(H) / mag[kk] - 1), 0.8) < 0.25, np.max(np.abs(np.abs(H) / mag[kk] - 1)))
    off = float(np.median(d))
    return off if abs(off) > 0.3 else 0.0


def linearizer(ctx):
    fs = ctx.pick("fs", [16000, 44100, 48000])
    n = 2 ** ctx.int("log2n", 11, 13)
    filt = ctx.pick("filt", ["allpass", "peak", "lowpass1"])
    f0 = ctx.uniform("f0", 0.03 * fs, 0.2 * fs)
    q = ctx.uniform("q", 0.5, 2)
    f = dsp.Filter.biquad({"allpass": EQ.Allpass, "peak": EQ.Peaking, "lowpass1": EQ.AllpassFirstOrder}[filt], f0, 6.0 if filt == "peak" else 0.0, q, fs)
    w = 2 * np.pi * np.fft.rfftfreq(n)
    ph = np.angle(resp(f, w))
    ph0 = ph.copy()
    pl = FBK.PhaseLinearizer(ph, n, fs)
    inc = ctx.pick("inc", [50.0, 100.0, 300.0])
    extra = ctx.pick("extra", [None, 80])
    pl.set_parameters(inc, extra, ctx.flag("trap"))
    lin = pl.get_filter()
    ctx.equal("linearizer_input", ph, ph0)
    gd_all = -np.gradient(np.unwrap(ph)) * n / 2 / np.pi
    total = np.max(gd_all) * (1 + inc / 100)
    off = designed(ctx, "linearizer", lin.ba[0], n, total - gd_all, extra, False, np.ones(len(ph)))
    ctx.ok("linearizer_offset", abs(off) < 0.05 + 0.02 * np.max(gd_all), off)


def from_file(ctx):
    """FIR filters read from a file are the stored response."""
    import os, tempfile
    fs = ctx.pick("fs", [16000, 44100, 48000])
    n, c = ctx.int("n", 5, 300), ctx.int("c", 1, 3)
    n = max(n, 4)
    x = ctx.rng.uniform(-0.9, 0.9, (n, c))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.wav")
        dsp.ImpulseResponse(None, x, fs).save_signal(p)
        k = ctx.int("k", 0, c - 1)
        f = dsp.Filter.fir_from_file(p, k)
    ctx.equal("file_fs", (f.sampling_rate_hz, f.is_fir), (fs, True))
    ctx.close("file_taps", f.ba[0], x[:, k], 0, 2.0**-15)


MORE = 5  # times the number of cases below in the quick tier
FAMILIES = [
    Family("biquads", biquads, 900, 30000),
    Family("iir", iir, 500, 16000),
    Family("fir", fir, 300, 8000),
    Family("matched", matched, 500, 16000),
    Family("weighting", weighting, 40, 800),
    Family("pinking", pinking, 60, 1500),
    Family("complementary", complementary, 120, 3000),
    Family("gaussian", gaussian, 60, 1500),
    Family("thiran", thiran, 120, 3000),
    Family("arma", arma, 120, 3000),
    Family("octave_bank", octave_bank, 60, 1000),
    Family("fir_designer", fir_designer, 80, 2000),
    Family("linearizer", linearizer, 80, 2000),
    Family("from_file", from_file, 40, 600),
]
