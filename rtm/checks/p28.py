"""P28: signal transforms."""

import contextlib
import io
import warnings

import numpy as np
from scipy.signal import lfilter, get_window, freqz
import dsptoolbox as dsp
from dsptoolbox import transforms as tr
from rtm.core import Family
from rtm.snap import snap, diff
from rtm import gen

PROPERTY = "P28"


def silent(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def make(ctx, n, c, fs, x=None, cls=dsp.Signal):
    x = ctx.rng.normal(size=(n, c)) * ctx.logu("level", 1e-4, 0.2) if x is None else x
    return cls(None, x.copy(), fs, constrain_amplitude=False), x


def analytic(ctx):
    """Real part kept, negative frequencies gone, envelope of tones."""
    fs = ctx.pick("fs", gen.FS)
    n, c = ctx.int("n", 1, 700), ctx.int("ch", 1, 4)
    c = min(n, c)
    cls = ctx.pick("class", [dsp.Signal, dsp.ImpulseResponse])
    s, x = make(ctx, n, c, fs, None if n < 8 else gen.content(ctx, n, c, fs), cls)
    if ctx.flag("multiband"):
        k = ctx.int("bands", 1, 3)
        parts = [make(ctx, n, c, fs, None, cls) for _ in range(k)]
        mb = dsp.MultiBandSignal([p[0] for p in parts])
        before = snap(mb)
        out = tr.hilbert(mb)
        ctx.ok("input_kept", diff(before, snap(mb)) is None)
        ctx.ok("bands", type(out) is dsp.MultiBandSignal and out.number_of_bands == k)
        pairs = [(p[1], b) for p, b in zip(parts, out.bands)]
    else:
        before = snap(s)
        pairs = [(x, tr.hilbert(s))]
        ctx.ok("input_kept", diff(before, snap(s)) is None)
    for x, o in pairs:
        ctx.ok("type", type(o) is cls and o.sampling_rate_hz == fs)
        ctx.close("real_part", o.time_data, x, 1e-10, scale=np.max(np.abs(x)))
        z = gen.full(o)
        Z, X = np.fft.fft(z, axis=0), np.fft.fft(x, axis=0)
        k = np.arange(n)
        neg = k > n / 2
        pos = (k > 0) & (k < n / 2)
        edge = (k == 0) | (2 * k == n)
        sc = np.max(np.abs(X)) + 1e-300
        ctx.close("no_negative_frequencies", np.abs(Z[neg]), 0 * np.abs(Z[neg]), 1e-10, scale=sc)
        ctx.close("positive_doubled", Z[pos], 2 * X[pos], 1e-10, scale=sc)
        ctx.close("edges_kept", Z[edge], X[edge], 1e-10, scale=sc)
        ctx.event("bands", 1)
    if n >= 32:
        b = ctx.int("bin", 1, (n - 1) // 2 - 1)
        a, ph = ctx.logu("amp", 0.01, 0.9), ctx.uniform("phase", -3, 3)
        t, _ = make(ctx, n, 1, fs, a * np.cos(2 * np.pi * b * np.arange(n) / n + ph)[:, None])
        ctx.close("tone", gen.full(tr.hilbert(t))[:, 0], a * np.exp(1j * (2 * np.pi * b * np.arange(n) / n + ph)), 1e-9, scale=a)


def cepstra(ctx):
    fs = ctx.pick("fs", gen.FS)
    n, c = ctx.int("n", 2, 1200), ctx.int("ch", 1, 4)
    c = min(n, c)
    s, x = make(ctx, n, c, fs)
    if ctx.flag("decay") and n > 16:
        x = x * np.exp(-np.arange(n) / n * 6)[:, None]
        s, x = make(ctx, n, c, fs, x)
    X = np.fft.fft(x, axis=0)
    if np.min(np.abs(X)) < 1e-9 * np.max(np.abs(X)):
        ctx.note("spectrum with a zero")
        return
    before = snap(s)
    cc = tr.cepstrum(s, True)
    rc = tr.cepstrum(s, False)
    ctx.ok("input_kept", diff(before, snap(s)) is None)
    ctx.equal("shape", (cc.shape, rc.shape), ((n, c), (n, c)))
    L = np.fft.fft(cc, axis=0)
    ctx.close("log_magnitude", L.real, np.log(np.abs(X)), 1e-8, scale=1 + np.max(np.abs(np.log(np.abs(X)))))
    ctx.close("phase", np.exp(1j * L.imag), X / np.abs(X), 1e-7, scale=1)
    ctx.close("real_cepstrum", rc, np.fft.ifft(np.log(np.abs(X)), axis=0).real + 0j if np.iscomplexobj(rc) else np.fft.ifft(np.log(np.abs(X)), axis=0).real, 1e-9, scale=1 + np.max(np.abs(np.log(np.abs(X)))))
    k = cc.copy()
    y = tr.from_complex_cepstrum(cc, fs)
    ctx.ok("cepstrum_kept", np.array_equal(cc, k))
    ctx.ok("rate", y.sampling_rate_hz == fs)
    if np.max(np.abs(x)) <= 1:
        ctx.close("inverse", y.time_data, x, 1e-8, scale=np.max(np.abs(x)))
    g = ctx.logu("gain", 0.1, 5)
    s2, _ = make(ctx, n, c, fs, x * g)
    d = tr.cepstrum(s2, False) - rc
    ctx.close("gain_is_first_coefficient", d[0].real, np.full(c, np.log(g)), 1e-8, scale=1)
    ctx.close("gain_only_first", np.abs(d[1:]), 0 * np.abs(d[1:]), 1e-8, scale=1)


def midside(ctx):
    fs = ctx.pick("fs", gen.FS)
    n = ctx.int("n", 4, 900)
    cls = ctx.pick("class", [dsp.Signal, dsp.ImpulseResponse])
    s, x = make(ctx, n, 2, fs, None, cls)
    before = snap(s)
    m = tr.stereo_mid_side(s, True)
    ctx.ok("input_kept", diff(before, snap(s)) is None)
    ctx.ok("type", type(m) is cls and m.sampling_rate_hz == fs)
    ref = np.stack([(x[:, 0] + x[:, 1]) / 2, (x[:, 0] - x[:, 1]) / 2], 1)
    ctx.close("mid_side", m.time_data, ref, 1e-12, scale=np.max(np.abs(x)))
    ctx.close("inverse", tr.stereo_mid_side(m, False).time_data, x, 1e-12, scale=np.max(np.abs(x)))
    ctx.close("inverse_first", tr.stereo_mid_side(tr.stereo_mid_side(s, False), True).time_data, x, 1e-12, scale=np.max(np.abs(x)))
    mono, _ = make(ctx, n, 2, fs, np.repeat(x[:, :1], 2, 1))
    ctx.close("mono_has_no_side", tr.stereo_mid_side(mono, True).time_data, np.stack([x[:, 0], 0 * x[:, 0]], 1), 1e-12, scale=np.max(np.abs(x)))
    k = ctx.pick("channels", [1, 3, 4])
    ctx.raises("needs_two_channels", lambda: tr.stereo_mid_side(make(ctx, n, k, fs)[0], True))


def direct(ctx):
    fs = ctx.pick("fs", gen.FS)
    n, c = ctx.int("n", 1, 3000), ctx.int("ch", 1, 4)
    c = min(n, c)
    s, x = make(ctx, n, c, fs, None if n < 8 else gen.content(ctx, n, c, fs))
    f = np.sort(ctx.rng.uniform(-fs if ctx.flag("negative", 0.2) else 0, fs, ctx.int("freqs", 1, 40)))
    if ctx.flag("integers", 0.3):
        f = np.round(f).astype(int)
    if ctx.flag("unsorted", 0.3):
        f = ctx.rng.permutation(f)
    before, fb = snap(s), f.copy()
    y = tr.dft(s, f)
    ctx.ok("input_kept", diff(before, snap(s)) is None and np.array_equal(f, fb))
    ref = np.exp(-2j * np.pi * np.outer(f, np.arange(n) / fs)) @ x
    ctx.close("fourier_sum", y, ref, 1e-8, scale=np.sum(np.abs(x)) / c + 1e-300)
    if n > 4:
        b = ctx.rng.integers(0, n // 2 + 1, 8)
        ctx.close("equals_fft", tr.dft(s, b * fs / n), np.fft.fft(x, axis=0)[b], 1e-8, scale=np.sum(np.abs(x)) / c)
    ctx.close("repeatable", tr.dft(s, f), y, 1e-12)
    ctx.event("bins", len(f))


def allpass(w, lam):
    """Frequency to which w is mapped: response at nu of the warped system is
    that of the original at -arg A(nu); A = (z^-1 - lam)/(1 - lam z^-1)."""
    z = np.exp(-1j * w)
    return np.mod(-np.angle((z - lam) / (1 - lam * z)), 2 * np.pi)


def warping(ctx):
    """Definition in the frequency domain, cancellation, factors, lengths."""
    fs = ctx.pick("fs", gen.FS)
    lam = ctx.uniform("factor", -0.75, 0.75)
    L, c = ctx.int("support", 3, 60), ctx.int("ch", 1, 3)
    n = 1500
    h = np.zeros((n, c))
    h[:L] = ctx.rng.normal(size=(L, c)) * 0.1
    cls = ctx.pick("class", [dsp.Signal, dsp.ImpulseResponse])
    s, _ = make(ctx, n, c, fs, h, cls)
    before = snap(s)
    y = silent(lambda: tr.warp(s, lam, False))
    ctx.ok("input_kept", diff(before, snap(s)) is None)
    ctx.ok("type", type(y) is cls and y.sampling_rate_hz == fs and y.time_data.shape == (n, c))
    w = ctx.rng.uniform(0, np.pi, 40)
    E = lambda x, w: np.exp(-1j * np.outer(w, np.arange(len(x)))) @ x
    sc = np.sum(np.abs(h))
    ctx.close("warped_response", E(y.time_data, w), E(h, allpass(w, lam)), 1e-6, scale=sc)
    back = silent(lambda: tr.warp(y, -lam, False))
    ctx.close("inverse_cancels", back.time_data, h, 1e-6, scale=sc)
    p, q = ctx.rng.normal(size=2)
    h2 = np.zeros((n, c))
    h2[:L] = ctx.rng.normal(size=(L, c)) * 0.1
    y2 = silent(lambda: tr.warp(make(ctx, n, c, fs, h2, cls)[0], lam, False))
    y3 = silent(lambda: tr.warp(make(ctx, n, c, fs, p * h + q * h2, cls)[0], lam, False))
    ctx.close("linear", y3.time_data, p * y.time_data + q * y2.time_data, 1e-9, scale=sc)
    # Length longer than the data extends with the rest of the response
    short, _ = make(ctx, L, c, fs, h[:L], cls)
    M = L + ctx.int("extra", 0, 400)
    z = silent(lambda: tr.warp(short, lam, False, M))
    ctx.equal("total_length", z.time_data.shape, (M, c))
    ctx.close("total_length_values", z.time_data, y.time_data[:M], 1e-9, scale=sc)
    M = ctx.int("shorter", c, L)
    z = silent(lambda: tr.warp(short, lam, False, M))
    ctx.equal("shorter_length", z.time_data.shape, (M, c))
    # Placing the start first
    d = ctx.int("delay", 0, 300)
    r = np.zeros((n, c))
    r[d : d + L] = h[:L]
    for ch in range(c):
        r[d, ch] = np.max(np.abs(r[:, ch])) * 1.5
    y1 = silent(lambda: tr.warp(make(ctx, n, c, fs, r, cls)[0], lam, True))
    # The start is the first sample above the threshold or the one before
    err = [np.max(np.abs(y1.time_data - silent(lambda: tr.warp(make(ctx, n, c, fs, np.roll(r, -k, 0), cls)[0], lam, False)).time_data)) for k in (d, d - 1)]
    ctx.ok("shifted_start", min(err) < 1e-9 * np.sum(np.abs(r)), f"{err}")
    ctx.raises("factor_beyond_one", lambda: tr.warp(s, float(ctx.pick("bad", [1.0, -1.0, 1.5, -3.0])), False))


def scales(ctx):
    """Bark and ERB factors against Smith & Abel."""
    fs = ctx.pick("fs", gen.FS)
    s, x = make(ctx, 200, 2, fs, np.vstack([ctx.rng.normal(size=(8, 2)) * 0.1, np.zeros((192, 2))]))
    k = fs / 1e3
    ref = {"bark": 1.0674 * np.sqrt(2 / np.pi * np.arctan(0.06583 * k)) - 0.1916, "erb": 0.7446 * np.sqrt(2 / np.pi * np.arctan(0.1418 * k)) + 0.03237}
    name = ctx.pick("scale", list(ref))
    case = ctx.pick("case", [str, str.upper, str.title])
    y, f = silent(lambda: tr.warp(s, case(name), False))
    y2, f2 = silent(lambda: tr.warp(s, case(name) + "-", False))
    ctx.close("factor", f, -ref[name], 1e-9, scale=1)
    ctx.close("factor_inverse", f2, ref[name], 1e-9, scale=1)
    ctx.close("same_as_number", silent(lambda: tr.warp(s, f, False)).time_data, y.time_data, 1e-12, scale=1)
    ctx.close("same_as_inverse_number", silent(lambda: tr.warp(s, -f, False)).time_data, y2.time_data, 1e-12, scale=1)
    if name == "bark" and fs <= 48000:
        # The warped axis approximates the scale itself
        fr = np.linspace(100, min(fs / 2, 15000) * 0.98, 200)
        bark = lambda v: 13 * np.arctan(0.76e-3 * v) + 3.5 * np.arctan((v / 7500) ** 2)
        u = np.pi * bark(fr) / bark(fs / 2)
        # content at fr moves to the frequency nu where -arg A(nu) = w
        nu = allpass(2 * np.pi * fr / fs, -f)
        ctx.ok("follows_scale", np.max(np.abs(nu - u)) < 0.12 * np.pi, f"{np.max(np.abs(nu - u)) / np.pi}")
    ctx.raises("unknown_scale", lambda: tr.warp(s, "linear", False))


def filters(ctx):
    """Warped rational filters."""
    fs = ctx.pick("fs", gen.FS)
    lam = ctx.uniform("factor", -0.8, 0.8)
    npairs, zpairs = ctx.int("pole_pairs", 0, 4), ctx.int("zero_pairs", 0, 4)

    def roots(k, m):
        r = ctx.rng.uniform(0.1, m, k) * np.exp(1j * ctx.rng.uniform(0.05, 3.1, k))
        r = np.hstack([r, r.conj()])
        return np.hstack([r, ctx.rng.uniform(-0.9, 0.9, ctx.int("real", 0, 2))])

    p, z = roots(npairs, 0.97), roots(zpairs, 1.2)
    if not len(p) + len(z):
        p = np.array([0.5])
    k = ctx.logu("gain", 0.01, 10) * ctx.pick("sign", [-1, 1])
    if len(z) > len(p):  # keep the filter causal
        p = np.hstack([p, np.zeros(len(z) - len(p))])
    f = dsp.Filter.from_zpk(z, p, k, fs)
    before = snap(f)
    g = tr.warp_filter(f, lam)
    ctx.ok("input_kept", diff(before, snap(f)) is None)
    ctx.ok("type", type(g) is dsp.Filter and g.sampling_rate_hz == fs)
    w = np.linspace(0.02, 3.1, 60)
    H = lambda z, p, k, w: k * np.prod(np.exp(1j * w)[:, None] - z, 1) / np.prod(np.exp(1j * w)[:, None] - p, 1)
    z2, p2, k2 = g.get_coefficients(dsp.FilterCoefficientsType.Zpk)
    ratio = np.abs(H(z2, p2, k2, w)) / np.abs(H(z, p, k, allpass(w, lam)))
    ctx.close("warped_magnitude", ratio / ratio[0], np.ones(len(w)), 1e-5, scale=1)
    ctx.close("gain_kept", k2, k, 1e-9)
    ctx.ok("stable", np.all(np.abs(p2) < 1))
    back = tr.warp_filter(g, -lam)
    z3, p3, k3 = back.get_coefficients(dsp.FilterCoefficientsType.Zpk)
    ratio = np.abs(H(z3, p3, k3, w)) / np.abs(H(z, p, k, w))
    ctx.close("inverse_cancels", ratio / ratio[0], np.ones(len(w)), 1e-5, scale=1)
    # FIR filters become recursive
    taps = ctx.rng.normal(size=ctx.int("taps", 2, 12))
    e = dsp.Filter.from_ba(taps, [1.0], fs)
    b, a = tr.warp_filter(e, lam).get_coefficients(dsp.FilterCoefficientsType.Ba)
    E = lambda c, w: np.exp(-1j * np.outer(w, np.arange(len(c)))) @ c
    ref = np.abs(E(taps, allpass(w, lam)))
    ratio = np.abs(E(b, w) / E(a, w))
    j = np.argmax(ref)
    ctx.close("fir_magnitude", ratio / ratio[j], ref / ref[j], 1e-5, scale=1)
    ctx.raises("factor_beyond_one", lambda: tr.warp_filter(f, ctx.pick("bad", [1.0, -1.0, 2.0])))


def laguerre(ctx):
    fs = ctx.pick("fs", gen.FS)
    lam = ctx.uniform("factor", -0.7, 0.7)
    n, c = 600, ctx.int("ch", 1, 3)
    L = ctx.int("support", 1, 40)
    h = np.zeros((n, c))
    h[:L] = ctx.rng.normal(size=(L, c)) * 0.1
    s, _ = make(ctx, n, c, fs, h)
    before = snap(s)
    y = tr.laguerre(s, lam)
    ctx.ok("input_kept", diff(before, snap(s)) is None)
    ctx.equal("shape", y.time_data.shape, (n, c))
    sc = np.sum(np.abs(h))
    # Inner products with the Laguerre functions
    l = lfilter([np.sqrt(1 - lam**2)], [1, lam], np.eye(1, n)[0])
    for i in range(12):
        ctx.close("coefficients", y.time_data[i], l @ h, 1e-9, scale=sc)
        l = lfilter([lam, 1], [1, lam], l)
    ctx.close("energy", np.sum(y.time_data**2, 0), np.sum(h**2, 0), 1e-6)
    ctx.close("inverse_cancels", tr.laguerre(y, -lam).time_data, h, 1e-6, scale=sc)
    h2 = np.zeros((n, c))
    h2[:L] = ctx.rng.normal(size=(L, c)) * 0.1
    a, b = ctx.rng.normal(size=2)
    mix = tr.laguerre(make(ctx, n, c, fs, a * h + b * h2)[0], lam).time_data
    ctx.close("linear", mix, a * y.time_data + b * tr.laguerre(make(ctx, n, c, fs, h2)[0], lam).time_data, 1e-9, scale=sc * 3)
    # Same frequency mapping as warping
    w = ctx.rng.uniform(0.05, 3.09, 30)
    E = lambda x, w: np.abs(np.exp(-1j * np.outer(w, np.arange(len(x)))) @ x)
    v = allpass(w, lam)
    dw = np.abs((allpass(w + 1e-6, lam) - allpass(w - 1e-6, lam)) / 2e-6)[:, None]
    ctx.close("mapping", E(y.time_data, w), E(h, v) * np.sqrt(dw), 1e-4, scale=sc)
    ctx.close("zero_factor", tr.laguerre(s, 0.0).time_data, h, 1e-12, scale=sc)
    ctx.raises("factor_beyond_one", lambda: tr.laguerre(s, ctx.pick("bad", [1.0, -1.0, 2.0])))


def prediction(ctx):
    fs = ctx.pick("fs", [8000, 16000, 44100])
    n, c = ctx.int("n", 600, 6000), ctx.int("ch", 1, 3)
    order = ctx.int("order", 1, 16)
    wl = ctx.pick("window", [128, 255, 256, 512, 1024])
    hop = ctx.pick("hop", [None, wl // 4, wl // 2, wl // 3])
    win = ctx.pick("type", [dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Blackman])
    burg = ctx.flag("burg")
    p = ctx.rng.uniform(0.3, 0.95, 2) * np.exp(1j * ctx.rng.uniform(0.2, 2.9, 2))
    x = lfilter([1], np.poly(np.hstack([p, p.conj()])).real, ctx.rng.normal(size=(n, c)), axis=0)
    x *= 0.3 / np.max(np.abs(x))
    mute = ctx.flag("silence", 0.3)
    if mute:
        x[n // 3 : n // 3 + 2 * wl, int(ctx.rng.integers(c))] = 0
    s, _ = make(ctx, n, c, fs, x)
    before = snap(s)
    a, v = tr.lpc(s, order, wl, False, burg, hop, win)
    ctx.ok("input_kept", diff(before, snap(s)) is None)
    st = hop or wl // 2
    w = get_window({dsp.Window.Hann: "hann", dsp.Window.Hamming: "hamming", dsp.Window.Blackman: "blackman"}[win], wl)
    K = a.shape[1]
    ctx.equal("shape", (a.shape, v.shape), ((order + 1, K, c), (K, c)))
    ctx.ok("covers_signal", (K - 1) * st + wl >= n and K <= n // st + 2, f"{K} frames")
    xp = np.vstack([x, np.zeros((2 * wl + st, c))])
    for i in range(K):
        fr = xp[i * st : i * st + wl] * w[:, None]
        for ch in range(c):
            e0 = np.mean(fr[:, ch] ** 2)
            if e0 < 1e-30:
                ctx.ok("silent_frame", np.all(a[1:, i, ch] == 0) and v[i, ch] < 1e-30, f"{a[:, i, ch]} {v[i, ch]}")
                continue
            if e0 < 1e-9 * np.mean(x**2):
                continue
            q = a[:, i, ch]
            full = np.convolve(fr[:, ch], q)
            ctx.close("first_is_one", q[0], 1.0, 1e-12)
            if order > 0 and i % 3 == 0:
                ctx.ok("minimum_phase", np.all(np.abs(np.roots(q)) < 1 + 1e-9))
            if burg:
                F = np.convolve(fr[:, ch], q, "valid")
                B = np.convolve(fr[:, ch], q[::-1], "valid")
                alt = [np.mean(F**2 + B**2) / 2, np.mean(F[1:] ** 2 + B[:-1] ** 2) / 2]
                ctx.ok("burg_variance", 0.97 * min(alt) <= v[i, ch] <= 1.03 * max(alt), f"{v[i, ch]} {alt}")
                # One more reflection coefficient than order - 1 (Burg)
                k, f_, b_ = [1.0], fr[1:, ch], fr[:-1, ch]
                k = np.array([1.0])
                for _ in range(order):
                    r = -2 * (f_ @ b_) / (f_ @ f_ + b_ @ b_)
                    k = np.hstack([k, 0]) + r * np.hstack([k, 0])[::-1]
                    f_, b_ = (f_ + r * b_)[1:], (b_ + r * f_)[:-1]
                ctx.close("burg_coefficients", q, k, 1e-3 if e0 < 1e-8 else 1e-5, scale=np.max(np.abs(k)))
            else:
                ctx.close("variance", v[i, ch], np.sum(full**2) / wl, 1e-6)
                R = np.correlate(fr[:, ch], fr[:, ch], "full")[wl - 1 : wl + order]
                res = [q @ R[np.abs(m - np.arange(order + 1))] for m in range(1, order + 1)]
                ctx.close("normal_equations", np.array(res), np.zeros(order), 1e-7, scale=R[0] * np.sum(np.abs(q)))
    ctx.event("frames", K * c)
    _, _, y = silent(lambda: tr.lpc(s, order, wl, True, burg, hop, win))
    ctx.equal("synthesis_shape", y.time_data.shape, x.shape)
    if not mute:
        lev = 10 * np.log10(np.mean(y.time_data[wl : n - wl] ** 2) / np.mean(x[wl : n - wl] ** 2)) if n > 4 * wl else 0
        ctx.ok("synthesis_level", -9 < lev < 4, f"{lev} dB")
    else:
        ctx.ok("synthesis_finite", np.all(np.isfinite(y.time_data)))


def resynthesis(ctx):
    """Level and colour of the signal synthesised from the coefficients."""
    fs, n, c = 16000, 16000, ctx.int("ch", 1, 2)
    wl = ctx.pick("window", [128, 255, 512])
    hop = wl // ctx.pick("hop", [2, 3, 4])
    name = ctx.pick("type", ["hann", "hamming", "blackman"])
    burg = ctx.flag("burg")
    p = ctx.rng.uniform(0.3, 0.9, (c, 2)) * np.exp(1j * ctx.rng.uniform(0.3, 2.8, (c, 2)))
    x = np.stack([lfilter([1], np.poly(np.hstack([q, q.conj()])).real, ctx.rng.normal(size=n)) for q in p], 1)
    x *= 10.0 ** ctx.rng.uniform(-3, -1, c) / np.std(x, 0)
    s, _ = make(ctx, n, c, fs, x)
    _, _, y = silent(lambda: tr.lpc(s, ctx.int("order", 4, 12), wl, True, burg, hop, {"hann": dsp.Window.Hann, "hamming": dsp.Window.Hamming, "blackman": dsp.Window.Blackman}[name]))
    y = y.time_data
    # Overlap-added independent frames
    w = get_window(name, wl)
    num, den = np.zeros(8 * wl), np.zeros(8 * wl)
    for i in range(0, 7 * wl, hop):
        num[i : i + wl] += w**4
        den[i : i + wl] += w**2
    loss = 10 * np.log10(np.mean((num / np.maximum(den, 1e-12) ** 2)[2 * wl : 5 * wl]))
    m = slice(wl, n - wl)
    for ch in range(c):
        lev = 10 * np.log10(np.mean(y[m, ch] ** 2) / np.mean(x[m, ch] ** 2)) - loss
        ctx.ok("level", abs(lev) < 1.2, f"{lev}")
        P, Q = (np.array([np.sum(v) for v in np.array_split(np.abs(np.fft.rfft(z[m, ch])) ** 2, 8)]) for z in (x, y))
        d = 10 * np.log10(Q / P) - loss
        big = P > 0.03 * np.sum(P)
        ctx.ok("colour", np.max(np.abs(d[big])) < 3, f"{d}")
    ctx.event("synthesised", c)


MORE = 4  # times the number of cases below in the quick tier
FAMILIES = [
    Family("analytic", analytic, 60, 1500),
    Family("cepstra", cepstra, 50, 1200),
    Family("midside", midside, 30, 500),
    Family("direct", direct, 50, 1200),
    Family("warping", warping, 30, 600),
    Family("scales", scales, 20, 200),
    Family("filters", filters, 60, 1500),
    Family("laguerre", laguerre, 30, 600),
    Family("prediction", prediction, 30, 600),
    Family("resynthesis", resynthesis, 12, 250),
]
